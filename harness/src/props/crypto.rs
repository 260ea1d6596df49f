//! C02 and C22: the cipher and loading encrypted projects, against an independent AES-128-CBC/PKCS#7.
use crate::aes::{Aes, Verdict};
use crate::proj;
use crate::props::hostile::break_text;
use crate::rt::{clip, viol, Ctx, R};
use crate::tape::Tape;
use serde_json::{json, Value as V};
use std::fs;
use std::path::Path;
use swrs::parser::{RawSketchwareProject, SketchwareProject as Parsed, SketchwareProjectParseError as PE};
use swrs::*;

pub const RULE: &str = "random byte strings of boundary and random lengths (0 to 1 MB), their ciphertexts, and ciphertexts with bytes flipped, dropped, appended or replaced; \
files of a scratch directory that exist, are missing, are directories, or already hold something longer; the answer is compared with an AES written from the standard";
pub const RULE22: &str = "whole random projects encrypted by an independent AES, loaded and parsed; then the same with one file spoiled as a ciphertext, as UTF-8, or as a text";

fn data(t: &mut Tape) -> Vec<u8> {
    if t.chance(1, 200) {
        let n = 60_000 + t.below(1_000_000) as usize;
        let mut b = t.bytes(4000);
        b.push(7);
        return b.iter().cycle().take(n).cloned().collect();
    }
    if t.chance(1, 3) {
        return t.string().into_bytes();
    }
    // plaintexts that look like their own padding
    if t.chance(1, 6) {
        let n = t.below(40) as usize;
        let mut v = t.bytes(n);
        let k = t.below(18) as u8;
        v.extend(std::iter::repeat(k).take(k as usize));
        return v;
    }
    t.bytes(700)
}

fn spoil_cipher(t: &mut Tape, ct: &[u8]) -> Vec<u8> {
    let mut v = ct.to_vec();
    match t.below(7) {
        0 => {
            let n = t.below(v.len() as u64 + 1) as usize;
            v.truncate(n);
        }
        1 => {
            let n = 1 + t.below(20) as usize;
            let x = t.bytes(n);
            v.extend(x);
        }
        2 if !v.is_empty() => {
            let i = t.below(v.len() as u64) as usize;
            v[i] ^= 1 << t.below(8);
        }
        3 if v.len() >= 32 => {
            // the byte that decides the padding length
            let i = v.len() - 17;
            v[i] ^= 1 + t.below(255) as u8;
        }
        4 => {
            let n = (v.len() / 16 * 16).saturating_sub(16);
            v.truncate(n);
        }
        5 => {
            let n = 16 * t.below(8) as usize;
            v = t.bytes(n);
        }
        _ => {
            v = t.bytes(100);
        }
    }
    v
}

fn check_decrypt(c: &mut Ctx, aes: &Aes, ct: &[u8]) -> R {
    let want = aes.decrypt(ct);
    let got = c.call("decrypt_sw_encrypted", || decrypt_sw_encrypted(ct))?;
    match (want, got) {
        (Verdict::Plain(p), Ok(g)) => {
            c.count("decrypted");
            c.holds(p == g, || format!("decrypting {} bytes gave a different plaintext ({} instead of {} bytes)", ct.len(), g.len(), p.len()))
        }
        (Verdict::Plain(p), Err(e)) => viol(format!("decrypting {} bytes, a valid ciphertext of {} bytes, failed: {e:?}", ct.len(), p.len())),
        (Verdict::Refused, Ok(g)) => viol(format!("{} bytes that are no ciphertext were decrypted to {} bytes", ct.len(), g.len())),
        (Verdict::Refused, Err(e)) => {
            c.count("refused");
            c.holds(matches!(e, CryptoError::DecryptionError(_)), || format!("{} bytes that are no ciphertext: {e:?} instead of a decryption error", ct.len()))
        }
        (Verdict::Unspecified, _) => {
            c.count("unspecified");
            Ok(())
        }
    }
}

fn read(p: &Path) -> Option<Vec<u8>> {
    fs::read(p).ok()
}

const SMALL: u64 = 70;
const LARGE: [usize; 5] = [1 << 20, (1 << 20) + 1, (4 << 20) - 16, (4 << 20) + 5, (16 << 20) + 16];
pub const NCORNER: u64 = SMALL + LARGE.len() as u64;

pub fn cipher(c: &mut Ctx) -> R {
    let aes = Aes::new();
    let d = match c.corner {
        // large ones
        Some(i) if i >= SMALL => {
            let n = LARGE[(i - SMALL) as usize];
            (0..n).map(|x| (x * 7 + x / 251) as u8).collect()
        }
        // every length around the first blocks
        Some(i) => (0..i as usize).map(|x| (x * 7 + 1) as u8).collect(),
        None => data(&mut c.t),
    };
    match d.len() {
        0..=2_000_000 => c.feed("plaintext", &format!("{d:?}")),
        n => c.feed("plaintext", &format!("{n} bytes")),
    }
    let want = aes.encrypt(&d);
    let ct = c.call("encrypt_sw", || encrypt_sw(&d))?;
    c.holds(ct == want, || format!("encrypting {} bytes gave something else than AES-128-CBC with PKCS#7 padding", d.len()))?;
    check_decrypt(c, &aes, &ct)?;
    let back = c.call_ok("decrypt_sw_encrypted", || decrypt_sw_encrypted(&ct))?;
    c.holds(back == d, || format!("decrypting the encryption of {} bytes gave {} other bytes", d.len(), back.len()))?;
    for _ in 0..3 {
        let bad = spoil_cipher(&mut c.t, &ct);
        c.feed("ciphertext", &format!("{bad:?}"));
        check_decrypt(c, &aes, &bad)?;
    }

    if c.corner.is_none() && !c.t.chance(1, 4) {
        return Ok(());
    }
    // the same on files
    let dir = c.scratch.join("crypto");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let (a, b) = (dir.join("a"), dir.join("b"));
    fs::write(&a, &d).unwrap();
    let e = c.call_ok("encrypt_sw_file", || encrypt_sw_file(&a))?;
    c.holds(e == want, || "encrypt_sw_file gave something else than the encryption of the file's bytes".into())?;
    c.holds(read(&a).as_deref() == Some(&d[..]), || "encrypt_sw_file changed the file".into())?;
    let kind = c.t.below(7);
    match kind {
        5 => {
            // the output is the input under another name
            let alias = match c.t.below(5) {
                0 => {
                    std::os::unix::fs::symlink(&a, &b).unwrap();
                    b.clone()
                }
                1 => {
                    fs::hard_link(&a, &b).unwrap();
                    b.clone()
                }
                2 => dir.join("../crypto/a"),
                3 => dir.join(".").join("a"),
                _ => {
                    std::os::unix::fs::symlink(&dir, &b).unwrap();
                    b.join("a")
                }
            };
            let (from, to) = if c.t.bool() { (a.clone(), alias) } else { (alias, a.clone()) };
            c.call_ok("encrypt_sw_file_to_file", || encrypt_sw_file_to_file(&from, Some(&to)))?;
            c.holds(read(&to).as_deref() == Some(&want[..]) && read(&a).as_deref() == Some(&want[..]), || format!("encrypting {from:?} to {to:?}, the same file under another name, did not leave its encryption there"))?;
        }
        6 => {
            // links to other files are followed: the input is read and the output written through them
            let (la, lb) = (dir.join("la"), dir.join("lb"));
            std::os::unix::fs::symlink(&a, &la).unwrap();
            std::os::unix::fs::symlink(&b, &lb).unwrap();
            if c.t.bool() {
                fs::write(&b, vec![1u8; want.len() + 100]).unwrap();
            }
            c.call_ok("encrypt_sw_file_to_file", || encrypt_sw_file_to_file(&la, Some(&lb)))?;
            c.holds(read(&lb).as_deref() == Some(&want[..]), || "the output file is not the encryption of the input file".into())?;
            c.holds(read(&a).as_deref() == Some(&d[..]) && read(&la).as_deref() == Some(&d[..]), || "encrypting to another file changed the input file".into())?;
            let p = c.call_ok("decrypt_sw_file", || decrypt_sw_file(&lb))?;
            c.holds(p == d, || "decrypt_sw_file of an encrypted file is not the original".into())?;
        }
        0 => {
            c.call_ok("encrypt_sw_file_to_file", || encrypt_sw_file_to_file(&a, None))?;
            c.holds(read(&a).as_deref() == Some(&want[..]), || "encrypting a file in place did not leave its encryption there".into())?;
        }
        1 => {
            c.call_ok("encrypt_sw_file_to_file", || encrypt_sw_file_to_file(&a, Some(&a)))?;
            c.holds(read(&a).as_deref() == Some(&want[..]), || "encrypting a file onto itself did not leave its encryption there".into())?;
        }
        2 | 3 => {
            if c.t.bool() {
                // something longer is there already
                fs::write(&b, vec![1u8; want.len() + 100]).unwrap();
            }
            c.call_ok("encrypt_sw_file_to_file", || encrypt_sw_file_to_file(&a, Some(&b)))?;
            c.holds(read(&b).as_deref() == Some(&want[..]), || "the output file is not the encryption of the input file".into())?;
            c.holds(read(&a).as_deref() == Some(&d[..]), || "encrypting to another file changed the input file".into())?;
            let p = c.call_ok("decrypt_sw_file", || decrypt_sw_file(&b))?;
            c.holds(p == d, || "decrypt_sw_file of an encrypted file is not the original".into())?;
            c.holds(read(&b).as_deref() == Some(&want[..]), || "decrypt_sw_file changed the file".into())?;
        }
        _ => {
            // faults: missing input, input is a directory, output cannot be written
            let miss = dir.join("missing");
            let e = c.call_err("encrypt_sw_file", "missing file", || encrypt_sw_file(&miss))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("a missing file: {e:?} instead of an IO error"))?;
            let e = c.call_err("decrypt_sw_file", "missing file", || decrypt_sw_file(&miss))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("a missing file: {e:?} instead of an IO error"))?;
            // (an output that is not there yet is not made, either)
            let e = c.call_err("encrypt_sw_file_to_file", "missing input, missing output", || encrypt_sw_file_to_file(&miss, Some(&b)))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("a missing file: {e:?} instead of an IO error"))?;
            c.holds(!b.exists(), || "a failed encryption made its output file".into())?;
            let e = c.call_err("encrypt_sw_file_to_file", "the input is a directory", || encrypt_sw_file_to_file(&dir, Some(&b)))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("a directory: {e:?} instead of an IO error"))?;
            c.holds(!b.exists(), || "a failed encryption made its output file".into())?;
            c.call_err("encrypt_sw_file_to_file", "missing input, to be replaced", || encrypt_sw_file_to_file(&miss, None))?;
            c.holds(!miss.exists(), || "a failed encryption created its input file".into())?;
            fs::write(&b, b"keep").unwrap();
            let e = c.call_err("encrypt_sw_file_to_file", "missing input", || encrypt_sw_file_to_file(&miss, Some(&b)))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("a missing file: {e:?} instead of an IO error"))?;
            c.holds(read(&b).as_deref() == Some(b"keep"), || "a failed encryption touched the output file".into())?;
            c.holds(!miss.exists(), || "a failed encryption created its input file".into())?;
            let e = c.call_err("encrypt_sw_file_to_file", "output in a missing directory", || encrypt_sw_file_to_file(&a, Some(&dir.join("no/such"))))?;
            c.holds(matches!(e, CryptoError::IOError(_)), || format!("an output that cannot be written: {e:?} instead of an IO error"))?;
            c.call_err("decrypt_sw_file", "a directory", || decrypt_sw_file(&dir))?;
            c.holds(read(&a).as_deref() == Some(&d[..]), || "a failed encryption changed its input".into())?;
            // a file that is no ciphertext
            let bad = spoil_cipher(&mut c.t, &want);
            fs::write(&b, &bad).unwrap();
            let w = aes.decrypt(&bad);
            let g = c.call("decrypt_sw_file", || decrypt_sw_file(&b))?;
            match (w, g) {
                (Verdict::Plain(p), Ok(g)) => c.holds(p == g, || "decrypt_sw_file gave another plaintext".into())?,
                (Verdict::Plain(_), Err(e)) => return viol(format!("decrypt_sw_file refused a valid ciphertext: {e:?}")),
                (Verdict::Refused, Ok(_)) => return viol("decrypt_sw_file accepted a file that is no ciphertext"),
                _ => {}
            }
        }
    }
    // nothing but the named files was made
    let mut left: Vec<String> = fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    left.sort();
    c.holds(left.iter().all(|f| ["a", "b", "la", "lb"].contains(&f.as_str())), || format!("the file functions left other files behind: {left:?}"))?;
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

pub fn which(e: &PE) -> &'static str {
    match e {
        PE::ProjectParseError(_) => "project",
        PE::FileParseError(_) => "file",
        PE::LibraryParseError(_) => "library",
        PE::ResourceParseError(_) => "resource",
        PE::ViewParseError(_) => "view",
        PE::LogicParseError(_) => "logic",
        PE::ResourceFilesParseError(_) => "resource files",
    }
}

fn load(c: &mut Ctx, x: &[Vec<u8>; 6], files: &V) -> R<Result<RawSketchwareProject, CryptoError>> {
    let x = x.clone();
    let [p, f, l, r, v, g] = x;
    let w = proj::wrappers(&mut c.t, files);
    match w {
        Some(w) => c.call("from_encrypted", || RawSketchwareProject::from_encrypted(p, f, l, r, v, g, w)),
        None => c.call("from_encrypted_wo_res", || RawSketchwareProject::from_encrypted_wo_res(p, f, l, r, v, g)),
    }
}

pub fn loading(c: &mut Ctx) -> R {
    let aes = Aes::new();
    let m = proj::gen_project(&mut c.t);
    let texts = proj::emit_texts(&mut c.t, &m);
    for (i, x) in texts.iter().enumerate() {
        c.feed(proj::FILES[i], x);
    }
    let enc: [Vec<u8>; 6] = std::array::from_fn(|i| aes.encrypt(texts[i].as_bytes()));
    let raw = match load(c, &enc, &m["files"])? {
        Ok(r) => r,
        Err(e) => return viol(format!("a valid encrypted project was refused: {e:?}")),
    };
    for (i, x) in proj::raw_texts(&raw).iter().enumerate() {
        c.holds(*x == texts[i], || format!("the data file `{}` is not what was encrypted", proj::FILES[i]))?;
    }
    match (&raw.resource_files, m["files"].is_null()) {
        (None, true) => {}
        (Some(w), false) => c.same("resource files", &proj::wrappers_expect(&m["files"]), &proj::wrappers_obs(w))?,
        (w, _) => return viol(format!("resource files are {} after loading", if w.is_some() { "present" } else { "absent" })),
    }
    // the three ways of parsing agree
    let parsed = c.call_ok("parse_from", || Parsed::parse_from(raw.clone()))?;
    let [p, f, l, r, v, g] = texts.clone();
    let other = match proj::wrappers(&mut c.t, &m["files"]) {
        Some(w) => c.call_ok("parse", || Parsed::parse(p, f, l, r, v, g, w))?,
        None => c.call_ok("parse_wo_res", || Parsed::parse_wo_res(p, f, l, r, v, g))?,
    };
    c.holds(parsed == other, || "parsing the loaded project and parsing its texts give different projects".into())?;

    // any other texts come out as they went in, too
    let odd: [String; 6] = std::array::from_fn(|i| match c.t.below(4) {
        0 => c.t.string(),
        1 => format!("{}{}", c.t.pick(&["\u{feff}", " ", "\n", "\t", "\r\n", "\u{0}", "\u{a0}", "\u{2028}", "\u{fffe}", "\u{fffd}"]), texts[i]),
        2 => format!("{}{}", texts[i], c.t.pick(&["\u{feff}", " ", "\n", "\t", "\r\n", "\u{0}", "\u{1}", "\u{10}", "\u{a0}", "\u{85}", "\u{fffd}"])),
        _ => texts[i].replace('\n', "\r\n"),
    });
    let x: [Vec<u8>; 6] = std::array::from_fn(|i| aes.encrypt(odd[i].as_bytes()));
    match load(c, &x, &m["files"])? {
        Ok(r) => {
            for (i, x) in proj::raw_texts(&r).iter().enumerate() {
                c.holds(*x == odd[i], || format!("the data file `{}` is not what was encrypted: {:?} instead of {:?}", proj::FILES[i], clip(x, 100), clip(&odd[i], 100)))?;
            }
        }
        Err(e) => return viol(format!("an encrypted project whose texts are UTF-8 was refused: {e:?}")),
    }

    // one data file spoiled
    let k = match c.corner {
        Some(i) => (i % 6) as usize,
        None => c.t.below(6) as usize,
    };
    let name = proj::FILES[k];
    let mut bad = enc.clone();
    match c.t.below(3) {
        0 => {
            bad[k] = spoil_cipher(&mut c.t, &enc[k]);
            c.note("spoiled", || format!("ciphertext of {name}"));
            let got = load(c, &bad, &m["files"])?;
            match (aes.decrypt(&bad[k]), got) {
                (Verdict::Plain(p), got) => match (String::from_utf8(p), got) {
                    (Ok(s), Ok(r)) => c.holds(proj::raw_texts(&r)[k] == s, || format!("the data file `{name}` is not what was encrypted"))?,
                    (Ok(_), Err(e)) => return viol(format!("a valid encrypted `{name}` was refused: {e:?}")),
                    (Err(_), Ok(_)) => return viol(format!("`{name}` was loaded though it is not UTF-8")),
                    (Err(_), Err(e)) => c.holds(matches!(e, CryptoError::FromUtf8Error(_)), || format!("`{name}` is not UTF-8: {e:?}"))?,
                },
                (Verdict::Refused, Ok(_)) => return viol(format!("a project was loaded though `{name}` is no ciphertext")),
                (Verdict::Refused, Err(e)) => c.holds(matches!(e, CryptoError::DecryptionError(_)), || format!("`{name}` is no ciphertext: {e:?}"))?,
                (Verdict::Unspecified, _) => {}
            }
        }
        1 => {
            let mut b = texts[k].clone().into_bytes();
            let at = c.t.below(b.len() as u64 + 1) as usize;
            let x: &[u8] = *c.t.pick(&[&[0xffu8][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0xc0, 0x80], &[0xe2, 0x82]]);
            b.splice(at..at, x.iter().cloned());
            if String::from_utf8(b.clone()).is_err() {
                bad[k] = aes.encrypt(&b);
                match load(c, &bad, &m["files"])? {
                    Ok(_) => return viol(format!("a project was loaded though `{name}` is not UTF-8")),
                    Err(e) => c.holds(matches!(e, CryptoError::FromUtf8Error(_)), || format!("`{name}` is not UTF-8: {e:?}"))?,
                }
            }
        }
        _ => {}
    }
    let b = break_text(&mut c.t, k, &texts[k]);
    c.feed("spoiled text", &b.text);
    bad[k] = aes.encrypt(b.text.as_bytes());
    // whatever resource files there are
    let files = match c.t.below(4) {
        0 => json!({ "icon": null, "images": {}, "sounds": {}, "fonts": {} }),
        1 => V::Null,
        _ => m["files"].clone(),
    };
    let raw = match load(c, &bad, &files)? {
        Ok(r) => r,
        Err(e) => return viol(format!("an encrypted project whose texts are UTF-8 was refused: {e:?}")),
    };
    let e = c.call_err("parse_from", &b.why, || Parsed::parse_from(raw))?;
    c.holds(which(&e) == name, || format!("`{name}` is malformed, but the error is about {}: {e:?}", which(&e)))?;
    let _ = json!(0);
    Ok(())
}
