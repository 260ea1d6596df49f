//! Dictionary of literals harvested from the code under test (like a fuzzer's auto-dictionary): it
//! only steers which inputs are generated, never what the monitors judge.
use std::collections::BTreeSet;
use std::path::Path;

pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<i64>,
    pub files: usize,
}

pub fn harvest(repo: &Path) -> Dict {
    let mut strs = BTreeSet::new();
    let mut ints = BTreeSet::new();
    let mut files = 0;
    let mut stack = vec![repo.join("src")];
    while let Some(d) = stack.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut entries: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        entries.sort();
        for p in entries {
            if p.is_dir() {
                stack.push(p);
            } else if p.extension().map_or(false, |e| e == "rs") {
                if let Ok(src) = std::fs::read_to_string(&p) {
                    files += 1;
                    scan(&src, &mut strs, &mut ints);
                }
            }
        }
    }
    Dict { strs: strs.into_iter().collect(), ints: ints.into_iter().collect(), files }
}

fn scan(src: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<i64>) {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        if ch == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if ch == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'u' if c.get(i + 1) == Some(&'{') => {
                            let mut v = 0u32;
                            i += 2;
                            while i < c.len() && c[i] != '}' {
                                v = v.wrapping_mul(16).wrapping_add(c[i].to_digit(16).unwrap_or(0));
                                i += 1;
                            }
                            if let Some(ch) = char::from_u32(v) {
                                s.push(ch);
                            }
                        }
                        'x' if i + 2 < c.len() => {
                            let v = c[i + 1].to_digit(16).unwrap_or(0) * 16 + c[i + 2].to_digit(16).unwrap_or(0);
                            i += 2;
                            if let Some(ch) = char::from_u32(v) {
                                s.push(ch);
                            }
                        }
                        o => s.push(o),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if s.chars().count() <= 60 {
                strs.insert(s);
            }
        } else if ch == '\'' {
            // char literal or lifetime
            if c.get(i + 1) == Some(&'\\') {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if c.get(i + 2) == Some(&'\'') {
                strs.insert(c[i + 1].to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if ch.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let tok: String = c[st..i].iter().filter(|x| **x != '_').collect();
            let tok = tok.to_ascii_lowercase();
            let strip = |t: &str| -> String {
                let mut t = t.to_string();
                for suf in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"] {
                    if t.ends_with(suf) && t.len() > suf.len() {
                        t.truncate(t.len() - suf.len());
                        break;
                    }
                }
                t
            };
            let t = strip(&tok);
            let v = if let Some(h) = t.strip_prefix("0x") {
                i64::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("0b") {
                i64::from_str_radix(b, 2).ok()
            } else {
                t.parse().ok()
            };
            if let Some(v) = v {
                ints.insert(v);
                if v >= 0x8000_0000 && v <= 0xffff_ffff {
                    ints.insert(v as u32 as i32 as i64);
                }
                ints.insert(-v);
            }
        } else if ch.is_alphabetic() || ch == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}
