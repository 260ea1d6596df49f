//! Hostile texts: mutations of valid ones, and junk made of the tokens of the format.
use crate::tape::Tape;

const TOKENS: &[&str] = &[
    "@", "@activity", "@customview", "@images", "@sounds", "@fonts", "@firebaseDB", "@compat", "@admob", "@googleMap", "@main.xml", "@main.xml_fab", "@.xml",
    "@.xml_fab", "@main", "@main.java_var", "@MainActivity.java_var", "@MainActivity.java_list", "@MainActivity.java_components", "@MainActivity.java_events",
    "@MainActivity.java_func", "@MainActivity.java_onCreate_initializeLogic", "@MainActivity.java_", "@.java_", "@.java_var", "@MainActivity.java", "@a.java_b.java_var", "@MainActivity.java_a_b",
    "0:a", "1:b", "9:x", ":", "a:", ":b", "a:b:c", "a:%s %m.x", "{", "}", "{}", "null", "[]", "", "", " ", "\t", "\r", "%", "%s", "%m", "%m.", "%d.x", "%s.name", "%m.view", "%é", "%😀",
    "%%", "%s.", "%s..", "\u{0}", "é", "日本", "😀", "\u{feff}", "0", "-1", "@0", "@-1", "@4294967296", "@1x", "NaN", "inf", "1e999", "-0", "2147483648", "-2147483649",
];

pub fn token(t: &mut Tape) -> String {
    match t.below(7) {
        0 => t.string(),
        1 => t.dict_str(),
        2 => t.int(i64::MIN / 2, i64::MAX / 2).to_string(),
        3 => {
            // characters of one to four bytes at any place of a token
            let mut cs: Vec<char> = t.pick(TOKENS).chars().collect();
            for _ in 0..1 + t.below(2) {
                let i = at(t, &cs);
                let ch = *t.pick(&['é', '€', '日', '😀', '\u{301}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '.', '%', ' ', '\u{a0}', '@', ':', '0']);
                if i < cs.len() && t.bool() {
                    cs[i] = ch;
                } else {
                    cs.insert(i, ch);
                }
            }
            cs.into_iter().collect()
        }
        _ => t.pick(TOKENS).to_string(),
    }
}

pub fn junk(t: &mut Tape) -> String {
    let n = match t.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => t.below(14),
    };
    let sep = *t.pick(&["\n", "\n", "\n", "", " ", "\r\n", "\n\n"]);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        v.push(token(t));
    }
    let mut out = v.join(sep);
    if t.chance(1, 3) {
        out.push('\n');
    }
    out
}

fn at(t: &mut Tape, cs: &[char]) -> usize {
    t.below(cs.len() as u64 + 1) as usize
}

/// 1 to 4 mutations of a text
pub fn mutate(t: &mut Tape, text: &str) -> String {
    let mut out = text.to_string();
    let n = 1 + t.below(4);
    for _ in 0..n {
        out = one(t, &out);
        if out.len() > 1 << 20 {
            break;
        }
    }
    out
}

fn one(t: &mut Tape, text: &str) -> String {
    match t.below(18) {
        0 => {
            let cs: Vec<char> = text.chars().collect();
            let i = at(t, &cs);
            cs[..i].iter().collect()
        }
        1 => {
            let cs: Vec<char> = text.chars().collect();
            let i = at(t, &cs);
            cs[i..].iter().collect()
        }
        2 => {
            let mut cs: Vec<char> = text.chars().collect();
            let i = at(t, &cs);
            let j = (i + 1 + t.below(4) as usize).min(cs.len());
            cs.drain(i..j);
            cs.into_iter().collect()
        }
        3 | 4 => {
            let cs: Vec<char> = text.chars().collect();
            let i = at(t, &cs);
            let x = token(t);
            cs[..i].iter().chain(x.chars().collect::<Vec<_>>().iter()).chain(cs[i..].iter()).collect()
        }
        5 => {
            let mut cs: Vec<char> = text.chars().collect();
            if cs.is_empty() {
                return token(t);
            }
            let i = t.below(cs.len() as u64) as usize;
            cs[i] = *t.pick(&['"', '{', '}', ':', ',', '@', '.', '_', '%', ' ', '\n', '\\', '-', '0', '9', 'é', '\u{0}', '[', ']']);
            cs.into_iter().collect()
        }
        6..=11 => {
            let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
            let i = t.below(ls.len() as u64) as usize;
            match t.below(8) {
                0 => {
                    ls.remove(i);
                }
                1 => {
                    let x = ls[i].clone();
                    let j = t.below(ls.len() as u64 + 1) as usize;
                    ls.insert(j, x);
                }
                2 => {
                    let j = t.below(ls.len() as u64) as usize;
                    ls.swap(i, j);
                }
                3 => ls.insert(i, String::new()),
                4 => {
                    let x = token(t);
                    ls.insert(i, x);
                }
                5 => {
                    ls[i] = token(t);
                }
                6 => {
                    let j = t.below(ls.len() as u64) as usize;
                    let (a, b) = (i.min(j), i.max(j));
                    ls.drain(a..b);
                }
                _ => {
                    let x = ls.remove(i);
                    if i < ls.len() {
                        ls[i] = format!("{x}{}", ls[i]);
                    }
                }
            }
            ls.join("\n")
        }
        12 => {
            // another number in place of one
            let cs: Vec<char> = text.chars().collect();
            let starts: Vec<usize> = (0..cs.len()).filter(|i| cs[*i].is_ascii_digit() && (*i == 0 || !cs[*i - 1].is_ascii_digit())).collect();
            if starts.is_empty() {
                return text.to_string();
            }
            let i = *t.pick(&starts);
            let mut j = i;
            while j < cs.len() && cs[j].is_ascii_digit() {
                j += 1;
            }
            let x = match t.below(3) {
                0 => t.int(i64::MIN / 2, i64::MAX / 2).to_string(),
                1 => (*t.pick(&["-1", "256", "4294967296", "1e400", "0.5", "99999999999999999999", "-0", "00", "127", "128", "2147483648"])).to_string(),
                _ => t.range(0, 30).to_string(),
            };
            format!("{}{}{}", cs[..i].iter().collect::<String>(), x, cs[j..].iter().collect::<String>())
        }
        13 => {
            // another string in place of one
            let cs: Vec<char> = text.chars().collect();
            let qs: Vec<usize> = (0..cs.len()).filter(|i| cs[*i] == '"').collect();
            if qs.len() < 2 {
                return text.to_string();
            }
            let k = t.below(qs.len() as u64 - 1) as usize;
            let x = token(t).replace(['"', '\\', '\n'], "");
            format!("{}{}{}", cs[..=qs[k]].iter().collect::<String>(), x, cs[qs[k + 1]..].iter().collect::<String>())
        }
        14 | 15 => {
            // a small change at an end of a line, of a header more often
            let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
            let hs: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with('@')).collect();
            let i = if !hs.is_empty() && t.chance(2, 3) { *t.pick(&hs) } else { t.below(ls.len() as u64) as usize };
            let x = *t.pick(&[" ", "\t", "\r", "  ", "\u{a0}", ".", "_", "s", "@", "0", ",", "\u{0}"]);
            ls[i] = match t.below(5) {
                0 => format!("{x}{}", ls[i]),
                1 if ls[i].starts_with('@') => format!("@{x}{}", &ls[i][1..]),
                2 => ls[i].to_uppercase(),
                _ => format!("{}{x}", ls[i]),
            };
            ls.join("\n")
        }
        16 => text.replace('\n', if t.bool() { "\r\n" } else { "\n\n" }),
        _ => {
            let mut s = text.to_string();
            s.push_str(*t.pick(&["\n", "\n\n", " ", "\u{0}", "@", "\n@", "{", "\r"]));
            s
        }
    }
}
