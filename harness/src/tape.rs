//! Choice tape: every random decision of a case is one `u64` drawn from here, so that a case is
//! replayable from (seed, property, case index) or from a recorded list of draws.
use crate::dict::Dict;

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    // FNV-1a followed by one mixing round, only used for fingerprints
    if h == 0 {
        h = 0xcbf2_9ce4_8422_2325;
    }
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}

pub struct Tape {
    state: u64,
    pre: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    pub keep: bool,
    pub dict: &'static Dict,
    /// size budget of the case (scales element counts)
    pub size: u64,
    /// strings made before in this case, so that later ones can be equal or related to them
    recent: Vec<String>,
}

impl Tape {
    pub fn new(seed: u64, dict: &'static Dict) -> Tape {
        Tape { state: seed, pre: vec![], pos: 0, rec: vec![], keep: false, dict, size: 8, recent: vec![] }
    }

    pub fn with_prefix(seed: u64, pre: Vec<u64>, dict: &'static Dict) -> Tape {
        Tape { state: seed, pre, pos: 0, rec: vec![], keep: true, dict, size: 8, recent: vec![] }
    }

    pub fn next(&mut self) -> u64 {
        let v = if self.pos < self.pre.len() { self.pre[self.pos] } else { splitmix(&mut self.state) };
        self.pos += 1;
        if self.keep && self.rec.len() < 200_000 {
            self.rec.push(v);
        }
        v
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.next() % n
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }

    /// element count: usually small, sometimes 0, rarely large
    pub fn count(&mut self) -> usize {
        let s = self.size;
        (match self.below(20) {
            0 | 1 => 0,
            2..=6 => 1,
            7..=9 => 2,
            10..=12 => 3,
            13..=16 => 2 + self.below(s),
            17 | 18 => 4 + self.below(2 * s),
            _ => 8 + self.below(4 * s),
        }) as usize
    }

    /// rarely a big count (for tables where size itself may matter)
    pub fn count_big(&mut self, limit: usize) -> usize {
        if self.chance(1, 40) {
            let c = match self.below(3) {
                0 => *self.pick(&[16u64, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]),
                1 => self.dict_int().unsigned_abs().min(400),
                _ => 20 + self.below(200),
            };
            (c as usize).min(limit)
        } else {
            self.count().min(limit)
        }
    }

    pub fn dict_int(&mut self) -> i64 {
        let n = self.dict.ints.len();
        if n == 0 {
            return 0;
        }
        let base = self.dict.ints[self.below(n as u64) as usize];
        base.saturating_add(self.range(-1, 1))
    }

    /// an integer in lo..=hi, biased to boundaries, powers of two and literals of the code
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        for _ in 0..4 {
            let v = match self.below(10) {
                0 => lo.saturating_add(self.below(3) as i64),
                1 => hi.saturating_sub(self.below(3) as i64),
                2 => {
                    let p = 1i64 << self.below(40).min(62);
                    let p = p.saturating_add(self.range(-1, 1));
                    if self.bool() { p } else { -p }
                }
                3 | 4 => self.range(-2, 20),
                5 => self.range(-300, 1000),
                6 => self.dict_int(),
                7 => *self.pick(&[0, 1, -1, 10, 100, 1000, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, -16777216, 2147483647, -2147483648, 4294967295]),
                _ => lo + (self.next() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64,
            };
            if v >= lo && v <= hi {
                return v;
            }
        }
        lo + (self.next() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64
    }

    fn remember(&mut self, s: &str) {
        if s.len() > 80 {
            return;
        }
        if self.recent.len() < 48 {
            self.recent.push(s.to_string());
        } else {
            let i = self.below(48) as usize;
            self.recent[i] = s.to_string();
        }
    }

    /// a string equal or related to one made before in this case (same in another case, with
    /// something added or taken away, two put together)
    pub fn relative(&mut self) -> String {
        if self.recent.is_empty() {
            return self.ident();
        }
        let i = self.below(self.recent.len() as u64) as usize;
        let s = self.recent[i].clone();
        match self.below(16) {
            0..=3 => s,
            4 => s.to_uppercase(),
            5 => s.to_lowercase(),
            6 => {
                let mut c = s.chars();
                match c.next() {
                    Some(f) if f.is_uppercase() => f.to_lowercase().chain(c).collect(),
                    Some(f) => f.to_uppercase().chain(c).collect(),
                    None => s,
                }
            }
            7 | 8 => format!("{s}{}", self.pick(&["_", "1", "0", " ", "s", "x", ".", "-", "\u{301}", "@"])),
            9 => format!("{}{s}", self.pick(&["_", "1", "0", " ", "a", "x", "-", "+", "@", "%"])),
            10 => {
                let mut s = s;
                s.pop();
                s
            }
            11 => s.chars().skip(1).collect(),
            12 => s.replace('_', ""),
            13 => s.trim().to_string(),
            14 => format!("{s}{s}"),
            _ => {
                let j = self.below(self.recent.len() as u64) as usize;
                let g = *self.pick(&["", "_", " ", ".", ":"]);
                format!("{s}{g}{}", self.recent[j])
            }
        }
    }

    pub fn ident(&mut self) -> String {
        let s = self.ident_();
        self.remember(&s);
        s
    }

    fn ident_(&mut self) -> String {
        const PARTS: &[&str] = &[
            "linear", "textview", "button", "main", "debug", "screen", "image", "a", "b", "x1", "vscroll", "settings",
            "listview", "tmp", "data", "my", "new", "list", "var", "fab", "drawer", "activity", "view", "about",
        ];
        let mut s = String::new();
        let n = 1 + self.below(3);
        for i in 0..n {
            if i > 0 && self.bool() {
                s.push('_');
            }
            s.push_str(*self.pick(PARTS));
        }
        if self.bool() {
            s.push_str(&self.below(400).to_string());
        }
        s
    }

    fn rnd_char(&mut self) -> char {
        match self.below(16) {
            0..=5 => (b'a' + self.below(26) as u8) as char,
            6 => (b'A' + self.below(26) as u8) as char,
            7 => (b'0' + self.below(10) as u8) as char,
            8 | 9 => *self.pick(&[' ', '_', '-', '.', ':', '/', '\\', '"', '\'', '@', '%', '#', '{', '}', '[', ']', ',', ';', '<', '>', '=', '&', '!', '?', '*', '+', '|', '~', '`', '^', '$', '(', ')']),
            10 => *self.pick(&['\n', '\r', '\t', '\u{0}', '\u{1}', '\u{7f}', '\u{8}', '\u{c}', '\u{1f}', '\u{b}']),
            11 => *self.pick(&['é', 'ß', 'ñ', 'ø', 'Ж', 'я', 'ü', 'İ', 'ı', 'ſ', 'Ⅷ']),
            12 => *self.pick(&['日', '本', '語', '€', '한', '글', '\u{2028}', '\u{2029}', '\u{feff}', '\u{200b}', '\u{a0}', '\u{85}', '\u{3000}', '\u{202e}', '\u{fffd}', '\u{ffff}']),
            13 => *self.pick(&['😀', '𝔘', '🇮', '\u{10ffff}', '𐍈', '👩']),
            _ => char::from_u32(self.below(0x3000) as u32).unwrap_or('z'),
        }
    }

    /// an arbitrary string
    pub fn string(&mut self) -> String {
        if self.chance(1, 12) {
            return self.relative();
        }
        let s = self.string_();
        self.remember(&s);
        s
    }

    fn string_(&mut self) -> String {
        match self.below(32) {
            0 | 1 => String::new(),
            2..=9 => self.ident(),
            10..=13 => {
                let n = 1 + self.below(12);
                (0..n).map(|_| self.rnd_char()).collect()
            }
            14 => {
                // whitespace in interesting places
                let w = *self.pick(&[" ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\n\n", "\u{3000}", "\u{2028}", "\r", "\u{b}", "\u{c}"]);
                let s = self.ident();
                match self.below(4) {
                    0 => w.to_string(),
                    1 => format!("{w}{s}"),
                    2 => format!("{s}{w}"),
                    _ => format!("{w}{s}{w}"),
                }
            }
            15 => (*self.pick(&[
                "null", "true", "false", "0", "-1", "1.0", "NaN", "{}", "[]", "\"", "\\", "\\n", "\\u0041", "@", "@activity", "@customview",
                "@images", "@sounds", "@fonts", "@main.xml", "@main.xml_fab", ".xml", ".java_var", "java_var", "@12", "@@", "%", "%s", "%d.x",
                "%m.view", "100%", "a:b", ":", "::", ".", "..", "_", "__", "root", "onCreate", "initializeLogic", "moreBlock", "_fab", "Y", "N",
                "default_image", "default_font", "icon.png", "_drawer_", "Activity", "/", "//", "/*", "*/", "<b>", "&amp;", "${x}", "{0}", "$", "'",
                "list", "var", "func", "events", "components", "xml", "java", "List String", "List Number", "List Map",
            ]))
            .to_string(),
            16..=19 => self.dict_str(),
            20 => {
                let a = self.ident();
                let d = self.dict_str();
                match self.below(4) {
                    0 => format!("{a}{d}"),
                    1 => format!("{d}{a}"),
                    _ => format!("{a}{d}{}", self.ident()),
                }
            }
            21 => {
                // length matters
                let n = match self.below(4) {
                    // lengths where a 16 bit number would wrap
                    0 if self.chance(1, 40) => *self.pick(&[65_534u64, 65_535, 65_536, 65_537, 70_000, 131_073]),
                    0 => *self.pick(&[15u64, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]),
                    1 => self.dict_int().unsigned_abs().min(3000),
                    2 => self.below(100),
                    _ => 200 + self.below(1500),
                };
                let c = self.rnd_char();
                let c2 = self.rnd_char();
                (0..n).map(|i| if i % 7 == 3 { c2 } else { c }).collect()
            }
            22 => {
                let words = 1 + self.below(6);
                let mut s = String::new();
                for i in 0..words {
                    if i > 0 {
                        s.push(' ');
                    }
                    let w = self.ident();
                    s.push_str(&w);
                }
                s
            }
            23 => self.int(i64::MIN / 2, i64::MAX / 2).to_string(),
            24 => self.ident().to_uppercase(),
            25 => {
                let n = 1 + self.below(5);
                (0..n).map(|_| *self.pick(&['日', '本', 'é', '€', '😀', '𝔘', 'ß', 'Ж'])).collect()
            }
            26 => format!("{}.{}", self.ident(), self.pick(&["png", "jpg", "mp3", "ttf", "xml", "java", "9.png", "webp"])),
            27 => format!("com.{}.{}", self.ident(), self.ident()),
            28 => format!("{}\n{}", self.ident(), self.ident()),
            _ => {
                let n = 1 + self.below(30);
                (0..n).map(|_| self.rnd_char()).collect()
            }
        }
    }

    pub fn dict_str(&mut self) -> String {
        let n = self.dict.strs.len();
        if n == 0 {
            return self.ident();
        }
        let s = self.dict.strs[self.below(n as u64) as usize].clone();
        match self.below(8) {
            0 => s.to_uppercase(),
            1 => format!("{s}{s}"),
            2 => s.chars().rev().collect(),
            _ => s,
        }
    }

    /// an arbitrary string without the given characters
    pub fn string_wo(&mut self, bad: &[char]) -> String {
        let s = self.string();
        if s.contains(bad) { s.replace(bad, "") } else { s }
    }

    /// mostly an identifier, sometimes any string without the given characters
    pub fn name_wo(&mut self, bad: &[char]) -> String {
        match self.below(20) {
            0..=12 => self.ident(),
            13 => {
                let s = self.relative();
                if s.contains(bad) { s.replace(bad, "") } else { s }
            }
            _ => self.string_wo(bad),
        }
    }

    /// sometimes a list has an entry twice, next to each other or apart
    pub fn echo<T: Clone>(&mut self, xs: &mut Vec<T>) {
        if xs.is_empty() || !self.chance(1, 6) {
            return;
        }
        let i = self.below(xs.len() as u64) as usize;
        let j = if self.bool() { i + 1 } else { self.below(xs.len() as u64 + 1) as usize };
        for _ in 0..1 + self.below(2) {
            let x = xs[i].clone();
            xs.insert(j, x);
        }
    }

    /// name not yet in `used`
    pub fn fresh(&mut self, used: &mut std::collections::HashSet<String>, bad: &[char], forbid: &dyn Fn(&str) -> bool) -> String {
        for i in 0..50u64 {
            let mut n = self.name_wo(bad);
            if i > 8 {
                n = format!("{}{}", n, self.below(1 << 40));
            }
            if !forbid(&n) && used.insert(n.clone()) {
                return n;
            }
        }
        let n = format!("u{}_{}", used.len(), self.next());
        used.insert(n.clone());
        n
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = match self.below(6) {
            0 => self.below(4),
            1 => *self.pick(&[0u64, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            2 => self.dict_int().unsigned_abs(),
            3 => self.below(80),
            _ => self.below(max as u64 + 1),
        } as usize;
        let n = n.min(max);
        match self.below(4) {
            0 => {
                let b = self.next() as u8;
                vec![b; n]
            }
            1 => (0..n).map(|i| (i % 256) as u8).collect(),
            _ => {
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&self.next().to_le_bytes());
                }
                v.truncate(n);
                v
            }
        }
    }
}
