//! The on-disk records of a Sketchware project, written down independently of swrs as schema tables
//! over plain JSON values: a generator, an emitter (several equivalent spellings), an equality, and
//! ways to spoil a record.
use crate::tape::Tape;
use serde_json::{Map, Value as V};

pub enum F {
    Str,
    OptStr,
    U8,
    U32,
    I8,
    I16,
    I32,
    F32,
    Color,
    Bool,
    Bool01,
    BoolStr,
    En(&'static [i64]),
    EnStr(&'static [&'static str]),
    U16Str,
    Date,
    Obj(&'static [(&'static str, F)]),
    StrArr,
    AdUnits,
}
use F::*;

pub type Schema = &'static [(&'static str, F)];

pub const PROJECT: Schema = &[
    ("sc_id", U16Str),
    ("my_app_name", Str),
    ("my_ws_name", Str),
    ("my_sc_pkg_name", Str),
    ("sc_ver_code", U16Str),
    ("sc_ver_name", Str),
    ("my_sc_reg_dt", Date),
    ("custom_icon", Bool),
    ("color_primary", Color),
    ("color_primary_dark", Color),
    ("color_accent", Color),
    ("color_control_normal", Color),
    ("color_control_highlight", Color),
    ("sketchware_ver", U8),
];

pub const FILE_ITEM: Schema = &[
    ("fileName", Str),
    ("fileType", En(&[0, 1, 2])),
    ("keyboardSetting", En(&[0, 1, 2])),
    ("options", En(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15])),
    ("orientation", En(&[0, 1, 2])),
    ("theme", En(&[-1, 0, 1, 2])),
];

pub const LIBRARY_ITEM: Schema = &[
    ("adUnits", AdUnits),
    ("data", Str),
    ("libType", U8),
    ("reserved1", Str),
    ("reserved2", Str),
    ("reserved3", Str),
    ("testDevices", StrArr),
    ("useYn", Str),
];

pub const RESOURCE_ITEM: Schema = &[("resFullName", Str), ("resName", Str), ("resType", U8)];

pub const EVENT: Schema = &[("eventName", Str), ("eventType", U8), ("targetId", Str), ("targetType", U8)];

pub const COMPONENT: Schema = &[("componentId", Str), ("param1", Str), ("param2", Str), ("param3", Str), ("type", U8)];

pub const BLOCK: Schema = &[
    ("color", Color),
    ("id", Str),
    ("nextBlock", I32),
    ("opCode", Str),
    ("parameters", StrArr),
    ("spec", Str),
    ("subStack1", I32),
    ("subStack2", I32),
    ("type", Str),
    ("typeName", Str),
];

pub const IMAGE: Schema = &[
    ("resName", OptStr),
    ("rotate", I16),
    ("scaleType", EnStr(&["CENTER", "FIT_XY", "FIT_START", "FIT_CENTER", "FIT_END", "CENTER_CROP", "CENTER_INSIDE"])),
];

pub const LAYOUT: Schema = &[
    ("backgroundColor", Color),
    ("gravity", U8),
    ("height", I32),
    ("layoutGravity", U8),
    ("marginBottom", U32),
    ("marginLeft", U32),
    ("marginRight", U32),
    ("marginTop", U32),
    ("orientation", En(&[-1, 0, 1])),
    ("paddingBottom", U32),
    ("paddingLeft", U32),
    ("paddingRight", U32),
    ("paddingTop", U32),
    ("weight", U32),
    ("weightSum", U32),
    ("width", I32),
];

pub const TEXT: Schema = &[
    ("hint", Str),
    ("hintColor", Color),
    ("imeOption", En(&[0, 1, 2, 3, 4, 5, 6])),
    ("inputType", En(&[8194, 4098, 12290, 129, 3, 1])),
    ("line", U32),
    ("singleLine", Bool01),
    ("text", Str),
    ("textColor", Color),
    ("textFont", Str),
    ("textSize", U32),
    ("textType", En(&[0, 1, 2, 3])),
];

pub const VIEW: Schema = &[
    ("adSize", Str),
    ("adUnitId", Str),
    ("alpha", F32),
    ("checked", Bool01),
    ("choiceMode", En(&[0, 1, 2])),
    ("clickable", Bool01),
    ("customView", Str),
    ("dividerHeight", U32),
    ("enabled", Bool01),
    ("firstDayOfWeek", U8),
    ("id", Str),
    ("image", Obj(IMAGE)),
    ("indeterminate", BoolStr),
    ("index", U32),
    ("layout", Obj(LAYOUT)),
    ("max", U32),
    ("parent", OptStr),
    ("parentType", I8),
    ("preId", OptStr),
    ("preIndex", I32),
    ("preParent", OptStr),
    ("preParentType", I8),
    ("progress", U32),
    ("progressStyle", Str),
    ("scaleX", F32),
    ("scaleY", F32),
    ("spinnerMode", En(&[0, 1])),
    ("text", Obj(TEXT)),
    ("translationX", F32),
    ("translationY", F32),
    ("type", U8),
];

pub fn num(x: i64) -> V {
    V::from(x)
}

pub fn s(x: impl Into<String>) -> V {
    V::String(x.into())
}

pub fn gen_f32(t: &mut Tape) -> f32 {
    match t.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => *t.pick(&[0.5f32, 0.1, 0.25, -1.0, 100.0, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-45, 1e10, 16777216.0, 0.3, 33.33]),
        3 => (t.range(-10000, 10000) as f32) / 100.0,
        4 => t.int(-100000, 100000) as f32,
        _ => {
            let f = f32::from_bits(t.next() as u32);
            if f.is_finite() { f } else { 2.5 }
        }
    }
}

fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 },
    }
}

/// days since 1970-01-01 of a proleptic Gregorian date, computed from scratch
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn date_to_ts(s: &str) -> i64 {
    let p = |a: usize, b: usize| s[a..b].parse::<i64>().unwrap();
    days_from_civil(p(0, 4), p(4, 6), p(6, 8)) * 86400 + p(8, 10) * 3600 + p(10, 12) * 60 + p(12, 14)
}

pub fn gen_date(t: &mut Tape) -> String {
    let y = match t.below(6) {
        5 if t.bool() => t.range(0, 1970),
        0 => t.range(2015, 2030),
        1 => *t.pick(&[1970i64, 1971, 1972, 1999, 2000, 2001, 2038, 2100, 2400, 9999]),
        2 => t.range(1970, 9999),
        _ => t.range(1990, 2050),
    };
    let m = t.range(1, 12);
    let d = match t.below(4) {
        0 => days_in_month(y, m),
        1 => 1,
        _ => t.range(1, days_in_month(y, m)),
    };
    let h = if t.chance(1, 4) { *t.pick(&[0i64, 23, 9, 10]) } else { t.range(0, 23) };
    let mi = if t.chance(1, 4) { *t.pick(&[0i64, 59, 9, 10]) } else { t.range(0, 59) };
    let se = if t.chance(1, 4) { *t.pick(&[0i64, 59, 9, 10]) } else { t.range(0, 59) };
    format!("{y:04}{m:02}{d:02}{h:02}{mi:02}{se:02}")
}

pub fn gen_color(t: &mut Tape) -> i64 {
    match t.below(4) {
        0 => *t.pick(&[-1i64, -16777216, 16777215, 0, -10453621, -1988310, -10701022, -3384542, -11899692, -1147626, 545558989, i32::MIN as i64, i32::MAX as i64]),
        1 => t.int(i32::MIN as i64, i32::MAX as i64),
        _ => t.next() as u32 as i32 as i64,
    }
}

pub fn gen_field(t: &mut Tape, f: &F) -> Option<V> {
    Some(match f {
        Str => s(t.string()),
        OptStr => {
            if t.bool() {
                return None;
            }
            s(t.string())
        }
        U8 => num(t.int(0, 255)),
        U32 => num(t.int(0, u32::MAX as i64)),
        I8 => num(t.int(-128, 127)),
        I16 => num(t.int(-32768, 32767)),
        I32 => num(if t.chance(1, 3) { t.range(-4, 4) } else { t.int(i32::MIN as i64, i32::MAX as i64) }),
        F32 => V::from(gen_f32(t) as f64),
        Color => num(gen_color(t)),
        Bool => V::Bool(t.bool()),
        Bool01 => num(t.below(2) as i64),
        BoolStr => s(if t.bool() { "true" } else { "false" }),
        En(xs) => num(*t.pick(xs)),
        EnStr(xs) => s(*t.pick(xs)),
        U16Str => s(t.int(0, 65535).to_string()),
        Date => s(gen_date(t)),
        Obj(sc) => gen(t, sc),
        StrArr => {
            let n = if t.chance(1, 2) { 0 } else { t.count().min(20) };
            let mut xs: Vec<V> = (0..n).map(|_| s(t.string())).collect();
            t.echo(&mut xs);
            V::Array(xs)
        }
        AdUnits => {
            let n = if t.chance(1, 2) { 0 } else { t.count().min(20) };
            let mut xs: Vec<V> = (0..n)
                .map(|_| {
                    let mut m = Map::new();
                    m.insert("id".into(), s(t.string()));
                    m.insert("name".into(), s(t.string()));
                    V::Object(m)
                })
                .collect();
            t.echo(&mut xs);
            V::Array(xs)
        }
    })
}

pub fn gen(t: &mut Tape, sc: Schema) -> V {
    let mut m = Map::new();
    for (k, f) in sc {
        if let Some(v) = gen_field(t, f) {
            m.insert(k.to_string(), v);
        }
    }
    V::Object(m)
}

// ---------------------------------------------------------------- emission

/// how a JSON record is spelled; every style denotes the same record
#[derive(Clone, Copy, Default)]
pub struct Style {
    pub shuffle: bool,
    pub spaces: bool,
    /// escape every non-ASCII character and gson's html characters as \uXXXX
    pub escapes: bool,
    /// spell colors the way gson spells doubles
    pub float_colors: bool,
    /// add members no reader knows
    pub extra: bool,
}

impl Style {
    pub fn gen(t: &mut Tape) -> Style {
        if t.chance(1, 3) {
            return Style::default();
        }
        Style { shuffle: t.bool(), spaces: t.chance(1, 4), escapes: t.bool(), float_colors: t.chance(1, 4), extra: t.chance(1, 5) }
    }
}

pub fn emit_str(out: &mut String, v: &str, st: Style) {
    out.push('"');
    for c in v.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c if st.escapes && (c as u32 >= 0x7f || "<>=&'".contains(c)) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn is_color_key(k: &str) -> bool {
    k == "color" || k == "backgroundColor" || k == "hintColor" || k == "textColor" || k.starts_with("color_")
}

pub fn is_f32_key(k: &str) -> bool {
    matches!(k, "alpha" | "scaleX" | "scaleY" | "translationX" | "translationY")
}

pub fn emit_into(out: &mut String, key: &str, v: &V, t: &mut Tape, st: Style) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::String(x) => emit_str(out, x, st),
        V::Number(n) => {
            if is_f32_key(key) {
                let f = n.as_f64().unwrap() as f32;
                if f == f.trunc() && f.abs() < 1e6 && t.chance(1, 4) {
                    out.push_str(&format!("{}", f as i64));
                } else {
                    out.push_str(&format!("{:?}", f));
                }
            } else if st.float_colors && is_color_key(key) {
                let i = n.as_i64().unwrap();
                if t.bool() {
                    out.push_str(&format!("{}.0", i));
                } else {
                    // like java's Double.toString: d.dddE<n>
                    out.push_str(&format!("{:E}", i as f64));
                }
            } else {
                out.push_str(&n.to_string());
            }
        }
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    if st.spaces {
                        out.push(' ');
                    }
                }
                emit_into(out, "", x, t, st);
            }
            out.push(']');
        }
        V::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            if st.shuffle {
                t.shuffle(&mut ks);
            }
            out.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if st.spaces {
                    out.push_str(*t.pick(&[" ", "  ", "\t", ""]));
                }
                emit_str(out, k, Style::default());
                out.push(':');
                if st.spaces {
                    out.push(' ');
                }
                emit_into(out, k, &m[*k], t, st);
            }
            if st.extra && !ks.is_empty() && t.chance(1, 2) {
                out.push_str(*t.pick(&[
                    ",\"zz_unknown\":1",
                    ",\"zz_unknown\":\"x\"",
                    ",\"zz_unknown\":null",
                    ",\"zz_unknown\":[1,{\"a\":\"b\"}]",
                    ",\"isZzUnknown\":true,\"zzUnknown2\":-1.5",
                    ",\"\":\"\"",
                ]));
            }
            out.push('}');
        }
    }
}

pub fn emit(v: &V, t: &mut Tape, st: Style) -> String {
    let mut out = String::new();
    emit_into(&mut out, "", v, t, st);
    out
}

// ---------------------------------------------------------------- equality

/// first difference between two records, if any. Absent and null members are the same; numbers are
/// compared as integers, except for the five real-valued members, compared as single precision.
pub fn diff(a: &V, b: &V) -> Option<String> {
    diff_at("", "", a, b)
}

fn short(v: &V) -> String {
    let x = v.to_string();
    if x.chars().count() > 160 { format!("{}…", x.chars().take(160).collect::<String>()) } else { x }
}

fn diff_at(path: &str, key: &str, a: &V, b: &V) -> Option<String> {
    match (a, b) {
        (V::Number(x), V::Number(y)) => {
            let same = if is_f32_key(key) {
                x.as_f64().map(|f| (f as f32).to_bits()) == y.as_f64().map(|f| (f as f32).to_bits())
                    || (x.as_f64().map(|f| f as f32) == y.as_f64().map(|f| f as f32))
            } else {
                x.as_i64().is_some() && x.as_i64() == y.as_i64()
            };
            if same { None } else { Some(format!("{path}: expected {x}, got {y}")) }
        }
        (V::Object(x), V::Object(y)) => {
            for (k, v) in x {
                if v.is_null() {
                    continue;
                }
                match y.get(k) {
                    None | Some(V::Null) => return Some(format!("{path}.{k}: expected {}, got nothing", short(v))),
                    Some(w) => {
                        if let Some(d) = diff_at(&format!("{path}.{k}"), k, v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, w) in y {
                if !w.is_null() && x.get(k).map_or(true, |v| v.is_null()) {
                    return Some(format!("{path}.{k}: expected nothing, got {}", short(w)));
                }
            }
            None
        }
        (V::Array(x), V::Array(y)) => {
            for i in 0..x.len().max(y.len()) {
                match (x.get(i), y.get(i)) {
                    (Some(v), Some(w)) => {
                        if let Some(d) = diff_at(&format!("{path}[{i}]"), key, v, w) {
                            return Some(d);
                        }
                    }
                    (v, w) => {
                        return Some(format!(
                            "{path}: expected {} elements, got {} (element {i}: expected {}, got {})",
                            x.len(),
                            y.len(),
                            v.map_or("nothing".into(), short),
                            w.map_or("nothing".into(), short)
                        ))
                    }
                }
            }
            None
        }
        (a, b) => if a == b { None } else { Some(format!("{path}: expected {}, got {}", short(a), short(b))) },
    }
}

// ---------------------------------------------------------------- spoiling

/// A spelling of the record that no reader may accept, and what is wrong with it.
pub fn spoil(v: &V, sc: Schema, t: &mut Tape) -> (String, String) {
    loop {
        match t.below(5) {
            0 => {
                // cut the text short
                let full: Vec<char> = emit(v, t, Style::default()).chars().collect();
                let n = 1 + t.below(full.len() as u64 - 1) as usize;
                let cut: String = full[..n].iter().collect();
                return (cut, "truncated record".into());
            }
            1 => {
                // drop a required member (also of nested records)
                let mut v = v.clone();
                let (path, _) = pick_member(sc, t, &|f| !matches!(f, OptStr));
                remove_path(&mut v, &path);
                return (emit(&v, t, Style::default()), format!("missing member {}", path.join(".")));
            }
            2 => {
                // wrong type or out of range
                let mut v = v.clone();
                let (path, f) = pick_member(sc, t, &|_| true);
                let bad = match f {
                    Str | StrArr | AdUnits | Obj(_) | Bool => num(t.range(2, 9)),
                    OptStr => num(7),
                    U8 => t.pick(&[num(256), num(-1), s("x"), num(70000), V::from(1.5)]).clone(),
                    U32 => t.pick(&[num(-1), num(4294967296), s("x"), V::from(0.5)]).clone(),
                    I8 => t.pick(&[num(128), num(-129), s("x")]).clone(),
                    I16 => t.pick(&[num(32768), num(-32769), s("x")]).clone(),
                    I32 => t.pick(&[num(2147483648), num(-2147483649), s("x"), V::Null]).clone(),
                    F32 => t.pick(&[s("x"), V::Bool(true), V::Array(vec![])]).clone(),
                    Color => t
                        .pick(&[s("x"), s("#ffffff"), V::Bool(true), V::Null, V::Array(vec![]), num(i32::MAX as i64 + 1), num(i32::MIN as i64 - 1), num(u32::MAX as i64), num(1 << 32), num(-1 << 32), num(i64::MAX), num(i64::MIN),
                            V::from(u64::MAX), V::from(1u64 << 63), V::from(0.5), V::from(-16777216.5), V::from(4294967295.0), V::from(1e30)])
                        .clone(),
                    Bool01 => t.pick(&[s("x"), num(-1), num(256), V::Null]).clone(),
                    BoolStr => t.pick(&[s("maybe"), s("TRUE"), s("1"), s(""), num(1), V::Bool(true)]).clone(),
                    En(xs) => {
                        let n = xs.len() as i64;
                        if n == 16 {
                            num(256)
                        } else {
                            let c = *t.pick(&[-7i64, 4, 7, 9, 99, 1000, 300]);
                            if xs.contains(&c) { num(77) } else { num(c) }
                        }
                    }
                    EnStr(_) => t.pick(&[s("NOPE"), s(""), s("center"), num(0)]).clone(),
                    U16Str => t.pick(&[s("65536"), s("-1"), s("x"), s(""), num(5), s("1.5"), s(" 1")]).clone(),
                    Date => t
                        .pick(&[s(""), s("2021"), s("20211301000000"), s("20210230000000"), s("20210101250000"), s("20210101006100"), s("2021010100000"), s("abcdefghijklmn"), s("20210100000000"), s("2021é10100000"), s("202101010000001"), s("20210101000000Z"), s("20210101000000 "), s(" 20210101000000"),
                            s("+0210101000000"), s("-2021010100000"), s("+20210101000000"), s("20210101 00000"), s("2021-01-01 00:00:00"), s("2021 101000000"), s("202101010000 0"), num(20210101000000)])
                        .clone(),
                };
                set_path(&mut v, &path, bad.clone());
                return (emit(&v, t, Style::default()), format!("member {} is {}", path.join("."), bad));
            }
            3 => {
                let junk = t.pick(&["{", "}", "null", "[]", "not json", "{}", "\"x\"", "12", "{\"a\":1}", "{,}", " "]).to_string();
                return (junk.clone(), format!("junk {junk:?} instead of a record"));
            }
            _ => {
                let full = emit(v, t, Style::default());
                let tail = t.pick(&["}", "x", ",", "{}", "\""]).to_string();
                return (format!("{full}{tail}"), format!("record followed by {tail:?}"));
            }
        }
    }
}

fn pick_member(sc: Schema, t: &mut Tape, ok: &dyn Fn(&F) -> bool) -> (Vec<String>, &'static F) {
    let all: Vec<&'static (&'static str, F)> = sc.iter().filter(|(_, f)| ok(f)).collect();
    let (k, f) = *t.pick(&all);
    if let Obj(inner) = f {
        if t.chance(4, 5) {
            let (mut p, f2) = pick_member(inner, t, ok);
            p.insert(0, k.to_string());
            return (p, f2);
        }
    }
    (vec![k.to_string()], f)
}

fn remove_path(v: &mut V, p: &[String]) {
    if let V::Object(m) = v {
        if p.len() == 1 {
            m.remove(&p[0]);
        } else if let Some(x) = m.get_mut(&p[0]) {
            remove_path(x, &p[1..]);
        }
    }
}

pub fn set_path(v: &mut V, p: &[String], x: V) {
    if let V::Object(m) = v {
        if p.len() == 1 {
            m.insert(p[0].clone(), x);
        } else if let Some(y) = m.get_mut(&p[0]) {
            set_path(y, &p[1..], x);
        }
    }
}
