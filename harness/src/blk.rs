//! Block trees as plain values, independent of swrs' block code.
//!
//! chain = [block]; block = {color, op, type, typeName, spec:[item], ss1, ss2};
//! item = {text} | {p: s|d|b|m, name, val}; val = null | {v: literal} | {b: block}.
//! Normal form: a string/menu argument "" is null, an empty nest is null, a number literal is the
//! shortest text of its f64, a boolean given as a literal true/false block is the literal.
use crate::conv::color_to_i;
use crate::schema::{gen_color, num, s};
use crate::sect::{arr, st};
use crate::tape::Tape;
use crate::conv::i_to_color;
use serde_json::{json, Value as V};
use std::collections::{HashMap, HashSet};
use swrs::api::block::{ArgValue, Argument, ArgumentBlockReturnType as Ret, Block, BlockContent, BlockControl, BlockType, Blocks, ListItem, SpecItem};

pub const TRUE_COLOR: i64 = 0xff5cb722u32 as i32 as i64;

pub fn word(t: &mut Tape) -> String {
    for _ in 0..4 {
        let w = if t.chance(1, 10) { "%".to_string() } else { t.string_wo(&[' ']) };
        if !w.starts_with('%') || w == "%" {
            return w;
        }
        let w2 = format!("x{w}");
        return w2;
    }
    "word".into()
}

/// words that are usable in places where line breaks are not (moreblock specs)
pub fn param_name(t: &mut Tape, menu: bool) -> V {
    if !menu && t.chance(1, 2) {
        return V::Null;
    }
    let mut n = t.string_wo(&[' ']);
    if n.is_empty() {
        n = "view".into();
    }
    if t.chance(1, 30) {
        n = t.pick(&["s", ".", "..", "%s", "%", "a.b", "é", "日本", ".x"]).to_string();
    }
    s(n)
}

pub fn gen_f64(t: &mut Tape) -> f64 {
    match t.below(8) {
        0 => 0.0,
        1 => t.range(-10, 100) as f64,
        2 => t.int(i32::MIN as i64, i32::MAX as i64) as f64,
        3 => t.range(-100000, 100000) as f64 / 100.0,
        4 => *t.pick(&[0.1, 0.5, -0.0, 1e21, 1e-7, 1.7976931348623157e308, 5e-324, 123456789.125, 1e16, 9007199254740993.0, -1.5, 3.14, 0.30000000000000004]),
        5 => t.int(i64::MIN / 2, i64::MAX / 2) as f64,
        _ => {
            let f = f64::from_bits(t.next());
            if f.is_finite() { f } else { 7.0 }
        }
    }
}

fn literal(t: &mut Tape, kind: &str) -> V {
    match kind {
        "d" => {
            let f = gen_f64(t);
            json!({"v": format!("{f:?}")})
        }
        "b" => json!({"v": t.bool()}),
        _ => {
            let mut x = t.string();
            while x.starts_with('@') {
                x.remove(0);
            }
            if x.is_empty() { V::Null } else { json!({"v": x}) }
        }
    }
}

pub struct GenOpt {
    /// forbid line breaks in words
    pub one_line: bool,
    pub max_depth: u32,
}

pub fn gen_items(t: &mut Tape, left: &mut i64, depth: u32, o: &GenOpt, args: bool) -> Vec<V> {
    let n = 1 + if t.chance(1, 40) { 20 + t.below(100) } else { t.below(5) };
    let mut out = vec![];
    for _ in 0..n {
        if t.chance(1, 2) {
            let mut w = word(t);
            if o.one_line {
                w = w.replace('\n', "");
                if w.starts_with('%') && w != "%" {
                    w = "w".into();
                }
            }
            out.push(json!({ "text": w }));
        } else {
            let k = *t.pick(&["s", "d", "b", "m"]);
            let mut name = param_name(t, k == "m");
            if o.one_line {
                if let Some(x) = name.as_str() {
                    let y = x.replace('\n', "");
                    name = if y.is_empty() { if k == "m" { s("v") } else { V::Null } } else { s(y) };
                }
            }
            let val = if !args || t.chance(1, 8) {
                V::Null
            } else if *left > 0 && depth < o.max_depth && t.chance(2, 5) {
                let b = gen_block(t, left, depth + 1, o);
                if k == "b" && matches!(st(&b["op"]), "true" | "false") { V::Null } else { json!({ "b": b }) }
            } else {
                literal(t, k)
            };
            out.push(json!({"p": k, "name": name, "val": val}));
        }
    }
    out
}

pub fn gen_block(t: &mut Tape, left: &mut i64, depth: u32, o: &GenOpt) -> V {
    *left -= 1;
    let ty = *t.pick(&[" ", " ", " ", "b", "s", "d", "v", "p", "l", "c", "e", "f"]);
    let tn = match ty {
        "v" | "p" => t.string(),
        "l" => t.pick(&["List String", "List Number"]).to_string(),
        _ => String::new(),
    };
    let items = gen_items(t, left, depth, o, true);
    let mut nest = |t: &mut Tape, p: u64| -> V {
        if *left > 0 && depth < o.max_depth && t.chance(p, 12) {
            let c = gen_chain(t, left, depth + 1, o);
            if arr(&c).is_empty() { V::Null } else { c }
        } else {
            V::Null
        }
    };
    let (a, b) = match ty {
        "c" => (nest(t, 9), V::Null),
        "e" => (nest(t, 9), nest(t, 9)),
        _ => (nest(t, 1), nest(t, 1)),
    };
    let color = if t.bool() { gen_color(t) } else { *t.pick(&[-1147626i64, -3384542, -1988310, -10701022, -14435927, -6190977, -11899692, -219678, -7711273]) };
    let op = if t.chance(1, 30) { "true".to_string() } else { t.string() };
    json!({"color": color, "op": op, "type": ty, "typeName": tn, "spec": items, "ss1": a, "ss2": b})
}

pub fn gen_chain(t: &mut Tape, left: &mut i64, depth: u32, o: &GenOpt) -> V {
    let n = if depth == 0 {
        if t.chance(1, 10) { 0 } else { 1 + t.below(6) }
    } else {
        1 + t.below(3)
    };
    let mut out = vec![];
    for _ in 0..n {
        if *left <= 0 {
            break;
        }
        out.push(gen_block(t, left, depth, o));
    }
    V::Array(out)
}

/// a random program; `size` is roughly the number of blocks
pub fn gen_code(t: &mut Tape, size: i64) -> V {
    let mut left = size;
    let o = GenOpt { one_line: false, max_depth: if t.chance(1, 6) { 30 } else { 5 } };
    match t.below(12) {
        0 => {
            // one long chain
            let n = size.max(1);
            let mut out = vec![];
            for _ in 0..n {
                let mut one = 1;
                let o = GenOpt { one_line: false, max_depth: 0 };
                out.push(gen_block(t, &mut one, 0, &o));
            }
            V::Array(out)
        }
        1 => {
            // one deep nest
            let n = size.max(1);
            let o = GenOpt { one_line: false, max_depth: 0 };
            let mut one = 1;
            let mut cur = V::Array(vec![gen_block(t, &mut one, 0, &o)]);
            for _ in 1..n {
                let mut b = gen_block(t, &mut 1, 0, &o);
                match t.below(4) {
                    0 => {
                        b["ss1"] = cur;
                    }
                    1 => {
                        b["ss2"] = cur;
                    }
                    2 => {
                        // as an argument
                        let inner = arr(&cur)[0].clone();
                        b["spec"].as_array_mut().unwrap().push(json!({"p": "s", "name": null, "val": {"b": inner}}));
                    }
                    _ => {
                        let mut v = vec![b];
                        v.extend(arr(&cur).iter().cloned());
                        cur = V::Array(v);
                        continue;
                    }
                }
                cur = V::Array(vec![b]);
            }
            cur
        }
        _ => gen_chain(t, &mut left, 0, &o),
    }
}

pub fn count_blocks(chain: &V) -> u64 {
    let mut n = 0;
    if let V::Array(a) = chain {
        for b in a {
            n += 1 + count_blocks(&b["ss1"]) + count_blocks(&b["ss2"]);
            for i in arr(&b["spec"]) {
                if let Some(x) = i.get("val").and_then(|v| v.get("b")) {
                    n += count_blocks(&json!([x]));
                }
            }
        }
    }
    n
}

pub fn spec_text(items: &V) -> String {
    let w: Vec<String> = arr(items)
        .iter()
        .map(|i| match i.get("text") {
            Some(x) => st(x).to_string(),
            None => match &i["name"] {
                V::String(n) => format!("%{}.{}", st(&i["p"]), n),
                _ => format!("%{}", st(&i["p"])),
            },
        })
        .collect();
    w.join(" ")
}

// ------------------------------------------------------------------ block list
/// ids for `n` blocks, first one first
fn gen_ids(t: &mut Tape, n: u64) -> Vec<u64> {
    match t.below(5) {
        0 => (10..10 + n).collect(),
        1 => {
            let b = t.below(3);
            (b..b + n).collect()
        }
        2 => {
            let b = t.int(0, i32::MAX as i64 - n as i64 - 1) as u64;
            (b..b + n).collect()
        }
        3 => {
            let mut v: Vec<u64> = (0..n).map(|i| 7 + i * 3).collect();
            t.shuffle(&mut v);
            v
        }
        _ => {
            let mut seen = HashSet::new();
            let mut v = vec![];
            while (v.len() as u64) < n {
                let x = t.int(0, i32::MAX as i64) as u64;
                let x = if seen.contains(&x) { t.below(i32::MAX as u64) } else { x };
                if seen.insert(x) {
                    v.push(x);
                }
            }
            v
        }
    }
}

pub fn none_ref(t: &mut Tape) -> i64 {
    if t.chance(9, 10) { -1 } else { *t.pick(&[-2i64, -10, i32::MIN as i64]) }
}

/// a number literal as text: any spelling of the same number
fn num_text(t: &mut Tape, x: &str) -> String {
    let f: f64 = x.parse().unwrap();
    match t.below(4) {
        0 => x.to_string(),
        1 => format!("{f}"),
        2 if f.abs() < 1e6 && f == f.trunc() => format!("{f:.1}"),
        3 if t.chance(1, 4) => format!("{f:e}"),
        _ => format!("{f}"),
    }
}

/// the flat list of block records of a tree: head of the chain first, everything else anywhere
pub fn emit_list(t: &mut Tape, chain: &V) -> Vec<V> {
    let n = count_blocks(chain) * 2 + 1000;
    let ids = gen_ids(t, n);
    let mut next = 0usize;
    let mut out: Vec<V> = vec![];
    emit_chain(t, chain, &ids, &mut next, &mut out);
    if let Some(head) = out.first_mut() {
        let id = high(t, st(&head["id"]).parse().unwrap());
        head["id"] = s(id.to_string());
    }
    if out.len() > 1 && t.chance(1, 2) {
        t.shuffle(&mut out[1..]);
    }
    out
}

/// blocks that no number refers to may have ids beyond the range of those numbers
fn high(t: &mut Tape, id: u64) -> u64 {
    if t.chance(1, 16) { id | 1 << 31 } else { id }
}

fn emit_chain(t: &mut Tape, chain: &V, ids: &[u64], next: &mut usize, out: &mut Vec<V>) -> i64 {
    let blocks = arr(chain);
    if blocks.is_empty() {
        return none_ref(t);
    }
    let my: Vec<u64> = blocks
        .iter()
        .map(|_| {
            *next += 1;
            ids[*next - 1]
        })
        .collect();
    for (i, b) in blocks.iter().enumerate() {
        let nx = if i + 1 < my.len() { my[i + 1] as i64 } else { none_ref(t) };
        emit_block(t, b, my[i], nx, ids, next, out);
    }
    my[0] as i64
}

fn emit_block(t: &mut Tape, b: &V, id: u64, nx: i64, ids: &[u64], next: &mut usize, out: &mut Vec<V>) {
    let pos = out.len();
    out.push(V::Null);
    let mut params = vec![];
    for i in arr(&b["spec"]) {
        if i.get("text").is_some() {
            continue;
        }
        let val = &i["val"];
        if let Some(x) = val.get("b") {
            *next += 1;
            let aid = high(t, ids[*next - 1]);
            let nx = none_ref(t);
            emit_block(t, x, aid, nx, ids, next, out);
            params.push(s(format!("@{aid}")));
        } else if let Some(x) = val.get("v") {
            match st(&i["p"]) {
                "b" if t.chance(3, 4) => {
                    *next += 1;
                    let aid = high(t, ids[*next - 1]);
                    let w = x.as_bool().unwrap().to_string();
                    out.push(json!({"color": TRUE_COLOR, "id": aid.to_string(), "nextBlock": -1, "opCode": w, "parameters": [], "spec": w, "subStack1": -1, "subStack2": -1, "type": "b", "typeName": ""}));
                    params.push(s(format!("@{aid}")));
                }
                "b" => params.push(s(x.as_bool().unwrap().to_string())),
                "d" => params.push(s(num_text(t, st(x)))),
                _ => params.push(x.clone()),
            }
        } else {
            params.push(s(""));
        }
    }
    let s1 = if b["ss1"].is_null() { none_ref(t) } else { emit_chain(t, &b["ss1"], ids, next, out) };
    let s2 = if b["ss2"].is_null() { none_ref(t) } else { emit_chain(t, &b["ss2"], ids, next, out) };
    out[pos] = json!({"color": b["color"], "id": id.to_string(), "nextBlock": nx, "opCode": b["op"], "parameters": params,
        "spec": spec_text(&b["spec"]), "subStack1": s1, "subStack2": s2, "type": b["type"], "typeName": b["typeName"]});
}

/// resolves a flat list of block records into the tree it denotes; every block has to be reachable
/// exactly once
pub fn read_list(list: &[V]) -> Result<V, String> {
    let mut by: HashMap<i64, &V> = HashMap::new();
    for b in list {
        let id: i64 = b["id"].as_str().and_then(|x| x.parse::<u32>().ok()).ok_or(format!("block id {} is not a number", b["id"]))? as i64;
        if by.insert(id, b).is_some() {
            return Err(format!("block id {id} is used twice"));
        }
    }
    let mut used = HashSet::new();
    let out = match list.first() {
        None => V::Array(vec![]),
        Some(b) => {
            let id: i64 = st(&b["id"]).parse().unwrap();
            read_chain(id, &by, &mut used)?
        }
    };
    if used.len() != list.len() {
        let lost: Vec<_> = by.keys().filter(|k| !used.contains(*k)).collect();
        return Err(format!("blocks {lost:?} are not referenced by any other block"));
    }
    Ok(out)
}

/// Sketchware writes -1 where nothing is referenced
pub fn strict_refs(list: &[V]) -> Result<(), String> {
    for b in list {
        for k in ["nextBlock", "subStack1", "subStack2"] {
            if b[k].as_i64().map_or(true, |x| x < -1) {
                return Err(format!("{k} of block {} is {}", b["id"], b[k]));
            }
        }
    }
    Ok(())
}

/// shapes with very many blocks
pub fn big_code(kind: u64) -> V {
    let plain = |i: usize| json!({"color": -7711273, "op": format!("o{i}"), "type": " ", "typeName": "", "spec": [{"text": format!("t{i}")}], "ss1": null, "ss2": null});
    let many = |from: usize, n: usize| V::Array((from..from + n).map(plain).collect());
    let nest = |a: V, b: V| {
        let mut x = plain(0);
        x["type"] = s(if b.is_null() { "c" } else { "e" });
        x["ss1"] = a;
        x["ss2"] = b;
        x
    };
    match kind {
        0 => many(0, 70_000),
        1 => json!([nest(many(1, 35_000), V::Null), plain(2), plain(3)]),
        2 => json!([plain(1), nest(many(1, 300), many(1000, 35_000)), plain(2)]),
        3 => json!([nest(many(1, 35_000), many(1, 1)), nest(many(3, 2), many(5, 33_000)), plain(2)]),
        4 => {
            // a block with very many arguments, every other one a block
            let items: Vec<V> = (0..2_000)
                .map(|i| match i % 4 {
                    0 => json!({"p": "s", "name": null, "val": {"v": format!("a{i}")}}),
                    1 => {
                        let mut b = plain(i);
                        b["type"] = s("s");
                        json!({"p": "s", "name": format!("n{i}"), "val": {"b": b}})
                    }
                    2 => json!({"text": format!("w{i}")}),
                    _ => json!({"p": "b", "name": null, "val": {"v": i % 8 == 3}}),
                })
                .collect();
            let mut x = plain(0);
            x["spec"] = V::Array(items);
            json!([plain(7), x, plain(8)])
        }
        6..=8 => {
            // 300 levels deep, with blocks before and after the deeper ones
            let mut v = json!([plain(0), plain(1)]);
            for i in 0..300 {
                let x = match kind {
                    6 => nest(v, V::Null),
                    7 => nest(if i % 3 == 0 { many(5, 2) } else { V::Null }, v),
                    _ => {
                        let mut inner = v.as_array().unwrap()[0].clone();
                        inner["type"] = s("s");
                        let mut x = plain(i);
                        x["spec"] = json!([{"text": "x"}, {"p": "s", "name": null, "val": {"b": inner}}, {"p": "s", "name": null, "val": {"v": "z"}}]);
                        v = json!([x]);
                        continue;
                    }
                };
                v = if i % 2 == 0 { json!([plain(2), x, plain(3)]) } else { json!([x]) };
            }
            v
        }
        _ => {
            // 33,000 blocks, each the argument of another
            let l: Vec<V> = (0..33_000)
                .map(|i| {
                    let (mut a, mut b) = (plain(i), plain(i + 1));
                    b["type"] = s("d");
                    a["spec"] = json!([{"text": "x"}, {"p": "d", "name": null, "val": {"b": b}}]);
                    a
                })
                .collect();
            V::Array(l)
        }
    }
}
pub const NBIG: u64 = 9;

fn read_chain(id: i64, by: &HashMap<i64, &V>, used: &mut HashSet<i64>) -> Result<V, String> {
    let mut out = vec![];
    let mut cur = id;
    loop {
        let (b, nx) = read_block(cur, by, used)?;
        out.push(b);
        if nx < 0 {
            break;
        }
        cur = nx;
    }
    Ok(V::Array(out))
}

fn read_block(id: i64, by: &HashMap<i64, &V>, used: &mut HashSet<i64>) -> Result<(V, i64), String> {
    let b = *by.get(&id).ok_or(format!("reference to a block {id} that does not exist"))?;
    if !used.insert(id) {
        return Err(format!("block {id} is referenced twice"));
    }
    let int = |k: &str| b[k].as_i64().ok_or(format!("block {id}: {k} is not an integer"));
    let params = b["parameters"].as_array().ok_or("block without parameters")?;
    let mut pi = 0;
    let mut items = vec![];
    for w in b["spec"].as_str().ok_or("block without a spec")?.split(' ') {
        let Some((k, name)) = token(w)? else {
            items.push(json!({ "text": w }));
            continue;
        };
        let p = params.get(pi).and_then(|x| x.as_str()).ok_or(format!("block {id}: no parameter for {w:?}"))?;
        pi += 1;
        let val = if let Some(r) = p.strip_prefix('@') {
            let r: i64 = r.parse().map_err(|_| format!("block {id}: bad block reference {p:?}"))?;
            let (x, nx) = read_block(r, by, used)?;
            if nx >= 0 {
                return Err(format!("block {r} is an argument and has a next block {nx}"));
            }
            match (k, st(&x["op"])) {
                ("b", "true") => json!({"v": true}),
                ("b", "false") => json!({"v": false}),
                _ => json!({ "b": x }),
            }
        } else if p.is_empty() {
            V::Null
        } else {
            match k {
                "d" => {
                    let f: f64 = p.parse().map_err(|_| format!("block {id}: {p:?} is not a number"))?;
                    json!({"v": format!("{f:?}")})
                }
                "b" => json!({"v": p.parse::<bool>().map_err(|_| format!("block {id}: {p:?} is not a boolean"))?}),
                _ => json!({ "v": p }),
            }
        };
        items.push(json!({"p": k, "name": name, "val": val}));
    }
    if pi != params.len() {
        return Err(format!("block {id}: {} parameters for a spec with {pi}", params.len()));
    }
    let nest = |x: i64, used: &mut HashSet<i64>| -> Result<V, String> { if x < 0 { Ok(V::Null) } else { read_chain(x, by, used) } };
    let (s1, s2) = (int("subStack1")?, int("subStack2")?);
    let a = nest(s1, used)?;
    let c = nest(s2, used)?;
    Ok((json!({"color": b["color"], "op": b["opCode"], "type": b["type"], "typeName": b["typeName"], "spec": items, "ss1": a, "ss2": c}), int("nextBlock")?))
}

/// a word of a spec: `None` for text, else the kind and the name of the parameter
pub fn token(w: &str) -> Result<Option<(&str, V)>, String> {
    if !w.starts_with('%') || w == "%" {
        return Ok(None);
    }
    for k in ["s", "d", "b", "m"] {
        if let Some(r) = w[1..].strip_prefix(k) {
            if r.is_empty() {
                return Ok(Some((k, V::Null)));
            }
            if let Some(n) = r.strip_prefix('.') {
                if !n.is_empty() {
                    return Ok(Some((k, s(n))));
                }
            }
        }
    }
    Err(format!("spec word {w:?} is not a parameter"))
}

// ------------------------------------------------------------------ swrs objects
pub fn chain_obs(b: &Blocks) -> V {
    V::Array(b.0.iter().map(block_obs).collect())
}

fn nest_obs(b: &Option<Blocks>) -> V {
    match b {
        Some(x) if !x.0.is_empty() => chain_obs(x),
        _ => V::Null,
    }
}

pub fn block_obs(b: &Block) -> V {
    let (ty, tn) = type_obs(&b.block_type);
    json!({"color": color_to_i(&b.color), "op": b.op_code, "type": ty, "typeName": tn, "spec": items_obs(&b.content), "ss1": nest_obs(&b.sub_stack1), "ss2": nest_obs(&b.sub_stack2)})
}

pub fn type_obs(b: &BlockType) -> (&'static str, String) {
    let e = String::new;
    match b {
        BlockType::Regular => (" ", e()),
        BlockType::Argument(Ret::Boolean) => ("b", e()),
        BlockType::Argument(Ret::String) => ("s", e()),
        BlockType::Argument(Ret::Number) => ("d", e()),
        BlockType::Argument(Ret::View { type_name }) => ("v", type_name.clone()),
        BlockType::Argument(Ret::Component { type_name }) => ("p", type_name.clone()),
        BlockType::Argument(Ret::List { inner_type: ListItem::String }) => ("l", "List String".into()),
        BlockType::Argument(Ret::List { inner_type: ListItem::Number }) => ("l", "List Number".into()),
        BlockType::Control(BlockControl::OneNest) => ("c", e()),
        BlockType::Control(BlockControl::TwoNest) => ("e", e()),
        BlockType::Control(BlockControl::EndingBlock) => ("f", e()),
    }
}

pub fn type_build(ty: &str, tn: &str) -> BlockType {
    match ty {
        " " => BlockType::Regular,
        "b" => BlockType::Argument(Ret::Boolean),
        "s" => BlockType::Argument(Ret::String),
        "d" => BlockType::Argument(Ret::Number),
        "v" => BlockType::Argument(Ret::View { type_name: tn.into() }),
        "p" => BlockType::Argument(Ret::Component { type_name: tn.into() }),
        "l" => BlockType::Argument(Ret::List { inner_type: if tn == "List String" { ListItem::String } else { ListItem::Number } }),
        "c" => BlockType::Control(BlockControl::OneNest),
        "e" => BlockType::Control(BlockControl::TwoNest),
        "f" => BlockType::Control(BlockControl::EndingBlock),
        _ => panic!("harness: type {ty:?}"),
    }
}

fn val_obs<T: std::fmt::Debug + Clone + PartialEq>(v: &ArgValue<T>, lit: &dyn Fn(&T) -> V) -> V {
    match v {
        ArgValue::Value(x) => lit(x),
        ArgValue::Block(b) => json!({"b": block_obs(b)}),
        ArgValue::BlockPlaceholder { block_id } => json!({ "placeholder": block_id }),
        ArgValue::Empty => V::Null,
    }
}

pub fn arg_obs(a: &Argument) -> V {
    let text = |x: &String| if x.is_empty() { V::Null } else { json!({ "v": x }) };
    match a {
        Argument::String { name, value } => json!({"p": "s", "name": name, "val": val_obs(value, &text)}),
        Argument::Number { name, value } => json!({"p": "d", "name": name, "val": val_obs(value, &|x: &f64| json!({"v": format!("{x:?}")}))}),
        Argument::Boolean { name, value } => json!({"p": "b", "name": name, "val": val_obs(value, &|x: &bool| json!({ "v": x }))}),
        Argument::Menu { name, value } => json!({"p": "m", "name": name, "val": val_obs(value, &text)}),
    }
}

pub fn items_obs(c: &BlockContent) -> V {
    let mut out = vec![];
    for i in &c.items {
        match i {
            SpecItem::Text(x) => out.extend(x.split(' ').map(|w| json!({ "text": w }))),
            SpecItem::Parameter(a) => out.push(arg_obs(a)),
        }
    }
    if out.is_empty() {
        out.push(json!({"text": ""}));
    }
    V::Array(out)
}

pub fn chain_build(t: &mut Tape, c: &V) -> Blocks {
    Blocks(arr(c).iter().map(|b| block_build(t, b)).collect())
}

pub fn block_build(t: &mut Tape, b: &V) -> Block {
    let nest = |t: &mut Tape, v: &V| -> Option<Blocks> {
        if v.is_null() {
            if t.chance(1, 10) { Some(Blocks::new()) } else { None }
        } else {
            Some(chain_build(t, v))
        }
    };
    Block {
        sub_stack1: nest(t, &b["ss1"]),
        sub_stack2: nest(t, &b["ss2"]),
        color: i_to_color(b["color"].as_i64().unwrap()),
        op_code: st(&b["op"]).into(),
        content: items_build(t, &b["spec"]),
        block_type: type_build(st(&b["type"]), st(&b["typeName"])),
    }
}

pub fn arg_build(t: &mut Tape, i: &V) -> Argument {
    let name = i["name"].as_str().map(|x| x.to_string());
    let v = &i["val"];
    let lit = v.get("v");
    fn text(t: &mut Tape, v: &V, lit: Option<&V>) -> ArgValue<String> {
        match (v.get("b"), lit) {
            (Some(b), _) => ArgValue::Block(block_build(t, b)),
            (_, Some(x)) => ArgValue::Value(st(x).into()),
            _ => if t.bool() { ArgValue::Empty } else { ArgValue::Value(String::new()) },
        }
    }
    match st(&i["p"]) {
        "s" => Argument::String { name, value: text(t, v, lit) },
        "m" => Argument::Menu { name: name.unwrap(), value: text(t, v, lit) },
        "d" => Argument::Number {
            name,
            value: match (v.get("b"), lit) {
                (Some(b), _) => ArgValue::Block(block_build(t, b)),
                (_, Some(x)) => ArgValue::Value(st(x).parse().unwrap()),
                _ => ArgValue::Empty,
            },
        },
        _ => Argument::Boolean {
            name,
            value: match (v.get("b"), lit) {
                (Some(b), _) => ArgValue::Block(block_build(t, b)),
                (_, Some(x)) => ArgValue::Value(x.as_bool().unwrap()),
                _ => ArgValue::Empty,
            },
        },
    }
}

pub fn items_build(t: &mut Tape, items: &V) -> BlockContent {
    let merge = t.chance(1, 4);
    let mut out: Vec<SpecItem> = vec![];
    for i in arr(items) {
        if let Some(x) = i.get("text") {
            if merge {
                if let Some(SpecItem::Text(prev)) = out.last_mut() {
                    prev.push(' ');
                    prev.push_str(st(x));
                    continue;
                }
            }
            out.push(SpecItem::Text(st(x).into()));
        } else {
            out.push(SpecItem::Parameter(arg_build(t, i)));
        }
    }
    BlockContent { items: out }
}

pub fn code_or_empty(v: &V) -> V {
    if v.is_null() { V::Array(vec![]) } else { v.clone() }
}

pub const _N: fn(i64) -> V = num;
