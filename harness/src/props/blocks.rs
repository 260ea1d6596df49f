//! C11..C14: colors and categories, spec contents, block lists and block trees.
use crate::blk::*;
use crate::conv::*;
use crate::rt::{viol, Ctx, R};
use crate::schema::{emit, s, Style};
use crate::sect::{arr, st};
use crate::tape::Tape;
use serde_json::{json, Value as V};
use std::collections::HashMap;
use swrs::api::block::{ArgValue, Argument, Block, BlockCategory as Cat, BlockContent, BlockContentParseError as BE, BlockType, Blocks, SpecItem};
use swrs::color::Color;
use swrs::parser::logic::BlockContainer;
use swrs::parser::Parsable;

// ------------------------------------------------------------------ C11
pub const RULE11: &str = "256 corner cases sweep all 2^24 RGB triples through the category lookup; random cases take a color (boundary-biased 32 bit value), its hex \
spellings and JSON forms, malformed hex texts, and a category; cases are distinct if the values fed differ";

pub const CATS: [(Cat, u32); 9] = [
    (Cat::Variable, 0xee7d16),
    (Cat::List, 0xcc5b22),
    (Cat::Control, 0xe1a92a),
    (Cat::Operator, 0x5cb722),
    (Cat::Math, 0x23b9a9),
    (Cat::File, 0xa1887f),
    (Cat::ViewFunc, 0x4a6cd4),
    (Cat::ComponentFunc, 0xfca5e2),
    (Cat::MoreBlock, 0x8a55d7),
];

fn channels(c: &mut Ctx, col: Color, v: u32, how: &str) -> R {
    let b = v.to_be_bytes();
    let got = c.call("channels", || (col.alpha(), col.red(), col.green(), col.blue(), col.rgb()))?;
    c.holds(got == (b[0], b[1], b[2], b[3], (b[1], b[2], b[3])), || format!("color {v:08x} {how}: its channels are {got:?}"))
}

pub fn colors(c: &mut Ctx) -> R {
    if let Some(hi) = c.corner {
        c.feed("red", &hi.to_string());
        let alpha = c.t.next() as u8;
        let bad = c.call("categories of 65536 colors", || {
            for lo in 0..65536u32 {
                let rgb = (hi as u32) << 16 | lo;
                let col = Color::from_argb(alpha, (rgb >> 16) as u8, (rgb >> 8) as u8, rgb as u8);
                let want = CATS.iter().find(|x| x.1 == rgb).map(|x| x.0);
                let got = Cat::try_from(col);
                match (&want, &got) {
                    (Some(w), Ok(g)) if w == g => {}
                    (None, Err(e)) if e.color == col => {}
                    _ => return Some((rgb, want, format!("{got:?}"))),
                }
            }
            None
        })?;
        c.count_n("colors looked up", 65536);
        return match bad {
            None => Ok(()),
            Some((rgb, want, got)) => viol(format!("color {rgb:06x} (alpha {alpha:02x}): category {got}, has to be {want:?}")),
        };
    }
    let v = match c.t.below(4) {
        0 => c.t.next() as u32,
        1 => c.t.int(0, u32::MAX as i64) as u32,
        2 => {
            let b: Vec<u32> = (0..4).map(|_| *c.t.pick(&[0u32, 1, 0x0a, 0x0f, 0x10, 0x7f, 0x80, 0xa0, 0xff, 0xfe])).collect();
            b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        }
        _ => c.t.pick(&CATS).1 | (c.t.next() as u32) << 24,
    };
    c.feed("color", &format!("{v:08x}"));
    let b = v.to_be_bytes();
    let col = c.call("Color::from", || Color::from(v))?;
    channels(c, col, v, "made from a number")?;
    let x = c.call("from_argb", || Color::from_argb(b[0], b[1], b[2], b[3]))?;
    channels(c, x, v, "from_argb")?;
    c.holds(x == col, || format!("{v:08x}: two ways of making a color differ"))?;
    let x = c.call("from_rgb", || Color::from_rgb(b[1], b[2], b[3]))?;
    channels(c, x, v | 0xff00_0000, "from_rgb (opaque)")?;
    let hex8 = if c.t.bool() { format!("{v:08x}") } else { format!("{v:08X}") };
    let x = c.call_ok("parse_hex", || Color::parse_hex(&hex8))?;
    channels(c, x, v, "parsed from 8 hex digits")?;
    c.holds(x == col, || format!("{v:08x}: parsed color is not equal"))?;
    let hex6 = if c.t.bool() { format!("{:06x}", v & 0xffffff) } else { format!("{:06X}", v & 0xffffff) };
    let x = c.call_ok("parse_hex", || Color::parse_hex(&hex6))?;
    channels(c, x, v | 0xff00_0000, "parsed from 6 hex digits (opaque)")?;
    // any other number of digits is the number they spell
    let few = format!("{:x}", v >> (4 * c.t.below(8)));
    if few.len() != 6 {
        let x = c.call_ok("parse_hex", || Color::parse_hex(&few))?;
        channels(c, x, u32::from_str_radix(&few, 16).unwrap(), "parsed from another number of hex digits")?;
    }
    // the text of a color holds all of it
    let shown = c.call("Display", || (format!("{col}"), format!("{col:?}")))?;
    c.holds(shown.0 == format!("{v:#010x}"), || format!("color {v:08x} is shown as {}", shown.0))?;
    let x = c.call_ok("parse_hex", || Color::parse_hex(shown.0.trim_start_matches("0x")))?;
    c.holds(x == col, || format!("color {v:08x} shown as {} and parsed is {x}", shown.0))?;
    // JSON: the signed 32 bit integer of the same bits
    let i = v as i32;
    let out = c.call_ok("serialize", || serde_json::to_value(col))?;
    c.same("color as JSON", &json!(i), &out)?;
    let x: Color = c.call_ok("deserialize", || serde_json::from_value(json!(i)))?;
    channels(c, x, v, "from JSON")?;
    let spelled = match c.t.below(3) {
        0 => format!("{i}"),
        1 => format!("{i}.0"),
        _ => format!("{:e}", i as f64),
    };
    let x: Color = c.call_ok("deserialize", || serde_json::from_str(&spelled))?;
    c.holds(x == col, || format!("JSON color {spelled} is {x}, has to be {v:08x}"))?;
    let other = Color::from(v ^ (1 << c.t.below(32)));
    c.holds(other != col, || format!("{v:08x} and {other} are equal"))?;
    // categories
    let rgb = v & 0xffffff;
    let want = CATS.iter().find(|x| x.1 == rgb).map(|x| x.0);
    let got = c.call("category", || Cat::try_from(col))?;
    c.holds(got.as_ref().ok() == want.as_ref(), || format!("color {v:08x}: category {got:?}, has to be {want:?}"))?;
    if let Err(e) = &got {
        let e = e.color;
        c.holds(e == col, || format!("the error about color {v:08x} names {e}"))?;
    }
    let (cat, rgb) = *c.t.pick(&CATS);
    let x: Color = c.call("color of a category", || cat.into())?;
    channels(c, x, rgb | 0xff00_0000, "of a category")?;
    let back = c.call_ok("category", || Cat::try_from(x))?;
    c.holds(back == cat, || format!("{cat:?} has a color of category {back:?}"))?;
    let content = BlockContent { items: vec![] };
    let (b1, b2) = (gen_ident_chain(&mut c.t), gen_ident_chain(&mut c.t));
    let op = c.t.ident();
    let (o, k, x1, x2) = (op.clone(), content.clone(), b1.clone(), b2.clone());
    let bs = c.call("Block::new*", move || {
        [
            Block::new(cat, o.clone(), k.clone(), BlockType::Regular),
            Block::new_1substack(cat, o.clone(), k.clone(), x1.clone()),
            Block::new_2substack(cat, o, k, x1, x2),
        ]
    })?;
    for (i, b) in bs.iter().enumerate() {
        let kind = [" ", "c", "e"][i];
        let n1 = if i > 0 { Some(b1.clone()) } else { None };
        let n2 = if i > 1 { Some(b2.clone()) } else { None };
        c.holds(type_obs(&b.block_type).0 == kind && b.op_code == op && b.content == content && b.sub_stack1 == n1 && b.sub_stack2 == n2, || format!("block made with {i} nests is {b:?}"))?;
        c.holds(b.category().ok() == Some(cat) && b.color == cat.into(), || format!("a block made for {cat:?} is of {:?}", b.category()))?;
    }
    // malformed hex
    let mut cs: Vec<char> = hex8.chars().collect();
    let n = if c.t.bool() { 6 } else { 8 };
    cs.truncate(n);
    let why = match c.t.below(4) {
        0 => {
            let i = c.t.below(n as u64) as usize;
            cs[i] = *c.t.pick(&['g', 'z', 'G', ' ', '#', '-', '+', 'x', '.', '_', 'é', '😀', '\u{0}', '/', ':', '@', '`', '０']);
            "not a hex digit"
        }
        1 => {
            cs.clear();
            "empty"
        }
        2 => {
            while cs.len() < 9 {
                cs.push('a');
            }
            cs[0] = '1';
            "more than 32 bits"
        }
        _ => {
            cs.insert(0, '#');
            "starts with #"
        }
    };
    let bad: String = cs.into_iter().collect();
    c.feed("malformed", &bad);
    c.call_err("parse_hex", why, || Color::parse_hex(&bad))?;
    let j = c.t.pick(&["null", "\"\"", "\"ff0000\"", "true", "[]", "{}", "[1]"]).to_string();
    c.call_err("deserialize", "a color that is not a number", || serde_json::from_str::<Color>(&j))?;
    Ok(())
}

fn gen_ident_chain(t: &mut Tape) -> Blocks {
    let mut one = 1 + t.below(3) as i64;
    let v = gen_chain(t, &mut one, 2, &GenOpt { one_line: false, max_depth: 2 });
    chain_build(t, &v)
}

// ------------------------------------------------------------------ C12
pub const RULE12: &str = "random specs (words, parameters of every kind, with and without names, unicode and % in awkward places) with argument texts (literals, block \
references, empties), followed through parse, parse_wo_params + apply_args, apply_blocks, take_args, get_args_mut, the builder and to_string; the same with one thing \
wrong, which has to be refused; cases are distinct if the spec or the arguments differ";

/// the literal text of an argument as a swrs file holds it, and what it has to be read as
fn arg_text(t: &mut Tape, k: &str, ids: &mut Vec<u32>) -> (String, V) {
    if t.chance(2, 5) {
        let id = match t.below(3) {
            0 => t.below(100) as u32,
            1 => t.int(0, u32::MAX as i64) as u32,
            _ => 10 + ids.len() as u32,
        };
        ids.push(id);
        return (format!("@{id}"), json!({ "placeholder": id }));
    }
    if t.chance(1, 8) {
        return (String::new(), V::Null);
    }
    match k {
        "d" => {
            let f = gen_f64(t);
            let x = match t.below(4) {
                0 => format!("{f:?}"),
                1 => format!("{f:e}"),
                2 if f >= 0.0 && f.is_sign_positive() => format!("+{f}"),
                _ => format!("{f}"),
            };
            (x, json!({"v": format!("{f:?}")}))
        }
        "b" => {
            let b = t.bool();
            (b.to_string(), json!({ "v": b }))
        }
        _ => {
            let mut x = t.string();
            while x.starts_with('@') {
                x.remove(0);
            }
            let v = if x.is_empty() { V::Null } else { json!({"v": x}) };
            (x, v)
        }
    }
}

fn strip_args(items: &V) -> V {
    V::Array(
        arr(items)
            .iter()
            .map(|i| {
                let mut i = i.clone();
                if i.get("p").is_some() {
                    i["val"] = V::Null;
                }
                i
            })
            .collect(),
    )
}

fn args_of(items: &V) -> V {
    V::Array(arr(items).iter().filter(|i| i.get("p").is_some()).cloned().collect())
}

fn small_block(t: &mut Tape, n: usize) -> V {
    let ty = *t.pick(&["b", "s", "d", " "]);
    let op = if t.chance(1, 8) { t.pick(&["true", "false", "True", "true ", "TRUE"]).to_string() } else { format!("op{n}_{}", t.string()) };
    json!({"color": -1, "op": op, "type": ty, "typeName": "", "spec": [{"text": format!("block{n}")}], "ss1": null, "ss2": null})
}

pub fn spec(c: &mut Ctx) -> R {
    let o = GenOpt { one_line: false, max_depth: 0 };
    let bare = V::Array(gen_items(&mut c.t, &mut 0, 0, &o, false));
    let text = spec_text(&bare);
    let mut ids = vec![];
    let mut args = vec![];
    let mut items = bare.clone();
    for i in items.as_array_mut().unwrap() {
        if let Some(k) = i.get("p").map(|k| st(k).to_string()) {
            let (x, v) = arg_text(&mut c.t, &k, &mut ids);
            args.push(x);
            i["val"] = v;
        }
    }
    c.feed("spec", &text);
    c.feed("args", &format!("{args:?}"));
    if c.t.chance(1, 4) {
        return bad_spec(c, &bare, text, args);
    }

    let p0 = c.call_ok("parse_wo_params", || BlockContent::parse_wo_params(&text))?;
    c.same("a spec without arguments", &bare, &items_obs(&p0))?;
    for a in c.call("get_args", || p0.get_args().into_iter().cloned().collect::<Vec<_>>())? {
        c.holds(matches!(&a, Argument::String { value: ArgValue::Empty, .. } | Argument::Number { value: ArgValue::Empty, .. } | Argument::Boolean { value: ArgValue::Empty, .. } | Argument::Menu { value: ArgValue::Empty, .. }), || {
            format!("parse_wo_params gave an argument a value: {a:?}")
        })?;
    }
    let shown = c.call("to_string", || p0.to_string())?;
    c.holds(shown == text, || format!("spec {text:?} is written as {shown:?}"))?;

    let (tx, ax) = (text.clone(), args.clone());
    let p = c.call_ok("parse", || BlockContent::parse(tx, ax))?;
    c.same("a spec with its arguments", &items, &items_obs(&p))?;
    let shown = c.call("to_string", || p.to_string())?;
    c.holds(shown == text, || format!("spec {text:?} with arguments is written as {shown:?}"))?;
    let ax = args.clone();
    let q = c.call_ok("apply_args", || p0.clone().apply_args(ax))?;
    c.holds(q == p, || format!("parse and parse_wo_params + apply_args differ: {p:?} and {q:?}"))?;

    // the arguments, in order
    let got = c.call("get_args", || V::Array(p.get_args().into_iter().map(arg_obs).collect()))?;
    c.same("get_args", &args_of(&items), &got)?;
    let (rest, taken) = c.call("take_args", || p.clone().take_args())?;
    c.same("take_args: what is left", &strip_args(&items), &items_obs(&rest))?;
    c.same("take_args: what is taken", &args_of(&items), &V::Array(taken.iter().map(arg_obs).collect()))?;
    c.holds(rest.to_string() == text, || "take_args changed the spec".into())?;

    // some arguments first, the others later: those that have a value keep it
    let mut part = p.clone();
    let mut later = vec![];
    {
        let slots = c.call("get_args_mut", || part.get_args_mut().len())?;
        c.holds(slots == args.len(), || format!("get_args_mut gives {slots} arguments of {}", args.len()))?;
        let drop: Vec<bool> = (0..slots).map(|_| c.t.bool()).collect();
        for (i, a) in part.get_args_mut().into_iter().enumerate() {
            let was_empty = match a {
                Argument::String { value, .. } | Argument::Menu { value, .. } => {
                    if drop[i] {
                        *value = ArgValue::Empty;
                    }
                    *value == ArgValue::Empty
                }
                Argument::Number { value, .. } => {
                    if drop[i] {
                        *value = ArgValue::Empty;
                    }
                    *value == ArgValue::Empty
                }
                Argument::Boolean { value, .. } => {
                    if drop[i] {
                        *value = ArgValue::Empty;
                    }
                    *value == ArgValue::Empty
                }
            };
            if was_empty {
                later.push(args[i].clone());
            }
        }
    }
    let full = c.call_ok("apply_args", || part.apply_args(later))?;
    c.same("arguments given later", &items, &items_obs(&full))?;

    // block references are looked up once each, in order
    let mut blocks = vec![];
    for n in 0..ids.len() {
        blocks.push(small_block(&mut c.t, n));
    }
    let objs: Vec<Block> = blocks.iter().map(|b| block_build(&mut c.t, b)).collect();
    let mut asked = vec![];
    let mut n = 0;
    let r = c.call_ok("apply_blocks", || {
        p.clone().apply_blocks(|id| {
            asked.push(id);
            n += 1;
            objs.get(n - 1).cloned()
        })
    })?;
    c.holds(asked == ids, || format!("apply_blocks asked for the blocks {asked:?}, has to ask for {ids:?}"))?;
    let mut want = items.clone();
    let mut n = 0;
    for i in want.as_array_mut().unwrap() {
        if i.get("p").is_some() && i["val"].get("placeholder").is_some() {
            let b = blocks[n].clone();
            n += 1;
            i["val"] = match (st(&i["p"]), st(&b["op"])) {
                ("b", "true") => json!({"v": true}),
                ("b", "false") => json!({"v": false}),
                _ => json!({ "b": b }),
            };
        }
    }
    c.same("apply_blocks", &want, &items_obs(&r))?;
    c.holds(r.to_string() == text, || "apply_blocks changed the spec".into())?;
    if !ids.is_empty() {
        let miss = c.t.below(ids.len() as u64) as usize;
        let mut n = 0;
        let e = c.call_err("apply_blocks", "a referenced block is missing", || {
            p.clone().apply_blocks(|_| {
                n += 1;
                if n - 1 == miss { None } else { objs.get(n - 1).cloned() }
            })
        })?;
        c.holds(matches!(&e, BE::BlockNotFound { block_id } if *block_id == ids[miss]), || format!("block {} is missing, the error is {e:?}", ids[miss]))?;
    }

    // the builder
    let mut b = BlockContent::builder();
    for i in arr(&items) {
        b = if let Some(x) = i.get("text") {
            b.text(st(x))
        } else {
            let mut i = i.clone();
            if i["val"].get("placeholder").is_some() {
                i["val"] = V::Null;
            }
            b.arg(arg_build(&mut c.t, &i))
        };
    }
    let built = c.call("builder", || b.build())?;
    c.holds(built.to_string() == text, || format!("built spec is {:?}, has to be {text:?}", built.to_string()))?;
    c.holds(built.items.len() == arr(&items).len(), || "the builder dropped or merged items".into())?;
    let texts = |x: &BlockContent| x.items.iter().filter(|i| matches!(i, SpecItem::Text(_))).count();
    c.holds(texts(&built) == arr(&items).iter().filter(|i| i.get("text").is_some()).count(), || "the builder changed texts".into())
}

/// one thing wrong with a spec or its arguments
fn bad_spec(c: &mut Ctx, bare: &V, text: String, mut args: Vec<String>) -> R {
    let params: Vec<(usize, String)> = arr(bare).iter().filter(|i| i.get("p").is_some()).enumerate().map(|(n, i)| (n, st(&i["p"]).to_string())).collect();
    c.count("malformed specs");
    match c.t.below(4) {
        0 => {
            // a parameter of no known kind; everything before it is fine
            let mut w: Vec<String> = text.split(' ').map(|x| x.to_string()).collect();
            let bad = c.t.pick(&["%x", "%é", "%m", "%m.", "%%", "%S", "%1", "%.s", "%😀.a", "%\u{0}", "%x.name", "%.", "%-s"]).to_string();
            let at = c.t.below(w.len() as u64 + 1) as usize;
            w.insert(at, bad.clone());
            let text = w.join(" ");
            c.feed("bad", &text);
            let e = c.call_err("parse_wo_params", &format!("{bad:?} is no parameter"), || BlockContent::parse_wo_params(&text))?;
            c.holds(matches!(&e, BE::UnknownSpecParam { full, .. } if *full == bad), || format!("unknown parameter {bad:?}: the error is {e:?}"))?;
            args.push("1".into());
            let e = c.call_err("parse", &format!("{bad:?} is no parameter"), || BlockContent::parse(text, args))?;
            c.holds(matches!(&e, BE::UnknownSpecParam { full, .. } if *full == bad), || format!("unknown parameter {bad:?}: the error is {e:?}"))
        }
        1 if !params.is_empty() => {
            args.truncate(c.t.below(args.len() as u64) as usize);
            c.feed("few", &format!("{args:?}"));
            let p = c.call_ok("parse_wo_params", || BlockContent::parse_wo_params(&text))?;
            let a = args.clone();
            let e = c.call_err("parse", "too few arguments", || BlockContent::parse(text, a))?;
            c.holds(matches!(&e, BE::RanOutOfArgs), || format!("too few arguments: the error is {e:?}"))?;
            let e = c.call_err("apply_args", "too few arguments", || p.apply_args(args))?;
            c.holds(matches!(&e, BE::RanOutOfArgs), || format!("too few arguments: the error is {e:?}"))
        }
        _ if !params.is_empty() => {
            let (i, k) = c.t.pick(&params).clone();
            let (bad, kind) = match (k.as_str(), c.t.below(2)) {
                ("d", 0) => (c.t.pick(&["x", "1,5", "0x10", " 1", "1 ", "--1", "1.2.3", "é", "true", "one", "+", "-", "."]).to_string(), 1),
                ("b", 0) => (c.t.pick(&["True", "1", "0", "yes", " true", "false ", "TRUE", "é"]).to_string(), 2),
                _ => (c.t.pick(&["@", "@x", "@-1", "@1.0", "@4294967296", "@ 1", "@1 ", "@é", "@@1", "@0x1", "@99999999999999999999"]).to_string(), 0),
            };
            args[i] = bad.clone();
            c.feed("bad", &format!("{args:?}"));
            let is = |e: &BE| match e {
                BE::InvalidBlockId { value } => kind == 0 && *value == bad,
                BE::InvalidNumberArgument { value } => kind == 1 && *value == bad,
                BE::InvalidBooleanArgument { value } => kind == 2 && *value == bad,
                _ => false,
            };
            let p = c.call_ok("parse_wo_params", || BlockContent::parse_wo_params(&text))?;
            let a = args.clone();
            let e = c.call_err("parse", &format!("argument {bad:?} for %{k}"), || BlockContent::parse(text, a))?;
            c.holds(is(&e), || format!("argument {bad:?} for %{k}: the error is {e:?}"))?;
            let e = c.call_err("apply_args", &format!("argument {bad:?} for %{k}"), || p.apply_args(args))?;
            c.holds(is(&e), || format!("argument {bad:?} for %{k}: the error is {e:?}"))
        }
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ C13, C14
pub const RULE13: &str = "random block trees (chains, nests, arguments, deep and long shapes, up to 120 blocks) flattened to block lists with random unique ids and \
shuffled order by an independent emitter, half of them through the text form; cases are distinct if the lists differ";
pub const RULE14: &str = "random block trees built as swrs objects, converted to a block list, whose references are resolved by an independent reader; the list goes \
through text and back; cases are distinct if the trees differ";

fn size(c: &mut Ctx) -> i64 {
    match c.t.below(12) {
        0 => 100,
        1 => 40,
        2 => 1,
        _ => 1 + c.t.below(20) as i64,
    }
}

fn container(c: &mut Ctx, list: &[V]) -> R<BlockContainer> {
    if c.t.bool() {
        return Ok(BlockContainer(list.iter().map(v_to_block).collect()));
    }
    let sty = Style::gen(&mut c.t);
    let lines: Vec<String> = list.iter().map(|b| emit(b, &mut c.t, sty)).collect();
    let text = lines.join("\n");
    c.call_ok("BlockContainer::parse", || BlockContainer::parse(&text))
}

pub fn list_to_tree(c: &mut Ctx) -> R {
    if c.corner == Some(0) {
        let b = c.call_ok("Blocks::try_from", || Blocks::try_from(BlockContainer(vec![])))?;
        return c.holds(b.0.is_empty(), || "blocks out of an empty list".into());
    }
    let n = size(c);
    let code = match c.corner {
        Some(k) => big_code(k - 1),
        None => gen_code(&mut c.t, n),
    };
    let list = emit_list(&mut c.t, &code);
    c.feed_v("list", &V::Array(list.clone()));
    c.note("tree", || code.to_string());
    if let Err(e) = read_list(&list) {
        return viol(format!("harness: emitted an invalid list: {e}"));
    }
    let bc = container(c, &list)?;
    let got = c.call_ok("Blocks::try_from", || Blocks::try_from(bc))?;
    c.count_n("blocks read", list.len() as u64);
    c.same("tree of the list", &code, &chain_obs(&got))
}

pub fn tree_to_list(c: &mut Ctx) -> R {
    let n = size(c);
    let code = match c.corner {
        Some(0) => json!([]),
        Some(k) => big_code(k - 1),
        None => gen_code(&mut c.t, n),
    };
    c.feed_v("tree", &code);
    let obj = chain_build(&mut c.t, &code);
    let obj2 = obj.clone();
    let bc: BlockContainer = c.call("Blocks -> BlockContainer", || obj2.into())?;
    let list: Vec<V> = bc.0.iter().map(block_to_v).collect();
    c.count_n("blocks written", list.len() as u64);
    c.note("list", || V::Array(list.clone()).to_string());
    match strict_refs(&list).and_then(|_| read_list(&list)) {
        Ok(v) => c.same("the list written for the tree", &code, &v)?,
        Err(e) => return viol(format!("the list written for the tree is broken: {e}")),
    }
    bool_literals(c, &list)?;
    let bc2 = bc.clone();
    let again = c.call_ok("Blocks::try_from", || Blocks::try_from(bc2))?;
    c.same("tree to list to tree", &code, &chain_obs(&again))?;
    // through text, and once more
    let text = c.call_ok("BlockContainer::reconstruct", || bc.reconstruct())?;
    let bc3 = c.call_ok("BlockContainer::parse", || BlockContainer::parse(&text))?;
    let t3 = c.call_ok("Blocks::try_from", || Blocks::try_from(bc3))?;
    c.same("tree to text to tree", &code, &chain_obs(&t3))?;
    let l4: BlockContainer = c.call("Blocks -> BlockContainer", || t3.into())?;
    match read_list(&l4.0.iter().map(block_to_v).collect::<Vec<_>>()) {
        Ok(v) => c.same("the list written the second time", &code, &v),
        Err(e) => viol(format!("the list written the second time is broken: {e}")),
    }
}

/// literal booleans are written as blocks, as Sketchware does
fn bool_literals(c: &mut Ctx, list: &[V]) -> R {
    let by: HashMap<&str, &V> = list.iter().map(|x| (st(&x["id"]), x)).collect();
    for b in list {
        let mut i = 0;
        for w in st(&b["spec"]).split(' ') {
            if let Ok(Some((k, _))) = token(w) {
                let p = st(&b["parameters"][i]);
                i += 1;
                if k == "b" && !p.is_empty() {
                    let ok = p.strip_prefix('@').and_then(|id| by.get(id)).is_some_and(|x| !matches!(st(&x["opCode"]), "true" | "false") || x["type"] == s("b") && x["spec"] == x["opCode"] && x["color"] == json!(TRUE_COLOR));
                    c.holds(ok, || format!("a boolean argument is written as {p:?}, has to be a reference to a block"))?;
                }
            }
        }
    }
    Ok(())
}
