//! Malformed and hostile input.
use crate::alloc;
use crate::conv::*;
use crate::mutate::{junk, mutate, token};
use crate::proj::{self, *};
use crate::rt::{clip, viol, Ctx, R};
use crate::schema::{self, emit, gen, Schema, Style};
use crate::sect;
use crate::tape::Tape;
use serde_json::{json, Value as V};
use std::fmt::Debug;
use std::path::PathBuf;
use swrs::api::block::{Argument, ArgValue, BlockCategory, BlockContent, Blocks};
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, EventType};
use swrs::api::view::{flatten_views, parse_raw_layout, View as AView, ViewType};
use swrs::api::SketchwareProject as Api;
use swrs::color::Color;
use swrs::parser::file::{File, FileItem};
use swrs::parser::library::{Library, LibraryItem};
use swrs::parser::logic::component::{Component, ComponentPool};
use swrs::parser::logic::event::{Event as PEvent, EventPool};
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool};
use swrs::parser::logic::{Block as PBlock, BlockContainer, BlockContainerHeader, Logic};
use swrs::parser::project::Project;
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::{Layout, View};
use swrs::parser::{Parsable, RawSketchwareProject as Raw, ResourceFileWrapper as W, ResourceFiles, SketchwareProject as Parsed};

pub struct Broken {
    pub text: String,
    pub line: String,
    pub index: usize,
    pub why: String,
}

/// a data file text (0 project .. 5 logic) made malformed in one record; the rest is untouched
pub fn break_text(t: &mut Tape, k: usize, text: &str) -> Broken {
    if k == 0 {
        let cs: Vec<char> = text.chars().collect();
        let n = t.below(cs.len() as u64) as usize;
        let out: String = cs[..n].iter().collect();
        return Broken { text: out.clone(), line: out, index: 0, why: format!("the record is cut off after {n} characters") };
    }
    let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
    // (a more block is not a JSON record, whatever its name looks like)
    let mut func = false;
    let mut recs: Vec<usize> = vec![];
    for (i, l) in ls.iter().enumerate() {
        if l.starts_with('@') {
            func = l.ends_with("_func");
        } else if !func && l.starts_with('{') && serde_json::from_str::<V>(l).is_ok() {
            recs.push(i);
        }
    }
    if recs.is_empty() {
        // a section with a record that is none
        let bad = "{".to_string();
        let (head, bad) = match k {
            1 => ("@activity", bad),
            3 => ("@fonts", bad),
            4 => ("@zzz.xml", bad),
            5 => ("@ZzzActivity.java_events", bad),
            _ => unreachable!(),
        };
        let mut out = text.trim_end_matches('\n').to_string();
        if !out.is_empty() {
            out.push('\n');
            if k >= 4 {
                out.push('\n');
            }
        }
        out.push_str(head);
        let index = out.split('\n').count();
        out.push('\n');
        out.push_str(&bad);
        return Broken { text: out, line: bad, index, why: format!("section {head} with the record \"{{\"") };
    }
    let i = *t.pick(&recs);
    let cs: Vec<char> = ls[i].chars().collect();
    let n = 1 + t.below(cs.len() as u64 - 1) as usize;
    ls[i] = cs[..n].iter().collect();
    let line = ls[i].clone();
    Broken { text: ls.join("\n"), line, index: i, why: format!("line {i} is cut off after {n} characters") }
}


// ------------------------------------------------------------------ texts of every kind

/// the kinds of text the crate parses: the six data files and everything they are made of
pub const KINDS: [&str; 23] = [
    "project", "file", "library", "resource", "view", "logic", "file item", "library item", "resource item", "layout", "android view", "variables", "variable", "lists", "list", "components",
    "component", "more blocks", "more block", "events", "event", "container header", "container",
];
pub const BLOCK_KIND: usize = KINDS.len();

fn lines_of(t: &mut Tape, n: usize, sc: Schema) -> String {
    let v: Vec<String> = (0..n)
        .map(|_| {
            let x = gen(t, sc);
            let style = Style::gen(t);
            emit(&x, t, style)
        })
        .collect();
    v.join("\n")
}

/// a valid text of a kind
pub fn valid(t: &mut Tape, kind: usize) -> String {
    let n = t.count().min(12);
    match kind {
        0 => lines_of(t, 1, schema::PROJECT),
        1 => {
            let m = sect::gen_file(t);
            sect::emit_file(t, &m)
        }
        2 => {
            let m = sect::gen_library(t);
            sect::emit_library(t, &m)
        }
        3 => {
            let m = sect::gen_resource(t);
            sect::emit_resource(t, &m)
        }
        4 => {
            let m = sect::gen_view_file(t);
            sect::emit_view_file(t, &m)
        }
        5 => {
            let m = sect::gen_logic(t);
            sect::emit_logic(t, &m)
        }
        6 => lines_of(t, 1, schema::FILE_ITEM),
        7 => lines_of(t, 1, schema::LIBRARY_ITEM),
        8 => lines_of(t, 1, schema::RESOURCE_ITEM),
        9 => lines_of(t, n, schema::VIEW),
        10 => lines_of(t, 1, schema::VIEW),
        11 | 13 => {
            let m = sect::gen_vars(t, 12);
            sect::pool_lines(t, "var", &m).join("\n")
        }
        12 | 14 => format!("{}:{}", t.below(4), t.name_wo(&['\n'])),
        15 => lines_of(t, n, schema::COMPONENT),
        16 => lines_of(t, 1, schema::COMPONENT),
        17 => {
            let m = sect::gen_funcs(t, 12);
            sect::pool_lines(t, "func", &m).join("\n")
        }
        18 => format!("{}:{}", t.name_wo(&['\n', ':']), t.string_wo(&['\n'])),
        19 => lines_of(t, n, schema::EVENT),
        20 => lines_of(t, 1, schema::EVENT),
        21 => format!("@{}.java_{}", t.name_wo(&['\n', '.']), t.name_wo(&['\n'])),
        22 => lines_of(t, n, schema::BLOCK),
        _ => lines_of(t, 1, schema::BLOCK),
    }
}

/// what is done with a text of some kind
trait Visit {
    fn text<T>(&mut self, c: &mut Ctx, text: &str, ok: fn(&T) -> bool, eq: fn(&T, &T) -> bool) -> R
    where
        T: Parsable + Debug,
        T::ParseError: Debug,
        T::ReconstructionError: Debug;
}

fn yes<T>(_: &T) -> bool {
    true
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn finite(v: &AndroidView) -> bool {
    v.alpha.is_finite() && v.scale_x.is_finite() && v.scale_y.is_finite() && v.translation_x.is_finite() && v.translation_y.is_finite()
}

fn visit<X: Visit>(x: &mut X, c: &mut Ctx, kind: usize, text: &str) -> R {
    match kind {
        0 => x.text::<Project>(c, text, yes, eq),
        1 => x.text::<File>(c, text, yes, eq),
        2 => x.text::<Library>(c, text, yes, eq),
        3 => x.text::<Resource>(c, text, yes, eq),
        4 => x.text::<View>(c, text, |v| v.layouts.values().all(|l| l.0.iter().all(finite)) && v.fabs.values().all(finite), eq),
        5 => x.text::<Logic>(c, text, yes, |a, b| sect::logic_obs(a) == sect::logic_obs(b)),
        6 => x.text::<FileItem>(c, text, yes, eq),
        7 => x.text::<LibraryItem>(c, text, yes, eq),
        8 => x.text::<ResourceItem>(c, text, yes, eq),
        9 => x.text::<Layout>(c, text, |l| l.0.iter().all(finite), eq),
        10 => x.text::<AndroidView>(c, text, finite, eq),
        11 => x.text::<VariablePool>(c, text, yes, eq),
        12 => x.text::<Variable>(c, text, yes, eq),
        13 => x.text::<ListVariablePool>(c, text, yes, eq),
        14 => x.text::<ListVariable>(c, text, yes, eq),
        15 => x.text::<ComponentPool>(c, text, yes, eq),
        16 => x.text::<Component>(c, text, yes, eq),
        17 => x.text::<MoreBlockPool>(c, text, yes, eq),
        18 => x.text::<MoreBlock>(c, text, yes, eq),
        19 => x.text::<EventPool>(c, text, yes, eq),
        20 => x.text::<PEvent>(c, text, yes, eq),
        21 => x.text::<BlockContainerHeader>(c, text, yes, eq),
        22 => x.text::<BlockContainer>(c, text, yes, eq),
        _ => x.text::<PBlock>(c, text, yes, eq),
    }
}

/// a hostile text of a kind
fn hostile_text(t: &mut Tape, kind: usize) -> String {
    match t.below(10) {
        0 => valid(t, kind),
        1 | 2 => junk(t),
        3 => {
            // a text of another kind
            let k = t.below(KINDS.len() as u64 + 1) as usize;
            let x = valid(t, k);
            mutate(t, &x)
        }
        _ => {
            let x = valid(t, kind);
            mutate(t, &x)
        }
    }
}

// ------------------------------------------------------------------ C09
pub const RULE09: &str = "texts of all 24 kinds (six data files, every section and every record): valid ones, mutated ones (cut, spliced, lines moved, numbers and strings replaced), \
texts of another kind and junk made of the tokens of the format; whatever is accepted is written and read again, twice; a case counts as non-trivial if its text was accepted";

struct Stable {
    accepted: bool,
}

impl Visit for Stable {
    fn text<T>(&mut self, c: &mut Ctx, text: &str, ok: fn(&T) -> bool, eq: fn(&T, &T) -> bool) -> R
    where
        T: Parsable + Debug,
        T::ParseError: Debug,
        T::ReconstructionError: Debug,
    {
        let Ok(a) = c.call("parse", || T::parse(text))? else {
            c.count("refused");
            return Ok(());
        };
        if !ok(&a) {
            c.count("accepted, not finite");
            return Ok(());
        }
        self.accepted = true;
        c.count("accepted");
        let out = c.call_ok("reconstruct", || a.reconstruct())?;
        c.note("written", || out.clone());
        let b = c.call_ok("reparse", || T::parse(&out))?;
        c.holds(eq(&a, &b), || format!("what was read from {:?}, written as {:?}, is read as something else: {} became {}", clip(text, 300), clip(&out, 300), clip(&format!("{a:?}"), 300), clip(&format!("{b:?}"), 300)))?;
        let out2 = c.call_ok("reconstruct", || b.reconstruct())?;
        let d = c.call_ok("reparse", || T::parse(&out2))?;
        c.holds(eq(&b, &d), || format!("the second round changed it: {:?} is written as {:?}", clip(&out, 300), clip(&out2, 300)))
    }
}

pub fn stable(c: &mut Ctx) -> R {
    let kind = match c.corner {
        Some(i) => i as usize % (KINDS.len() + 1),
        // the six data files more often
        None if c.t.bool() => c.t.below(6) as usize,
        None => c.t.below(KINDS.len() as u64 + 1) as usize,
    };
    let text = if c.corner.is_some() { valid(&mut c.t, kind) } else { hostile_text(&mut c.t, kind) };
    c.feed(KINDS.get(kind).unwrap_or(&"block"), &text);
    let mut v = Stable { accepted: false };
    visit(&mut v, c, kind, &text)?;
    c.trivial = !v.accepted;
    Ok(())
}

// ------------------------------------------------------------------ C01
pub const RULE01: &str = "hostile input to every public entry point: mutated and junk data files as whole projects taken through parser and API in both directions, texts of all 24 kinds, \
specs and arguments, block lists with random (dangling, cyclic, doubled) references, layouts with random parents, resource file lists, ciphertexts, colors, and API projects with arbitrary \
values; a panic, an abort, a hang or runaway memory is a violation; cases are distinct if the inputs differ";

struct Total;

impl Visit for Total {
    fn text<T>(&mut self, c: &mut Ctx, text: &str, _: fn(&T) -> bool, _: fn(&T, &T) -> bool) -> R
    where
        T: Parsable + Debug,
        T::ParseError: Debug,
        T::ReconstructionError: Debug,
    {
        match c.call("parse", || T::parse(text))? {
            Ok(a) => {
                c.count("accepted");
                if let Ok(o) = c.call("reconstruct", || a.reconstruct())? {
                    let _ = c.call("reparse", || T::parse(&o))?;
                }
                c.call("debug", || format!("{a:?}"))?;
            }
            Err(e) => {
                c.count("refused");
                c.call("debug", || format!("{e:?}"))?;
            }
        }
        Ok(())
    }
}

/// an error and all its causes, printed
fn show(c: &mut Ctx, e: &(dyn std::error::Error + 'static)) -> R {
    c.call("print error", || {
        let mut n = 0;
        let mut cur: Option<&dyn std::error::Error> = Some(e);
        while let Some(x) = cur {
            n += format!("{x} {x:?}").len();
            cur = x.source();
        }
        n
    })?;
    Ok(())
}

fn through(c: &mut Ctx, raw: Raw) -> R {
    let p = match c.call("parse_from", || Parsed::parse_from(raw))? {
        Ok(p) => p,
        Err(e) => {
            c.count("project refused");
            return show(c, &e);
        }
    };
    c.count("project accepted");
    let p2 = p.clone();
    if let Err(e) = c.call("parsed -> raw", || TryInto::<Raw>::try_into(p2))? {
        show(c, &e)?;
    }
    match c.call("parsed -> API", || Api::try_from(p))? {
        Err(e) => {
            c.count("project refused by the API");
            show(c, &e)
        }
        Ok(a) => {
            c.count("API project");
            api_through(c, a)
        }
    }
}

fn api_through(c: &mut Ctx, a: Api) -> R {
    c.call("debug", || format!("{a:?}").len())?;
    for s in &a.screens {
        for e in &s.events {
            c.call("get_block_container_id", || e.get_block_container_id())?;
        }
    }
    let b = a.clone();
    c.call("API -> parsed", || Parsed::from(b))?;
    match c.call("API -> raw", || TryInto::<Raw>::try_into(a))? {
        Err(e) => show(c, &e),
        Ok(raw) => {
            if let Ok(p) = c.call("parse_from", || Parsed::parse_from(raw))? {
                if let Ok(a) = c.call("parsed -> API", || Api::try_from(p))? {
                    c.call("API -> parsed", || Parsed::from(a))?;
                }
            }
            Ok(())
        }
    }
}

fn weird_arg(t: &mut Tape) -> Argument {
    let name = if t.bool() { None } else { Some(token(t)) };
    match t.below(4) {
        0 => Argument::String { name, value: if t.bool() { ArgValue::Value(token(t)) } else { ArgValue::Empty } },
        1 => Argument::Number { name, value: ArgValue::Value(*t.pick(&[f64::NAN, f64::INFINITY, f64::MIN, -0.0, 1e300, 0.1])) },
        2 => Argument::Boolean { name, value: if t.bool() { ArgValue::Value(t.bool()) } else { ArgValue::Empty } },
        _ => Argument::Menu { name: token(t), value: if t.bool() { ArgValue::Value(token(t)) } else { ArgValue::Empty } },
    }
}

fn weird_content(t: &mut Tape) -> BlockContent {
    let mut b = BlockContent::builder();
    for _ in 0..t.below(5) {
        b = if t.bool() { b.text(token(t)) } else { b.arg(weird_arg(t)) };
    }
    b.build()
}

fn weird_views(t: &mut Tape, vs: &mut [AView]) {
    for v in vs {
        if t.chance(1, 3) {
            v.id = if t.bool() { token(t) } else { "root".into() };
        }
        if t.chance(1, 5) {
            v.raw.parent = None;
        }
        weird_views(t, &mut v.children);
    }
}

/// an API project with arbitrary values
fn weird_project(t: &mut Tape, a: &mut Api) {
    a.metadata.name = token(t);
    a.metadata.local_id = t.int(0, 65535) as u16;
    a.metadata.time_created = *t.pick(&[0, 1, u64::MAX, i64::MAX as u64, 1 << 40, 253402300799, 253402300800, 8_210_298_412_800]);
    if t.bool() {
        a.custom_icon = Some(W::U32Id { id: 0, res_full_name: token(t), res_type: *t.pick(&[swrs::parser::ResourceType::CustomIcon, swrs::parser::ResourceType::Font]) });
    }
    for x in &mut a.custom_views {
        if t.bool() {
            x.res_name = token(t);
        }
        weird_views(t, &mut x.layout);
    }
    for s in &mut a.screens {
        if t.chance(1, 3) {
            s.layout_name = token(t);
        }
        if t.chance(1, 3) {
            s.java_name = token(t);
        }
        weird_views(t, &mut s.layout);
        for e in &mut s.events {
            if t.chance(1, 3) {
                e.name = token(t);
            }
            if t.chance(1, 5) {
                e.event_type = match t.below(3) {
                    0 => EventType::ActivityEvent,
                    _ => EventType::ComponentEvent { id: token(t), component_type: t.int(0, 255) as u8 },
                };
            }
            for b in &mut e.code.0 {
                if t.chance(1, 3) {
                    b.content = weird_content(t);
                }
                if t.chance(1, 5) {
                    b.sub_stack1 = Some(Blocks::new());
                }
            }
        }
        for m in s.more_blocks.values_mut() {
            if t.chance(1, 3) {
                m.name = token(t);
                m.spec = weird_content(t);
            }
        }
        for v in s.variables.values_mut() {
            if t.chance(1, 3) {
                v.name = token(t);
            }
        }
        if t.chance(1, 4) {
            let k = token(t);
            s.components.insert(k, ComponentKind::FilePicker { mime_type: token(t) });
        }
    }
}

/// a block record with random references
fn weird_block(t: &mut Tape, n: i64) -> PBlock {
    let r = |t: &mut Tape| if t.chance(1, 3) { -1 } else { t.int(-2, n + 1) };
    let np = t.below(4);
    let mut spec = vec![];
    let mut params = vec![];
    for _ in 0..np {
        spec.push(match t.below(5) {
            0 => token(t),
            1 => "%s".into(),
            2 => "%m.x".into(),
            3 => "%d".into(),
            _ => "%b".into(),
        });
        params.push(match t.below(3) {
            0 => token(t),
            _ => format!("@{}", r(t)),
        });
    }
    let v = json!({"color": t.int(i32::MIN as i64, i32::MAX as i64), "id": if t.chance(9, 10) { t.int(0, n).to_string() } else { token(t) }, "nextBlock": r(t), "opCode": token(t), "parameters": params,
        "spec": spec.join(" "), "subStack1": r(t), "subStack2": r(t), "type": *t.pick(&[" ", "b", "s", "d", "c", "e", "f", "v", "p", "l", "x", ""]), "typeName": *t.pick(&["", "List String", "List Map", "x"])});
    v_to_block(&v)
}

pub fn total(c: &mut Ctx) -> R {
    if let Some(i) = c.corner {
        return deep(c, i);
    }
    match c.t.below(12) {
        0..=2 => {
            let m = gen_project(&mut c.t);
            let mut texts = emit_texts(&mut c.t, &m);
            for _ in 0..1 + c.t.below(2) {
                let k = c.t.below(6) as usize;
                texts[k] = if c.t.chance(1, 8) { junk(&mut c.t) } else { mutate(&mut c.t, &texts[k].clone()) };
            }
            for (i, x) in texts.iter().enumerate() {
                c.feed(FILES[i], x);
            }
            let raw = if c.t.chance(1, 8) {
                let [p, f, l, r, v, g] = texts;
                Raw::new(p, f, l, r, v, g, vec![])
            } else {
                raw_of(&mut c.t, texts, &m)
            };
            through(c, raw)
        }
        3 | 4 => {
            let kind = c.t.below(KINDS.len() as u64 + 1) as usize;
            let text = hostile_text(&mut c.t, kind);
            c.feed(KINDS.get(kind).unwrap_or(&"block"), &text);
            visit(&mut Total, c, kind, &text)
        }
        5 => {
            let n = c.t.below(6);
            let mut ws: Vec<String> = vec![];
            for _ in 0..n {
                ws.push(token(&mut c.t));
            }
            let spec = ws.join(" ");
            let args: Vec<String> = (0..c.t.below(6)).map(|_| token(&mut c.t)).collect();
            c.feed("spec", &spec);
            c.feed("args", &format!("{args:?}"));
            let (s2, a2) = (spec.clone(), args.clone());
            if let Ok(x) = c.call("BlockContent::parse", || BlockContent::parse(s2, a2))? {
                c.call("to_string", || x.to_string())?;
                let y = x.clone();
                c.call("take_args", || y.take_args())?;
                let _ = c.call("apply_blocks", || x.apply_blocks(|_| None))?;
            }
            if let Ok(x) = c.call("parse_wo_params", || BlockContent::parse_wo_params(&spec))? {
                c.call("get_args", || x.get_args().len())?;
                if let Ok(mut y) = c.call("apply_args", || x.apply_args(args))? {
                    c.call("get_args_mut", || y.get_args_mut().len())?;
                    c.call("to_string", || y.to_string())?;
                }
            }
            let ty = token(&mut c.t);
            let tn = token(&mut c.t);
            if let Ok(b) = c.call("BlockType::from", || swrs::api::block::BlockType::from(&ty, tn))? {
                c.call("BlockType", || (b.to_string(), b.get_typename()))?;
            }
            Ok(())
        }
        6 => {
            let n = c.t.below(12) as i64;
            let list: Vec<PBlock> = (0..n).map(|_| weird_block(&mut c.t, n)).collect();
            c.feed("blocks", &format!("{list:?}"));
            match c.call("Blocks::try_from", || Blocks::try_from(BlockContainer(list)))? {
                Err(e) => show(c, &e),
                Ok(b) => {
                    c.count("block list accepted");
                    let _: BlockContainer = c.call("Blocks -> list", || b.into())?;
                    Ok(())
                }
            }
        }
        7 => {
            let n = c.t.below(14) as i64;
            let mut list = vec![];
            for _ in 0..n {
                let mut v = gen(&mut c.t, schema::VIEW);
                let id = |t: &mut Tape| if t.chance(1, 4) { "root".to_string() } else { format!("v{}", t.below(n as u64)) };
                v["id"] = V::String(id(&mut c.t));
                if c.t.chance(9, 10) {
                    v["parent"] = V::String(id(&mut c.t));
                } else {
                    v.as_object_mut().unwrap().remove("parent");
                }
                c.feed_v("view", &v);
                list.push(v_to_view(&v));
            }
            match c.call("parse_raw_layout", || parse_raw_layout(Layout(list)))? {
                Err(e) => show(c, &e),
                Ok(vs) => {
                    c.count("layout accepted");
                    for v in &vs {
                        c.call("find_id", || v.find_id("v1").is_some())?;
                        let _ = c.call("ViewType::from_view", || ViewType::from_view(&v.raw))?;
                    }
                    let (a, b) = (if c.t.bool() { None } else { Some(token(&mut c.t)) }, if c.t.bool() { None } else { Some(c.t.int(0, 255) as u8) });
                    let flat = c.call("flatten_views", || flatten_views(vs, a, b))?;
                    let _ = c.call("parse_raw_layout", || parse_raw_layout(Layout(flat)))?;
                    Ok(())
                }
            }
        }
        8 => {
            let x = token(&mut c.t);
            c.feed("hex", &x);
            if let Ok(col) = c.call("parse_hex", || Color::parse_hex(&x))? {
                c.call("color", || (format!("{col} {col:?}"), col.rgb(), col.alpha()))?;
                let _ = c.call("BlockCategory", || BlockCategory::try_from(col))?;
            }
            let d = c.t.bytes(200);
            c.feed("bytes", &format!("{d:?}"));
            let _ = c.call("decrypt", || swrs::decrypt_sw_encrypted(&d))?;
            let x: Vec<Vec<u8>> = (0..6).map(|_| if c.t.bool() { swrs::encrypt_sw(junk(&mut c.t).as_bytes()) } else { c.t.bytes(64) }).collect();
            if let Ok(raw) = c.call("from_encrypted", || Raw::from_encrypted_wo_res(x[0].clone(), x[1].clone(), x[2].clone(), x[3].clone(), x[4].clone(), x[5].clone()))? {
                through(c, raw)?;
            }
            Ok(())
        }
        9 => {
            let n = c.t.below(6);
            let mut ws = vec![];
            for _ in 0..n {
                let full = token(&mut c.t);
                let rt = proj::res_type(*c.t.pick(&["images", "sounds", "fonts", "icon"]));
                ws.push(match c.t.below(4) {
                    0 => W::StringId { id: token(&mut c.t), res_full_name: full, res_type: rt },
                    1 => W::U32Id { id: c.t.int(0, u32::MAX as i64) as u32, res_full_name: full, res_type: rt },
                    2 => W::Path(PathBuf::from(*c.t.pick(&["", "/", ".", "..", "a", "/nonexistent/x", "images", "/proc/self/status", "/etc/../etc/hostname", "./", "/images/a/b"]))),
                    _ => W::make_random_id(full, rt),
                });
            }
            c.feed("wrappers", &format!("{ws:?}"));
            match c.call("ResourceFiles", || ResourceFiles::try_from(ws))? {
                Err(e) => show(c, &e),
                Ok(f) => {
                    let _: Vec<W> = c.call("ResourceFiles -> list", || f.into())?;
                    Ok(())
                }
            }
        }
        10 => {
            // records of unknown kinds
            let ev = json!({"eventName": token(&mut c.t), "eventType": c.t.int(0, 255), "targetId": token(&mut c.t), "targetType": c.t.int(0, 255)});
            c.feed_v("event", &ev);
            if let Ok(e) = c.call("Event::try_from", || Event::try_from(v_to_event(&ev)))? {
                c.call("get_block_container_id", || e.get_block_container_id())?;
                c.call("into_parser_event", || e.into_parser_event())?;
            }
            let cm = gen(&mut c.t, schema::COMPONENT);
            c.feed_v("component", &cm);
            if let Ok(k) = c.call("ComponentKind", || ComponentKind::from_parser_component(&v_to_component(&cm)))? {
                c.call("into_parser_component", || k.into_parser_component("x".into()))?;
            }
            let mut v = gen(&mut c.t, schema::VIEW);
            v["type"] = json!(c.t.int(0, 255));
            c.feed_v("view", &v);
            let av = v_to_view(&v);
            let x = c.call("View::from", || AView::from(av))?;
            c.call("flatten_views", || flatten_views(vec![x], None, None))?;
            Ok(())
        }
        _ => {
            let mut m = gen_project(&mut c.t);
            while m["files"].is_null() {
                m = gen_project(&mut c.t);
            }
            for k in sect::RES {
                m["res"][k] = json!([]);
            }
            let mut a = match api_build(&mut c.t, &m, false) {
                Ok(a) => a,
                Err(e) => return viol(e),
            };
            weird_project(&mut c.t, &mut a);
            c.feed("API project", &format!("{a:?}"));
            api_through(c, a)
        }
    }
}

// ------------------------------------------------------------------ deep nesting
/// levels of nesting that have to work, and levels that are known to overflow the stack
const PROBE_CPU_S: u64 = 60;
const DEPTHS: [u64; 4] = [50, 200, 3000, 20_000];
const DEEP_KINDS: [&str; 4] = ["substacks", "arguments", "views", "chain"];
pub const NDEEP: u64 = 16;

fn deep(c: &mut Ctx, i: u64) -> R {
    let kind = DEEP_KINDS[(i / 4) as usize % 4];
    let depth = DEPTHS[(i % 4) as usize];
    c.feed("deep", &format!("{kind} {depth}"));
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["probe", kind, &depth.to_string()]).output().expect("spawn");
    c.count("probes");
    if o.status.success() {
        return Ok(());
    }
    use std::os::unix::process::ExitStatusExt;
    let err = String::from_utf8_lossy(&o.stderr);
    if o.status.signal() == Some(24) {
        return viol(format!("{kind} nested {depth} levels deep: not converted within {PROBE_CPU_S} s of CPU time"));
    }
    let what = format!("{kind} nested {depth} levels deep: the process ended with {:?} (signal {:?}): {}", o.status.code(), o.status.signal(), clip(&err, 300));
    if depth >= 3000 && kind != "chain" && o.status.signal() == Some(6) && err.contains("overflowed its stack") {
        c.known.insert(format!("deep-{kind}"));
        return Ok(());
    }
    viol(what)
}

/// runs in a process of its own, on a thread with the default stack
pub fn probe(a: &[String]) -> i32 {
    // the deepest of them takes a third of a second and some megabytes
    crate::run::limit_process(PROBE_CPU_S, 8 << 30);
    let depth: usize = a[1].parse().unwrap();
    let kind = a[0].clone();
    std::thread::spawn(move || {
        let b = |id: usize, next: i64, spec: &str, params: Vec<String>, s1: i64| {
            v_to_block(&json!({"color": 1, "id": id.to_string(), "nextBlock": next, "opCode": "x", "parameters": params, "spec": spec, "subStack1": s1, "subStack2": -1, "type": " ", "typeName": ""}))
        };
        let last = depth;
        let list: Vec<PBlock> = match kind.as_str() {
            "substacks" => (1..=depth).map(|i| b(i, -1, "x", vec![], if i == last { -1 } else { i as i64 + 1 })).collect(),
            "arguments" => (1..=depth).map(|i| b(i, -1, "%s", vec![if i == last { "x".into() } else { format!("@{}", i + 1) }], -1)).collect(),
            "chain" => (1..=depth).map(|i| b(i, if i == last { -1 } else { i as i64 + 1 }, "x", vec![], -1)).collect(),
            _ => {
                // views: deeper means quadratic time, so a smaller number is enough
                let depth = depth.min(6_000);
                let mut v: Vec<AndroidView> = vec![];
                for i in 0..depth {
                    let parent = if i == 0 { "root".to_string() } else { format!("v{}", i - 1) };
                    v.push(AndroidView::new_empty(&format!("v{i}"), 0, &parent, 0));
                }
                let tree = parse_raw_layout(Layout(v)).expect("layout");
                let flat = flatten_views(tree, None, None);
                assert_eq!(flat.len(), depth);
                return;
            }
        };
        let n = list.len();
        let blocks = Blocks::try_from(BlockContainer(list)).expect("blocks");
        let back: BlockContainer = blocks.into();
        assert_eq!(back.0.len(), n);
    })
    .join()
    .map_or(3, |_| 0)
}

// ------------------------------------------------------------------ C25
pub const RULE25: &str = "valid, mutated and junk data files and projects of 0 bytes to some hundred kilobytes, taken through parse, reconstruct and the API under a counting allocator: \
the bytes held at the peak are compared with the size of the input, and after everything is dropped nothing may be left, neither of an input seen before nor of a thousand different ones; cases are distinct if the inputs differ";

/// bytes that may be held per byte of input, and on top of it
const PER_BYTE: i64 = 100;
const BASE: i64 = 1 << 20;

/// runs a monitored step twice; the second time nothing of it may be left in memory afterwards
fn measured(c: &mut Ctx, op: &'static str, size: usize, f: &dyn Fn()) -> R {
    c.call(op, f)?;
    let s = alloc::start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let (peak, left) = (alloc::peak_since(s), alloc::live_since(s));
    if r.is_err() {
        return viol(format!("{op} panicked: {}", crate::rt::last_panic()));
    }
    c.count("measurements");
    c.count_n("bytes held at peaks", peak.max(0) as u64);
    let cap = BASE + PER_BYTE * size as i64;
    c.holds(peak <= cap, || format!("{op} of {size} bytes of input held {peak} bytes, allowed are {cap}"))?;
    c.holds(left == 0, || format!("{op} left {left} bytes allocated after everything it gave was dropped"))
}

struct Mem;

impl Visit for Mem {
    fn text<T>(&mut self, c: &mut Ctx, text: &str, _: fn(&T) -> bool, _: fn(&T, &T) -> bool) -> R
    where
        T: Parsable + Debug,
        T::ParseError: Debug,
        T::ReconstructionError: Debug,
    {
        measured(c, "parse", text.len(), &|| drop(T::parse(text)))?;
        if let Ok(Ok(a)) = std::panic::catch_unwind(|| T::parse(text).map_err(|_| ())) {
            measured(c, "reconstruct", text.len(), &|| drop(a.reconstruct()))?;
        }
        Ok(())
    }
}

/// whole projects that are large or deep in one respect
pub const NWIDE25: u64 = crate::proj::NWIDE + crate::blk::NBIG + 4;

fn large(c: &mut Ctx, i: u64) -> R {
    use crate::proj::NWIDE;
    let small = |t: &mut Tape| loop {
        let m = gen_project(t);
        if m["screens"].as_array().unwrap().len() == 1 {
            break m;
        }
    };
    let m = if i < NWIDE {
        crate::proj::wide_project(&mut c.t, i)
    } else {
        let mut m = small(&mut c.t);
        let k = i - NWIDE;
        if k < crate::blk::NBIG {
            m["screens"][0]["create"] = crate::blk::big_code(k);
        } else {
            // code in which the deepest reference is wrong, and many levels with much at each
            let mut v = crate::blk::big_code(6);
            for _ in 0..2 {
                let mut x = v[0].clone();
                x["type"] = json!("c");
                x["ss1"] = v;
                x["ss2"] = V::Null;
                v = json!([x]);
            }
            m["screens"][0]["create"] = v;
            let mut f: Vec<V> = vec![];
            for d in 0..250 {
                let mut l: Vec<V> = (0..20)
                    .map(|w| {
                        let mut n = crate::views::gen_node(&mut c.t, &mut std::collections::HashSet::new());
                        n["id"] = json!(format!("d{d}w{w}"));
                        n
                    })
                    .collect();
                l[(d * 7) % 20]["type"] = json!(0);
                l[(d * 7) % 20]["children"] = V::Array(f);
                f = l;
            }
            m["screens"][0]["layout"] = V::Array(f);
        }
        m
    };
    let mut texts = emit_texts(&mut c.t, &m);
    if i >= NWIDE + crate::blk::NBIG {
        // the same with something wrong deep inside
        match i - NWIDE - crate::blk::NBIG {
            1 => texts[5] = texts[5].replacen("\"subStack1\":-1", "\"subStack1\":999999", 1),
            2 => {
                let at = texts[4].rfind("\"parent\"").unwrap_or(0);
                texts[4].insert_str(at, "\"parentType\":\"x\",");
            }
            3 => {
                let at = texts[5].rfind("\"id\"").unwrap_or(0);
                texts[5].insert_str(at, "\"nextBlock\":999998,");
            }
            _ => {}
        }
    }
    through_measured(c, texts, &m)
}

fn through_measured(c: &mut Ctx, texts: [String; 6], m: &V) -> R {
    let mut size = 0;
    for (i, x) in texts.iter().enumerate() {
        c.feed(FILES[i], x);
        size += x.len();
    }
    let raw = raw_of(&mut c.t, texts, m);
    size += raw.resource_files.as_ref().map_or(0, |w| format!("{w:?}").len());
    measured(c, "parse_from", size, &|| drop(Parsed::parse_from(raw.clone())))?;
    let Ok(p) = Parsed::parse_from(raw) else { return Ok(()) };
    measured(c, "parsed -> raw", size, &|| drop(TryInto::<Raw>::try_into(p.clone())))?;
    measured(c, "parsed -> API", size, &|| drop(Api::try_from(p.clone())))?;
    let Ok(a) = Api::try_from(p) else { return Ok(()) };
    measured(c, "API -> parsed", size, &|| drop(Parsed::from(a.clone())))?;
    measured(c, "API -> raw", size, &|| drop(TryInto::<Raw>::try_into(a.clone())))
}

pub const NSOAK: u64 = 3;

/// many different small inputs one after the other: what is kept of each of them adds up. What the first
/// ones leave behind (tables built once, buffers kept for reuse) does not count
fn soak(c: &mut Ctx, i: u64) -> R {
    let (mut held, mut largest, mut n, mut size) = (0i64, 0usize, 0u64, 0u64);
    let mut step = |c: &mut Ctx, warm: bool| -> R {
        let (texts, m) = loop {
            let m = gen_project(&mut c.t);
            let mut texts = emit_texts(&mut c.t, &m);
            if i > 0 {
                // malformed ones, of which everything before the defect is read
                let k = c.t.below(6) as usize;
                texts[k] = if i == 1 { break_text(&mut c.t, k, &texts[k]).text } else { mutate(&mut c.t, &texts[k].clone()) };
            }
            if texts.iter().map(|x| x.len()).sum::<usize>() < 12_000 {
                break (texts, m);
            }
        };
        let len: usize = texts.iter().map(|x| x.len()).sum();
        for (k, x) in texts.iter().enumerate() {
            c.feed(FILES[k], x);
        }
        let raw = raw_of(&mut c.t, texts, &m);
        let s = alloc::start();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let raw = raw.clone();
            let enc = swrs::encrypt_sw(raw.project.as_bytes());
            drop(swrs::decrypt_sw_encrypted(&enc));
            // the parts that can be used on their own
            let (a, b) = raw.logic.split_at(raw.logic.char_indices().nth(60).map_or(0, |x| x.0));
            drop(swrs::decrypt_sw_encrypted(a.as_bytes()).map_err(|e| format!("{e} {e:?}")));
            drop(swrs::color::Color::parse_hex(a).map_err(|e| format!("{e} {e:?}")));
            drop(BlockContent::parse(b.chars().take(300).collect(), vec![a.to_string(), format!("@{a}")]).map(|x| x.to_string()).map_err(|e| format!("{e} {e:?}")));
            let mut r = swrs::api::Resources::new_empty();
            for k in [swrs::parser::ResourceType::Image, swrs::parser::ResourceType::Sound, swrs::parser::ResourceType::Image] {
                let id = swrs::api::ResourceId(format!("{a}{k:?}"));
                drop(r.put_resource(id.clone(), W::make_random_id(a.to_string(), k), k).map_err(|e| format!("{e} {e:?}")));
                drop(r.put_resource(id.clone(), W::Path(std::path::Path::new("missing").join(a)), k).map_err(|e| format!("{e} {e:?}")));
                drop(r.remove_resource(&id));
            }
            match Parsed::parse_from(raw) {
                Err(e) => drop(format!("{e} {e:?}")),
                Ok(p) => {
                    drop(TryInto::<Raw>::try_into(p.clone()));
                    match Api::try_from(p) {
                        Err(e) => drop(format!("{e} {e:?}")),
                        Ok(a) => drop(TryInto::<Raw>::try_into(a)),
                    }
                }
            }
        }));
        if r.is_err() {
            return viol(format!("panic: {}", crate::rt::last_panic()));
        }
        if !warm {
            held += alloc::live_since(s);
            largest = largest.max(len);
            n += 1;
            size += len as u64;
        }
        Ok(())
    };
    for k in 0..1500 {
        step(c, k < 500)?;
    }
    c.count_n("inputs soaked", n);
    let cap = 2 * largest as i64 + 4096;
    c.holds(held <= cap, || format!("{n} different projects ({size} bytes altogether, the largest one {largest}), each dropped before the next, left {held} bytes allocated"))
}

pub fn memory(c: &mut Ctx) -> R {
    if let Some(i) = c.corner {
        if i >= NWIDE25 {
            return soak(c, i - NWIDE25);
        }
        // the deep ones first, the long ones last
        return large(c, NWIDE25 - 1 - i);
    }
    match c.t.below(6) {
        0..=2 => {
            let kind = c.t.below(KINDS.len() as u64 + 1) as usize;
            let mut text = if c.t.bool() { valid(&mut c.t, kind) } else { hostile_text(&mut c.t, kind) };
            if c.t.chance(1, 6) && text.len() < 4000 {
                let n = c.t.range(2, 60) as usize;
                text = vec![text; n].join("\n");
            }
            c.feed(KINDS.get(kind).unwrap_or(&"block"), &text);
            visit(&mut Mem, c, kind, &text)
        }
        _ => {
            let m = gen_project(&mut c.t);
            let mut texts = emit_texts(&mut c.t, &m);
            if c.t.chance(1, 3) {
                let k = c.t.below(6) as usize;
                texts[k] = mutate(&mut c.t, &texts[k].clone());
            }
            through_measured(c, texts, &m)
        }
    }
}
