//! Models of the six data files as plain values: generator, emitter, independent reader, and the
//! observation of swrs' parsed structures in the same shape.
//!
//! shapes: file `{activity:[item], customview:[item]}`, library `{firebaseDB, compat, admob,
//! googleMap}`, resource `{images, sounds, fonts}`, view `{layouts:[{name, views}], fabs:[{name,
//! view}]}`, logic `{screens:{name:{var, list, components, events, func, blocks:[{name, blocks}]}}}`
use crate::conv::*;
use crate::schema::{self, emit, gen, num, s, Style};
use crate::tape::Tape;
use serde_json::{json, Map, Value as V};
use std::collections::HashSet;
use swrs::parser::file::File;
use swrs::parser::library::Library;
use swrs::parser::logic::component::ComponentPool;
use swrs::parser::logic::event::EventPool;
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool, VariableType};
use swrs::parser::logic::{BlockContainer, Logic, ScreenLogic};
use swrs::parser::resource::Resource;
use swrs::parser::view::{Layout, View};
use swrs::LinkedHashMap;

pub fn arr(v: &V) -> &Vec<V> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {v}"))
}
pub fn st(v: &V) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {v}"))
}

fn read_record(line: &str) -> Result<V, String> {
    let v: V = serde_json::from_str(line).map_err(|e| format!("line {line:?} is not a JSON record: {e}"))?;
    if v.is_object() { Ok(v) } else { Err(format!("line {line:?} is not a JSON object")) }
}

/// nothing, or a few additional empty lines (which carry no information)
fn blanks(t: &mut Tape, on: bool) -> String {
    if on && t.chance(1, 2) { "\n".repeat(1 + t.below(3) as usize) } else { String::new() }
}

/// sections `(header, record lines)` as a text; blank lines anywhere
fn join_sections(t: &mut Tape, secs: &[(String, Vec<String>)]) -> String {
    let on = t.chance(1, 5);
    let mut lines: Vec<String> = vec![];
    for (h, ls) in secs {
        for l in std::iter::once(h).chain(ls) {
            lines.push(blanks(t, on) + l);
        }
    }
    let mut out = lines.join("\n");
    match t.below(4) {
        0 => out.push('\n'),
        1 => out.push_str("\n\n"),
        _ => {}
    }
    out
}

fn emit_recs(t: &mut Tape, recs: &V) -> Vec<String> {
    arr(recs)
        .iter()
        .map(|r| {
            let style = Style::gen(t);
            emit(r, t, style)
        })
        .collect()
}

/// n records, sometimes with one of them twice
fn gens(t: &mut Tape, n: usize, sc: schema::Schema) -> Vec<V> {
    let mut out: Vec<V> = (0..n).map(|_| gen(t, sc)).collect();
    t.echo(&mut out);
    out
}

// ------------------------------------------------------------------ file
pub fn gen_file(t: &mut Tape) -> V {
    let n = t.count_big(300);
    let m = t.count_big(300);
    json!({
        "activity": gens(t, n, schema::FILE_ITEM),
        "customview": gens(t, m, schema::FILE_ITEM),
    })
}

fn emit_kinds(t: &mut Tape, m: &V, kinds: &[&str]) -> String {
    let mut secs: Vec<(String, Vec<String>)> = vec![];
    for k in kinds {
        let recs = emit_recs(t, &m[*k]);
        if recs.is_empty() && t.chance(1, 3) {
            continue;
        }
        if recs.len() >= 2 && t.chance(1, 12) {
            // a section may be continued under a repeated header
            let cut = 1 + t.below(recs.len() as u64 - 1) as usize;
            secs.push((format!("@{k}"), recs[..cut].to_vec()));
            secs.push((format!("@{k}"), recs[cut..].to_vec()));
        } else {
            secs.push((format!("@{k}"), recs));
        }
    }
    if !secs.is_empty() && t.chance(1, 8) {
        // stable with respect to the order inside of one section
        let first: Vec<_> = secs.iter().filter(|x| x.0 == secs[secs.len() - 1].0).cloned().collect();
        let rest: Vec<_> = secs.iter().filter(|x| x.0 != secs[secs.len() - 1].0).cloned().collect();
        secs = first.into_iter().chain(rest).collect();
    }
    join_sections(t, &secs)
}

pub fn emit_file(t: &mut Tape, m: &V) -> String {
    emit_kinds(t, m, &["activity", "customview"])
}

fn read_kinds(text: &str, kinds: &[&str]) -> Result<V, String> {
    let mut m = Map::new();
    for k in kinds {
        m.insert(k.to_string(), V::Array(vec![]));
    }
    let mut cur: Option<String> = None;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(h) = line.strip_prefix('@') {
            if !kinds.contains(&h) {
                return Err(format!("unknown section {line:?}"));
            }
            cur = Some(h.to_string());
            continue;
        }
        let Some(k) = &cur else { return Err(format!("line {line:?} outside of any section")) };
        let r = read_record(line)?;
        m.get_mut(k).unwrap().as_array_mut().unwrap().push(r);
    }
    Ok(V::Object(m))
}

pub fn read_file(text: &str) -> Result<V, String> {
    read_kinds(text, &["activity", "customview"])
}

pub fn file_obs(f: &File) -> V {
    json!({
        "activity": f.activities.iter().map(file_item_to_v).collect::<Vec<_>>(),
        "customview": f.custom_views.iter().map(file_item_to_v).collect::<Vec<_>>(),
    })
}

pub fn file_build(m: &V) -> File {
    File {
        activities: arr(&m["activity"]).iter().map(v_to_file_item).collect(),
        custom_views: arr(&m["customview"]).iter().map(v_to_file_item).collect(),
    }
}

// ------------------------------------------------------------------ library
pub const LIBS: [&str; 4] = ["firebaseDB", "compat", "admob", "googleMap"];

pub fn gen_library(t: &mut Tape) -> V {
    let mut m = Map::new();
    for k in LIBS {
        m.insert(k.into(), gen(t, schema::LIBRARY_ITEM));
    }
    V::Object(m)
}

pub fn emit_library(t: &mut Tape, m: &V) -> String {
    let mut ks = LIBS.to_vec();
    if t.chance(1, 2) {
        t.shuffle(&mut ks);
    }
    let blanks = t.chance(1, 6);
    let mut out = String::new();
    for k in ks {
        let style = Style::gen(t);
        out.push_str(&format!("@{k}\n{}\n", emit(&m[k], t, style)));
        if blanks && t.bool() {
            out.push('\n');
        }
    }
    if t.chance(2, 3) {
        out.truncate(out.trim_end_matches('\n').len());
    }
    out
}

pub fn read_library(text: &str) -> Result<V, String> {
    let mut m = Map::new();
    let mut lines = text.split('\n').filter(|l| !l.is_empty());
    while let Some(h) = lines.next() {
        let Some(k) = h.strip_prefix('@') else { return Err(format!("expected a section header, got {h:?}")) };
        if !LIBS.contains(&k) {
            return Err(format!("unknown section {h:?}"));
        }
        let rec = read_record(lines.next().ok_or("section without a record")?)?;
        if m.insert(k.to_string(), rec).is_some() {
            return Err(format!("section {h:?} twice"));
        }
    }
    for k in LIBS {
        if !m.contains_key(k) {
            return Err(format!("section {k} is missing"));
        }
    }
    Ok(V::Object(m))
}

pub fn library_obs(l: &Library) -> V {
    json!({
        "firebaseDB": library_item_to_v(&l.firebase_db),
        "compat": library_item_to_v(&l.compat),
        "admob": library_item_to_v(&l.admob),
        "googleMap": library_item_to_v(&l.google_map),
    })
}

pub fn library_build(m: &V) -> Library {
    Library {
        firebase_db: v_to_library_item(&m["firebaseDB"]),
        compat: v_to_library_item(&m["compat"]),
        admob: v_to_library_item(&m["admob"]),
        google_map: v_to_library_item(&m["googleMap"]),
    }
}

// ------------------------------------------------------------------ resource
pub const RES: [&str; 3] = ["images", "sounds", "fonts"];

pub fn gen_resource(t: &mut Tape) -> V {
    let mut m = Map::new();
    for k in RES {
        let n = t.count_big(300);
        m.insert(k.into(), V::Array({ let n = n; gens(t, n, schema::RESOURCE_ITEM) }));
    }
    V::Object(m)
}

pub fn emit_resource(t: &mut Tape, m: &V) -> String {
    emit_kinds(t, m, &RES)
}

pub fn read_resource(text: &str) -> Result<V, String> {
    read_kinds(text, &RES)
}

pub fn resource_obs(r: &Resource) -> V {
    json!({
        "images": r.images.iter().map(resource_item_to_v).collect::<Vec<_>>(),
        "sounds": r.sounds.iter().map(resource_item_to_v).collect::<Vec<_>>(),
        "fonts": r.fonts.iter().map(resource_item_to_v).collect::<Vec<_>>(),
    })
}

pub fn resource_build(m: &V) -> Resource {
    let f = |k: &str| arr(&m[k]).iter().map(v_to_resource_item).collect();
    Resource { images: f("images"), sounds: f("sounds"), fonts: f("fonts") }
}

// ------------------------------------------------------------------ view
pub fn gen_view_file(t: &mut Tape) -> V {
    let mut used = HashSet::new();
    let nl = t.count().min(14);
    let layouts: Vec<V> = (0..nl)
        .map(|_| {
            let name = t.fresh(&mut used, &['.', '\n'], &|_| false);
            let n = t.count_big(60);
            json!({"name": name, "views": gens(t, n, schema::VIEW)})
        })
        .collect();
    let nf = if t.bool() { 0 } else { t.count().min(10) };
    let mut used = HashSet::new();
    let fabs: Vec<V> = (0..nf)
        .map(|i| {
            let name = if i < layouts.len() && t.bool() { st(&layouts[i]["name"]).to_string() } else { t.name_wo(&['.', '\n']) };
            (name, gen(t, schema::VIEW))
        })
        .filter(|(n, _)| used.insert(n.clone()))
        .map(|(name, v)| json!({"name": name, "view": v}))
        .collect();
    json!({"layouts": layouts, "fabs": fabs})
}

pub fn emit_view_file(t: &mut Tape, m: &V) -> String {
    // layout sections end with an empty line; a fab section is a header and one record
    let mut secs: Vec<String> = vec![];
    for l in arr(&m["layouts"]) {
        let mut x = format!("@{}.xml\n", st(&l["name"]));
        for r in emit_recs(t, &l["views"]) {
            x.push_str(&r);
            x.push('\n');
        }
        x.push('\n');
        secs.push(x);
    }
    for f in arr(&m["fabs"]) {
        let style = Style::gen(t);
        secs.push(format!("@{}.xml_fab\n{}\n", st(&f["name"]), emit(&f["view"], t, style)));
    }
    if t.chance(1, 6) {
        // fabs may come before layouts (the order among layouts and among fabs is kept)
        let (mut f, mut l): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for x in secs {
            if x.split('\n').next().unwrap().ends_with(".xml_fab") { f.push(x) } else { l.push(x) }
        }
        let mut out = vec![];
        while !f.is_empty() || !l.is_empty() {
            if l.is_empty() || (!f.is_empty() && t.bool()) {
                out.push(f.remove(0));
            } else {
                out.push(l.remove(0));
            }
        }
        secs = out;
    }
    let on = t.chance(1, 5);
    let mut out: String = secs.iter().map(|x| blanks(t, on) + x).collect();
    out += &blanks(t, on);
    if t.chance(2, 3) {
        out.truncate(out.trim_end_matches('\n').len());
    }
    out
}

pub fn read_view_file(text: &str) -> Result<V, String> {
    let (mut layouts, mut fabs): (Vec<V>, Vec<V>) = (vec![], vec![]);
    let mut cur_fab = false;
    for line in text.split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(h) = line.strip_prefix('@') {
            if let Some(n) = h.strip_suffix(".xml") {
                layouts.push(json!({"name": n, "views": []}));
                cur_fab = false;
            } else if let Some(n) = h.strip_suffix(".xml_fab") {
                fabs.push(json!({"name": n}));
                cur_fab = true;
            } else {
                return Err(format!("unknown section {line:?}"));
            }
            continue;
        }
        let r = read_record(line)?;
        if cur_fab {
            let f = fabs.last_mut().unwrap();
            if f.get("view").is_some() {
                return Err("fab section with two records".into());
            }
            f["view"] = r;
        } else {
            layouts.last_mut().ok_or("record outside of any section")?["views"].as_array_mut().unwrap().push(r);
        }
    }
    let mut seen = HashSet::new();
    for l in &layouts {
        if !seen.insert(st(&l["name"]).to_string()) {
            return Err(format!("layout {} twice", l["name"]));
        }
    }
    for f in &fabs {
        if f.get("view").is_none() {
            return Err("fab section without a record".into());
        }
    }
    Ok(json!({"layouts": layouts, "fabs": fabs}))
}

pub fn view_file_obs(v: &View) -> V {
    json!({
        "layouts": v.layouts.iter().map(|(n, l)| json!({"name": n, "views": l.0.iter().map(view_to_v).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "fabs": v.fabs.iter().map(|(n, f)| json!({"name": n, "view": view_to_v(f)})).collect::<Vec<_>>(),
    })
}

pub fn view_file_build(m: &V) -> View {
    View {
        layouts: arr(&m["layouts"]).iter().map(|l| (st(&l["name"]).to_string(), Layout(arr(&l["views"]).iter().map(v_to_view).collect()))).collect(),
        fabs: arr(&m["fabs"]).iter().map(|f| (st(&f["name"]).to_string(), v_to_view(&f["view"]))).collect(),
    }
}

// ------------------------------------------------------------------ logic
pub const POOLS: [&str; 5] = ["var", "list", "components", "events", "func"];

pub fn gen_vars(t: &mut Tape, max: usize) -> V {
    let mut used = HashSet::new();
    let n = t.count_big(max);
    V::Array(
        (0..n)
            .map(|_| {
                let ty = t.below(4) as i64;
                json!({"type": ty, "name": t.fresh(&mut used, &['\n'], &|_| false)})
            })
            .collect(),
    )
}

pub fn gen_funcs(t: &mut Tape, max: usize) -> V {
    let mut used = HashSet::new();
    let n = t.count_big(max);
    V::Array((0..n).map(|_| json!({"id": t.fresh(&mut used, &['\n', ':'], &|_| false), "spec": t.string_wo(&['\n'])})).collect())
}

fn container_forbidden(n: &str) -> bool {
    POOLS.contains(&n) || POOLS.iter().any(|p| n.ends_with(&format!(".java_{p}")))
}

pub fn gen_logic(t: &mut Tape) -> V {
    let mut screens = Map::new();
    let mut used = HashSet::new();
    let ns = t.count().min(12);
    for _ in 0..ns {
        let name = t.fresh(&mut used, &['\n'], &|n| n.contains(".java_"));
        let mut m = Map::new();
        let mut any = false;
        for k in POOLS {
            if t.chance(1, 3) {
                continue;
            }
            any = true;
            let v = match k {
                "var" | "list" => gen_vars(t, 200),
                "components" => V::Array({ let n = t.count_big(100); gens(t, n, schema::COMPONENT) }),
                "events" => V::Array({ let n = t.count_big(100); gens(t, n, schema::EVENT) }),
                _ => gen_funcs(t, 100),
            };
            m.insert(k.into(), v);
        }
        let mut cused = HashSet::new();
        let mut nc = if t.bool() { 0 } else { t.count().min(10) };
        if !any && nc == 0 {
            nc = 1;
        }
        let conts: Vec<V> = (0..nc)
            .map(|_| {
                let cn = t.fresh(&mut cused, &['\n'], &container_forbidden);
                let nb = t.count_big(150);
                json!({"name": cn, "blocks": gens(t, nb, schema::BLOCK)})
            })
            .collect();
        m.insert("blocks".into(), V::Array(conts));
        screens.insert(name, V::Object(m));
    }
    json!({"screens": screens})
}

pub fn pool_lines(t: &mut Tape, kind: &str, pool: &V) -> Vec<String> {
    match kind {
        "var" | "list" => arr(pool).iter().map(|x| format!("{}:{}", x["type"], st(&x["name"]))).collect(),
        "func" => arr(pool).iter().map(|x| format!("{}:{}", st(&x["id"]), st(&x["spec"]))).collect(),
        _ => emit_recs(t, pool),
    }
}

pub fn emit_logic(t: &mut Tape, m: &V) -> String {
    // sections of all screens, mixed; the containers of one screen keep their order
    let mut secs: Vec<(Option<String>, String)> = vec![];
    for (name, sc) in m["screens"].as_object().unwrap() {
        for k in POOLS {
            if let Some(p) = sc.get(k) {
                let lines = pool_lines(t, k, p);
                secs.push((None, section(&format!("@{name}.java_{k}"), &lines)));
            }
        }
        for c in arr(&sc["blocks"]) {
            let lines = emit_recs(t, &c["blocks"]);
            secs.push((Some(name.clone()), section(&format!("@{name}.java_{}", st(&c["name"])), &lines)));
        }
    }
    if t.chance(1, 2) {
        let orders: Vec<(Option<String>, String)> = secs.clone();
        t.shuffle(&mut secs);
        // put the containers of each screen back in their order
        let mut by: std::collections::HashMap<String, std::collections::VecDeque<String>> = Default::default();
        for (k, x) in orders {
            if let Some(k) = k {
                by.entry(k).or_default().push_back(x);
            }
        }
        for (k, x) in secs.iter_mut() {
            if let Some(k) = k {
                *x = by.get_mut(k).unwrap().pop_front().unwrap();
            }
        }
    }
    let on = t.chance(1, 5);
    let mut out: String = secs.into_iter().map(|x| blanks(t, on) + &x.1).collect();
    out += &blanks(t, on);
    if t.chance(2, 3) {
        out.truncate(out.trim_end_matches('\n').len());
    }
    out
}

fn section(header: &str, lines: &[String]) -> String {
    let mut x = format!("{header}\n");
    for l in lines {
        x.push_str(l);
        x.push('\n');
    }
    x.push('\n');
    x
}

pub fn read_pool(kind: &str, lines: &[&str]) -> Result<V, String> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    for l in lines {
        out.push(match kind {
            "var" | "list" => {
                let (ty, name) = l.split_once(':').ok_or(format!("variable line {l:?} without a colon"))?;
                let ty: i64 = ty.parse().map_err(|_| format!("variable line {l:?} without a type"))?;
                if !seen.insert(name.to_string()) {
                    return Err(format!("variable {name:?} twice"));
                }
                json!({"type": ty, "name": name})
            }
            "func" => {
                let (id, spec) = l.split_once(':').ok_or(format!("moreblock line {l:?} without a colon"))?;
                if !seen.insert(id.to_string()) {
                    return Err(format!("moreblock {id:?} twice"));
                }
                json!({"id": id, "spec": spec})
            }
            _ => read_record(l)?,
        });
    }
    Ok(V::Array(out))
}

pub fn read_logic(text: &str) -> Result<V, String> {
    let mut seen = std::collections::HashSet::new();
    let mut screens: Map<String, V> = Map::new();
    let mut lines = text.split('\n').peekable();
    while let Some(line) = lines.next() {
        if line.is_empty() {
            continue;
        }
        let h = line.strip_prefix('@').ok_or(format!("expected a section header, got {line:?}"))?;
        let mut content = vec![];
        while let Some(l) = lines.peek() {
            if l.is_empty() {
                break;
            }
            content.push(*l);
            lines.next();
        }
        let mut done = false;
        for k in POOLS {
            if let Some(n) = h.strip_suffix(&format!(".java_{k}")) {
                let e = screens.entry(n.to_string()).or_insert_with(|| json!({"blocks": []}));
                if e.get(k).is_some() {
                    return Err(format!("section {line:?} twice"));
                }
                e[k] = read_pool(k, &content)?;
                done = true;
                break;
            }
        }
        if done {
            continue;
        }
        let (n, c) = h.split_once(".java_").ok_or(format!("unknown section {line:?}"))?;
        let recs = content.iter().map(|l| read_record(l)).collect::<Result<Vec<_>, _>>()?;
        let e = screens.entry(n.to_string()).or_insert_with(|| json!({"blocks": []}));
        let a = e["blocks"].as_array_mut().unwrap();
        if !seen.insert((n, c)) {
            return Err(format!("section {line:?} twice"));
        }
        a.push(json!({"name": c, "blocks": recs}));
    }
    Ok(json!({ "screens": screens }))
}

pub fn var_type_i(x: VariableType) -> i64 {
    match x {
        VariableType::Boolean => 0,
        VariableType::Integer => 1,
        VariableType::String => 2,
        VariableType::HashMap => 3,
    }
}
pub fn i_var_type(x: i64) -> VariableType {
    match x {
        0 => VariableType::Boolean,
        1 => VariableType::Integer,
        2 => VariableType::String,
        3 => VariableType::HashMap,
        _ => panic!("harness"),
    }
}

/// `key_ok`: whether every entry is stored under its own name
pub fn vars_obs(m: &LinkedHashMap<String, Variable>) -> V {
    V::Array(m.iter().map(|(k, v)| if *k == v.name { json!({"type": var_type_i(v.r#type), "name": v.name}) } else { json!({"type": var_type_i(v.r#type), "name": v.name, "stored_as": k}) }).collect())
}
pub fn lists_obs(m: &LinkedHashMap<String, ListVariable>) -> V {
    V::Array(m.iter().map(|(k, v)| if *k == v.name { json!({"type": var_type_i(v.r#type), "name": v.name}) } else { json!({"type": var_type_i(v.r#type), "name": v.name, "stored_as": k}) }).collect())
}
pub fn funcs_obs(m: &LinkedHashMap<String, MoreBlock>) -> V {
    V::Array(m.iter().map(|(k, v)| if *k == v.id { json!({"id": v.id, "spec": v.spec}) } else { json!({"id": v.id, "spec": v.spec, "stored_as": k}) }).collect())
}
pub fn vars_build(v: &V) -> LinkedHashMap<String, Variable> {
    arr(v).iter().map(|x| (st(&x["name"]).to_string(), Variable { name: st(&x["name"]).into(), r#type: i_var_type(x["type"].as_i64().unwrap()) })).collect()
}
pub fn lists_build(v: &V) -> LinkedHashMap<String, ListVariable> {
    arr(v).iter().map(|x| (st(&x["name"]).to_string(), ListVariable { name: st(&x["name"]).into(), r#type: i_var_type(x["type"].as_i64().unwrap()) })).collect()
}
pub fn funcs_build(v: &V) -> LinkedHashMap<String, MoreBlock> {
    arr(v).iter().map(|x| (st(&x["id"]).to_string(), MoreBlock { id: st(&x["id"]).into(), spec: st(&x["spec"]).into() })).collect()
}

pub fn screen_logic_obs(sc: &ScreenLogic) -> V {
    let mut m = Map::new();
    if let Some(p) = &sc.variables {
        m.insert("var".into(), vars_obs(&p.0));
    }
    if let Some(p) = &sc.list_variables {
        m.insert("list".into(), lists_obs(&p.0));
    }
    if let Some(p) = &sc.components {
        m.insert("components".into(), V::Array(p.0.iter().map(component_to_v).collect()));
    }
    if let Some(p) = &sc.events {
        m.insert("events".into(), V::Array(p.0.iter().map(event_to_v).collect()));
    }
    if let Some(p) = &sc.more_blocks {
        m.insert("func".into(), funcs_obs(&p.0));
    }
    m.insert(
        "blocks".into(),
        V::Array(sc.block_containers.iter().map(|(n, b)| json!({"name": n, "blocks": b.0.iter().map(block_to_v).collect::<Vec<_>>()})).collect()),
    );
    V::Object(m)
}

pub fn logic_obs(l: &Logic) -> V {
    let mut m = Map::new();
    for (k, sc) in &l.screens {
        let mut o = screen_logic_obs(sc);
        if *k != sc.name {
            o["stored_as"] = s(k.clone());
        }
        m.insert(k.clone(), o);
    }
    let mut out = json!({ "screens": m });
    if l.screens.len() != out["screens"].as_object().unwrap().len() {
        out["duplicates"] = num(1);
    }
    out
}

pub fn screen_logic_build(name: &str, m: &V) -> ScreenLogic {
    ScreenLogic {
        name: name.to_string(),
        block_containers: arr(&m["blocks"]).iter().map(|c| (st(&c["name"]).to_string(), BlockContainer(arr(&c["blocks"]).iter().map(v_to_block).collect()))).collect(),
        variables: m.get("var").map(|v| VariablePool(vars_build(v))),
        list_variables: m.get("list").map(|v| ListVariablePool(lists_build(v))),
        components: m.get("components").map(|v| ComponentPool(arr(v).iter().map(v_to_component).collect())),
        events: m.get("events").map(|v| EventPool(arr(v).iter().map(v_to_event).collect())),
        more_blocks: m.get("func").map(|v| MoreBlockPool(funcs_build(v))),
    }
}

pub fn logic_build(t: &mut Tape, m: &V) -> Logic {
    let mut ks: Vec<&String> = m["screens"].as_object().unwrap().keys().collect();
    t.shuffle(&mut ks);
    Logic { screens: ks.into_iter().map(|k| (k.clone(), screen_logic_build(k, &m["screens"][k]))).collect() }
}
