//! Whole projects as plain values, independent of swrs: generator, emitter of the six texts, reader of
//! six texts, and the observation of swrs' project objects.
//!
//! project = {project: record, screens: [screen], customs: [{name, layout}], libs: {compat, firebase,
//! admob, googleMap}, res: {images|sounds|fonts: [{name, full}]}, files: null | {icon, images, sounds,
//! fonts: {full name: wrapper}}}; screen = {file: record, layout: forest, fab: null|node, var, list,
//! components, funcs: [{id, items, code}], events: [{kind, name, target, ttype, code}], create:
//! null|code}
use crate::blk;
use crate::conv::*;
use crate::schema::{self, emit, gen, num, s, Style};
use crate::sect::{self, arr, st};
use crate::tape::Tape;
use crate::views;
use serde_json::{json, Map, Value as V};
use std::collections::HashSet;
use std::path::PathBuf;
use swrs::api;
use swrs::api::component::ComponentKind as CK;
use swrs::api::screen::{Event, EventType, MoreBlock, Screen};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceType};

/// the name a screen's logic goes by
pub fn java_name(layout: &str) -> String {
    let mut out = String::new();
    for part in layout.split('_') {
        let mut cs = part.chars();
        if let Some(c) = cs.next() {
            out.push(if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c });
            out.push_str(cs.as_str());
        }
    }
    out + "Activity"
}

pub struct Names {
    pub layouts: HashSet<String>,
    pub java: HashSet<String>,
}

pub fn new_names() -> Names {
    Names { layouts: HashSet::new(), java: HashSet::new() }
}

impl Names {
    pub fn layout(&mut self, t: &mut Tape) -> String {
        for i in 0..40 {
            let mut n = t.name_wo(&['.', '\n']);
            if i > 5 {
                n = format!("{n}{}", t.below(100000));
            }
            if n.starts_with("_drawer_") || self.layouts.contains(&n) || self.java.contains(&java_name(&n)) {
                continue;
            }
            self.java.insert(java_name(&n));
            self.layouts.insert(n.clone());
            return n;
        }
        let n = format!("zz{}", t.next());
        self.layouts.insert(n.clone());
        self.java.insert(java_name(&n));
        n
    }
    pub fn custom(&mut self, t: &mut Tape) -> String {
        for i in 0..40 {
            let mut n = t.name_wo(&['.', '\n']);
            if t.chance(1, 5) {
                n = format!("_drawer_{n}");
            }
            if i > 5 {
                n = format!("{n}{}", t.below(100000));
            }
            if self.layouts.insert(n.clone()) {
                return n;
            }
        }
        let n = format!("zz{}", t.next());
        self.layouts.insert(n.clone());
        n
    }
}

// ------------------------------------------------------------------ generation
pub fn code(t: &mut Tape) -> V {
    let n = if t.chance(1, 6) { 0 } else if t.chance(1, 12) { 10 + t.below(40) } else { 1 + t.below(6) } as i64;
    if n == 0 {
        return json!([]);
    }
    blk::gen_code(t, n)
}

pub fn gen_component(t: &mut Tape, used: &mut HashSet<String>) -> V {
    let ty = t.range(1, 21);
    let p1 = if matches!(ty, 2 | 6 | 14 | 16) { t.string() } else { String::new() };
    json!({"componentId": t.fresh(used, &[], &|_| false), "param1": p1, "param2": "", "param3": "", "type": ty})
}

pub fn container_of(e: &V) -> String {
    match e["kind"].as_i64().unwrap() {
        3 => format!("{}_{}", st(&e["name"]), st(&e["name"])),
        _ => format!("{}_{}", st(&e["target"]), st(&e["name"])),
    }
}

fn bad_container(n: &str) -> bool {
    n == "onCreate_initializeLogic" || sect::POOLS.contains(&n) || sect::POOLS.iter().any(|p| n.ends_with(&format!(".java_{p}")))
}

pub fn gen_event(t: &mut Tape, used: &mut HashSet<String>) -> Option<V> {
    for _ in 0..20 {
        let kind = t.range(1, 3);
        let name = match t.below(3) {
            0 => (*t.pick(&["onCreate", "onClick", "onCheckChanged", "onItemSelected", "onChildAdded", "onBackPressed", "onPostCreate", "onStart", "initializeLogic", "moreBlock"])).to_string(),
            1 => t.ident(),
            _ => t.string_wo(&['\n']),
        };
        if kind == 3 && name == "onCreate" {
            continue;
        }
        let target = if kind == 3 { name.clone() } else { t.name_wo(&['\n']) };
        let ttype = if kind == 3 { 0 } else if t.chance(1, 3) { t.int(0, 255) } else { t.range(0, 40) };
        let mut e = json!({"kind": kind, "name": name, "target": target, "ttype": ttype});
        let c = container_of(&e);
        if bad_container(&c) || used.contains(&c) {
            continue;
        }
        used.insert(c);
        e["code"] = code(t);
        return Some(e);
    }
    None
}

pub fn gen_func(t: &mut Tape, ids: &mut HashSet<String>, used: &mut HashSet<String>) -> Option<V> {
    for _ in 0..20 {
        let id = t.name_wo(&['\n', ':']);
        let c = format!("{id}_moreBlock");
        if ids.contains(&id) || used.contains(&c) || bad_container(&c) {
            continue;
        }
        ids.insert(id.clone());
        used.insert(c);
        let o = blk::GenOpt { one_line: true, max_depth: 0 };
        let mut left = 0;
        let items = blk::gen_items(t, &mut left, 0, &o, false);
        return Some(json!({"id": id, "items": items, "code": code(t)}));
    }
    None
}

pub fn gen_fab(t: &mut Tape) -> V {
    let mut used = HashSet::new();
    let mut f = views::gen_node(t, &mut used);
    if t.chance(4, 5) {
        f["type"] = num(16);
        f["image"]["resName"] = s(t.string());
    }
    f
}

pub fn gen_screen(t: &mut Tape, names: &mut Names) -> V {
    let layout = names.layout(t);
    let mut file = gen(t, schema::FILE_ITEM);
    file["fileName"] = s(layout);
    file["fileType"] = num(0);
    let n = t.count_big(40);
    let forest = views::gen_forest(t, n, &mut HashSet::new());
    let fab = if t.chance(1, 3) { gen_fab(t) } else { V::Null };
    let mut cused = HashSet::new();
    let comps: Vec<V> = (0..t.count_big(60)).map(|_| gen_component(t, &mut cused)).collect();
    let mut used = HashSet::new();
    let mut fids = HashSet::new();
    let events: Vec<V> = (0..t.count().min(20)).filter_map(|_| gen_event(t, &mut used)).collect();
    let funcs: Vec<V> = (0..t.count().min(12)).filter_map(|_| gen_func(t, &mut fids, &mut used)).collect();
    let create = if t.chance(1, 2) { code(t) } else { V::Null };
    json!({"file": file, "layout": forest, "fab": fab, "var": sect::gen_vars(t, 60), "list": sect::gen_vars(t, 60), "components": comps,
        "funcs": funcs, "events": events, "create": create})
}

pub fn gen_libs(t: &mut Tape) -> V {
    json!({
        "compat": t.bool(),
        "firebase": if t.bool() { V::Null } else { gen_lib(t, "firebase") },
        "admob": if t.bool() { V::Null } else { gen_lib(t, "admob") },
        "googleMap": if t.bool() { V::Null } else { gen_lib(t, "googleMap") },
    })
}

pub fn gen_lib(t: &mut Tape, k: &str) -> V {
    match k {
        "firebase" => json!({"data": t.string(), "reserved1": t.string(), "reserved2": t.string(), "reserved3": t.string()}),
        "googleMap" => json!({"data": t.string()}),
        _ => json!({"adUnits": schema::gen_field(t, &schema::F::AdUnits), "testDevices": schema::gen_field(t, &schema::F::StrArr)}),
    }
}

pub fn gen_wrapper(t: &mut Tape, full: &str, kind: &str) -> V {
    if t.bool() {
        json!({"kind": "str", "id": t.string(), "full": full, "type": kind})
    } else {
        json!({"kind": "u32", "id": t.int(0, u32::MAX as i64), "full": full, "type": kind})
    }
}

pub fn gen_project(t: &mut Tape) -> V {
    let mut names = new_names();
    let mut project = gen(t, schema::PROJECT);
    let ns = match t.below(8) {
        0 => 0,
        1..=3 => 1,
        4..=6 => 2,
        _ => 3 + t.below(3),
    };
    let screens: Vec<V> = (0..ns).map(|_| gen_screen(t, &mut names)).collect();
    let nc = if t.bool() { 0 } else { 1 + t.below(3) };
    let customs: Vec<V> = (0..nc)
        .map(|_| {
            let name = names.custom(t);
            let n = t.count().min(12);
            json!({"name": name, "layout": views::gen_forest(t, n, &mut HashSet::new())})
        })
        .collect();
    let with_files = t.chance(2, 3);
    let mut res = Map::new();
    let mut files = json!({"icon": null, "images": {}, "sounds": {}, "fonts": {}});
    for k in sect::RES {
        let n = t.count().min(20);
        let (mut nu, mut fu) = (HashSet::new(), HashSet::new());
        let mut list = vec![];
        for _ in 0..n {
            let name = t.fresh(&mut nu, &[], &|_| false);
            let full = t.fresh(&mut fu, &[], &|_| false);
            if with_files {
                let w = gen_wrapper(t, &full, k);
                files[k][&full] = w;
            }
            list.push(json!({"name": name, "full": full}));
        }
        res.insert(k.to_string(), V::Array(list));
    }
    if with_files {
        if t.bool() {
            let full = t.string();
            files["icon"] = gen_wrapper(t, &full, "icon");
        }
        project["custom_icon"] = V::Bool(!files["icon"].is_null());
    } else {
        files = V::Null;
    }
    json!({"project": project, "screens": screens, "customs": customs, "libs": gen_libs(t), "res": res, "files": files})
}

pub const NWIDE_SCREEN: u64 = 8;
pub const NWIDE: u64 = NWIDE_SCREEN + 5;

/// a screen with so many things of one kind that small counters overflow
pub fn wide_screen(t: &mut Tape, names: &mut Names, kind: u64, n: usize) -> V {
    let mut sc = gen_screen(t, names);
    let some = code(t);
    match kind {
        0 => sc["var"] = (0..n).map(|i| json!({"name": format!("v{i}"), "type": i % 4})).collect(),
        1 => sc["list"] = (0..n).map(|i| json!({"name": format!("l{i}"), "type": i % 4})).collect(),
        2 => {
            let mut c = gen_component(t, &mut HashSet::new());
            sc["components"] = (0..n)
                .map(|i| {
                    c["componentId"] = s(format!("c{i}"));
                    c.clone()
                })
                .collect()
        }
        3 => {
            sc["funcs"] = json!([]);
            sc["events"] = (0..n)
                .map(|i| json!({"kind": 1 + i % 2, "name": format!("on{}", i % 300), "target": format!("t{}", i / 300), "ttype": 0, "code": if i % 1000 == 999 { some.clone() } else { json!([]) }}))
                .collect()
        }
        4 => {
            sc["events"] = json!([]);
            sc["funcs"] = (0..n).map(|i| json!({"id": format!("f{i}"), "items": [{"text": format!("f{i}")}], "code": if i % 1000 == 999 { some.clone() } else { json!([]) }})).collect()
        }
        5 | 6 => {
            // many views side by side, at the root or below another
            let mut v = views::gen_node(t, &mut HashSet::new());
            let mut l: Vec<V> = (0..n)
                .map(|i| {
                    v["id"] = s(format!("w{i}"));
                    v["index"] = num(if i % 2 == 0 { i as i64 } else { i as i64 % 7 });
                    v.clone()
                })
                .collect();
            if kind == 6 {
                let mut top = l.remove(0);
                top["type"] = num(0);
                top["children"] = V::Array(l);
                l = vec![top];
            }
            sc["layout"] = V::Array(l)
        }
        _ => {
            // views nested into each other
            let mut v = views::gen_node(t, &mut HashSet::new());
            v["id"] = s("w0");
            for i in 1..300 {
                let mut x = views::gen_node(t, &mut HashSet::new());
                x["id"] = s(format!("w{i}"));
                x["type"] = num(0);
                x["children"] = json!([v]);
                v = x;
            }
            sc["layout"] = json!([v])
        }
    }
    sc
}

/// a project with very many of one thing
pub fn wide_project(t: &mut Tape, kind: u64) -> V {
    let mut names = new_names();
    let mut m = loop {
        let m = gen_project(t);
        if !m["files"].is_null() && arr(&m["screens"]).len() < 3 {
            break m;
        }
    };
    m["screens"] = json!([]);
    m["customs"] = json!([]);
    if kind < NWIDE_SCREEN {
        m["screens"] = json!([wide_screen(t, &mut names, kind, if kind < 3 || kind == 4 { 66_000 } else { 5_000 }), gen_screen(t, &mut names)]);
        return m;
    }
    match kind - NWIDE_SCREEN {
        0 => m["screens"] = (0..300).map(|_| gen_screen(t, &mut names)).collect(),
        1 => m["customs"] = (0..300).map(|_| json!({"name": names.custom(t), "layout": views::gen_forest(t, 3, &mut HashSet::new())})).collect(),
        k => {
            let k = sect::RES[k as usize - 2];
            let n = 3_000;
            m["res"][k] = (0..n).map(|i| json!({"name": format!("r{i}"), "full": format!("r{i}.x")})).collect();
            let mut files = Map::new();
            for i in 0..n {
                let full = format!("r{i}.x");
                files.insert(full.clone(), gen_wrapper(t, &full, k));
            }
            m["files"][k] = V::Object(files);
        }
    }
    m
}

// ------------------------------------------------------------------ emission
fn lib_item(ty: i64, on: bool, m: &V) -> V {
    let g = |k: &str| m.get(k).cloned().unwrap_or(s(""));
    let a = |k: &str| m.get(k).cloned().unwrap_or(json!([]));
    json!({"adUnits": a("adUnits"), "data": g("data"), "libType": ty, "reserved1": g("reserved1"), "reserved2": g("reserved2"), "reserved3": g("reserved3"),
        "testDevices": a("testDevices"), "useYn": if on { "Y" } else { "N" }})
}

pub fn library_of(m: &V) -> V {
    let l = &m["libs"];
    json!({
        "firebaseDB": lib_item(0, !l["firebase"].is_null(), &l["firebase"]),
        "compat": lib_item(1, l["compat"].as_bool().unwrap(), &V::Null),
        "admob": lib_item(2, !l["admob"].is_null(), &l["admob"]),
        "googleMap": lib_item(3, !l["googleMap"].is_null(), &l["googleMap"]),
    })
}

pub fn file_of(m: &V) -> V {
    json!({
        "activity": arr(&m["screens"]).iter().map(|x| x["file"].clone()).collect::<Vec<_>>(),
        "customview": arr(&m["customs"]).iter().map(|c| json!({"fileName": c["name"], "fileType": if st(&c["name"]).starts_with("_drawer_") { 2 } else { 1 },
            "keyboardSetting": 0, "options": 0, "orientation": 2, "theme": -1})).collect::<Vec<_>>(),
    })
}

pub fn resource_of(m: &V) -> V {
    let mut r = Map::new();
    for k in sect::RES {
        r.insert(k.into(), V::Array(arr(&m["res"][k]).iter().map(|x| json!({"resFullName": x["full"], "resName": x["name"], "resType": 1})).collect()));
    }
    V::Object(r)
}

pub fn fab_record(f: &V) -> V {
    let mut m = f.as_object().unwrap().clone();
    m.remove("children");
    m.insert("parentType".into(), num(-1));
    V::Object(m)
}

pub fn view_of(t: &mut Tape, m: &V) -> V {
    let (mut layouts, mut fabs) = (vec![], vec![]);
    for sc in arr(&m["screens"]) {
        let flat = views::emit_flat(t, &sc["layout"]);
        if !flat.is_empty() || t.bool() {
            layouts.push(json!({"name": sc["file"]["fileName"], "views": flat}));
        }
        if !sc["fab"].is_null() {
            fabs.push(json!({"name": sc["file"]["fileName"], "view": fab_record(&sc["fab"])}));
        }
    }
    for c in arr(&m["customs"]) {
        layouts.push(json!({"name": c["name"], "views": views::emit_flat(t, &c["layout"])}));
    }
    if t.chance(1, 3) {
        t.shuffle(&mut layouts);
        t.shuffle(&mut fabs);
    }
    json!({"layouts": layouts, "fabs": fabs})
}

pub fn event_record(e: &V) -> V {
    json!({"eventName": e["name"], "eventType": e["kind"], "targetId": e["target"], "targetType": e["ttype"]})
}

pub fn screen_logic_of(t: &mut Tape, sc: &V) -> V {
    let mut m = Map::new();
    let mut put = |t: &mut Tape, k: &str, v: V| {
        if !arr(&v).is_empty() || t.bool() {
            m.insert(k.into(), v);
        }
    };
    put(t, "var", sc["var"].clone());
    put(t, "list", sc["list"].clone());
    put(t, "components", sc["components"].clone());
    put(t, "events", V::Array(arr(&sc["events"]).iter().map(event_record).collect()));
    put(t, "func", V::Array(arr(&sc["funcs"]).iter().map(|f| json!({"id": f["id"], "spec": blk::spec_text(&f["items"])})).collect()));
    let mut conts = vec![];
    for e in arr(&sc["events"]) {
        conts.push((container_of(e), e["code"].clone()));
    }
    for f in arr(&sc["funcs"]) {
        conts.push((format!("{}_moreBlock", st(&f["id"])), f["code"].clone()));
    }
    conts.retain(|c| !arr(&c.1).is_empty() || t.bool());
    if !sc["create"].is_null() {
        conts.push(("onCreate_initializeLogic".into(), sc["create"].clone()));
    }
    if t.bool() {
        t.shuffle(&mut conts);
    }
    let conts: Vec<V> = conts.into_iter().map(|(n, c)| json!({"name": n, "blocks": blk::emit_list(t, &c)})).collect();
    m.insert("blocks".into(), V::Array(conts));
    V::Object(m)
}

pub fn logic_of(t: &mut Tape, m: &V) -> V {
    let mut screens = Map::new();
    for sc in arr(&m["screens"]) {
        let l = screen_logic_of(t, sc);
        if l.as_object().unwrap().len() == 1 && arr(&l["blocks"]).is_empty() {
            continue;
        }
        screens.insert(java_name(st(&sc["file"]["fileName"])), l);
    }
    json!({ "screens": screens })
}

/// the six texts, in the order project, file, library, resource, view, logic
pub fn emit_texts(t: &mut Tape, m: &V) -> [String; 6] {
    let style = Style::gen(t);
    let p = emit(&m["project"], t, style);
    let f = sect::emit_file(t, &file_of(m));
    let l = sect::emit_library(t, &library_of(m));
    let r = sect::emit_resource(t, &resource_of(m));
    let vm = view_of(t, m);
    let v = sect::emit_view_file(t, &vm);
    let lm = logic_of(t, m);
    let g = sect::emit_logic(t, &lm);
    [p, f, l, r, v, g]
}

pub const FILES: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];

pub fn raw_of(t: &mut Tape, texts: [String; 6], m: &V) -> RawSketchwareProject {
    let [p, f, l, r, v, g] = texts;
    match wrappers(t, &m["files"]) {
        Some(w) => RawSketchwareProject::new(p, f, l, r, v, g, w),
        None => RawSketchwareProject::new_wo_res(p, f, l, r, v, g),
    }
}

// ------------------------------------------------------------------ wrappers
pub fn res_type(k: &str) -> ResourceType {
    match k {
        "images" => ResourceType::Image,
        "sounds" => ResourceType::Sound,
        "fonts" => ResourceType::Font,
        _ => ResourceType::CustomIcon,
    }
}
pub fn res_kind(t: ResourceType) -> &'static str {
    match t {
        ResourceType::Image => "images",
        ResourceType::Sound => "sounds",
        ResourceType::Font => "fonts",
        ResourceType::CustomIcon => "icon",
    }
}
pub fn wrapper_build(w: &V) -> ResourceFileWrapper {
    match st(&w["kind"]) {
        "path" => ResourceFileWrapper::Path(PathBuf::from(st(&w["path"]))),
        "str" => ResourceFileWrapper::StringId { id: st(&w["id"]).into(), res_full_name: st(&w["full"]).into(), res_type: res_type(st(&w["type"])) },
        _ => ResourceFileWrapper::U32Id { id: w["id"].as_u64().unwrap() as u32, res_full_name: st(&w["full"]).into(), res_type: res_type(st(&w["type"])) },
    }
}
pub fn wrapper_obs(w: &ResourceFileWrapper) -> V {
    match w {
        ResourceFileWrapper::Path(p) => json!({"kind": "path", "path": p.to_str()}),
        ResourceFileWrapper::StringId { id, res_full_name, res_type } => json!({"kind": "str", "id": id, "full": res_full_name, "type": res_kind(*res_type)}),
        ResourceFileWrapper::U32Id { id, res_full_name, res_type } => json!({"kind": "u32", "id": id, "full": res_full_name, "type": res_kind(*res_type)}),
    }
}
pub fn wrappers(t: &mut Tape, files: &V) -> Option<Vec<ResourceFileWrapper>> {
    if files.is_null() {
        return None;
    }
    let mut out = vec![];
    if !files["icon"].is_null() {
        out.push(wrapper_build(&files["icon"]));
    }
    for k in sect::RES {
        for w in files[k].as_object().unwrap().values() {
            out.push(wrapper_build(w));
        }
    }
    t.shuffle(&mut out);
    Some(out)
}
/// a list of wrappers as a sorted list of their observations
pub fn wrappers_obs(w: &[ResourceFileWrapper]) -> V {
    let mut x: Vec<String> = w.iter().map(|x| wrapper_obs(x).to_string()).collect();
    x.sort();
    V::Array(x.into_iter().map(s).collect())
}
pub fn wrappers_expect(files: &V) -> V {
    let mut x: Vec<String> = vec![];
    if !files["icon"].is_null() {
        x.push(files["icon"].to_string());
    }
    for k in sect::RES {
        x.extend(files[k].as_object().unwrap().values().map(|w| w.to_string()));
    }
    x.sort();
    V::Array(x.into_iter().map(s).collect())
}

// ------------------------------------------------------------------ reading texts
fn read_code(conts: &mut Map<String, V>, name: &str, strict: bool) -> Result<V, String> {
    match conts.remove(name) {
        None => Ok(json!([])),
        Some(list) => (if strict { blk::strict_refs(arr(&list)) } else { Ok(()) }).and_then(|_| blk::read_list(arr(&list))).map_err(|e| format!("container {name}: {e}")),
    }
}

/// what a screen's logic section says
pub fn read_screen_logic(l: Option<&V>, out: &mut Map<String, V>, strict: bool) -> Result<(), String> {
    let empty = json!({"blocks": []});
    let l = l.unwrap_or(&empty);
    let g = |k: &str| l.get(k).cloned().unwrap_or(json!([]));
    let mut conts: Map<String, V> = arr(&l["blocks"]).iter().map(|c| (st(&c["name"]).to_string(), c["blocks"].clone())).collect();
    out.insert("var".into(), g("var"));
    out.insert("list".into(), g("list"));
    out.insert("components".into(), g("components"));
    let mut events = vec![];
    for e in arr(&g("events")) {
        let mut x = json!({"kind": e["eventType"], "name": e["eventName"], "target": e["targetId"], "ttype": e["targetType"]});
        x["code"] = read_code(&mut conts, &container_of(&x), strict)?;
        events.push(x);
    }
    out.insert("events".into(), V::Array(events));
    let mut funcs = vec![];
    for f in arr(&g("func")) {
        let mut items = vec![];
        for w in st(&f["spec"]).split(' ') {
            match blk::token(w)? {
                None => items.push(json!({ "text": w })),
                Some((k, n)) => items.push(json!({"p": k, "name": n, "val": null})),
            }
        }
        funcs.push(json!({"id": f["id"], "items": items, "code": read_code(&mut conts, &format!("{}_moreBlock", st(&f["id"])), strict)?}));
    }
    out.insert("funcs".into(), V::Array(funcs));
    let create = if conts.contains_key("onCreate_initializeLogic") { read_code(&mut conts, "onCreate_initializeLogic", strict)? } else { V::Null };
    out.insert("create".into(), create);
    if let Some(k) = conts.keys().next() {
        return Err(format!("block container {k:?} belongs to no event"));
    }
    Ok(())
}

/// the project six texts denote (`files` is not part of them); `strict` for texts the API has written
pub fn read_texts(x: &[&str; 6], strict: bool) -> Result<V, String> {
    let project: V = serde_json::from_str(x[0]).map_err(|e| format!("project: {e}"))?;
    let file = sect::read_file(x[1]).map_err(|e| format!("file: {e}"))?;
    let lib = sect::read_library(x[2]).map_err(|e| format!("library: {e}"))?;
    let res = sect::read_resource(x[3]).map_err(|e| format!("resource: {e}"))?;
    let view = sect::read_view_file(x[4]).map_err(|e| format!("view: {e}"))?;
    let logic = sect::read_logic(x[5]).map_err(|e| format!("logic: {e}"))?;
    let mut layouts: Map<String, V> = arr(&view["layouts"]).iter().map(|l| (st(&l["name"]).to_string(), l["views"].clone())).collect();
    let mut fabs: Map<String, V> = arr(&view["fabs"]).iter().map(|l| (st(&l["name"]).to_string(), l["view"].clone())).collect();
    let mut logics = logic["screens"].as_object().unwrap().clone();
    let mut screens = vec![];
    for f in arr(&file["activity"]) {
        let name = st(&f["fileName"]);
        let mut sc = Map::new();
        sc.insert("file".into(), f.clone());
        let flat = layouts.remove(name).unwrap_or(json!([]));
        sc.insert("layout".into(), views::read_flat(arr(&flat)).map_err(|e| format!("layout {name}: {e}"))?);
        let fab = match fabs.remove(name) {
            None => V::Null,
            Some(mut f) => {
                let m = f.as_object_mut().unwrap();
                if m.remove("parent").map_or(false, |p| !p.is_null()) || m.remove("parentType") != Some(num(-1)) {
                    return Err(format!("the fab of {name} has a parent"));
                }
                m.insert("children".into(), json!([]));
                f
            }
        };
        sc.insert("fab".into(), fab);
        read_screen_logic(logics.remove(&java_name(name)).as_ref(), &mut sc, strict).map_err(|e| format!("logic of {name}: {e}"))?;
        screens.push(V::Object(sc));
    }
    let mut customs = vec![];
    for f in arr(&file["customview"]) {
        let name = st(&f["fileName"]);
        let want = if name.starts_with("_drawer_") { 2 } else { 1 };
        if f["fileType"] != num(want) {
            return Err(format!("custom view {name} has file type {}", f["fileType"]));
        }
        for (k, x) in [("keyboardSetting", 0), ("options", 0), ("orientation", 2), ("theme", -1)] {
            if f[k] != num(x) {
                return Err(format!("custom view {name} has {k} {}, custom views have {x}", f[k]));
            }
        }
        let flat = layouts.remove(name).ok_or(format!("custom view {name} without a layout"))?;
        customs.push(json!({"name": name, "layout": views::read_flat(arr(&flat)).map_err(|e| format!("custom view {name}: {e}"))?}));
    }
    for (what, m) in [("layout", &layouts), ("fab", &fabs), ("logic", &logics)] {
        if let Some(k) = m.keys().next() {
            return Err(format!("{what} {k:?} belongs to nothing in the file list"));
        }
    }
    let item = |k: &str, ty: i64| -> Result<V, String> {
        let l = &lib[k];
        let on = match l["useYn"].as_str() {
            Some("Y") => true,
            Some("N") => false,
            x => return Err(format!("library {k} has useYn {x:?}")),
        };
        if l["libType"] != num(ty) {
            return Err(format!("library {k} has type {}", l["libType"]));
        }
        let used: &[&str] = match (on, k) {
            (true, "firebaseDB") => &["data", "reserved1", "reserved2", "reserved3"],
            (true, "admob") => &["adUnits", "testDevices"],
            (true, "googleMap") => &["data"],
            _ => &[],
        };
        for m in ["data", "reserved1", "reserved2", "reserved3", "adUnits", "testDevices"] {
            if !used.contains(&m) && l[m] != s("") && l[m] != json!([]) {
                return Err(format!("library {k} has {m} {}, which was empty", l[m]));
            }
        }
        Ok(match (on, k) {
            (_, "compat") => V::Bool(on),
            (false, _) => V::Null,
            (_, "firebaseDB") => json!({"data": l["data"], "reserved1": l["reserved1"], "reserved2": l["reserved2"], "reserved3": l["reserved3"]}),
            (_, "admob") => json!({"adUnits": l["adUnits"], "testDevices": l["testDevices"]}),
            _ => json!({"data": l["data"]}),
        })
    };
    let libs = json!({"firebase": item("firebaseDB", 0)?, "compat": item("compat", 1)?, "admob": item("admob", 2)?, "googleMap": item("googleMap", 3)?});
    let mut rs = Map::new();
    for k in sect::RES {
        rs.insert(k.into(), V::Array(arr(&res[k]).iter().map(|x| json!({"name": x["resName"], "full": x["resFullName"]})).collect()));
    }
    Ok(json!({"project": project, "screens": screens, "customs": customs, "libs": libs, "res": rs}))
}

pub fn raw_texts(r: &RawSketchwareProject) -> [&str; 6] {
    [&r.project, &r.file, &r.library, &r.resource, &r.view, &r.logic]
}

// ------------------------------------------------------------------ swrs' project objects
pub fn ck_obs(id: &str, k: &CK) -> V {
    let (ty, p): (i64, &str) = match k {
        CK::Intent => (1, ""),
        CK::SharedPreferences { path } => (2, path),
        CK::Calendar => (3, ""),
        CK::Vibrator => (4, ""),
        CK::Timer => (5, ""),
        CK::FirebaseDatabase { path } => (6, path),
        CK::Dialog => (7, ""),
        CK::MediaPlayer => (8, ""),
        CK::SoundPool => (9, ""),
        CK::ObjectAnimator => (10, ""),
        CK::Gyroscope => (11, ""),
        CK::FirebaseAuth => (12, ""),
        CK::InterstitialAd => (13, ""),
        CK::FirebaseStorage { path } => (14, path),
        CK::Camera => (15, ""),
        CK::FilePicker { mime_type } => (16, mime_type),
        CK::RequestNetwork => (17, ""),
        CK::TextToSpeech => (18, ""),
        CK::SpeechToText => (19, ""),
        CK::BluetoothConnect => (20, ""),
        CK::LocationManager => (21, ""),
    };
    json!({"componentId": id, "param1": p, "param2": "", "param3": "", "type": ty})
}

pub fn ck_build(c: &V) -> CK {
    let p = st(&c["param1"]).to_string();
    match c["type"].as_i64().unwrap() {
        1 => CK::Intent,
        2 => CK::SharedPreferences { path: p },
        3 => CK::Calendar,
        4 => CK::Vibrator,
        5 => CK::Timer,
        6 => CK::FirebaseDatabase { path: p },
        7 => CK::Dialog,
        8 => CK::MediaPlayer,
        9 => CK::SoundPool,
        10 => CK::ObjectAnimator,
        11 => CK::Gyroscope,
        12 => CK::FirebaseAuth,
        13 => CK::InterstitialAd,
        14 => CK::FirebaseStorage { path: p },
        15 => CK::Camera,
        16 => CK::FilePicker { mime_type: p },
        17 => CK::RequestNetwork,
        18 => CK::TextToSpeech,
        19 => CK::SpeechToText,
        20 => CK::BluetoothConnect,
        _ => CK::LocationManager,
    }
}

pub fn event_obs(e: &Event) -> V {
    let mut x = match &e.event_type {
        EventType::ViewEvent { id } => json!({"kind": 1, "name": e.name, "target": id}),
        EventType::ComponentEvent { id, component_type } => json!({"kind": 2, "name": e.name, "target": id, "ttype": component_type}),
        EventType::ActivityEvent => json!({"kind": 3, "name": e.name}),
    };
    x["code"] = blk::chain_obs(&e.code);
    x
}

pub fn event_expect(e: &V) -> V {
    match e["kind"].as_i64().unwrap() {
        1 => json!({"kind": 1, "name": e["name"], "target": e["target"], "code": e["code"]}),
        2 => json!({"kind": 2, "name": e["name"], "target": e["target"], "ttype": e["ttype"], "code": e["code"]}),
        _ => json!({"kind": 3, "name": e["name"], "code": e["code"]}),
    }
}

pub fn event_build(t: &mut Tape, e: &V) -> Event {
    Event {
        name: st(&e["name"]).into(),
        event_type: match e["kind"].as_i64().unwrap() {
            1 => EventType::ViewEvent { id: st(&e["target"]).into() },
            2 => EventType::ComponentEvent { id: st(&e["target"]).into(), component_type: e["ttype"].as_i64().unwrap() as u8 },
            _ => EventType::ActivityEvent,
        },
        code: blk::chain_build(t, &e["code"]),
    }
}

pub fn func_build(t: &mut Tape, f: &V) -> MoreBlock {
    MoreBlock { name: st(&f["id"]).into(), spec: blk::items_build(t, &f["items"]), code: blk::chain_build(t, &f["code"]) }
}

pub fn screen_obs(x: &Screen) -> V {
    let file = json!({
        "fileName": x.layout_name,
        "keyboardSetting": keyboard_i(x.keyboard_setting),
        "options": (x.toolbar_enabled as i64) | (x.fullscreen_enabled as i64) << 1 | (x.drawer_enabled as i64) << 2 | (x.fab_enabled as i64) << 3,
        "orientation": orientation_i(x.orientation), "theme": theme_i(x.theme),
    });
    json!({
        "java": x.java_name, "file": file, "layout": views::forest_obs(&x.layout), "fab": x.fab.as_ref().map(views::view_obs),
        "var": sect::vars_obs(&x.variables), "list": sect::lists_obs(&x.list_variables),
        "components": x.components.iter().map(|(k, c)| ck_obs(k, c)).collect::<Vec<_>>(),
        "funcs": x.more_blocks.iter().map(|(k, f)| if *k == f.name { json!({"id": f.name, "items": blk::items_obs(&f.spec), "code": blk::chain_obs(&f.code)}) } else { json!({"id": f.name, "stored_as": k}) }).collect::<Vec<_>>(),
        "events": x.events.iter().map(event_obs).collect::<Vec<_>>(),
    })
}

pub fn screen_expect(sc: &V) -> V {
    let mut file = sc["file"].clone();
    file.as_object_mut().unwrap().remove("fileType");
    let mut events: Vec<V> = arr(&sc["events"]).iter().map(event_expect).collect();
    if !sc["create"].is_null() {
        // the position of onCreate among the events says nothing: it is put first
        events.insert(0, json!({"kind": 3, "name": "onCreate", "code": sc["create"]}));
    }
    json!({
        "java": java_name(st(&sc["file"]["fileName"])), "file": file, "layout": views::forest_expect(&sc["layout"]),
        "fab": if sc["fab"].is_null() { V::Null } else { views::view_expect(&sc["fab"]) },
        "var": sc["var"], "list": sc["list"], "components": sc["components"], "funcs": sc["funcs"], "events": events,
    })
}

/// a fab; made by hand it may have children, which the format has no place for
fn fab_build(t: &mut Tape, f: &V, stale: bool) -> api::view::View {
    let mut x = views::view_build(t, f, stale);
    if stale && t.chance(1, 4) {
        let n = t.range(1, 3);
        for _ in 0..n {
            let child = gen_fab(t);
            x.children.push(views::view_build(t, &child, stale));
        }
    }
    x
}

pub fn screen_build(t: &mut Tape, sc: &V, stale: bool) -> Screen {
    let f = &sc["file"];
    let o = i_options(f["options"].as_i64().unwrap());
    let mut events: Vec<Event> = arr(&sc["events"]).iter().map(|e| event_build(t, e)).collect();
    if !sc["create"].is_null() {
        let at = t.below(events.len() as u64 + 1) as usize;
        events.insert(at, Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: blk::chain_build(t, &sc["create"]) });
    }
    Screen {
        layout_name: st(&f["fileName"]).into(),
        java_name: java_name(st(&f["fileName"])),
        layout: views::forest_build(t, &sc["layout"], stale),
        variables: sect::vars_build(&sc["var"]),
        list_variables: sect::lists_build(&sc["list"]),
        more_blocks: arr(&sc["funcs"]).iter().map(|x| (st(&x["id"]).to_string(), func_build(t, x))).collect(),
        components: arr(&sc["components"]).iter().map(|c| (st(&c["componentId"]).to_string(), ck_build(c))).collect(),
        events,
        fab: if sc["fab"].is_null() { None } else { Some(fab_build(t, &sc["fab"], stale)) },
        fullscreen_enabled: o.fullscreen_enabled,
        toolbar_enabled: o.toolbar_enabled,
        drawer_enabled: o.drawer_enabled,
        fab_enabled: o.fab_enabled,
        orientation: i_orientation(f["orientation"].as_i64().unwrap()),
        theme: i_theme(f["theme"].as_i64().unwrap()),
        keyboard_setting: i_keyboard(f["keyboardSetting"].as_i64().unwrap()),
    }
}

pub fn libs_obs(l: &api::Libraries) -> V {
    json!({
        "compat": l.app_compat_enabled,
        "firebase": l.firebase.as_ref().map(|f| json!({"data": f.project_id, "reserved1": f.app_id, "reserved2": f.api_key, "reserved3": f.storage_bucket})),
        "admob": l.ad_mob.as_ref().map(|a| json!({"adUnits": ad_units_v(&a.ad_units), "testDevices": strs_v(&a.test_devices)})),
        "googleMap": l.google_map.as_ref().map(|g| json!({"data": g.api_key})),
    })
}

pub fn libs_build(m: &V) -> api::Libraries {
    let l = &m["libs"];
    let g = |v: &V, k: &str| st(&v[k]).to_string();
    api::Libraries {
        app_compat_enabled: l["compat"].as_bool().unwrap(),
        firebase: (!l["firebase"].is_null()).then(|| {
            let f = &l["firebase"];
            api::library::Firebase { project_id: g(f, "data"), app_id: g(f, "reserved1"), api_key: g(f, "reserved2"), storage_bucket: g(f, "reserved3") }
        }),
        ad_mob: (!l["admob"].is_null()).then(|| api::library::AdMob {
            ad_units: v_ad_units(&l["admob"]["adUnits"]),
            test_devices: arr(&l["admob"]["testDevices"]).iter().map(|x| st(x).to_string()).collect(),
        }),
        google_map: (!l["googleMap"].is_null()).then(|| api::library::GoogleMap { api_key: g(&l["googleMap"], "data") }),
    }
}

fn api_project(p: &api::SketchwareProject) -> V {
    let (m, c) = (&p.metadata, &p.colors);
    json!({
        "sc_id": m.local_id.to_string(), "my_app_name": m.name, "my_ws_name": m.workspace_name, "my_sc_pkg_name": m.package_name,
        "sc_ver_code": m.version_code.to_string(), "sc_ver_name": m.version_name, "my_sc_reg_dt": m.time_created as i64, "custom_icon": p.custom_icon.is_some(),
        "color_primary": color_to_i(&c.color_primary), "color_primary_dark": color_to_i(&c.color_primary_dark), "color_accent": color_to_i(&c.color_accent),
        "color_control_normal": color_to_i(&c.color_control_normal), "color_control_highlight": color_to_i(&c.color_control_highlight),
        "sketchware_ver": m.sketchware_version,
    })
}

/// `auto`: resource files were assigned at random, so only their names are shown
pub fn api_obs(p: &api::SketchwareProject, auto: bool) -> V {
    let w = |x: &ResourceFileWrapper, k: &str| -> V {
        let mut v = wrapper_obs(x);
        if auto {
            v = json!({"kind": v["kind"], "full": v["full"], "type": v["type"]});
        }
        if st(&v["kind"]) != "path" && v["type"] != s(k) {
            v["misfiled"] = s(k);
        }
        v
    };
    let r = |m: &swrs::LinkedHashMap<api::ResourceId, ResourceFileWrapper>, k: &str| -> V { V::Array(m.iter().map(|(i, x)| json!({"name": i.0, "file": w(x, k)})).collect()) };
    json!({
        "project": api_project(p),
        "icon": if auto { V::Null } else { p.custom_icon.as_ref().map_or(V::Null, |x| w(x, "icon")) },
        "screens": p.screens.iter().map(screen_obs).collect::<Vec<_>>(),
        "customs": p.custom_views.iter().map(|c| json!({"name": c.res_name, "layout": views::forest_obs(&c.layout)})).collect::<Vec<_>>(),
        "libs": libs_obs(&p.libraries),
        "res": {"images": r(p.resources.get_images(), "images"), "sounds": r(p.resources.get_sounds(), "sounds"), "fonts": r(p.resources.get_fonts(), "fonts")},
    })
}

pub fn api_expect(m: &V) -> V {
    let auto = m["files"].is_null();
    let mut res = Map::new();
    for k in sect::RES {
        res.insert(
            k.into(),
            V::Array(
                arr(&m["res"][k])
                    .iter()
                    .map(|x| json!({"name": x["name"], "file": if auto { json!({"kind": "u32", "full": x["full"], "type": k}) } else { m["files"][k][st(&x["full"])].clone() }}))
                    .collect(),
            ),
        );
    }
    json!({
        "project": project_obs(&m["project"]),
        "icon": if auto { V::Null } else { m["files"]["icon"].clone() },
        "screens": arr(&m["screens"]).iter().map(screen_expect).collect::<Vec<_>>(),
        "customs": arr(&m["customs"]).iter().map(|c| json!({"name": c["name"], "layout": views::forest_expect(&c["layout"])})).collect::<Vec<_>>(),
        "libs": m["libs"],
        "res": res,
    })
}

/// a project object made by hand through the public constructors (always with resource files)
pub fn api_build(t: &mut Tape, m: &V, stale: bool) -> Result<api::SketchwareProject, String> {
    let p = &m["project"];
    let g = |k: &str| st(&p[k]).to_string();
    let c = |k: &str| i_to_color(p[k].as_i64().unwrap());
    let mut res = api::Resources::new_empty();
    for k in sect::RES {
        for x in arr(&m["res"][k]) {
            let w = wrapper_build(&m["files"][k][st(&x["full"])]);
            res.put_resource(api::ResourceId(st(&x["name"]).into()), w, res_type(k)).map_err(|e| format!("put_resource: {e:?}"))?;
        }
    }
    let mut out = api::SketchwareProject::new(
        api::Metadata {
            local_id: g("sc_id").parse().unwrap(),
            name: g("my_app_name"),
            workspace_name: g("my_ws_name"),
            package_name: g("my_sc_pkg_name"),
            time_created: schema::date_to_ts(&g("my_sc_reg_dt")) as u64,
            sketchware_version: p["sketchware_ver"].as_i64().unwrap() as u8,
            version_name: g("sc_ver_name"),
            version_code: g("sc_ver_code").parse().unwrap(),
        },
        api::Colors {
            color_primary: c("color_primary"),
            color_primary_dark: c("color_primary_dark"),
            color_accent: c("color_accent"),
            color_control_normal: c("color_control_normal"),
            color_control_highlight: c("color_control_highlight"),
        },
        arr(&m["screens"]).iter().map(|x| screen_build(t, x, stale)).collect(),
        arr(&m["customs"]).iter().map(|x| api::CustomView { res_name: st(&x["name"]).into(), layout: views::forest_build(t, &x["layout"], stale) }).collect(),
        libs_build(m),
        res,
    );
    out.custom_icon = if m["files"]["icon"].is_null() { None } else { Some(wrapper_build(&m["files"]["icon"])) };
    Ok(out)
}

/// the known loss of the target type of view events: where the project read back has 0 for a view
/// event that had something else, the expectation is adjusted, and whether that happened is returned
pub fn mask_view_event_types(expected: &mut V, got: &V) -> bool {
    let mut hit = false;
    let (Some(a), Some(b)) = (expected["screens"].as_array_mut(), got["screens"].as_array()) else { return false };
    for (x, y) in a.iter_mut().zip(b) {
        hit |= mask_events(x["events"].as_array_mut().unwrap(), y["events"].as_array().unwrap());
    }
    hit
}

pub fn mask_events(a: &mut [V], b: &[V]) -> bool {
    let mut hit = false;
    for (e, f) in a.iter_mut().zip(b) {
        if e["kind"] == num(1) && e["ttype"] != num(0) && f["kind"] == num(1) && f["ttype"] == num(0) && e["name"] == f["name"] && e["target"] == f["target"] {
            e["ttype"] = num(0);
            hit = true;
        }
    }
    hit
}
