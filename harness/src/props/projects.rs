//! C17..C21, C23: screens, whole projects, edit histories, resource files.
use crate::blk;
use crate::conv::*;
use crate::proj::*;
use crate::rt::{viol, Ctx, R};
use crate::schema::{self, gen, gen_field, num, s};
use crate::sect::{self, arr, st};
use crate::tape::Tape;
use crate::views;
use serde_json::{json, Map, Value as V};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use swrs::api::component::ComponentKind as CK;
use swrs::api::screen::{Event, Screen};
use swrs::api::view::View;
use swrs::api::{self, ResourceAdditionError as RAE, ResourceId, Resources, SketchwareProject as Api};
use swrs::parser::file::FileItem;
use swrs::parser::logic::event::Event as PEvent;
use swrs::parser::view::Layout;
use swrs::parser::{RawSketchwareProject as Raw, ResourceFileWrapper as W, ResourceFiles, ResourceFilesParseError as RFE, ResourceType, SketchwareProject as Parsed};

pub const KEY_TTYPE: &str = "view-event-target-type";

// ------------------------------------------------------------------ C17
pub const RULE17: &str = "random screens (file entry, flat layout, logic pools, block containers in any order, optional fab) handed to Screen::from_parsed, each pool \
sometimes absent; all 21 component kinds and the three event kinds converted in both directions; screens with 66,000 variables, lists, components, events or more blocks, 33,000 views, 120 levels; cases are distinct if the screens differ";

pub fn screens(c: &mut Ctx) -> R {
    let mut names = new_names();
    let sc = match c.corner {
        Some(k) => wide_screen(&mut c.t, &mut names, k, if k < 5 { 66_000 } else { 33_000 }),
        None => gen_screen(&mut c.t, &mut names),
    };
    c.feed_v("screen", &sc);
    let name = st(&sc["file"]["fileName"]).to_string();
    let java = java_name(&name);
    let file: FileItem = v_to_file_item(&sc["file"]);
    let flat = views::emit_flat(&mut c.t, &sc["layout"]);
    let layout = Layout(flat.iter().map(v_to_view).collect());
    let lm = screen_logic_of(&mut c.t, &sc);
    c.note("logic", || lm.to_string());
    let logic = sect::screen_logic_build(&java, &lm);
    let fab = if sc["fab"].is_null() { None } else { Some(View::from(v_to_view(&fab_record(&sc["fab"])))) };
    let (n2, j2) = (name.clone(), java.clone());
    let got = c.call_ok("Screen::from_parsed", || Screen::from_parsed(n2, j2, file, layout, logic, fab))?;
    c.same("screen", &screen_expect(&sc), &screen_obs(&got))?;

    // components
    for cm in arr(&sc["components"]).iter().take(20) {
        let pc = v_to_component(cm);
        let k = c.call_ok("ComponentKind::from_parser_component", || CK::from_parser_component(&pc))?;
        c.same("component", cm, &ck_obs(st(&cm["componentId"]), &k))?;
        let back = c.call("into_parser_component", || k.into_parser_component(pc.id.clone()))?;
        c.same("component written", cm, &component_to_v(&back))?;
    }
    let cm = gen_component(&mut c.t, &mut HashSet::new());
    let id = st(&cm["componentId"]).to_string();
    let back = c.call("into_parser_component", || ck_build(&cm).into_parser_component(id))?;
    c.same("component written", &cm, &component_to_v(&back))?;

    // events
    let evs: Vec<V> = arr(&sc["events"]).iter().take(20).cloned().collect();
    for e in &evs {
        let pe: PEvent = v_to_event(&event_record(e));
        let mut a = c.call_ok("Event::try_from", || Event::try_from(pe))?;
        c.holds(a.code.0.is_empty(), || "an event converted from its record has code".into())?;
        a.code = blk::chain_build(&mut c.t, &e["code"]);
        c.same("event", &event_expect(e), &event_obs(&a))?;
        let cid = c.call("get_block_container_id", || a.get_block_container_id())?;
        c.holds(cid == container_of(e), || format!("the code of event {e} is looked for in {cid:?}, has to be {:?}", container_of(e)))?;
        let a2 = a.clone();
        let (rec, code) = c.call("into_parser_event", || a2.into_parser_event())?;
        c.holds(code == a.code, || "into_parser_event changed the code".into())?;
        let mut want = [e.clone()];
        want[0].as_object_mut().unwrap().remove("code");
        let r = event_to_v(&rec);
        let got = [json!({"kind": r["eventType"], "name": r["eventName"], "target": r["targetId"], "ttype": r["targetType"]})];
        if mask_events(&mut want, &got) {
            c.known.insert(KEY_TTYPE.into());
        }
        c.same("event written", &want[0], &got[0])?;
    }
    // more blocks
    for f in arr(&sc["funcs"]).iter().take(10) {
        let mb = func_build(&mut c.t, f);
        let code = mb.code.clone();
        let (rec, got) = c.call("into_parser_more_block", || mb.into_parser_more_block())?;
        c.holds(got == code, || "into_parser_more_block changed the code".into())?;
        c.same("more block written", &json!({"id": f["id"], "spec": blk::spec_text(&f["items"])}), &json!({"id": rec.id, "spec": rec.spec}))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C18
pub const RULE18: &str = "random whole projects (0 to 5 screens, custom views and drawers, libraries, resources with and without resource files) emitted as the six texts, \
taken through parse, the API, back to the parser's model and to texts, twice; the texts written are read by an independent reader; projects with very many of one thing (66,000 records, 5,000 views, 300 screens, 300 custom views, 3,000 resources); cases are distinct if the texts differ";

fn known(c: &mut Ctx, want: &mut V, got: &V) {
    if mask_view_event_types(want, got) {
        c.known.insert(KEY_TTYPE.into());
    }
}

fn without_files(m: &V) -> V {
    let mut x = m.clone();
    x.as_object_mut().unwrap().remove("files");
    x
}

/// written by the parser alone: references to nothing are kept as they were
const DIRECT: &str = "texts written for the parsed project";

/// what the raw project says has to be `m`; gives the model as the texts say it
fn check_raw(c: &mut Ctx, what: &str, m: &V, raw: &Raw) -> R<V> {
    let texts = raw_texts(raw);
    let got = match read_texts(&texts, what != DIRECT) {
        Ok(v) => v,
        Err(e) => {
            let d = texts.iter().enumerate().map(|(i, x)| format!("{}: {}", FILES[i], crate::rt::clip(x, 300))).collect::<Vec<_>>().join(" | ");
            return viol(format!("{what}: the texts are no valid project: {e}; {d}"));
        }
    };
    let mut want = without_files(m);
    known(c, &mut want, &got);
    c.same(what, &want, &got)?;
    match (&raw.resource_files, m["files"].is_null()) {
        (None, true) => {}
        (Some(w), false) => c.same(&format!("{what}: resource files"), &wrappers_expect(&m["files"]), &wrappers_obs(w))?,
        (w, _) => return viol(format!("{what}: resource files are {}", if w.is_some() { "present" } else { "absent" })),
    }
    Ok(got)
}

pub fn whole(c: &mut Ctx) -> R {
    let m = match c.corner {
        Some(k) => wide_project(&mut c.t, k),
        None => gen_project(&mut c.t),
    };
    let texts = emit_texts(&mut c.t, &m);
    for (i, x) in texts.iter().enumerate() {
        c.feed(FILES[i], x);
    }
    let auto = m["files"].is_null();
    let raw = raw_of(&mut c.t, texts, &m);
    let parsed = c.call_ok("parse_from", || Parsed::parse_from(raw))?;
    // straight back
    let p2 = parsed.clone();
    let direct: Raw = c.call_ok("parsed -> raw", || p2.try_into())?;
    check_raw(c, DIRECT, &m, &direct)?;
    // through the API
    let a = c.call_ok("parsed -> API", || Api::try_from(parsed))?;
    c.same("API project", &api_expect(&m), &api_obs(&a, auto))?;
    let a2 = a.clone();
    let p3 = c.call("API -> parsed", || Parsed::from(a2))?;
    c.holds(p3.resource_files.is_none() == auto, || "resource files appear or vanish through the API".into())?;
    let raw2: Raw = c.call_ok("parsed -> raw", || p3.clone().try_into())?;
    check_raw(c, "texts written after the API", &m, &raw2)?;
    let a3 = a.clone();
    let raw3: Raw = c.call_ok("API -> raw", || a3.try_into())?;
    c.holds(raw_texts(&raw3) == raw_texts(&raw2), || "the two ways of writing an API project give different texts".into())?;
    // and again
    let parsed2 = c.call_ok("parse_from", || Parsed::parse_from(raw3))?;
    let b = c.call_ok("parsed -> API", || Api::try_from(parsed2))?;
    c.same("API project, second time", &api_expect(&m), &api_obs(&b, auto))?;
    let raw4: Raw = c.call_ok("API -> raw", || b.try_into())?;
    check_raw(c, "texts written the second time", &m, &raw4)?;

    // made by hand
    if !auto && c.t.bool() {
        let mut m2 = gen_project(&mut c.t);
        if m2["files"].is_null() {
            return Ok(());
        }
        unique_resources(&mut m2);
        let obj = match api_build(&mut c.t, &m2, true) {
            Ok(x) => x,
            Err(e) => return viol(format!("harness or put_resource: {e}")),
        };
        c.count("projects made by hand");
        let raw: Raw = c.call_ok("API -> raw", || obj.try_into())?;
        check_raw(c, "texts written for a project made by hand", &m2, &raw)?;
        let p = c.call_ok("parse_from", || Parsed::parse_from(raw))?;
        let a = c.call_ok("parsed -> API", || Api::try_from(p))?;
        c.same("a project made by hand, written and read", &api_expect(&m2), &api_obs(&a, false))?;
    }
    Ok(())
}

/// resource names of different kinds made distinct (the registry has one id space)
pub fn unique_resources(m: &mut V) {
    let mut used: HashSet<String> = HashSet::new();
    for k in sect::RES {
        for x in m["res"][k].as_array_mut().unwrap() {
            let mut n = st(&x["name"]).to_string();
            while !used.insert(n.clone()) {
                n.push('_');
            }
            x["name"] = s(n);
        }
    }
}

// ------------------------------------------------------------------ C19
pub const RULE19: &str = "a random project, loaded from texts or made by hand, and a history of 1 to 40 edits through the public API (metadata, colors, libraries, screens, \
variables, components, events, code, more blocks, views, fabs, custom views, resources, icon), with saves and reloads in between; every save is read by an independent \
reader and compared with a model that saw the same edits; cases are distinct if project or history differ";

fn save_load(c: &mut Ctx, m: &mut V, a: Api, what: &str) -> R<Api> {
    let auto = m["files"].is_null();
    let raw: Raw = c.call_ok("API -> raw", || a.try_into())?;
    let got = check_raw(c, what, m, &raw)?;
    // what is on disk from now on
    let mut mm = std::mem::take(m);
    known(c, &mut mm, &got);
    *m = mm;
    let p = c.call_ok("parse_from", || Parsed::parse_from(raw))?;
    let a = c.call_ok("parsed -> API", || Api::try_from(p))?;
    c.same(&format!("{what}: loaded again"), &api_expect(m), &api_obs(&a, auto))?;
    c.count("saves and loads");
    Ok(a)
}

fn names_of(m: &V) -> Names {
    let mut n = new_names();
    for x in arr(&m["screens"]) {
        let l = st(&x["file"]["fileName"]);
        n.layouts.insert(l.into());
        n.java.insert(java_name(l));
    }
    for x in arr(&m["customs"]) {
        n.layouts.insert(st(&x["name"]).into());
    }
    n
}

fn ids_of(forest: &V, out: &mut HashSet<String>) {
    for n in arr(forest) {
        out.insert(st(&n["id"]).into());
        ids_of(&n["children"], out);
    }
}

fn containers_of(sc: &V) -> HashSet<String> {
    arr(&sc["events"]).iter().map(container_of).chain(arr(&sc["funcs"]).iter().map(|f| format!("{}_moreBlock", st(&f["id"])))).collect()
}

/// position of an event of the model in the screen
fn find_event(x: &Screen, e: &V) -> Option<usize> {
    let id = container_of(e);
    x.events.iter().position(|v| v.get_block_container_id() == id)
}

/// the key of the more block of that name (which may have got the name after it was added)
fn func_key(x: &Screen, name: &str) -> Option<String> {
    x.more_blocks.iter().find(|(_, m)| m.name == name).map(|(k, _)| k.clone())
}
fn var_key(x: &Screen, name: &str) -> Option<String> {
    x.variables.iter().find(|(_, v)| v.name == name).map(|(k, _)| k.clone())
}
fn list_key(x: &Screen, name: &str) -> Option<String> {
    x.list_variables.iter().find(|(_, v)| v.name == name).map(|(k, _)| k.clone())
}

fn edit_screen(c: &mut Ctx, sc: &mut V, x: &mut Screen) -> Option<String> {
    let t = &mut c.t;
    Some(match t.below(16) {
        0 => {
            let k = *t.pick(&["keyboardSetting", "options", "orientation", "theme"]);
            let f = schema::FILE_ITEM.iter().find(|f| f.0 == k).unwrap();
            let v = gen_field(t, &f.1).unwrap();
            let i = v.as_i64().unwrap();
            match k {
                "keyboardSetting" => x.keyboard_setting = i_keyboard(i),
                "orientation" => x.orientation = i_orientation(i),
                "theme" => x.theme = i_theme(i),
                _ => {
                    let o = i_options(i);
                    x.toolbar_enabled = o.toolbar_enabled;
                    x.fullscreen_enabled = o.fullscreen_enabled;
                    x.drawer_enabled = o.drawer_enabled;
                    x.fab_enabled = o.fab_enabled;
                }
            }
            sc["file"][k] = v;
            format!("set {k}")
        }
        1 | 2 => {
            // a variable or list
            let k = *t.pick(&["var", "list"]);
            let n = arr(&sc[k]).len();
            match t.below(4) {
                0 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let key = if k == "var" { var_key(x, st(&sc[k][i]["name"]))? } else { list_key(x, st(&sc[k][i]["name"]))? };
                    let v = sc[k].as_array_mut().unwrap().remove(i);
                    if k == "var" {
                        x.variables.remove(&key);
                    } else {
                        x.list_variables.remove(&key);
                    }
                    format!("remove {k} {v}")
                }
                3 if n > 0 => {
                    // another name; the key the API keeps it under is only how it is found
                    let i = t.below(n as u64) as usize;
                    let old = st(&sc[k][i]["name"]).to_string();
                    let mut used: HashSet<String> = arr(&sc[k]).iter().map(|v| st(&v["name"]).to_string()).collect();
                    used.extend(if k == "var" { x.variables.keys().cloned().collect::<Vec<_>>() } else { x.list_variables.keys().cloned().collect() });
                    let name = t.fresh(&mut used, &['\n'], &|_| false);
                    if k == "var" {
                        let key = var_key(x, &old)?;
                        x.variables.get_mut(&key)?.name = name.clone();
                    } else {
                        let key = list_key(x, &old)?;
                        x.list_variables.get_mut(&key)?.name = name.clone();
                    }
                    sc[k][i]["name"] = s(name.clone());
                    format!("rename {k} {old:?} to {name:?}")
                }
                1 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let ty = t.below(4) as i64;
                    let name = st(&sc[k][i]["name"]).to_string();
                    if k == "var" {
                        let key = var_key(x, &name)?;
                        x.variables.get_mut(&key)?.r#type = sect::i_var_type(ty);
                    } else {
                        let key = list_key(x, &name)?;
                        x.list_variables.get_mut(&key)?.r#type = sect::i_var_type(ty);
                    }
                    sc[k][i]["type"] = num(ty);
                    format!("retype {k} {name:?}")
                }
                _ => {
                    let mut used: HashSet<String> = arr(&sc[k]).iter().map(|v| st(&v["name"]).to_string()).collect();
                    used.extend(if k == "var" { x.variables.keys().cloned().collect::<Vec<_>>() } else { x.list_variables.keys().cloned().collect() });
                    let v = json!({"type": t.below(4), "name": t.fresh(&mut used, &['\n'], &|_| false)});
                    let one = json!([v]);
                    if k == "var" {
                        x.variables.extend(sect::vars_build(&one));
                    } else {
                        x.list_variables.extend(sect::lists_build(&one));
                    }
                    sc[k].as_array_mut().unwrap().push(v);
                    format!("add {k}")
                }
            }
        }
        3 => {
            let n = arr(&sc["components"]).len();
            if n > 0 && t.bool() {
                let i = t.below(n as u64) as usize;
                let v = sc["components"].as_array_mut().unwrap().remove(i);
                x.components.remove(st(&v["componentId"]));
                format!("remove component {v}")
            } else {
                let mut used = arr(&sc["components"]).iter().map(|v| st(&v["componentId"]).to_string()).collect();
                let v = gen_component(t, &mut used);
                x.components.insert(st(&v["componentId"]).into(), ck_build(&v));
                sc["components"].as_array_mut().unwrap().push(v);
                "add component".into()
            }
        }
        4 | 5 => {
            let n = arr(&sc["events"]).len();
            match t.below(3) {
                0 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let e = sc["events"].as_array_mut().unwrap().remove(i);
                    let j = find_event(x, &e)?;
                    x.events.remove(j);
                    format!("remove event {}", container_of(&e))
                }
                1 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let j = find_event(x, &sc["events"][i])?;
                    let code = code(t);
                    x.events[j].code = blk::chain_build(t, &code);
                    sc["events"][i]["code"] = code;
                    format!("new code for {}", container_of(&sc["events"][i]))
                }
                _ => {
                    let mut used = containers_of(sc);
                    let mut e = gen_event(t, &mut used)?;
                    if e["kind"] == num(1) {
                        e["ttype"] = num(0); // an API view event has none
                    }
                    x.events.push(event_build(t, &e));
                    sc["events"].as_array_mut().unwrap().push(e);
                    "add event".into()
                }
            }
        }
        6 => {
            let pos = x.events.iter().position(|v| v.name == "onCreate" && v.event_type == api::screen::EventType::ActivityEvent);
            if let (Some(i), true) = (pos, t.bool()) {
                x.events.remove(i);
                sc["create"] = V::Null;
                "remove onCreate".into()
            } else {
                let code = code(t);
                let b = blk::chain_build(t, &code);
                match pos {
                    Some(i) => x.events[i].code = b,
                    None => {
                        let at = t.below(x.events.len() as u64 + 1) as usize;
                        x.events.insert(at, Event { name: "onCreate".into(), event_type: api::screen::EventType::ActivityEvent, code: b });
                    }
                }
                sc["create"] = code;
                "code for onCreate".into()
            }
        }
        7 | 8 => {
            let n = arr(&sc["funcs"]).len();
            match t.below(5) {
                0 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let key = func_key(x, st(&sc["funcs"][i]["id"]))?;
                    let f = sc["funcs"].as_array_mut().unwrap().remove(i);
                    x.more_blocks.remove(&key);
                    format!("remove more block {}", f["id"])
                }
                1 | 2 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let id = st(&sc["funcs"][i]["id"]).to_string();
                    let key = func_key(x, &id)?;
                    let mb = x.more_blocks.get_mut(&key)?;
                    if t.bool() {
                        let code = code(t);
                        mb.code = blk::chain_build(t, &code);
                        sc["funcs"][i]["code"] = code;
                    } else {
                        let o = blk::GenOpt { one_line: true, max_depth: 0 };
                        let items = V::Array(blk::gen_items(t, &mut 0, 0, &o, false));
                        mb.spec = blk::items_build(t, &items);
                        sc["funcs"][i]["items"] = items;
                    }
                    format!("change more block {id:?}")
                }
                4 if n > 0 => {
                    let i = t.below(n as u64) as usize;
                    let id = st(&sc["funcs"][i]["id"]).to_string();
                    let key = func_key(x, &id)?;
                    let mut used = containers_of(sc);
                    let mut ids: HashSet<String> = arr(&sc["funcs"]).iter().map(|f| st(&f["id"]).to_string()).collect();
                    ids.extend(x.more_blocks.keys().cloned());
                    let f = gen_func(t, &mut ids, &mut used)?;
                    x.more_blocks.get_mut(&key)?.name = st(&f["id"]).into();
                    sc["funcs"][i]["id"] = f["id"].clone();
                    format!("rename more block {id:?} to {}", f["id"])
                }
                _ => {
                    let mut used = containers_of(sc);
                    let mut ids: HashSet<String> = arr(&sc["funcs"]).iter().map(|f| st(&f["id"]).to_string()).collect();
                    ids.extend(x.more_blocks.keys().cloned());
                    let f = gen_func(t, &mut ids, &mut used)?;
                    x.more_blocks.insert(st(&f["id"]).into(), func_build(t, &f));
                    sc["funcs"].as_array_mut().unwrap().push(f);
                    "add more block".into()
                }
            }
        }
        9..=11 => {
            let mut used = HashSet::new();
            ids_of(&sc["layout"], &mut used);
            super::layouts::edit(c, &mut sc["layout"], &mut x.layout, &mut used);
            "edit the layout".into()
        }
        12 => {
            // set a member of some view found by its id
            let ps = views::paths(&sc["layout"]);
            if ps.is_empty() {
                return None;
            }
            let p = t.pick(&ps).clone();
            let k = *t.pick(&views::COMMON[1..]);
            let v = views::gen_value(t, k);
            let n = views::node_at_mut(&mut sc["layout"], &p);
            let id = st(&n["id"]).to_string();
            views::set_path(n, k, v.clone());
            let w = x.layout.iter_mut().find_map(|r| r.find_id_mut(&id))?;
            views::set_common(w, k, &v);
            format!("set {k} of view {id:?}")
        }
        13 => {
            if !sc["fab"].is_null() && t.bool() {
                sc["fab"] = V::Null;
                x.fab = None;
                "remove the fab".into()
            } else {
                let f = gen_fab(t);
                x.fab = Some(views::view_build(t, &f, true));
                sc["fab"] = f;
                "set the fab".into()
            }
        }
        14 => {
            // append, remove or swap blocks of an event in place
            let n = arr(&sc["events"]).len();
            if n == 0 {
                return None;
            }
            let i = t.below(n as u64) as usize;
            let j = find_event(x, &sc["events"][i])?;
            let code = sc["events"][i]["code"].as_array_mut().unwrap();
            let obj = &mut x.events[j].code.0;
            match t.below(3) {
                0 if !code.is_empty() => {
                    let at = t.below(code.len() as u64) as usize;
                    code.remove(at);
                    obj.remove(at);
                    "remove a block".into()
                }
                1 if code.len() > 1 => {
                    let (p, q) = (t.below(code.len() as u64) as usize, t.below(code.len() as u64) as usize);
                    code.swap(p, q);
                    obj.swap(p, q);
                    "swap blocks".into()
                }
                _ => {
                    let at = t.below(code.len() as u64 + 1) as usize;
                    let b = blk::gen_block(t, &mut 3, 1, &blk::GenOpt { one_line: false, max_depth: 3 });
                    obj.insert(at, blk::block_build(t, &b));
                    code.insert(at, b);
                    "insert a block".into()
                }
            }
        }
        _ => {
            // a copy of another block chain of the same screen, as a user pastes code
            let n = arr(&sc["events"]).len();
            if n < 2 {
                return None;
            }
            let (i, j) = (t.below(n as u64) as usize, t.below(n as u64) as usize);
            let (a, b) = (find_event(x, &sc["events"][i])?, find_event(x, &sc["events"][j])?);
            let code = sc["events"][i]["code"].clone();
            let obj = x.events[a].code.clone();
            sc["events"][j]["code"].as_array_mut().unwrap().extend(arr(&code).iter().cloned());
            x.events[b].code.0.extend(obj.0);
            if blk::count_blocks(&sc["events"][j]["code"]) > 300 {
                sc["events"][j]["code"] = json!([]);
                x.events[b].code.0.clear();
            }
            "paste code".into()
        }
    })
}

fn edit_project(c: &mut Ctx, m: &mut V, a: &mut Api) -> R<Option<String>> {
    let ns = arr(&m["screens"]).len();
    let pickd = c.t.below(20);
    if pickd < 11 && ns > 0 {
        let i = c.t.below(ns as u64) as usize;
        let mut sc = std::mem::take(&mut m["screens"][i]);
        let r = edit_screen(c, &mut sc, &mut a.screens[i]);
        m["screens"][i] = sc;
        return Ok(r.map(|x| format!("screen {i}: {x}")));
    }
    let t = &mut c.t;
    Ok(Some(match pickd {
        11 | 12 => {
            let d = gen(t, schema::PROJECT);
            let ks: Vec<&str> = schema::PROJECT.iter().map(|f| f.0).filter(|k| *k != "custom_icon").collect();
            let k = *t.pick(&ks);
            let v = d[k].clone();
            let text = v.as_str().unwrap_or("").to_string();
            let md = &mut a.metadata;
            match k {
                "sc_id" => md.local_id = text.parse().unwrap(),
                "my_app_name" => md.name = text,
                "my_ws_name" => md.workspace_name = text,
                "my_sc_pkg_name" => md.package_name = text,
                "sc_ver_code" => md.version_code = text.parse().unwrap(),
                "sc_ver_name" => md.version_name = text,
                "my_sc_reg_dt" => md.time_created = schema::date_to_ts(&text) as u64,
                "sketchware_ver" => md.sketchware_version = v.as_i64().unwrap() as u8,
                "color_primary" => a.colors.color_primary = i_to_color(v.as_i64().unwrap()),
                "color_primary_dark" => a.colors.color_primary_dark = i_to_color(v.as_i64().unwrap()),
                "color_accent" => a.colors.color_accent = i_to_color(v.as_i64().unwrap()),
                "color_control_normal" => a.colors.color_control_normal = i_to_color(v.as_i64().unwrap()),
                "color_control_highlight" => a.colors.color_control_highlight = i_to_color(v.as_i64().unwrap()),
                _ => return viol(format!("harness: project member {k}")),
            }
            m["project"][k] = v;
            format!("set {k}")
        }
        13 => {
            let k = *t.pick(&["compat", "firebase", "admob", "googleMap"]);
            let v = if k == "compat" {
                V::Bool(t.bool())
            } else if t.chance(1, 3) {
                V::Null
            } else {
                gen_lib(t, k)
            };
            m["libs"][k] = v;
            let l = libs_build(m);
            match k {
                "compat" => a.libraries.app_compat_enabled = l.app_compat_enabled,
                "firebase" => a.libraries.firebase = l.firebase,
                "admob" => a.libraries.ad_mob = l.ad_mob,
                _ => a.libraries.google_map = l.google_map,
            }
            format!("set library {k}")
        }
        14 => {
            let mut names = names_of(m);
            match t.below(4) {
                0 if ns > 0 => {
                    let i = t.below(ns as u64) as usize;
                    m["screens"].as_array_mut().unwrap().remove(i);
                    a.screens.remove(i);
                    format!("remove screen {i}")
                }
                1 if ns > 1 => {
                    let (i, j) = (t.below(ns as u64) as usize, t.below(ns as u64) as usize);
                    m["screens"].as_array_mut().unwrap().swap(i, j);
                    a.screens.swap(i, j);
                    format!("swap screens {i} and {j}")
                }
                2 if ns > 0 => {
                    let i = t.below(ns as u64) as usize;
                    let n = names.layout(t);
                    a.screens[i].java_name = java_name(&n);
                    a.screens[i].layout_name = n.clone();
                    m["screens"][i]["file"]["fileName"] = s(n);
                    format!("rename screen {i}")
                }
                _ => {
                    let mut sc = gen_screen(t, &mut names);
                    for e in sc["events"].as_array_mut().unwrap() {
                        if e["kind"] == num(1) {
                            e["ttype"] = num(0);
                        }
                    }
                    let at = t.below(ns as u64 + 1) as usize;
                    a.screens.insert(at, screen_build(t, &sc, true));
                    m["screens"].as_array_mut().unwrap().insert(at, sc);
                    format!("add screen {at}")
                }
            }
        }
        15 => {
            let n = arr(&m["customs"]).len();
            if n > 0 && t.chance(1, 3) {
                let i = t.below(n as u64) as usize;
                m["customs"].as_array_mut().unwrap().remove(i);
                a.custom_views.remove(i);
                format!("remove custom view {i}")
            } else if n > 0 && t.bool() {
                let i = t.below(n as u64) as usize;
                let mut used = HashSet::new();
                ids_of(&m["customs"][i]["layout"], &mut used);
                super::layouts::edit(c, &mut m["customs"][i]["layout"], &mut a.custom_views[i].layout, &mut used);
                format!("edit custom view {i}")
            } else {
                let name = names_of(m).custom(t);
                let n = t.below(6) as usize;
                let f = views::gen_forest(t, n, &mut HashSet::new());
                a.custom_views.push(api::CustomView { res_name: name.clone(), layout: views::forest_build(t, &f, true) });
                m["customs"].as_array_mut().unwrap().push(json!({"name": name, "layout": f}));
                format!("add custom view {name:?}")
            }
        }
        16 | 17 => {
            let k = *t.pick(&sect::RES);
            let n = arr(&m["res"][k]).len();
            if n > 0 && t.chance(2, 5) {
                // the registry looks the id up in images, sounds, fonts in this order
                let i = t.below(n as u64) as usize;
                let name = st(&m["res"][k][i]["name"]).to_string();
                let kinds: Vec<&str> = sect::RES.iter().cloned().filter(|k| arr(&m["res"][*k]).iter().any(|x| x["name"] == s(&name))).collect();
                if kinds.len() > 1 {
                    return Ok(None);
                }
                let x = m["res"][k].as_array_mut().unwrap().remove(i);
                if !m["files"].is_null() {
                    m["files"][k].as_object_mut().unwrap().remove(st(&x["full"]));
                }
                let r = a.resources.remove_resource(&ResourceId(name.clone()));
                c.holds(r.is_some_and(|r| res_kind(r.1) == k), || format!("remove_resource({name:?}) did not give the resource"))?;
                format!("remove resource {name:?}")
            } else {
                let mut used = HashSet::new();
                for k in sect::RES {
                    used.extend(arr(&m["res"][k]).iter().map(|x| st(&x["name"]).to_string()));
                }
                let name = t.fresh(&mut used, &[], &|_| false);
                let mut fu = arr(&m["res"][k]).iter().map(|x| st(&x["full"]).to_string()).collect();
                let full = t.fresh(&mut fu, &[], &|_| false);
                let w = gen_wrapper(t, &full, k);
                let mut w2 = w.clone();
                if t.bool() {
                    // the type given to put_resource is the one that counts
                    w2["type"] = s(*t.pick(&["images", "sounds", "fonts", "icon"]));
                }
                let (id, obj) = (ResourceId(name.clone()), wrapper_build(&w2));
                m["res"][k].as_array_mut().unwrap().push(json!({"name": name, "full": full}));
                if !m["files"].is_null() {
                    m["files"][k][&full] = w;
                }
                c.call_ok("put_resource", || a.resources.put_resource(id, obj, res_type(k)))?;
                format!("add resource {name:?}")
            }
        }
        18 => {
            let on = t.chance(2, 3);
            let full = t.string();
            let w = gen_wrapper(t, &full, "icon");
            a.custom_icon = if on { Some(wrapper_build(&w)) } else { None };
            if !m["files"].is_null() {
                m["files"]["icon"] = if on { w } else { V::Null };
            }
            m["project"]["custom_icon"] = V::Bool(on);
            format!("icon: {on}")
        }
        _ => return Ok(None),
    }))
}

pub fn history(c: &mut Ctx) -> R {
    let mut m = gen_project(&mut c.t);
    let by_hand = !m["files"].is_null() && c.t.chance(1, 3);
    let mut a = if by_hand {
        unique_resources(&mut m);
        for sc in m["screens"].as_array_mut().unwrap() {
            for e in sc["events"].as_array_mut().unwrap() {
                if e["kind"] == num(1) {
                    e["ttype"] = num(0);
                }
            }
        }
        c.feed_v("model", &m);
        match api_build(&mut c.t, &m, true) {
            Ok(x) => x,
            Err(e) => return viol(format!("harness or put_resource: {e}")),
        }
    } else {
        let texts = emit_texts(&mut c.t, &m);
        for (i, x) in texts.iter().enumerate() {
            c.feed(FILES[i], x);
        }
        let raw = raw_of(&mut c.t, texts, &m);
        let p = c.call_ok("parse_from", || Parsed::parse_from(raw))?;
        c.call_ok("parsed -> API", || Api::try_from(p))?
    };
    let n = 1 + if c.t.chance(1, 8) { c.t.below(40) } else { c.t.below(12) };
    let mut log = vec![];
    for i in 0..n {
        if let Some(x) = edit_project(c, &mut m, &mut a)? {
            c.count("edits");
            c.fp = crate::tape::hash_bytes(c.fp, x.as_bytes());
            log.push(x);
        }
        if c.t.chance(1, 6) {
            a = match save_load(c, &mut m, a, &format!("save after {} edits", i + 1)) {
                Ok(a) => a,
                Err(e) => return Err(crate::rt::Viol { msg: format!("{} (history: {})", e.msg, log.join("; ")) }),
            };
            log.push("save and load".into());
        }
    }
    c.note("history", || log.join("\n"));
    match save_load(c, &mut m, a, &format!("save after {n} edits")) {
        Ok(_) => Ok(()),
        Err(e) => Err(crate::rt::Viol { msg: format!("{} (history: {})", e.msg, log.join("; ")) }),
    }
}

// ------------------------------------------------------------------ C20
pub const RULE20: &str = "random projects whose resources are backed by a mix of real files in a scratch resources folder and imaginary files, listed in random order \
with unreferenced ones among them; grouping, matching by kind and full name, and the list written are compared; one file missing, in a wrong folder, or not given has \
to be refused with its path or name; cases are distinct if the lists differ";

fn file_name(t: &mut Tape, used: &mut HashSet<String>) -> String {
    let mut n = t.fresh(used, &['/', '\0'], &|n| n.is_empty() || n == "." || n == ".." || n.len() > 120);
    if n.len() > 200 {
        n = format!("long{}", used.len());
        used.insert(n.clone());
    }
    n
}

const FOLDERS: [(&str, &str); 4] = [("images", "images"), ("sounds", "sounds"), ("fonts", "fonts"), ("icon", "icons")];

fn folder(kind: &str) -> &'static str {
    FOLDERS.iter().find(|f| f.0 == kind).unwrap().1
}

/// a wrapper of the given kind; real files are created below `root`
fn any_wrapper(t: &mut Tape, root: &Path, full: &str, kind: &str) -> V {
    if t.chance(1, 2) {
        return gen_wrapper(t, full, kind);
    }
    let pid = *t.pick(&["601", "x", "images", "1"]);
    let dir = root.join(folder(kind)).join(pid);
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(full);
    if t.chance(1, 8) {
        // a link to a file is as good as the file
        let real = root.join("elsewhere");
        let _ = std::fs::write(&real, b"x");
        let _ = std::os::unix::fs::symlink(&real, &p);
    } else {
        let _ = std::fs::write(&p, b"x");
    }
    json!({"kind": "path", "path": p.to_str().unwrap()})
}

struct CleanUp(PathBuf);
impl Drop for CleanUp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn map_obs(m: &HashMap<String, W>) -> V {
    let b: BTreeMap<&String, V> = m.iter().map(|(k, w)| (k, wrapper_obs(w))).collect();
    json!(b)
}

pub fn resource_files(c: &mut Ctx) -> R {
    let root = c.scratch.join(format!("res{}", c.case)).join("resources");
    let _guard = CleanUp(c.scratch.join(format!("res{}", c.case)));
    let rel = |x: &str| x.replace(c.scratch.to_str().unwrap(), "");
    let mut model: Map<String, V> = Map::new();
    let mut list: Vec<V> = vec![];
    let mut res: Map<String, V> = Map::new();
    let mut referenced: Vec<V> = vec![];
    for k in sect::RES {
        let mut by = Map::new();
        let (mut fu, mut nu) = (HashSet::new(), HashSet::new());
        let mut items = vec![];
        for _ in 0..c.t.count().min(12) {
            // the same full name may appear in other kinds
            let full = if c.t.chance(1, 4) { "shared.bin".to_string() } else { file_name(&mut c.t, &mut fu) };
            if by.contains_key(&full) {
                continue;
            }
            let w = any_wrapper(&mut c.t, &root, &full, k);
            list.push(w.clone());
            if c.t.chance(5, 6) {
                let name = c.t.fresh(&mut nu, &[], &|_| false);
                items.push(json!({"name": name, "full": full}));
                referenced.push(w.clone());
            }
            by.insert(full, w);
        }
        c.t.shuffle(&mut items);
        res.insert(k.into(), V::Array(items));
        model.insert(k.into(), V::Object(by));
    }
    let icon = if c.t.bool() {
        let full = if c.t.bool() { "icon.png".to_string() } else { file_name(&mut c.t, &mut HashSet::new()) };
        any_wrapper(&mut c.t, &root, &full, "icon")
    } else {
        V::Null
    };
    if !icon.is_null() {
        list.push(icon.clone());
        referenced.push(icon.clone());
    }
    c.t.shuffle(&mut list);
    c.feed("list", &rel(&V::Array(list.clone()).to_string()));
    c.count_n("resource files", list.len() as u64);
    let build = |l: &[V]| -> Vec<W> { l.iter().map(wrapper_build).collect() };
    let sorted = |l: &[V]| -> V {
        let mut x: Vec<String> = l.iter().map(|w| w.to_string()).collect();
        x.sort();
        V::Array(x.into_iter().map(s).collect())
    };
    for w in &list {
        let obj = wrapper_build(w);
        let want = match st(&w["kind"]) {
            "path" => Path::new(st(&w["path"])).file_name().unwrap().to_str().unwrap().to_string(),
            _ => st(&w["full"]).to_string(),
        };
        let got = c.call("get_full_name", || obj.get_full_name())?;
        c.holds(got == want, || format!("full name of {w} is {got:?}"))?;
    }
    let objs = build(&list);
    let rf: ResourceFiles = c.call_ok("ResourceFiles::try_from", || objs.try_into())?;
    c.same("images", &model["images"], &map_obs(&rf.images))?;
    c.same("sounds", &model["sounds"], &map_obs(&rf.sounds))?;
    c.same("fonts", &model["fonts"], &map_obs(&rf.fonts))?;
    c.same("icon", &icon, &rf.custom_icon.as_ref().map_or(V::Null, wrapper_obs))?;
    let rf2 = rf.clone();
    let back: Vec<W> = c.call("ResourceFiles -> list", || rf2.into())?;
    c.same("list written", &sorted(&list), &wrappers_obs(&back))?;

    // a project that uses them
    let mut m = json!({"project": gen(&mut c.t, schema::PROJECT), "screens": [], "customs": [], "libs": gen_libs(&mut c.t), "res": res, "files": {}});
    // an icon that is given counts, even if the record says there is none
    let unmarked = !icon.is_null() && c.t.chance(1, 4);
    m["project"]["custom_icon"] = V::Bool(!icon.is_null() && !unmarked);
    let texts = emit_texts(&mut c.t, &m);
    m["project"]["custom_icon"] = V::Bool(!icon.is_null());
    let [p, f, l, r, v, g] = texts.clone();
    let objs = build(&list);
    let parsed = c.call_ok("parse", || Parsed::parse(p, f, l, r, v, g, objs))?;
    let a = c.call_ok("parsed -> API", || Api::try_from(parsed))?;
    for (k, got) in [("images", a.resources.get_images()), ("sounds", a.resources.get_sounds()), ("fonts", a.resources.get_fonts())] {
        let want: Vec<V> = arr(&m["res"][k]).iter().map(|x| json!({"name": x["name"], "file": model[k][st(&x["full"])]})).collect();
        let got: Vec<V> = got.iter().map(|(i, w)| json!({"name": i.0, "file": wrapper_obs(w)})).collect();
        c.same(&format!("{k} of the API project"), &V::Array(want), &V::Array(got))?;
    }
    c.same("icon of the API project", &icon, &a.custom_icon.as_ref().map_or(V::Null, wrapper_obs))?;
    let raw: Raw = c.call_ok("API -> raw", || a.try_into())?;
    match &raw.resource_files {
        // files nothing refers to may or may not survive; those in use have to
        Some(w) => {
            let got: Vec<String> = w.iter().map(|x| wrapper_obs(x).to_string()).collect();
            for x in &referenced {
                let x = x.to_string();
                let n = got.iter().filter(|y| **y == x).count();
                c.holds(n == 1, || format!("the resource file {x} is given back {n} times"))?;
            }
            for y in &got {
                c.holds(list.iter().any(|x| x.to_string() == *y), || format!("a resource file that was not given is given back: {y}"))?;
            }
        }
        None => return viol("resource files vanished"),
    }
    match read_texts(&raw_texts(&raw), true) {
        Ok(v) => c.same("project with resource files, written", &without_files(&m), &v)?,
        Err(e) => return viol(format!("the texts are no valid project: {e}")),
    }

    // random ids
    let full = c.t.string();
    let k = *c.t.pick(&["images", "sounds", "fonts", "icon"]);
    let f2 = full.clone();
    let w = c.call("make_random_id", || W::make_random_id(f2, res_type(k)))?;
    c.holds(matches!(&w, W::U32Id { res_full_name, res_type: ty, .. } if *res_full_name == full && res_kind(*ty) == k), || format!("make_random_id({full:?}, {k}) gives {w:?}"))?;

    // something wrong
    match c.t.below(3) {
        0 => {
            let kind = *c.t.pick(&["images", "sounds", "fonts", "icon"]);
            let dir = root.join(folder(kind)).join("601");
            let _ = std::fs::create_dir_all(&dir);
            let path = match c.t.below(6) {
                // a link to nothing, a file used as a folder, a folder that does not exist
                0 => {
                    let p = dir.join("link to nothing.png");
                    let _ = std::os::unix::fs::symlink(root.join("nothing"), &p);
                    p
                }
                1 => {
                    let p = dir.join("file");
                    let _ = std::fs::write(&p, b"x");
                    root.join(folder(kind)).join("601/file").join("a.png")
                }
                2 => root.join(folder(kind)).join("602").join("no such file.png"),
                3 => {
                    // there is one, but in another folder
                    let _ = std::fs::create_dir_all(root.join("sounds/603"));
                    let _ = std::fs::create_dir_all(root.join("images/604"));
                    let _ = std::fs::write(root.join("sounds/603/other.png"), b"x");
                    let _ = std::fs::write(root.join("images/604/other.png"), b"x");
                    dir.join("other.png")
                }
                4 => dir.join("long".repeat(100)),
                _ => dir.join("no such file.png"),
            };
            let mut l2 = build(&list);
            let at = c.t.below(l2.len() as u64 + 1) as usize;
            l2.insert(at, W::Path(path.clone()));
            let e = c.call_err("ResourceFiles::try_from", "a file that does not exist", || ResourceFiles::try_from(l2))?;
            c.holds(matches!(&e, RFE::FileDoesntExist { path: p } if *p == path), || format!("{path:?} does not exist: the error is {e:?}"))?;
        }
        1 => {
            let dir = root.join(*c.t.pick(&["Images", "image", "icon", "x", "images2", " fonts", "SOUNDS", "images\u{0301}", "resources"])).join(*c.t.pick(&["601", "images", "fonts"]));
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join("a.png");
            let _ = std::fs::write(&path, b"x");
            let mut l2 = build(&list);
            let at = c.t.below(l2.len() as u64 + 1) as usize;
            l2.insert(at, W::Path(path.clone()));
            let e = c.call_err("ResourceFiles::try_from", "a file in a folder of no kind", || ResourceFiles::try_from(l2))?;
            c.holds(matches!(&e, RFE::InvalidPath { path: p } if *p == path), || format!("{path:?} is in no resource folder: the error is {e:?}"))?;
        }
        _ => {
            // a resource whose file is not given
            let kinds: Vec<&str> = sect::RES.iter().cloned().filter(|k| !arr(&m["res"][*k]).is_empty()).collect();
            if !kinds.is_empty() {
                let k = *c.t.pick(&kinds);
                let x = c.t.pick(arr(&m["res"][k])).clone();
                let gone = model[k][st(&x["full"])].to_string();
                let l2: Vec<V> = list.iter().filter(|w| w.to_string() != gone).cloned().collect();
                if l2.len() + 1 == list.len() {
                    let [p, f, l, r, v, g] = texts;
                    let objs = build(&l2);
                    let parsed = c.call_ok("parse", || Parsed::parse(p, f, l, r, v, g, objs))?;
                    let e = c.call_err("parsed -> API", "the file of a resource is missing", || Api::try_from(parsed))?;
                    let ok = matches!(&e, api::APISketchwareProjectConversionError::MissingResourceFile { res_name, res_full_name, res_type }
                        if res_name == st(&x["name"]) && res_full_name == st(&x["full"]) && res_kind(*res_type) == k);
                    c.holds(ok, || format!("the file of {k} {x} is missing: the error is {e:?}"))?;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
pub const RULE21: &str = "random histories of 1 to 60 put_resource, get_resource and remove_resource calls on a registry (few ids, so that they collide; all kinds; real \
files that exist or not), compared after every call with a model of three ordered maps; cases are distinct if the histories differ";

pub fn registry(c: &mut Ctx) -> R {
    let root = c.scratch.join(format!("reg{}", c.case));
    let _guard = CleanUp(root.clone());
    let mut reg = Resources::new_empty();
    let mut model: Vec<Vec<(String, V)>> = vec![vec![], vec![], vec![]];
    let nids = 1 + c.t.below(8);
    let mut used = HashSet::new();
    let ids: Vec<String> = (0..nids).map(|_| c.t.fresh(&mut used, &[], &|_| false)).collect();
    let n = 1 + if c.t.chance(1, 6) { c.t.below(60) } else { c.t.below(15) };
    let mut log = String::new();
    for _ in 0..n {
        let id = c.t.pick(&ids).clone();
        let at = model.iter().position(|l| l.iter().any(|x| x.0 == id));
        let op = match c.t.below(5) {
            0..=2 => {
                let k = c.t.below(3) as usize;
                let kind = sect::RES[k];
                let full = c.t.string();
                let mut w = gen_wrapper(&mut c.t, &full, kind);
                let mut missing = false;
                if c.t.chance(1, 4) {
                    let p = root.join(format!("f{}.png", c.t.below(4)));
                    missing = c.t.bool();
                    let mut p = p;
                    if missing && c.t.bool() {
                        // nothing there either, with other kinds of paths
                        let name = c.t.name_wo(&['/', '\u{0}']);
                        let name = if name.is_empty() || name == "." || name == ".." { "x".to_string() } else { name };
                        let _ = std::fs::create_dir_all(root.join("dir"));
                        let _ = std::fs::write(root.join("dir/file"), b"x");
                        p = match c.t.below(7) {
                            0 => root.join("none").join(name),
                            1 => root.join("dir").join(format!("{name}~")),
                            2 => root.join("dir/file").join(name),
                            3 => "".into(),
                            4 => root.join(format!("link{}", c.t.below(2))),
                            5 => format!("no-such-{name}").into(),
                            _ => root.join("dir").join("f".repeat(100 + c.t.below(400) as usize)),
                        };
                        if p.to_str().unwrap().contains("/link") && p.parent() == Some(&*root) {
                            let _ = std::os::unix::fs::symlink(root.join("nothing"), &p);
                        }
                    } else if missing {
                        let _ = std::fs::remove_file(&p);
                    } else {
                        let _ = std::fs::create_dir_all(&root);
                        let _ = std::fs::write(&p, b"x");
                    }
                    w = json!({"kind": "path", "path": p.to_str().unwrap()});
                }
                let mut given = w.clone();
                if st(&w["kind"]) != "path" && c.t.bool() {
                    given["type"] = s(*c.t.pick(&["images", "sounds", "fonts", "icon"]));
                }
                let obj = wrapper_build(&given);
                let rid = ResourceId(id.clone());
                let got = c.call("put_resource", || reg.put_resource(rid, obj, res_type(kind)))?;
                let ok = match &got {
                    Ok(()) => at.is_none() && !missing,
                    Err(RAE::IdTaken { id: i }) => at.is_some() && i.0 == id,
                    Err(RAE::FileDoesntExist { path }) => missing && path.to_str() == w["path"].as_str(),
                };
                c.holds(ok, || format!("put {id:?} as {kind} ({}{}): {got:?}", if at.is_some() { "id taken" } else { "id free" }, if missing { ", no such file" } else { "" }))?;
                if let Err(e) = &got {
                    let (text, what) = match e {
                        RAE::IdTaken { id } => (e.to_string(), id.0.clone()),
                        RAE::FileDoesntExist { path } => (e.to_string(), format!("{path:?}")),
                    };
                    c.holds(text.contains(&what), || format!("put {id:?} as {kind}: the error says {text:?}, without {what:?}"))?;
                }
                if got.is_ok() {
                    model[k].push((id.clone(), w));
                }
                format!("put {id:?} {kind} {}", got.is_ok())
            }
            3 => {
                let rid = ResourceId(id.clone());
                let got = c.call("remove_resource", || reg.remove_resource(&rid))?;
                let want = at.map(|k| {
                    let i = model[k].iter().position(|x| x.0 == id).unwrap();
                    (model[k].remove(i).1, sect::RES[k])
                });
                let g = got.as_ref().map(|(w, t)| (wrapper_obs(w), res_kind(*t)));
                c.holds(g == want, || format!("remove {id:?}: {g:?}, has to be {want:?}"))?;
                format!("remove {id:?} {}", g.is_some())
            }
            _ => "look".to_string(),
        };
        c.count("registry calls");
        c.fp = crate::tape::hash_bytes(c.fp, op.as_bytes());
        if c.record {
            log.push_str(&op);
            log.push('\n');
        }
        // all of it, after every call
        for id in &ids {
            let rid = ResourceId(id.clone());
            let got = reg.get_resource(&rid).map(|(w, t)| (wrapper_obs(w), res_kind(t)));
            let want = model.iter().enumerate().find_map(|(k, l)| l.iter().find(|x| x.0 == *id).map(|x| (x.1.clone(), sect::RES[k])));
            c.holds(got == want, || format!("after {op}: {id:?} is {got:?}, has to be {want:?}"))?;
        }
        for (k, m) in [(0, reg.get_images()), (1, reg.get_sounds()), (2, reg.get_fonts())] {
            let got: Vec<(String, V)> = m.iter().map(|(i, w)| (i.0.clone(), wrapper_obs(w))).collect();
            c.holds(got == model[k], || format!("after {op}: {} are {got:?}, have to be {:?}", sect::RES[k], model[k]))?;
        }
    }
    c.note("history", || log);
    Ok(())
}

// ------------------------------------------------------------------ C23
pub const RULE23: &str = "random projects, encrypted, loaded, converted through the API and written in two to eight threads at once, on the same shared objects and on \
different projects interleaved, with yields and malformed projects in between; every thread's results have to be byte for byte those of a run alone; cases are distinct if the texts differ";

struct Outcome {
    texts: [String; 6],
    api: V,
    enc: Vec<Vec<u8>>,
}

fn pipeline(raw: &Raw, auto: bool, jit: &mut u64) -> Result<Outcome, String> {
    let mut breath = || {
        let x = crate::tape::splitmix(jit);
        match x % 4 {
            0 => std::thread::yield_now(),
            1 => {
                for _ in 0..x % 200 {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
    };
    let enc: Vec<Vec<u8>> = raw_texts(raw).iter().map(|x| swrs::encrypt_sw(x.as_bytes())).collect();
    breath();
    let e = |i: usize| enc[i].clone();
    let loaded = match &raw.resource_files {
        Some(w) => Raw::from_encrypted(e(0), e(1), e(2), e(3), e(4), e(5), w.clone()),
        None => Raw::from_encrypted_wo_res(e(0), e(1), e(2), e(3), e(4), e(5)),
    }
    .map_err(|e| format!("{e:?}"))?;
    breath();
    let p = Parsed::parse_from(loaded).map_err(|e| format!("{e:?}"))?;
    breath();
    let a = Api::try_from(p).map_err(|e| format!("{e:?}"))?;
    breath();
    let api = api_obs(&a, auto);
    let out: Raw = a.try_into().map_err(|e| format!("{e:?}"))?;
    let t = raw_texts(&out);
    Ok(Outcome { texts: std::array::from_fn(|i| t[i].to_string()), api, enc })
}

/// many threads, each with a small project of its own (and some with the same one), converting it again and
/// again without a pause: anything kept between calls is read and replaced all the time
fn stress(c: &mut Ctx) -> R {
    use swrs::parser::Parsable;
    let n = 2 + c.t.below(5) as usize;
    let mut all = vec![];
    for i in 0..n {
        let mut best: Option<(V, [String; 6])> = None;
        for _ in 0..20 {
            let m = gen_project(&mut c.t);
            // without a list of files, ids are made up
            if arr(&m["screens"]).is_empty() || m["files"].is_null() {
                continue;
            }
            let t = emit_texts(&mut c.t, &m);
            let size = |t: &[String; 6]| t.iter().map(|x| x.len()).sum::<usize>();
            if best.as_ref().map_or(true, |b| size(&t) < size(&b.1)) {
                best = Some((m, t));
            }
        }
        let Some((m, t)) = best else { continue };
        for (j, x) in t.iter().enumerate() {
            c.feed(&format!("{i}-{}", FILES[j]), x);
        }
        let spoilt = spoilt(&mut c.t, &t, &m);
        let raw = raw_of(&mut c.t, t, &m);
        let r = raw.clone();
        let parsed = c.call_ok("parse", || Parsed::parse_from(r))?;
        let p = parsed.clone();
        let api = c.call_ok("parsed -> API", || Api::try_from(p))?;
        let a = api.clone();
        if a != api {
            // not a number is not equal to itself
            continue;
        }
        let out: Raw = c.call_ok("API -> raw", || a.try_into())?;
        all.push((raw, parsed, api, out, spoilt));
    }
    if all.is_empty() {
        return Ok(());
    }
    let threads = 4 + c.t.below(5) as usize;
    let loops = 150;
    let barrier = std::sync::Barrier::new(threads);
    let errs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|th| {
                let (all, barrier) = (&all, &barrier);
                sc.spawn(move || -> Option<String> {
                    let one = |k: usize| -> Option<String> {
                        let (raw, parsed, api, out, spoilt) = &all[(th + k / 16) % all.len()];
                        if k % 8 == 5 {
                            disturb(&spoilt[k / 8 % spoilt.len()]);
                        }
                        match Api::try_from(parsed.clone()) {
                            Ok(a) if a == *api => {}
                            Ok(a) => {
                                let d = schema::diff(&api_obs(api, false), &api_obs(&a, false));
                                return Some(format!("converted in thread {th} to another API project than alone: {d:?} {}", crate::rt::clip(&format!("{a:?}"), 600)));
                            }
                            Err(e) => return Some(format!("refused in thread {th}, accepted alone: {e:?}")),
                        }
                        if k % 4 != 0 {
                            return None;
                        }
                        match TryInto::<Raw>::try_into(api.clone()) {
                            Ok(r) => {
                                for (f, (x, y)) in raw_texts(&r).iter().zip(raw_texts(out)).enumerate() {
                                    if *x != y {
                                        return Some(format!("`{}` written in thread {th} differs from the one written alone: {} / {}", FILES[f], crate::rt::clip(x, 300), crate::rt::clip(y, 300)));
                                    }
                                }
                            }
                            Err(e) => return Some(format!("not written in thread {th}, written alone: {e:?}")),
                        }
                        match Parsed::parse_from(raw.clone()) {
                            Ok(p) if p == *parsed => {}
                            Ok(_) => return Some(format!("parsed in thread {th} to something else than alone")),
                            Err(e) => return Some(format!("refused in thread {th}, parsed alone: {e:?}")),
                        }
                        let x = [parsed.file.reconstruct().ok(), parsed.view.reconstruct().ok(), parsed.logic.reconstruct().ok(), parsed.resource.reconstruct().ok()];
                        if x.iter().any(|v| v.is_none()) {
                            return Some(format!("not written in thread {th}, written alone"));
                        }
                        let enc = swrs::encrypt_sw(raw.view.as_bytes());
                        match swrs::decrypt_sw_encrypted(&enc) {
                            Ok(d) if d == raw.view.as_bytes() => None,
                            x => Some(format!("decrypted in thread {th} to {}", crate::rt::clip(&format!("{x:?}"), 300))),
                        }
                    };
                    barrier.wait();
                    for k in 0..loops {
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(k))) {
                            Ok(None) => {}
                            Ok(e) => return e,
                            Err(_) => return Some(format!("panic in thread {th}: {}", crate::rt::last_panic())),
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    c.count_n("conversions under stress", (threads * loops) as u64);
    match errs.into_iter().next() {
        Some(e) => viol(e),
        None => Ok(()),
    }
}

/// the project with something wrong in one of its texts
fn spoilt(t: &mut Tape, texts: &[String; 6], m: &V) -> Vec<Raw> {
    (0..4)
        .map(|i| {
            let mut x = texts.clone();
            let k = if i < 2 { 5 - i } else { t.below(6) as usize };
            x[k] = if t.bool() { super::hostile::break_text(t, k, &x[k]).text } else { crate::mutate::mutate(t, &x[k].clone()) };
            raw_of(t, x, m)
        })
        .collect()
}

/// something else is processed, which mostly fails; what comes of it does not matter
fn disturb(raw: &Raw) {
    let r = raw.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if let Ok(p) = Parsed::parse_from(r) {
            if let Ok(a) = Api::try_from(p) {
                let _ = TryInto::<Raw>::try_into(a);
            }
        }
    }));
}

pub fn concurrent(c: &mut Ctx) -> R {
    if c.corner.is_some() || c.t.chance(1, 5) {
        return stress(c);
    }
    let k = 1 + c.t.below(3) as usize;
    let mut raws = vec![];
    let mut bad = vec![];
    for i in 0..k {
        let m = gen_project(&mut c.t);
        let texts = emit_texts(&mut c.t, &m);
        for (j, x) in texts.iter().enumerate() {
            c.feed(&format!("{i}-{}", FILES[j]), x);
        }
        bad.extend(spoilt(&mut c.t, &texts, &m));
        raws.push((raw_of(&mut c.t, texts, &m), m["files"].is_null()));
    }
    let mut alone = vec![];
    for (r, auto) in &raws {
        let mut j = 1;
        match c.call("pipeline alone", || pipeline(r, *auto, &mut j))? {
            Ok(o) => alone.push(o),
            Err(e) => return viol(format!("a valid project was refused: {e}")),
        }
    }
    let threads = 2 + c.t.below(7) as usize;
    let rounds = 1 + c.t.below(3) as usize;
    let seeds: Vec<u64> = (0..threads).map(|_| c.t.next()).collect();
    let shared: Vec<Parsed> = raws.iter().map(|(r, _)| Parsed::parse_from(r.clone())).collect::<Result<_, _>>().map_err(|e| crate::rt::Viol { msg: format!("{e:?}") })?;
    let before: Vec<Parsed> = shared.clone();
    let barrier = std::sync::Barrier::new(threads);
    let errs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|th| {
                let (raws, alone, shared, barrier, seed, bad) = (&raws, &alone, &shared, &barrier, seeds[th], &bad);
                sc.spawn(move || -> Option<String> {
                    let mut jit = seed;
                    barrier.wait();
                    for r in 0..rounds {
                        let i = (th + r) % raws.len();
                        if (th + r) % 3 != 0 {
                            disturb(&bad[(seed as usize).wrapping_add(r) % bad.len()]);
                        }
                        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pipeline(&raws[i].0, raws[i].1, &mut jit))) {
                            Ok(Ok(o)) => o,
                            Ok(Err(e)) => return Some(format!("refused in thread {th}, accepted alone: {e}")),
                            Err(_) => return Some(format!("panic in thread {th}: {}", crate::rt::last_panic())),
                        };
                        let want = &alone[i];
                        for f in 0..6 {
                            if got.texts[f] != want.texts[f] {
                                return Some(format!("`{}` written in thread {th} differs from the one written alone: {} / {}", FILES[f], crate::rt::clip(&got.texts[f], 300), crate::rt::clip(&want.texts[f], 300)));
                            }
                        }
                        if got.enc != want.enc {
                            return Some(format!("encrypted in thread {th}, the data differs from the one encrypted alone"));
                        }
                        if let Some(d) = schema::diff(&want.api, &got.api) {
                            return Some(format!("API project in thread {th} differs from the one alone: {d}"));
                        }
                        // the same objects, written by several threads
                        use swrs::parser::Parsable;
                        let p = &shared[i];
                        let x = [p.file.reconstruct().ok(), p.view.reconstruct().ok(), p.logic.reconstruct().ok(), p.resource.reconstruct().ok()];
                        let y = [p.file.reconstruct().ok(), p.view.reconstruct().ok(), p.logic.reconstruct().ok(), p.resource.reconstruct().ok()];
                        if x != y || x.iter().any(|v| v.is_none()) {
                            return Some(format!("a shared project written twice in thread {th} differs"));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    c.count_n("concurrent pipelines", (threads * rounds) as u64);
    if let Some(e) = errs.into_iter().next() {
        return viol(e);
    }
    c.holds(before == shared, || "a shared project changed while being written".into())
}

pub fn _u(_: ResourceType) {}
