//! C15, C16: view trees and typed views.
use crate::conv::*;
use crate::rt::{viol, Ctx, R};
use crate::schema::{self, emit, gen, num, s, Style};
use crate::sect::{arr, st};
use crate::tape::Tape;
use crate::views::*;
use serde_json::{json, Value as V};
use std::collections::HashSet;
use swrs::api::view::{flatten_views, parse_raw_layout, ParseLayoutError as PL, View, ViewType, ViewTypeConversionError as TE};
use swrs::parser::view::models::layout::gravity::{self, Gravity};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::Layout;
use swrs::parser::Parsable;

pub const RULE15: &str = "random view forests (flat, deep, bushy; up to ~300 views, ids from identifiers to arbitrary text), laid out as flat lists in random orders \
that keep parents before children, through objects and through text; every id is looked up, random subtrees are moved, and forests made by hand with misleading raw \
records are flattened; the flat lists are resolved by an independent reader; lists with a broken parent reference have to be refused; cases are distinct if the lists differ";
pub const RULE16: &str = "random view records of every type (and unknown ones), their typed forms, every typed form applied to an unrelated record, and random edits of \
directly shown and typed members followed through the flat list; corner cases go through all 256 type codes and all gravity values; cases are distinct if the records differ";

fn layout_of(c: &mut Ctx, list: &[V]) -> R<Layout> {
    if c.t.bool() {
        return Ok(Layout(list.iter().map(v_to_view).collect()));
    }
    let sty = Style::gen(&mut c.t);
    let lines: Vec<String> = list.iter().map(|b| emit(b, &mut c.t, sty)).collect();
    let text = lines.join("\n");
    c.call_ok("Layout::parse", || Layout::parse(&text))
}

fn by_path<'a>(vs: &'a [View], p: &[usize]) -> &'a View {
    let mut cur = &vs[p[0]];
    for i in &p[1..] {
        cur = &cur.children[*i];
    }
    cur
}

fn by_path_mut<'a>(vs: &'a mut [View], p: &[usize]) -> &'a mut View {
    let mut cur = &mut vs[p[0]];
    for i in &p[1..] {
        cur = &mut cur.children[*i];
    }
    cur
}

fn flat_check(c: &mut Ctx, what: &str, want: &V, flat: &[AndroidView]) -> R {
    let list: Vec<V> = flat.iter().map(view_to_v).collect();
    c.count_n("views written", list.len() as u64);
    match read_flat(&list) {
        Ok(f) => c.same(what, want, &f),
        Err(e) => viol(format!("{what}: the flat list is broken: {e}")),
    }
}

pub fn trees(c: &mut Ctx) -> R {
    let n = match c.corner {
        Some(i) => [0, 1, 2, 300][i as usize % 4],
        None => match c.t.below(30) {
            0 => 100,
            1 => 40,
            _ => c.t.below(14) as usize,
        },
    };
    let mut used = HashSet::new();
    let forest = gen_forest(&mut c.t, n, &mut used);
    let list = emit_flat(&mut c.t, &forest);
    c.feed_v("list", &V::Array(list.clone()));
    if read_flat(&list).as_ref() != Ok(&forest) {
        return viol("harness: emitted a wrong flat list");
    }
    let lay = layout_of(c, &list)?;
    let mut tree = c.call_ok("parse_raw_layout", || parse_raw_layout(lay))?;
    c.count_n("views read", list.len() as u64);
    c.same("tree of the flat list", &forest_expect(&forest), &forest_obs(&tree))?;

    // look every id up, from the top and from somewhere in between
    let ps = paths(&forest);
    for p in ps.iter().take(60) {
        let id = st(&node_at(&forest, p)["id"]).to_string();
        let from = 1 + c.t.below(p.len() as u64) as usize;
        let start = &p[..from];
        let want: *const View = by_path(&tree, p);
        let got = c.call("find_id", || by_path(&tree, start).find_id(&id).map(|v| v as *const View))?;
        c.holds(got == Some(want), || format!("find_id({id:?}) from {start:?} does not give the view at {p:?}"))?;
        let got = c.call("find_id_mut", || by_path_mut(&mut tree, start).find_id_mut(&id).map(|v| v as *const View))?;
        c.holds(got == Some(want), || format!("find_id_mut({id:?}) from {start:?} does not give the view at {p:?}"))?;
    }
    if !ps.is_empty() {
        // ids that are elsewhere, or nowhere
        let a = c.t.pick(&ps).clone();
        let b = c.t.pick(&ps).clone();
        let id = st(&node_at(&forest, &b)["id"]).to_string();
        let inside = b.starts_with(&a);
        let got = c.call("find_id", || by_path(&tree, &a).find_id(&id).is_some())?;
        c.holds(got == inside, || format!("find_id({id:?}) below {a:?} found: {got}, the view is at {b:?}"))?;
        let mut no = c.t.string();
        while used.contains(&no) {
            no.push('x');
        }
        let near = match c.t.below(3) {
            0 => id.to_uppercase(),
            1 => format!("{id} "),
            _ => no,
        };
        if !used.contains(&near) {
            let got = c.call("find_id", || tree.iter().any(|v| v.find_id(&near).is_some()) || tree.iter_mut().any(|v| v.find_id_mut(&near).is_some()))?;
            c.holds(!got, || format!("find_id({near:?}) found a view, there is none with this id"))?;
        }
    }

    // write
    let t2 = tree.clone();
    let flat = c.call("flatten_views", || flatten_views(t2, None, None))?;
    flat_check(c, "flat list of the tree", &forest, &flat)?;
    let lay = Layout(flat);
    let again = c.call_ok("parse_raw_layout", || parse_raw_layout(lay))?;
    c.same("tree to list to tree", &forest_expect(&forest), &forest_obs(&again))?;

    // below a given parent
    if !forest_is_empty(&forest) {
        let (pid, pty) = (c.t.string(), c.t.below(128) as u8);
        let t2 = tree.clone();
        let pid2 = pid.clone();
        let flat = c.call("flatten_views", || flatten_views(t2, Some(pid2), Some(pty)))?;
        let roots: HashSet<String> = arr(&forest).iter().map(|x| st(&x["id"]).to_string()).collect();
        let mut list: Vec<V> = flat.iter().map(view_to_v).collect();
        for r in &mut list {
            if roots.contains(st(&r["id"])) {
                c.holds(r["parent"] == s(&pid) && r["parentType"] == num(pty as i64), || format!("a top view below {pid:?} ({pty}) is written with parent {} ({})", r["parent"], r["parentType"]))?;
                r["parent"] = s("root");
                r["parentType"] = num(0);
            }
        }
        match read_flat(&list) {
            Ok(f) => c.same("flat list below a parent", &forest, &f)?,
            Err(e) => return viol(format!("flat list below a parent is broken: {e}")),
        }
    }

    // edits: move, remove, rename, add
    let mut model = forest.clone();
    let edits = c.t.below(6);
    for _ in 0..edits {
        edit(c, &mut model, &mut tree, &mut used);
    }
    let flat = c.call("flatten_views", || flatten_views(tree, None, None))?;
    flat_check(c, &format!("flat list after {edits} edits"), &model, &flat)?;

    // made by hand
    let n = c.t.below(12) as usize;
    let mut used = HashSet::new();
    let f2 = gen_forest(&mut c.t, n, &mut used);
    let vs = forest_build(&mut c.t, &f2, true);
    let flat = c.call("flatten_views", || flatten_views(vs, None, None))?;
    flat_check(c, "flat list of views made by hand", &f2, &flat)?;

    // broken references
    if !list.is_empty() {
        let mut bad = list.clone();
        let i = c.t.below(bad.len() as u64) as usize;
        let id = bad[i]["id"].clone();
        let (want_parent, why) = match c.t.below(4) {
            0 => {
                bad[i].as_object_mut().unwrap().remove("parent");
                (None, "a view without a parent")
            }
            1 => {
                bad[i]["parent"] = id.clone();
                (Some(st(&id).to_string()), "a view that is its own parent")
            }
            2 if i + 1 < bad.len() => {
                let j = i + 1 + c.t.below((bad.len() - i - 1) as u64) as usize;
                let p = bad[j]["id"].clone();
                bad[i]["parent"] = p.clone();
                (Some(st(&p).to_string()), "a view whose parent comes later")
            }
            _ => {
                let mut p = c.t.string();
                while p == "root" || list.iter().any(|r| r["id"] == s(&p)) {
                    p.push('z');
                }
                bad[i]["parent"] = s(&p);
                (Some(p), "a view whose parent does not exist")
            }
        };
        let lay = Layout(bad.iter().map(v_to_view).collect());
        let e = c.call_err("parse_raw_layout", why, || parse_raw_layout(lay))?;
        let id = st(&id);
        let ok = match (&e, &want_parent) {
            (PL::NoParentField { view_id }, None) => view_id == id,
            (PL::NonexistentParent { view_id, parent_id }, Some(p)) => view_id == id && parent_id == p,
            _ => false,
        };
        c.holds(ok, || format!("{why} (view {id:?}, parent {want_parent:?}): the error is {e:?}"))?;
    }
    Ok(())
}

fn forest_is_empty(f: &V) -> bool {
    arr(f).is_empty()
}

pub fn edit(c: &mut Ctx, model: &mut V, tree: &mut Vec<View>, used: &mut HashSet<String>) {
    let ps = paths(model);
    let kind = c.t.below(5);
    if ps.is_empty() || kind == 0 {
        // add
        let n = gen_node(&mut c.t, used);
        let obj = view_build(&mut c.t, &n, true);
        let at = if ps.is_empty() || c.t.bool() { vec![] } else { c.t.pick(&ps).clone() };
        let (m, o) = if at.is_empty() { (model.as_array_mut().unwrap(), tree) } else { (node_at_mut(model, &at)["children"].as_array_mut().unwrap(), &mut by_path_mut(tree, &at).children) };
        let i = c.t.below(m.len() as u64 + 1) as usize;
        m.insert(i, n);
        o.insert(i, obj);
        return;
    }
    let p = c.t.pick(&ps).clone();
    match kind {
        1 | 2 => {
            // remove, and put it elsewhere unless dropped
            let (last, up) = p.split_last().unwrap();
            let (n, o) = if up.is_empty() {
                (model.as_array_mut().unwrap().remove(*last), tree.remove(*last))
            } else {
                (node_at_mut(model, up)["children"].as_array_mut().unwrap().remove(*last), by_path_mut(tree, up).children.remove(*last))
            };
            if kind == 2 {
                let ps = paths(model);
                let at = if ps.is_empty() || c.t.chance(1, 3) { vec![] } else { c.t.pick(&ps).clone() };
                if at.is_empty() {
                    model.as_array_mut().unwrap().push(n);
                    tree.push(o);
                } else {
                    node_at_mut(model, &at)["children"].as_array_mut().unwrap().push(n);
                    by_path_mut(tree, &at).children.push(o);
                }
            }
        }
        3 => {
            let id = c.t.fresh(used, &[], &|n| n == "root");
            node_at_mut(model, &p)["id"] = s(&id);
            by_path_mut(tree, &p).id = id;
        }
        _ => {
            // another type: children have to say so
            let donor = gen_node(&mut c.t, &mut HashSet::new());
            let tv = vt_expect(&donor);
            if let Some(m) = tv.as_object() {
                let o = by_path_mut(tree, &p);
                retype(node_at_mut(model, &p), o, m);
                o.view = Ok(vt_build(&tv));
            }
        }
    }
}

/// another typed form: members only the old one showed are again those of the raw record
fn retype(node: &mut V, view: &View, m: &serde_json::Map<String, V>) {
    let raw = view_to_v(&view.raw);
    for k in typed_fields(node["type"].as_i64().unwrap()).unwrap_or(&[]) {
        let x = get_path(&raw, k);
        if x.is_null() {
            let (a, b) = k.rsplit_once('.').unwrap_or(("", k));
            let o = if a.is_empty() { &mut *node } else { &mut node[a] };
            o.as_object_mut().unwrap().remove(b);
        } else {
            set_path(node, k, x);
        }
    }
    for (k, x) in m {
        set_path(node, k, x.clone());
    }
}

// ------------------------------------------------------------------ C16
fn gravities(c: &mut Ctx, g: u8) -> R {
    let x = Gravity::new(g);
    let got = c.call("Gravity", || [x.center_horizontal(), x.left(), x.right(), x.center_vertical(), x.center(), x.top(), x.bottom()])?;
    let bits = [1u8, 3, 5, 16, 17, 48, 80];
    let want: Vec<bool> = bits.iter().map(|b| g & b == *b).collect();
    c.holds(got.to_vec() == want && x.0 == g, || format!("gravity {g}: {got:?}, has to be {want:?}"))
}

pub fn typed(c: &mut Ctx) -> R {
    let mut rec = gen(&mut c.t, schema::VIEW);
    rec["type"] = num(match c.corner {
        Some(i) => i as i64,
        None => gen_type(&mut c.t),
    });
    let ty = rec["type"].as_i64().unwrap();
    if let Some(i) = c.corner {
        gravities(c, i as u8)?;
        let b = [gravity::NONE, gravity::CENTER_HORIZONTAL, gravity::LEFT, gravity::RIGHT, gravity::CENTER_VERTICAL, gravity::CENTER, gravity::TOP, gravity::BOTTOM];
        c.holds(b == [0, 1, 3, 5, 16, 17, 48, 80], || format!("gravity constants {b:?}"))?;
    }
    c.feed_v("record", &rec);
    let av = v_to_view(&rec);
    let got = c.call("ViewType::from_view", || ViewType::from_view(&av))?;
    let want = vt_expect(&rec);
    let id = st(&rec["id"]);
    match &got {
        Ok(v) => {
            c.same("typed form", &want, &vt_obs(v))?;
            let tid = c.call("get_type_id", || v.get_type_id())?;
            c.holds(tid as i64 == ty, || format!("a view of type {ty} has the type id {tid}"))?;
        }
        Err(e) => {
            c.holds(want.is_null(), || format!("view of type {ty} has no typed form: {e:?}"))?;
            let ok = match e {
                TE::UnknownViewType { view_type, view_id } => typed_fields(ty).is_none() && *view_type as i64 == ty && view_id == id,
                TE::ResNameNotPresent { view_id } => (ty == 6 || ty == 16) && view_id == id,
            };
            c.holds(ok, || format!("view {id:?} of type {ty} without a typed form: the error is {e:?}"))?;
        }
    }
    // the view shows the record
    let av2 = av.clone();
    let shown = c.call("View::from", || View::from(av2))?;
    let mut node = rec.clone();
    node["children"] = json!([]);
    let mut want_view = view_expect(&node);
    for k in ["parent", "parentType"] {
        want_view["raw"].as_object_mut().unwrap().remove(k);
    }
    c.same("view of the record", &want_view, &view_obs(&shown))?;
    c.holds(shown.raw == av, || "the raw record of a view differs from the record".into())?;

    // any typed form on another record: its own members and no other
    let donor = gen_node(&mut c.t, &mut HashSet::new());
    let tv = vt_expect(&donor);
    if let Some(m) = tv.as_object() {
        let vt = vt_build(&tv);
        let dty = m["type"].as_i64().unwrap();
        let tid = c.call("get_type_id", || vt.get_type_id())?;
        c.holds(tid as i64 == dty, || format!("{vt:?} has the type id {tid}, has to be {dty}"))?;
        let mut target = gen(&mut c.t, schema::VIEW);
        c.feed_v("target", &target);
        let mut av = v_to_view(&target);
        let vt2 = vt.clone();
        c.call("apply_values_to_view", || vt2.apply_values_to_view(&mut av))?;
        for (k, x) in m {
            set_path(&mut target, k, x.clone());
        }
        let mut out = view_to_v(&av);
        out["type"] = num(dty); // the type is not one of the values
        c.same(&format!("record after applying {}", tv), &target, &out)?;
        av.r#type = tid;
        let back = c.call_ok("ViewType::from_view", || ViewType::from_view(&av))?;
        c.holds(back == vt, || format!("{vt:?} applied to a record and read is {back:?}"))?;
    }

    // edits of a single view
    let mut used = HashSet::new();
    let mut node = gen_node(&mut c.t, &mut used);
    let mut rec = node.as_object().unwrap().clone();
    rec.remove("children");
    rec.insert("parent".into(), s("root"));
    rec.insert("parentType".into(), num(0));
    let mut view = View::from(v_to_view(&V::Object(rec)));
    let mut log = String::new();
    let edits = c.t.below(8);
    for _ in 0..edits {
        let ty = node["type"].as_i64().unwrap();
        let k: String = match c.t.below(4) {
            0 | 1 => {
                let k = *c.t.pick(&COMMON[1..]);
                let x = gen_value(&mut c.t, k);
                set_common(&mut view, k, &x);
                set_path(&mut node, k, x);
                k.into()
            }
            2 => {
                let d = gen_node(&mut c.t, &mut HashSet::new());
                let tv = vt_expect(&d);
                if let Some(m) = tv.as_object() {
                    retype(&mut node, &view, m);
                    view.view = Ok(vt_build(&tv));
                }
                format!("typed {tv}")
            }
            _ => {
                // a member only the raw record has
                let ks = raw_only(ty);
                let k = c.t.pick(&ks).clone();
                if view.view.is_err() {
                    continue;
                }
                let x = gen_value(&mut c.t, &k);
                let mut raw = view_to_v(&view.raw);
                set_path(&mut raw, &k, x.clone());
                view.raw = v_to_view(&raw);
                set_path(&mut node, &k, x);
                format!("raw {k}")
            }
        };
        if c.record {
            log.push_str(&k);
            log.push('\n');
        }
    }
    c.note("edits", || log);
    let flat = c.call("flatten_views", || flatten_views(vec![view], None, None))?;
    flat_check(c, &format!("record after {edits} edits"), &json!([node]), &flat)?;

    // a fresh view
    let (id, ty, pid, pty) = (c.t.string(), c.t.below(128) as u8, c.t.string(), c.t.range(-1, 127) as i8);
    let v = c.call("AndroidView::new_empty", || AndroidView::new_empty(&id, ty, &pid, pty))?;
    c.holds(v.id == id && v.r#type == ty && v.parent.as_deref() == Some(&*pid) && v.parent_type == pty, || format!("new_empty({id:?}, {ty}, {pid:?}, {pty}) gives {:?} {} {:?} {}", v.id, v.r#type, v.parent, v.parent_type))?;
    let text = c.call_ok("AndroidView::reconstruct", || v.reconstruct())?;
    let back = c.call_ok("AndroidView::parse", || AndroidView::parse(&text))?;
    c.holds(back == v, || "a fresh view differs after writing and parsing".into())
}

pub fn _t(_: &Tape) {}
