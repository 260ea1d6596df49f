//! View forests as plain values: a node is a view record without `parent`/`parentType`, plus
//! `children`. Flat lists, their reader, and the observation of swrs' view trees.
use crate::conv::*;
use crate::schema::{self, gen, num, s};
use crate::sect::{arr, st};
use crate::tape::Tape;
use serde_json::{json, Map, Value as V};
use std::collections::{HashMap, HashSet};
use swrs::api::view::{SidesValue, View, ViewType};
use swrs::parser::view::models::layout::gravity::Gravity;
use swrs::parser::view::models::layout::Orientation;

/// type codes that have a typed form
pub const KNOWN: [i64; 18] = [0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18];

/// members of the record that the typed form of a view type shows
pub fn typed_fields(ty: i64) -> Option<&'static [&'static str]> {
    Some(match ty {
        0 => &["layout.orientation", "layout.gravity"],
        2 | 12 => &["layout.gravity"],
        3 => &["text.text", "text.textColor", "text.textSize", "text.textType"],
        4 => &["text.text", "text.textColor", "text.textSize", "text.textType", "text.singleLine", "text.textFont", "text.line"],
        5 => &[
            "text.text", "text.textColor", "text.textSize", "text.textType", "text.singleLine", "text.textFont", "text.line", "text.hint", "text.hintColor",
            "text.imeOption", "text.inputType",
        ],
        6 => &["image.resName", "image.scaleType"],
        7 | 18 => &[],
        8 => &["max", "progress", "indeterminate", "progressStyle"],
        9 => &["dividerHeight", "customView"],
        10 => &["spinnerMode"],
        11 | 13 => &["checked", "text.text", "text.textColor", "text.textSize", "text.textFont", "text.textType"],
        14 => &["max", "progress"],
        15 => &["firstDayOfWeek"],
        16 => &["image.resName"],
        17 => &["adSize"],
        _ => return None,
    })
}

/// members every view shows directly
pub const COMMON: [&str; 15] = [
    "id", "layout.backgroundColor", "layout.height", "layout.width", "layout.paddingTop", "layout.paddingRight", "layout.paddingBottom", "layout.paddingLeft",
    "layout.marginTop", "layout.marginRight", "layout.marginBottom", "layout.marginLeft", "layout.weight", "layout.weightSum", "layout.layoutGravity",
];

pub fn get_path(v: &V, p: &str) -> V {
    let mut cur = v;
    for k in p.split('.') {
        match cur.get(k) {
            Some(x) => cur = x,
            None => return V::Null,
        }
    }
    cur.clone()
}

pub fn set_path(v: &mut V, p: &str, x: V) {
    let ks: Vec<String> = p.split('.').map(|k| k.to_string()).collect();
    schema::set_path(v, &ks, x);
}

/// the schema of the member at a path
pub fn path_field(p: &str) -> &'static schema::F {
    let mut sc = schema::VIEW;
    let ks: Vec<&str> = p.split('.').collect();
    for (i, k) in ks.iter().enumerate() {
        let (_, f) = sc.iter().find(|(n, _)| n == k).unwrap_or_else(|| panic!("harness: no member {p}"));
        if i + 1 == ks.len() {
            return f;
        }
        match f {
            schema::F::Obj(inner) => sc = inner,
            _ => panic!("harness: path {p}"),
        }
    }
    unreachable!()
}

pub fn gen_value(t: &mut Tape, p: &str) -> V {
    schema::gen_field(t, path_field(p)).unwrap_or_else(|| s(t.string()))
}

// ------------------------------------------------------------------ generation
pub fn gen_type(t: &mut Tape) -> i64 {
    if t.chance(1, 15) { *t.pick(&[1i64, 19, 20, 30, 99, 127]) } else { *t.pick(&KNOWN) }
}

pub fn gen_node(t: &mut Tape, used: &mut HashSet<String>) -> V {
    let mut v = gen(t, schema::VIEW);
    let m = v.as_object_mut().unwrap();
    m.remove("parent");
    m.remove("parentType");
    m.insert("type".into(), num(gen_type(t)));
    m.insert("id".into(), s(t.fresh(used, &[], &|n| n == "root")));
    m.insert("children".into(), json!([]));
    v
}

/// `n` nodes hung up at random
pub fn gen_forest(t: &mut Tape, n: usize, used: &mut HashSet<String>) -> V {
    let shape = t.below(5);
    let mut nodes: Vec<V> = (0..n).map(|_| gen_node(t, used)).collect();
    // parent[i] < i or none
    let parent: Vec<Option<usize>> = (0..n)
        .map(|i| {
            if i == 0 {
                return None;
            }
            match shape {
                0 => None,
                1 if i < 150 => Some(i - 1),
                2 => Some(t.below(i as u64) as usize),
                3 => if t.chance(1, 4) { None } else { Some(i - 1 - t.below((i as u64).min(4)) as usize) },
                _ => if t.chance(1, 2) { None } else { Some(t.below(i as u64) as usize) },
            }
        })
        .collect();
    let mut roots = vec![];
    for i in (0..n).rev() {
        let node = std::mem::replace(&mut nodes[i], V::Null);
        match parent[i] {
            None => roots.insert(0, node),
            Some(p) => nodes[p]["children"].as_array_mut().unwrap().insert(0, node),
        }
    }
    V::Array(roots)
}

pub fn count(forest: &V) -> usize {
    arr(forest).iter().map(|n| 1 + count(&n["children"])).sum()
}

pub fn depth(forest: &V) -> usize {
    arr(forest).iter().map(|n| 1 + depth(&n["children"])).max().unwrap_or(0)
}

/// paths (child indices) of all nodes
pub fn paths(forest: &V) -> Vec<Vec<usize>> {
    fn go(f: &V, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, n) in arr(f).iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            go(&n["children"], at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(forest, &mut vec![], &mut out);
    out
}

pub fn node_at<'a>(forest: &'a V, p: &[usize]) -> &'a V {
    let mut cur = &forest[p[0]];
    for i in &p[1..] {
        cur = &cur["children"][*i];
    }
    cur
}

pub fn node_at_mut<'a>(forest: &'a mut V, p: &[usize]) -> &'a mut V {
    let mut cur = &mut forest[p[0]];
    for i in &p[1..] {
        cur = &mut cur["children"][*i];
    }
    cur
}

// ------------------------------------------------------------------ flat lists
fn flat_record(node: &V, parent: &str, ptype: i64) -> V {
    let mut m: Map<String, V> = node.as_object().unwrap().clone();
    m.remove("children");
    m.insert("parent".into(), s(parent));
    m.insert("parentType".into(), num(ptype));
    V::Object(m)
}

/// a flat list: parents before their children, siblings in order, otherwise mixed
pub fn emit_flat(t: &mut Tape, forest: &V) -> Vec<V> {
    let mut out = vec![];
    // queues of siblings still to come
    let mut qs: Vec<(String, i64, &Vec<V>, usize)> = vec![("root".into(), 0, arr(forest), 0)];
    let style = t.below(3);
    while !qs.is_empty() {
        qs.retain(|q| q.3 < q.2.len());
        if qs.is_empty() {
            break;
        }
        let i = match style {
            0 => qs.len() - 1,
            1 => 0,
            _ => t.below(qs.len() as u64) as usize,
        };
        let q = &mut qs[i];
        let node = &q.2[q.3];
        q.3 += 1;
        out.push(flat_record(node, &q.0, q.1));
        let ch = arr(&node["children"]);
        if !ch.is_empty() {
            qs.push((st(&node["id"]).to_string(), node["type"].as_i64().unwrap(), ch, 0));
        }
    }
    out
}

/// the forest a flat list denotes; parents have to come before their children
pub fn read_flat(list: &[V]) -> Result<V, String> {
    let mut idx: HashMap<String, usize> = HashMap::new();
    let mut children: Vec<Vec<usize>> = vec![vec![]; list.len()];
    let mut roots = vec![];
    for (i, r) in list.iter().enumerate() {
        let id = r["id"].as_str().ok_or("view without an id")?;
        let p = r["parent"].as_str().ok_or(format!("view {id:?} without a parent"))?;
        let pt = r["parentType"].as_i64().ok_or("view without a parent type")?;
        let want = if p == "root" {
            roots.push(i);
            0
        } else {
            let j = *idx.get(p).ok_or(format!("view {id:?} refers to parent {p:?}, which does not come before it"))?;
            children[j].push(i);
            list[j]["type"].as_i64().unwrap_or(-1000)
        };
        if pt != want {
            return Err(format!("view {id:?} says its parent has type {pt}, but it has {want}"));
        }
        if idx.insert(id.to_string(), i).is_some() {
            return Err(format!("view id {id:?} twice"));
        }
    }
    let mut nodes: Vec<V> = list
        .iter()
        .map(|r| {
            let mut m = r.as_object().unwrap().clone();
            m.remove("parent");
            m.remove("parentType");
            m.insert("children".into(), json!([]));
            V::Object(m)
        })
        .collect();
    for i in (0..list.len()).rev() {
        let ch: Vec<V> = children[i].iter().map(|c| std::mem::replace(&mut nodes[*c], V::Null)).collect();
        nodes[i]["children"] = V::Array(ch);
    }
    Ok(V::Array(roots.into_iter().map(|r| std::mem::replace(&mut nodes[r], V::Null)).collect()))
}

// ------------------------------------------------------------------ swrs objects
fn ori_type(o: &Orientation) -> V {
    match o {
        Orientation::Horizontal => num(2),
        Orientation::Vertical => num(12),
        Orientation::Unspecified => s("scroll view without orientation"),
    }
}

/// the typed form as `{type, member path: value}`
pub fn vt_obs(x: &ViewType) -> V {
    let c = |c: &swrs::color::Color| num(color_to_i(c));
    let (ty, f): (V, Vec<(&str, V)>) = match x {
        ViewType::LinearLayout { orientation, gravity } => (num(0), vec![("layout.orientation", num(lor_i(*orientation))), ("layout.gravity", num(gravity.0 as i64))]),
        ViewType::ScrollView { orientation, gravity } => (ori_type(orientation), vec![("layout.gravity", num(gravity.0 as i64))]),
        ViewType::Button { text, text_color, text_size, text_style } => {
            (num(3), vec![("text.text", s(text)), ("text.textColor", c(text_color)), ("text.textSize", num(*text_size as i64)), ("text.textType", num(ttype_i(*text_style)))])
        }
        ViewType::TextView { text, text_color, text_size, single_line, text_font, text_style, lines } => (
            num(4),
            vec![
                ("text.text", s(text)),
                ("text.textColor", c(text_color)),
                ("text.textSize", num(*text_size as i64)),
                ("text.textType", num(ttype_i(*text_style))),
                ("text.singleLine", num(*single_line as i64)),
                ("text.textFont", s(text_font)),
                ("text.line", num(*lines as i64)),
            ],
        ),
        ViewType::EditText { text, text_color, text_size, single_line, text_font, text_style, lines, hint, hint_color, ime_option, input_type } => (
            num(5),
            vec![
                ("text.text", s(text)),
                ("text.textColor", c(text_color)),
                ("text.textSize", num(*text_size as i64)),
                ("text.textType", num(ttype_i(*text_style))),
                ("text.singleLine", num(*single_line as i64)),
                ("text.textFont", s(text_font)),
                ("text.line", num(*lines as i64)),
                ("text.hint", s(hint)),
                ("text.hintColor", c(hint_color)),
                ("text.imeOption", num(ime_i(*ime_option))),
                ("text.inputType", num(input_i(*input_type))),
            ],
        ),
        ViewType::ImageView { image_res_name, image_scale_type } => (num(6), vec![("image.resName", s(image_res_name)), ("image.scaleType", s(scale_s(*image_scale_type)))]),
        ViewType::WebView => (num(7), vec![]),
        ViewType::ProgressBar { max_progress, progress, indeterminate, progress_style } => (
            num(8),
            vec![
                ("max", num(*max_progress as i64)),
                ("progress", num(*progress as i64)),
                ("indeterminate", s(if *indeterminate { "true" } else { "false" })),
                ("progressStyle", s(progress_style)),
            ],
        ),
        ViewType::ListView { divider_height, custom_view } => (num(9), vec![("dividerHeight", num(*divider_height as i64)), ("customView", s(custom_view))]),
        ViewType::Spinner { spinner_mode } => (num(10), vec![("spinnerMode", num(spinner_i(*spinner_mode)))]),
        ViewType::CheckBox { checked, text, text_color, text_size, text_font, text_style } => (num(11), check_fields(*checked, text, c(text_color), *text_size, text_font, ttype_i(*text_style))),
        ViewType::Switch { checked, text, text_color, text_size, text_font, text_style } => (num(13), check_fields(*checked, text, c(text_color), *text_size, text_font, ttype_i(*text_style))),
        ViewType::SeekBar { max_progress, progress } => (num(14), vec![("max", num(*max_progress as i64)), ("progress", num(*progress as i64))]),
        ViewType::CalendarView { first_day_of_week } => (num(15), vec![("firstDayOfWeek", num(*first_day_of_week as i64))]),
        ViewType::Fab { image_res_name } => (num(16), vec![("image.resName", s(image_res_name))]),
        ViewType::AdView { adview_size } => (num(17), vec![("adSize", s(adview_size))]),
        ViewType::MapView => (num(18), vec![]),
    };
    let mut m = Map::new();
    m.insert("type".into(), ty);
    for (k, v) in f {
        m.insert(k.into(), v);
    }
    V::Object(m)
}

fn check_fields(checked: bool, text: &str, col: V, size: u32, font: &str, style: i64) -> Vec<(&'static str, V)> {
    vec![
        ("checked", num(checked as i64)),
        ("text.text", s(text)),
        ("text.textColor", col),
        ("text.textSize", num(size as i64)),
        ("text.textFont", s(font)),
        ("text.textType", num(style)),
    ]
}

/// the typed form a record has to have; null where it has none
pub fn vt_expect(rec: &V) -> V {
    let ty = rec["type"].as_i64().unwrap();
    let Some(fs) = typed_fields(ty) else { return V::Null };
    let mut m = Map::new();
    m.insert("type".into(), num(ty));
    for f in fs {
        let v = get_path(rec, f);
        if v.is_null() {
            return V::Null; // an image view or fab without an image
        }
        m.insert(f.to_string(), v);
    }
    V::Object(m)
}

/// builds the typed form shown by `vt_obs`
pub fn vt_build(x: &V) -> ViewType {
    let i = |k: &str| x[k].as_i64().unwrap_or_else(|| panic!("harness: {k}"));
    let u = |k: &str| i(k) as u32;
    let g = |k: &str| st(&x[k]).to_string();
    let c = |k: &str| i_to_color(i(k));
    let tt = || i_ttype(i("text.textType"));
    match i("type") {
        0 => ViewType::LinearLayout { orientation: i_lor(i("layout.orientation")), gravity: Gravity(i("layout.gravity") as u8) },
        2 => ViewType::ScrollView { orientation: Orientation::Horizontal, gravity: Gravity(i("layout.gravity") as u8) },
        12 => ViewType::ScrollView { orientation: Orientation::Vertical, gravity: Gravity(i("layout.gravity") as u8) },
        3 => ViewType::Button { text: g("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), text_style: tt() },
        4 => ViewType::TextView {
            text: g("text.text"),
            text_color: c("text.textColor"),
            text_size: u("text.textSize"),
            single_line: i("text.singleLine") != 0,
            text_font: g("text.textFont"),
            text_style: tt(),
            lines: u("text.line"),
        },
        5 => ViewType::EditText {
            text: g("text.text"),
            text_color: c("text.textColor"),
            text_size: u("text.textSize"),
            single_line: i("text.singleLine") != 0,
            text_font: g("text.textFont"),
            text_style: tt(),
            lines: u("text.line"),
            hint: g("text.hint"),
            hint_color: c("text.hintColor"),
            ime_option: i_ime(i("text.imeOption")),
            input_type: i_input(i("text.inputType")),
        },
        6 => ViewType::ImageView { image_res_name: g("image.resName"), image_scale_type: s_scale(&g("image.scaleType")) },
        7 => ViewType::WebView,
        8 => ViewType::ProgressBar { max_progress: u("max"), progress: u("progress"), indeterminate: g("indeterminate") == "true", progress_style: g("progressStyle") },
        9 => ViewType::ListView { divider_height: u("dividerHeight"), custom_view: g("customView") },
        10 => ViewType::Spinner { spinner_mode: i_spinner(i("spinnerMode")) },
        11 => ViewType::CheckBox {
            checked: i("checked") != 0,
            text: g("text.text"),
            text_color: c("text.textColor"),
            text_size: u("text.textSize"),
            text_font: g("text.textFont"),
            text_style: tt(),
        },
        13 => ViewType::Switch {
            checked: i("checked") != 0,
            text: g("text.text"),
            text_color: c("text.textColor"),
            text_size: u("text.textSize"),
            text_font: g("text.textFont"),
            text_style: tt(),
        },
        14 => ViewType::SeekBar { max_progress: u("max"), progress: u("progress") },
        15 => ViewType::CalendarView { first_day_of_week: i("firstDayOfWeek") as u8 },
        16 => ViewType::Fab { image_res_name: g("image.resName") },
        17 => ViewType::AdView { adview_size: g("adSize") },
        18 => ViewType::MapView,
        x => panic!("harness: type {x}"),
    }
}

/// a view of the tree as `{common members, typed, raw, children}`
pub fn view_obs(v: &View) -> V {
    let mut m = Map::new();
    let mut p = |k: &str, x: V| {
        m.insert(k.to_string(), x);
    };
    p("id", s(&v.id));
    p("layout.backgroundColor", num(color_to_i(&v.background_color)));
    p("layout.height", num(size_i(&v.height)));
    p("layout.width", num(size_i(&v.width)));
    p("layout.paddingTop", num(v.padding.top as i64));
    p("layout.paddingRight", num(v.padding.right as i64));
    p("layout.paddingBottom", num(v.padding.bottom as i64));
    p("layout.paddingLeft", num(v.padding.left as i64));
    p("layout.marginTop", num(v.margin.top as i64));
    p("layout.marginRight", num(v.margin.right as i64));
    p("layout.marginBottom", num(v.margin.bottom as i64));
    p("layout.marginLeft", num(v.margin.left as i64));
    p("layout.weight", num(v.weight as i64));
    p("layout.weightSum", num(v.weight_sum as i64));
    p("layout.layoutGravity", num(v.layout_gravity.0 as i64));
    p("typed", v.view.as_ref().map_or(V::Null, vt_obs));
    let mut raw = view_to_v(&v.raw);
    raw.as_object_mut().unwrap().remove("parent");
    raw.as_object_mut().unwrap().remove("parentType");
    p("raw", raw);
    p("children", forest_obs(&v.children));
    V::Object(m)
}

pub fn forest_obs(vs: &[View]) -> V {
    V::Array(vs.iter().map(view_obs).collect())
}

/// what `view_obs` has to show for a node
pub fn view_expect(n: &V) -> V {
    let mut m = Map::new();
    for k in COMMON {
        m.insert(k.into(), get_path(n, k));
    }
    m.insert("typed".into(), vt_expect(n));
    let mut raw = n.as_object().unwrap().clone();
    raw.remove("children");
    m.insert("raw".into(), V::Object(raw));
    m.insert("children".into(), forest_expect(&n["children"]));
    V::Object(m)
}

pub fn forest_expect(f: &V) -> V {
    V::Array(arr(f).iter().map(view_expect).collect())
}

/// a node as a swrs view made by hand; members shown by the API are wrong in the raw view, so that
/// whoever reads them from there is noticed
pub fn view_build(t: &mut Tape, n: &V, stale: bool) -> View {
    let mut raw = n.clone();
    let typed = vt_expect(n);
    if stale {
        for k in COMMON {
            if t.bool() {
                let x = gen_value(t, k);
                set_path(&mut raw, k, x);
            }
        }
        if let Some(m) = typed.as_object() {
            for k in m.keys() {
                if k == "type" {
                    if t.chance(1, 4) {
                        raw["type"] = num(gen_type(t));
                    }
                } else if t.bool() {
                    let x = gen_value(t, k);
                    set_path(&mut raw, k, x);
                }
            }
        }
    }
    raw["parent"] = s(t.ident());
    raw["parentType"] = num(t.int(-128, 127));
    let raw = v_to_view(&raw);
    let u = |k: &str| get_path(n, k).as_i64().unwrap() as u32;
    let i = |k: &str| get_path(n, k).as_i64().unwrap();
    let view = if typed.is_null() { ViewType::from_view(&raw) } else { Ok(vt_build(&typed)) };
    View {
        id: st(&n["id"]).into(),
        background_color: i_to_color(i("layout.backgroundColor")),
        height: i_size(i("layout.height")),
        width: i_size(i("layout.width")),
        padding: SidesValue { top: u("layout.paddingTop"), right: u("layout.paddingRight"), bottom: u("layout.paddingBottom"), left: u("layout.paddingLeft") },
        margin: SidesValue { top: u("layout.marginTop"), right: u("layout.marginRight"), bottom: u("layout.marginBottom"), left: u("layout.marginLeft") },
        weight: u("layout.weight"),
        weight_sum: u("layout.weightSum"),
        layout_gravity: Gravity(i("layout.layoutGravity") as u8),
        view,
        children: arr(&n["children"]).iter().map(|c| view_build(t, c, stale)).collect(),
        raw,
    }
}

pub fn forest_build(t: &mut Tape, f: &V, stale: bool) -> Vec<View> {
    arr(f).iter().map(|n| view_build(t, n, stale)).collect()
}

/// writes one directly shown member of a view
pub fn set_common(v: &mut View, k: &str, x: &V) {
    let u = || x.as_i64().unwrap() as u32;
    match k {
        "id" => v.id = st(x).into(),
        "layout.backgroundColor" => v.background_color = i_to_color(x.as_i64().unwrap()),
        "layout.height" => v.height = i_size(x.as_i64().unwrap()),
        "layout.width" => v.width = i_size(x.as_i64().unwrap()),
        "layout.paddingTop" => v.padding.top = u(),
        "layout.paddingRight" => v.padding.right = u(),
        "layout.paddingBottom" => v.padding.bottom = u(),
        "layout.paddingLeft" => v.padding.left = u(),
        "layout.marginTop" => v.margin.top = u(),
        "layout.marginRight" => v.margin.right = u(),
        "layout.marginBottom" => v.margin.bottom = u(),
        "layout.marginLeft" => v.margin.left = u(),
        "layout.weight" => v.weight = u(),
        "layout.weightSum" => v.weight_sum = u(),
        "layout.layoutGravity" => v.layout_gravity = Gravity(u() as u8),
        _ => panic!("harness: {k}"),
    }
}

/// record members shown neither directly nor by the typed form of this type
pub fn raw_only(ty: i64) -> Vec<String> {
    let mut out = vec![];
    for (k, f) in schema::VIEW {
        match f {
            schema::F::Obj(inner) => out.extend(inner.iter().map(|(k2, _)| format!("{k}.{k2}"))),
            _ => out.push(k.to_string()),
        }
    }
    out.retain(|k| !COMMON.contains(&k.as_str()) && !["parent", "parentType", "type"].contains(&k.as_str()) && !typed_fields(ty).unwrap_or(&[]).contains(&k.as_str()));
    out
}
