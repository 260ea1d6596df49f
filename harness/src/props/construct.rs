//! C26: constructors, defaults and builders.
use crate::blk::*;
use crate::conv::*;
use crate::proj;
use crate::rt::{viol, Ctx, R};
use crate::schema::{gen_date, gen_color, date_to_ts, num, s};
use crate::sect::{self, arr, st};
use serde_json::{json, Value as V};
use std::collections::HashSet;
use swrs::api::block::{Block, BlockCategory as Cat, BlockContent, Blocks};
use swrs::api::view::{flatten_views, View};
use swrs::color::Color;
use swrs::parser::logic::component::Component;
use swrs::parser::logic::{BlockContainer, ScreenLogic};
use swrs::parser::view::models::{AndroidView, ImageConfig, LayoutConfig, TextConfig};
use swrs::parser::{Parsable, RawSketchwareProject as Raw, ResourceFileWrapper as RW, ResourceType as RT, SketchwareProject as Parsed};

pub const RULE26: &str = "every public constructor, Default and builder with random arguments (ids and texts from identifiers to arbitrary text, every block category, \
random code as substacks and contents, random projects); the value made is compared member by member with the arguments and the documented defaults, written, and where \
there are several ways to make the same thing, they are compared; cases are distinct if the arguments differ";

const CATS: [(Cat, u32); 9] = [
    (Cat::Variable, 0xee7d16),
    (Cat::List, 0xcc5b22),
    (Cat::Control, 0xe1a92a),
    (Cat::Operator, 0x5cb722),
    (Cat::Math, 0x23b9a9),
    (Cat::File, 0xa1887f),
    (Cat::ViewFunc, 0x4a6cd4),
    (Cat::ComponentFunc, 0xfca5e2),
    (Cat::MoreBlock, 0x8a55d7),
];

/// the documented defaults of a view; width, height and imeOption are not documented consistently
fn default_view(id: &str, ty: u8, parent: &str, pty: i8) -> V {
    json!({
        "adSize": "", "adUnitId": "", "alpha": 1.0, "checked": 0, "choiceMode": 0, "clickable": 1, "customView": "", "dividerHeight": 0, "enabled": 1,
        "firstDayOfWeek": 1, "id": id, "image": {"rotate": 0, "scaleType": "CENTER"}, "indeterminate": "false", "index": 0,
        "layout": {
            "backgroundColor": 16777215, "gravity": 0, "layoutGravity": 0, "marginBottom": 0, "marginLeft": 0, "marginRight": 0, "marginTop": 0, "orientation": 1,
            "paddingBottom": 8, "paddingLeft": 8, "paddingRight": 8, "paddingTop": 8, "weight": 0, "weightSum": 0,
        },
        "max": 100, "parent": parent, "parentType": pty, "preId": "", "preIndex": 0, "preParentType": 0, "progress": 0, "progressStyle": "",
        "scaleX": 1.0, "scaleY": 1.0, "spinnerMode": 1,
        "text": {
            "hint": "", "hintColor": -10453621, "inputType": 1, "line": 0, "singleLine": 0, "text": "", "textColor": -16777216,
            "textFont": "default_font", "textSize": 12, "textType": 0,
        },
        "translationX": 0.0, "translationY": 0.0, "type": ty,
    })
}

fn drop_undocumented(v: &mut V) {
    if let Some(l) = v["layout"].as_object_mut() {
        l.remove("width");
        l.remove("height");
    }
    if let Some(x) = v["text"].as_object_mut() {
        x.remove("imeOption");
    }
    // members that are absent and members that are null say the same
    if let Some(o) = v.as_object_mut() {
        o.retain(|_, x| !x.is_null());
    }
    if let Some(o) = v["image"].as_object_mut() {
        o.retain(|_, x| !x.is_null());
    }
}

fn views(c: &mut Ctx) -> R {
    let id = if c.t.bool() { c.t.ident() } else { c.t.string() };
    let parent = if c.t.bool() { c.t.ident() } else { c.t.string() };
    let ty = c.t.int(0, 255) as u8;
    let pty = c.t.int(-128, 127) as i8;
    c.feed_v("view", &json!([id, ty, parent, pty]));
    let v = c.call("AndroidView::new_empty", || AndroidView::new_empty(&id, ty, &parent, pty))?;
    let want = default_view(&id, ty, &parent, pty);
    let mut got = view_to_v(&v);
    drop_undocumented(&mut got);
    c.same("new view", &want, &got)?;
    // its text says the same
    let text = c.call_ok("AndroidView::reconstruct", || v.reconstruct())?;
    let mut said: V = match serde_json::from_str(&text) {
        Ok(x) => x,
        Err(e) => return viol(format!("a new view is written as {text:?}: {e}")),
    };
    drop_undocumented(&mut said);
    c.same("new view, written", &want, &said)?;
    let again = c.call_ok("AndroidView::parse", || AndroidView::parse(&text))?;
    c.holds(again == v, || format!("a new view is written as {text} and read as another one"))?;
    // the parts have the same defaults
    let (l, x, i) = c.call("defaults", || (LayoutConfig::default(), TextConfig::default(), ImageConfig::default()))?;
    let mut w = v.clone();
    w.layout = l;
    w.text = x;
    w.image = i;
    c.holds(w == v, || "the parts of a new view are not the default parts".into())?;
    // every view of a known type: as a tree of one, laid down again
    let known = crate::views::typed_fields(ty as i64).is_some();
    if known {
        let one = c.call("View::from", || View::from(v.clone()))?;
        c.holds(one.id == id && one.children.is_empty(), || format!("a new view {id:?} turned into {:?} with {} children", one.id, one.children.len()))?;
        let flat = c.call("flatten_views", || flatten_views(vec![one], Some(parent.clone()), Some(ty & 0x7f)))?;
        c.holds(flat.len() == 1, || format!("one view laid down as {}", flat.len()))?;
        let mut got = view_to_v(&flat[0]);
        drop_undocumented(&mut got);
        let mut want = want.clone();
        want["parentType"] = num((ty & 0x7f) as i64);
        // where the view was before is the business of the editor
        for v in [&mut want, &mut got] {
            for k in ["index", "preId", "preIndex", "preParent", "preParentType"] {
                v.as_object_mut().unwrap().remove(k);
            }
        }
        c.same("new view, through the tree", &want, &got)?;
    }
    Ok(())
}

fn logic_parts(c: &mut Ctx) -> R {
    let x: Vec<String> = (0..4).map(|_| c.t.string()).collect();
    let ty = c.t.int(0, 255) as u8;
    c.feed_v("component", &json!([x, ty]));
    let g = |i: usize| x[i].clone();
    let made = c.call("Component constructors", || {
        [
            Component::new(g(0), g(1), g(2), g(3), ty),
            Component::new_2params(g(0), g(1), g(2), ty),
            Component::new_1param(g(0), g(1), ty),
            Component::new_empty(g(0), ty),
        ]
    })?;
    for (n, m) in made.iter().enumerate() {
        let p = |i: usize| if i <= 3 - n { s(g(i)) } else { s("") };
        let want = json!({"componentId": g(0), "param1": p(1), "param2": p(2), "param3": p(3), "type": ty});
        c.same("new component", &want, &component_to_v(m))?;
        let text = c.call_ok("Component::reconstruct", || m.reconstruct())?;
        match serde_json::from_str::<V>(&text) {
            Ok(v) => c.same("new component, written", &want, &v)?,
            Err(e) => return viol(format!("a component is written as {text:?}: {e}")),
        }
    }
    let l = c.call("ScreenLogic::new_empty", || ScreenLogic::new_empty(g(0)))?;
    c.holds(
        l.name == x[0] && l.block_containers.is_empty() && l.variables.is_none() && l.list_variables.is_none() && l.components.is_none() && l.events.is_none() && l.more_blocks.is_none(),
        || format!("new_empty({:?}) is {l:?}", x[0]),
    )?;
    use swrs::parser::logic::{component::ComponentPool, event::EventPool, list_variable::ListVariablePool, more_block::MoreBlockPool, variable::VariablePool};
    let n = c.call("pool defaults", || {
        VariablePool::default().0.len() + ListVariablePool::default().0.len() + ComponentPool::default().0.len() + EventPool::default().0.len() + MoreBlockPool::default().0.len()
            + BlockContainer::default().0.len()
    })?;
    c.holds(n == 0, || "a default pool is not empty".into())?;
    let f = c.call("resource files by default", swrs::parser::ResourceFiles::default)?;
    c.holds(f.custom_icon.is_none() && f.images.is_empty() && f.sounds.is_empty() && f.fonts.is_empty(), || "default resource files are not empty".into())?;
    let p = c.call("palette by default", swrs::parser::project::ProjectColorPalette::default)?;
    let got = [&p.color_primary, &p.color_primary_dark, &p.color_accent, &p.color_control_normal, &p.color_control_highlight].map(|x| color_to_i(x) as u32);
    c.holds(got == [0xff008dcd, 0xff0084c2, 0xff008dcd, 0xff57beee, 0x20008dcd], || format!("the default palette is {got:08x?}"))
}

fn blocks(c: &mut Ctx) -> R {
    let o = GenOpt { one_line: true, max_depth: 3 };
    let mut left = c.t.range(1, 40);
    let items = V::Array(gen_items(&mut c.t, &mut left, 3, &o, true));
    let n = c.t.range(0, 12);
    let ss1 = gen_code(&mut c.t, n);
    let n = c.t.range(0, 12);
    let ss2 = gen_code(&mut c.t, n);
    let (cat, rgb) = *c.t.pick(&CATS);
    let color = (0xff00_0000u32 | rgb) as i32;
    let op = c.t.string();
    let ty = *c.t.pick(&[" ", "b", "s", "d", "v", "p", "l", "c", "e", "f"]);
    let tn = match ty {
        "v" | "p" => c.t.ident(),
        "l" => c.t.pick(&["List String", "List Number"]).to_string(),
        _ => String::new(),
    };
    c.feed_v("block", &json!([items, ss1, ss2, rgb, op, ty, tn]));
    // content: through the builder and directly
    let content = items_build(&mut c.t, &items);
    let built = {
        let parts: Vec<_> = content.items.clone();
        c.call("builder", || {
            let mut b = BlockContent::builder();
            for p in parts {
                b = match p {
                    swrs::api::block::SpecItem::Text(x) => b.text(x),
                    swrs::api::block::SpecItem::Parameter(a) => b.arg(a),
                };
            }
            b.build()
        })?
    };
    c.holds(built == content, || format!("built content is {}", items_obs(&built)))?;
    c.same("built content", &items, &items_obs(&built))?;
    let none = c.call("builder", || BlockContent::builder().build())?;
    c.holds(none.items.is_empty(), || "an empty builder builds something".into())?;
    let spec = c.call("content to_string", || built.to_string())?;
    c.holds(spec == spec_text(&items), || format!("content is written {spec:?}, has to be {:?}", spec_text(&items)))?;

    let (b1, b2) = (chain_build(&mut c.t, &ss1), chain_build(&mut c.t, &ss2));
    let made = {
        let (op, content, ty) = (op.clone(), content.clone(), type_build(ty, &tn));
        c.call("Block constructors", move || {
            [
                Block::new(cat, op.clone(), content.clone(), ty),
                Block::new_1substack(cat, op.clone(), content.clone(), b1.clone()),
                Block::new_2substack(cat, op, content, b1, b2),
            ]
        })?
    };
    for (i, b) in made.iter().enumerate() {
        let kind = [ty, "c", "e"][i];
        let name = if i == 0 { tn.as_str() } else { "" };
        let nest = |v: &V, on: bool| if on && !arr(v).is_empty() { v.clone() } else { V::Null };
        let want = json!({
            "op": op, "color": color, "type": kind, "typeName": name, "spec": items, "ss1": nest(&ss1, i >= 1), "ss2": nest(&ss2, i >= 2),
        });
        let got = block_obs(b);
        c.same("new block", &want, &got)?;
        c.holds(b.sub_stack1.is_some() == (i >= 1) && b.sub_stack2.is_some() == (i >= 2), || format!("constructor {i} gives substacks {:?}", (b.sub_stack1.is_some(), b.sub_stack2.is_some())))?;
        let got = c.call("category", || b.category())?;
        c.holds(got.as_ref().ok() == Some(&cat), || format!("a block made in category {cat:?} has category {got:?}"))?;
        // written and read back
        let list: BlockContainer = c.call("write blocks", || Blocks(vec![b.clone()]).into())?;
        let list: Vec<V> = list.0.iter().map(block_to_v).collect();
        match strict_refs(&list).and_then(|_| read_list(&list)) {
            Ok(v) => c.same("new block, written", &json!([want]), &v)?,
            Err(e) => return viol(format!("a new block is written as a broken list: {e}")),
        }
    }
    use swrs::api::block::{ArgumentBlockReturnType as Ret, ListItem};
    let r: [Ret; 2] = c.call("ListItem", || [ListItem::String.into(), ListItem::Number.into()])?;
    c.holds(r == [Ret::String, Ret::Number], || format!("blocks that return an item of a text list and a number list are {r:?}"))?;
    let (a, b) = c.call("Blocks::new", || (Blocks::new(), Blocks::default()))?;
    c.holds(a.0.is_empty() && b.0.is_empty(), || "new code is not empty".into())?;
    let all = Blocks(made.to_vec());
    let it: Vec<Block> = c.call("into_iter", || all.into_iter().collect())?;
    c.holds(it.as_slice() == made.as_slice(), || "iterating code does not give its blocks in order".into())?;
    let k: Color = c.call("category color", || cat.into())?;
    c.holds(color_to_i(&k) == color as i64, || format!("category {cat:?} has color {k}"))
}

fn projects(c: &mut Ctx) -> R {
    let mut m = proj::gen_project(&mut c.t);
    super::projects::unique_resources(&mut m);
    let t = proj::emit_texts(&mut c.t, &m);
    for (i, x) in t.iter().enumerate() {
        c.feed(sect_name(i), x);
    }
    let g = |i: usize| t[i].clone();
    let w = proj::wrappers(&mut c.t, &m["files"]);
    let files = w.clone().unwrap_or_default();
    let (a, b) = {
        let f = files.clone();
        c.call("Raw constructors", || (Raw::new(g(0), g(1), g(2), g(3), g(4), g(5), f), Raw::new_wo_res(g(0), g(1), g(2), g(3), g(4), g(5))))?
    };
    for (r, on) in [(&a, true), (&b, false)] {
        for (i, x) in proj::raw_texts(r).iter().enumerate() {
            c.holds(*x == t[i], || format!("the raw project has another text {}", sect_name(i)))?;
        }
        let got = r.resource_files.as_ref();
        c.holds(got == if on { Some(&files) } else { None }, || format!("the raw project has resource files {got:?}"))?;
    }
    if m["files"].is_null() {
        let p = c.call_ok("parse_wo_res", || Parsed::parse_wo_res(g(0), g(1), g(2), g(3), g(4), g(5)))?;
        let q = c.call_ok("parse_from", || Parsed::parse_from(b))?;
        c.holds(p == q, || "parse_wo_res and parse_from differ".into())?;
        c.holds(p.resource_files.is_none(), || "resource files from nowhere".into())?;
    } else {
        let f = files.clone();
        let p = c.call_ok("parse", || Parsed::parse(g(0), g(1), g(2), g(3), g(4), g(5), f))?;
        let q = c.call_ok("parse_from", || Parsed::parse_from(a))?;
        c.holds(p == q, || "parse and parse_from differ".into())?;
        c.holds(p.resource_files.is_some(), || "the resource files are gone".into())?;
        // by hand
        let h = match proj::api_build(&mut c.t, &m, false) {
            Ok(h) => h,
            Err(e) => return viol(format!("making a project by hand failed: {e}")),
        };
        let k = h.clone();
        let n = c.call("SketchwareProject::new", move || swrs::api::SketchwareProject::new(k.metadata, k.colors, k.screens, k.custom_views, k.libraries, k.resources))?;
        c.holds(n.custom_icon.is_none(), || "a new project has an icon".into())?;
        c.holds(n.metadata == h.metadata && n.colors == h.colors && n.libraries == h.libraries && n.resources == h.resources, || "a new project has other parts".into())?;
        c.holds(n.screens == h.screens && n.custom_views == h.custom_views, || "a new project has other screens or custom views".into())?;
    }
    Ok(())
}

fn sect_name(i: usize) -> &'static str {
    ["project", "file", "library", "resource", "view", "logic"][i]
}

fn random_id() -> u32 {
    match RW::make_random_id("a".into(), RT::Image) {
        RW::U32Id { id, .. } => id,
        _ => 0,
    }
}

/// for comparison with those of another process
pub fn print_ids() -> i32 {
    for _ in 0..16 {
        println!("{}", random_id());
    }
    0
}

fn wrappers(c: &mut Ctx) -> R {
    let name = c.t.string();
    let ty = *c.t.pick(&[RT::Image, RT::Sound, RT::Font, RT::CustomIcon]);
    c.feed_v("wrapper", &json!([name, proj::res_kind(ty)]));
    let mut ids = HashSet::new();
    let many = c.corner == Some(9);
    if many {
        // ids drawn from a small part of the 2^32 there are
        let mut all: Vec<u32> = vec![];
        for _ in 0..8192 {
            match c.call("make_random_id", || RW::make_random_id(String::new(), ty))? {
                RW::U32Id { id, .. } => all.push(id),
                w => return viol(format!("a random id is {w:?}")),
            }
        }
        let n = all.iter().collect::<HashSet<_>>().len();
        // 8192 draws coincide 0.008 times on average
        c.holds(n >= 8189, || format!("8192 random ids are only {n} different ones"))?;
        for bit in 0..32 {
            let n = all.iter().filter(|x| **x >> bit & 1 == 1).count();
            // mean 4096, deviation 45
            c.holds((3500..=4700).contains(&n), || format!("bit {bit} is set in {n} of 8192 random ids"))?;
        }
        // from several threads, old and new, and from several processes
        let mut all = vec![];
        for _ in 0..2 {
            let l: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..16).map(|_| random_id()).collect::<Vec<_>>())).collect();
            for x in l {
                all.extend(x.join().unwrap_or_default());
            }
        }
        let n = all.iter().collect::<HashSet<_>>().len();
        c.holds(n >= 254, || format!("256 random ids made in 16 threads are only {n} different ones"))?;
        let mut all = vec![];
        for _ in 0..4 {
            if let Ok(o) = std::process::Command::new(std::env::current_exe().unwrap()).arg("ids").output() {
                all.extend(String::from_utf8_lossy(&o.stdout).lines().map(|x| x.to_string()));
            }
        }
        let n = all.iter().collect::<HashSet<_>>().len();
        c.holds(n + 2 >= all.len(), || format!("{} random ids made in 4 processes are only {n} different ones", all.len()))?;
        c.count_n("random ids of other processes", all.len() as u64);
    }
    for _ in 0..64 {
        let w = c.call("make_random_id", || RW::make_random_id(name.clone(), ty))?;
        match &w {
            RW::U32Id { id, res_full_name, res_type } => {
                ids.insert(*id);
                c.holds(*res_full_name == name && *res_type == ty, || format!("a wrapper for {name:?} ({ty:?}) is {w:?}"))?;
            }
            _ => return viol(format!("a random id is {w:?}")),
        }
        let n = c.call("get_full_name", || w.get_full_name())?;
        c.holds(n == name, || format!("wrapper of {name:?} is named {n:?}"))?;
    }
    // 64 draws from 2^32 coincide once in two million cases, twice practically never
    c.holds(ids.len() >= 62, || format!("64 random ids are only {} different ones", ids.len()))?;
    let id = c.t.string();
    let w = RW::StringId { id: id.clone(), res_full_name: name.clone(), res_type: ty };
    let n = c.call("get_full_name", || w.get_full_name())?;
    c.holds(n == name, || format!("wrapper of {name:?} is named {n:?}"))?;
    let dir = c.t.ident();
    let file = c.t.name_wo(&['/', '\0']);
    if !file.is_empty() && file != "." && file != ".." {
        let w = RW::Path(std::path::Path::new("/").join(&dir).join(&file));
        let n = c.call("get_full_name", || w.get_full_name())?;
        c.holds(n == file, || format!("the file {file:?} is named {n:?}"))?;
    }
    let e = c.call("Resources::new_empty", swrs::api::Resources::new_empty)?;
    c.holds(e.get_images().is_empty() && e.get_sounds().is_empty() && e.get_fonts().is_empty(), || "new resources are not empty".into())?;
    // colors and dates of metadata made by hand
    let d = gen_date(&mut c.t);
    let k = gen_color(&mut c.t);
    let ts = date_to_ts(&d);
    c.note("extra", || format!("{d} {ts} {k}"));
    let x = c.call("Color::default", Color::default)?;
    c.holds(color_to_i(&x) == -0x100_0000, || format!("the default color is {x}"))?;
    let bits = c.t.below(16) as u8;
    let o = c.call("ActivityOptions::from_num", || swrs::parser::file::ActivityOptions::from_num(bits))?;
    let n = c.call("as_num", || o.as_num())?;
    c.holds(n == bits, || format!("options {bits} are written {n}"))
}

pub fn construct(c: &mut Ctx) -> R {
    let k = match c.corner {
        Some(i) => i,
        None => c.t.below(12),
    };
    match k {
        0..=2 => views(c),
        3 | 4 => logic_parts(c),
        5..=7 => blocks(c),
        8 => projects(c),
        _ => wrappers(c),
    }
}

pub const _S: fn(&V) -> &str = st;
pub const _L: fn(&V) -> &Vec<V> = sect::arr;
