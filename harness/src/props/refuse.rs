//! C10 and C24: malformed data has to be refused, and the error has to say where it is.
use crate::blk;
use crate::conv::*;
use crate::mutate::token;
use crate::proj::*;
use crate::rt::{chain, clip, viol, Ctx, R};
use crate::schema::{self, gen, num, s, spoil, Schema};
use crate::sect::{self, arr, st};
use crate::tape::Tape;
use crate::views;
use serde_json::Value as V;
use std::collections::HashSet;
use swrs::api::block::{BlockContent, BlockContentParseError, BlockConversionError as BCE, BlockType, Blocks};
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, ScreenConstructionError as SCE};
use swrs::api::view::{parse_raw_layout, ParseLayoutError as PLE};
use swrs::api::{APISketchwareProjectConversionError as ACE, SketchwareProject as Api};
use swrs::color::Color;
use swrs::parser::file::{File, FileItem, FileParseError};
use swrs::parser::library::{Library, LibraryItem, LibraryParseError};
use swrs::parser::logic::component::Component;
use swrs::parser::logic::event::Event as PEvent;
use swrs::parser::logic::list_variable::{ListVariable, ListVariablePool};
use swrs::parser::logic::more_block::{MoreBlock, MoreBlockPool};
use swrs::parser::logic::variable::{Variable, VariablePool};
use swrs::parser::logic::{Block as PBlock, BlockContainer, BlockContainerHeader, Logic, LogicParseError};
use swrs::parser::project::Project;
use swrs::parser::resource::{Resource, ResourceItem, ResourceParseError, ResourceSection};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::{Layout, View, ViewParseError};
use swrs::parser::{Parsable, RawSketchwareProject as Raw, SketchwareProject as Parsed};

// ------------------------------------------------------------------ one bad record in a text

pub struct Bad {
    pub text: String,
    /// the bad line
    pub line: String,
    /// its index among all lines of the text
    pub index: usize,
    /// the header line of its section
    pub header: String,
    /// its index among the records of the section (since the last header)
    pub pos: usize,
    /// the line before, if it is a record of the same section
    pub before: Option<String>,
    pub why: String,
}

fn pool_of(header: &str) -> &'static str {
    for k in sect::POOLS {
        if header.ends_with(&format!(".java_{k}")) {
            return k;
        }
    }
    "blocks"
}

fn schema_of(k: usize, header: &str) -> Option<Schema> {
    Some(match k {
        0 => schema::PROJECT,
        1 => schema::FILE_ITEM,
        2 => schema::LIBRARY_ITEM,
        3 => schema::RESOURCE_ITEM,
        4 => schema::VIEW,
        _ => match pool_of(header) {
            "components" => schema::COMPONENT,
            "events" => schema::EVENT,
            "blocks" => schema::BLOCK,
            _ => return None,
        },
    })
}

/// a line of a var, list or func pool that is none
pub fn bad_pool_line(t: &mut Tape, pool: &str) -> (String, String) {
    let name = t.name_wo(&['\n', ':', '@']);
    let name = if name.is_empty() { "x".to_string() } else { name };
    let l = if pool == "func" {
        name
    } else {
        match t.below(4) {
            0 => name,
            1 => format!("{}:{name}", t.pick(&["4", "5", "9", "255", "256", "1000", "-1"])),
            2 => format!("{}:{name}", t.pick(&["", "x", " 1", "1 ", "0x1", "1.0", "é"])),
            _ => format!("{name}={name}"),
        }
    };
    let why = format!("the {pool} line {l:?}");
    (l, why)
}

/// the section header and the position within it for every record of a text
fn records(k: usize, ls: &[String]) -> Vec<(usize, String, usize)> {
    let mut out = vec![];
    let (mut header, mut pos) = (String::new(), 0);
    let mut inside = false;
    for (i, l) in ls.iter().enumerate() {
        let fresh = !inside || k < 4 || header.ends_with(".xml_fab");
        if l.starts_with('@') && (fresh || !out.iter().any(|(j, _, _): &(usize, String, usize)| *j + 1 == i) || k == 4) {
            header = l.clone();
            pos = 0;
            inside = true;
        } else if l.is_empty() {
            inside = false;
        } else if inside || k == 0 {
            out.push((i, header.clone(), pos));
            pos += 1;
        }
    }
    out
}

/// makes one record of a data file text (0 project .. 5 logic) malformed; `None` if it has none
pub fn break_record(t: &mut Tape, k: usize, text: &str) -> Option<Bad> {
    let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
    let recs = records(k, &ls);
    if recs.is_empty() {
        return None;
    }
    let (i, header, pos) = t.pick(&recs).clone();
    let (line, why) = match schema_of(k, &header) {
        None => bad_pool_line(t, pool_of(&header)),
        Some(sc) => {
            let v: V = serde_json::from_str(&ls[i]).ok()?;
            // without the members the format does not know
            let v = V::Object(v.as_object()?.iter().filter(|(n, _)| sc.iter().any(|f| f.0 == n.as_str())).map(|(a, b)| (a.clone(), b.clone())).collect());
            spoil(&v, sc, t)
        }
    };
    let before = if pos > 0 { Some(ls[i - 1].clone()) } else { None };
    ls[i] = line.clone();
    Some(Bad { text: ls.join("\n"), line, index: i, header, pos, before, why })
}

// ------------------------------------------------------------------ C24
pub const RULE24: &str = "valid data files with one record (any section, any position, also past 65536 lines) made malformed in one of many ways, bad headers, files cut after a header, \
and valid parsed projects with one defect in a block, view, component, event, library, custom view or resource; the error has to name that data file, section, record, screen, \
container, view or resource; cases are distinct if the inputs differ";

fn section_name(x: ResourceSection) -> &'static str {
    match x {
        ResourceSection::Images => "@images",
        ResourceSection::Sounds => "@sounds",
        ResourceSection::Fonts => "@fonts",
        ResourceSection::None => "none",
    }
}

fn located(c: &mut Ctx, k: usize, b: &Bad) -> R {
    let why = format!("{} in section {:?}, record {}, line {}", b.why, b.header, b.pos, b.index);
    match k {
        0 => {
            c.call_err("Project::parse", &why, || Project::parse(&b.text))?;
        }
        1 => {
            let FileParseError::FileItemParseError { line, content, .. } = c.call_err("File::parse", &why, || File::parse(&b.text))?;
            c.holds(line as usize == b.index && content == b.line, || format!("{why}: the error says line {line}, content {content:?}"))?;
            c.says(&[&line.to_string(), &b.line], &why)?;
        }
        2 => match c.call_err("Library::parse", &why, || Library::parse(&b.text))? {
            LibraryParseError::LibraryItemParseError { header, line, .. } => {
                c.holds(header == b.header && line as usize == b.index, || format!("{why}: the error says {header:?}, line {line}"))?;
                c.says(&[&header, &line.to_string()], &why)?
            }
            e => return viol(format!("{why}: {e:?}")),
        },
        3 => {
            let ResourceParseError::ResourceItemParseError { section, line, .. } = c.call_err("Resource::parse", &why, || Resource::parse(&b.text))?;
            c.holds(section_name(section) == b.header && line as usize == b.index, || format!("{why}: the error says section {section:?}, line {line}"))?;
            c.says(&[&line.to_string(), &format!("{section:?}")], &why)?;
        }
        4 => {
            let name = b.header[1..].split('.').next().unwrap();
            match c.call_err("View::parse", &why, || View::parse(&b.text))? {
                ViewParseError::LayoutParseError { screen_name, source, .. } if b.header.ends_with(".xml") => {
                    c.holds(screen_name == name && source.content == b.line && source.line as usize == b.pos, || {
                        format!("{why}: the error says screen {screen_name:?}, line {}, content {:?}", source.line, source.content)
                    })?;
                    c.says(&[name, &source.line.to_string()], &why)?;
                    let before = match &b.before {
                        None => None,
                        Some(x) => Some(c.call_ok("AndroidView::parse", || AndroidView::parse(x))?),
                    };
                    c.holds(source.view_before == before, || format!("{why}: the error gives another view before: {:?}", source.view_before.as_ref().map(|v| &v.id)))?;
                }
                ViewParseError::FabParseError { screen_name, line, content, .. } if b.header.ends_with(".xml_fab") => {
                    c.holds(screen_name == name && line as usize == b.index + 1 && content == b.line, || format!("{why}: the error says screen {screen_name:?}, line {line}, content {content:?}"))?;
                    c.says(&[name], &why)?;
                }
                e => return viol(format!("{why}: {}", clip(&format!("{e:?}"), 500))),
            }
        }
        _ => {
            let pool = pool_of(&b.header);
            let h = &b.header[1..];
            let (name, cont) = if pool == "blocks" { h.split_once(".java_").unwrap() } else { (h.strip_suffix(&format!(".java_{pool}")).unwrap(), "") };
            use LogicParseError as E;
            let (kind, sn, cn, content, count, line) = match c.call_err("Logic::parse", &why, || Logic::parse(&b.text))? {
                E::VariablePoolParseError { screen_name, source, line } => ("var", screen_name, String::new(), Some(source.content), source.count, line),
                E::ListVariablePoolParseError { screen_name, source, line } => ("list", screen_name, String::new(), Some(source.content), source.count, line),
                E::ComponentPoolParseError { screen_name, source, line } => ("components", screen_name, String::new(), Some(source.content), source.count, line),
                E::EventPoolParseError { screen_name, source, line } => ("events", screen_name, String::new(), Some(source.content), source.count, line),
                E::MoreBlockPoolParseError { screen_name, source, line } => ("func", screen_name, String::new(), Some(source.content), source.count, line),
                E::BlockContainerParseError { screen_name, container_name, source, line } => ("blocks", screen_name, container_name, None, source.block_count, line),
                e => return viol(format!("{why}: {e:?}")),
            };
            c.holds(kind == pool && sn == name && cn == cont && count as usize == b.pos && content.as_ref().map_or(true, |x| *x == b.line), || {
                format!("{why}: the error says {kind}, screen {sn:?}, container {cn:?}, record {count}, content {content:?}")
            })?;
            // the line of the header, counted from one
            c.holds(line as usize == b.index - b.pos, || format!("{why}: the error says line {line}"))?;
            c.says(&[name, cont, &line.to_string()], &why)?;
            if kind != "blocks" {
                c.says(&[&count.to_string()], &why)?;
            }
        }
    }
    c.count("located");
    Ok(())
}

/// a text with so many records that small counters overflow, the last one bad
fn long_text(t: &mut Tape, i: u64) -> (usize, String) {
    let n = 66_000;
    let rep = |head: &str, rec: &str| {
        let mut x = String::with_capacity(n * (rec.len() + 1));
        x.push_str(head);
        for _ in 0..n {
            x.push('\n');
            x.push_str(rec);
        }
        x
    };
    let mut one = |sc: Schema| {
        let v = gen(t, sc);
        serde_json::to_string(&v).unwrap()
    };
    match i {
        0 => (1, rep("@activity", &one(schema::FILE_ITEM))),
        1 => (3, rep("@images", &one(schema::RESOURCE_ITEM))),
        2 => (5, rep("@MainActivity.java_components", &one(schema::COMPONENT))),
        3 => (5, rep("@MainActivity.java_events", &one(schema::EVENT))),
        4 => (5, rep("@MainActivity.java_onCreate_initializeLogic", &one(schema::BLOCK))),
        5 => (5, rep("@MainActivity.java_var", "0:a")),
        6 => (5, rep("@MainActivity.java_func", "a:b")),
        _ => (5, rep("@MainActivity.java_list", "1:x")),
    }
}

pub const NCORNER24: u64 = 16;

/// a defect that comes after more lines or records than a small counter can count
fn far_down(c: &mut Ctx, i: u64) -> R {
    let n = 65_530 + c.t.below(3000) as usize;
    let blank = |n: usize| vec![String::new(); n];
    c.feed("far down", &format!("{i} {n}"));
    let bad = |mut ls: Vec<String>, header: String, k: usize| {
        let index = ls.len() - 1;
        let h = ls.iter().rposition(|l| *l == header).unwrap();
        let before = (index > h + 1).then(|| ls[index - 1].clone());
        let line = "oops".to_string();
        ls[index] = line.clone();
        (k, Bad { line, index, header, pos: index - h - 1, before, why: "junk far down".into(), text: ls.join("\n") })
    };
    let (k, b) = match i {
        0 => {
            // a layout of that many views
            let v = gen(&mut c.t, schema::VIEW);
            let rec = serde_json::to_string(&v).unwrap();
            let mut ls = vec!["@main.xml".to_string()];
            ls.resize(n + 2, rec);
            bad(ls, "@main.xml".into(), 4)
        }
        1 => {
            let mut ls = blank(n);
            ls.push("@main.xml_fab".into());
            ls.push(String::new());
            bad(ls, "@main.xml_fab".into(), 4)
        }
        2 | 3 => {
            // that many variables in front of the section
            let h = if i == 2 { "@MainActivity.java_a_onClick" } else { "@MainActivity.java_components" };
            let mut ls = vec!["@MainActivity.java_var".to_string()];
            ls.resize(n, "0:a".into());
            ls.extend([String::new(), h.to_string(), String::new()]);
            bad(ls, h.into(), 5)
        }
        4 => {
            // lines of a library file that mean nothing
            let m = sect::gen_library(&mut c.t);
            let text = sect::emit_library(&mut c.t, &m);
            let mut ls = blank(n);
            ls.extend(text.split('\n').map(|x| x.to_string()));
            let h = ls.iter().rposition(|l| l.starts_with('@')).unwrap();
            ls.truncate(h + 2);
            let header = ls[h].clone();
            bad(ls, header, 2)
        }
        5 => {
            let mut ls = vec!["@MainActivity.java_func".to_string()];
            ls.resize(n, "a:b".into());
            ls.extend([String::new(), "oops".to_string()]);
            let text = ls.join("\n");
            return match c.call_err("Logic::parse", "a stray line far down", || Logic::parse(&text))? {
                LogicParseError::BlockContainerHeaderParseError { line, .. } => {
                    c.holds(line as usize == ls.len(), || format!("a stray line in line {}: the error says {line}", ls.len()))?;
                    c.says(&[&line.to_string()], "a stray line far down")
                }
                e => viol(format!("a stray line far down: {}", clip(&format!("{e:?}"), 400))),
            };
        }
        6 => {
            let mut ls = blank(n);
            ls.push("oops".to_string());
            let text = ls.join("\n");
            return match c.call_err("View::parse", "a stray line far down", || View::parse(&text))? {
                ViewParseError::InvalidHeader { line, content } => c.holds(line as usize == ls.len() && content == "oops", || format!("a stray line in line {}: the error says {line}", ls.len())),
                e => viol(format!("a stray line far down: {}", clip(&format!("{e:?}"), 400))),
            };
        }
        _ => {
            // the second section of a resource list, after that many records of the first
            let v = gen(&mut c.t, schema::RESOURCE_ITEM);
            let mut ls = vec!["@images".to_string()];
            ls.resize(n, serde_json::to_string(&v).unwrap());
            ls.extend(["@sounds".to_string(), String::new()]);
            bad(ls, "@sounds".into(), 3)
        }
    };
    located(c, k, &b)
}

pub fn locate(c: &mut Ctx) -> R {
    if let Some(i) = c.corner {
        if i >= 8 {
            return far_down(c, i - 8);
        }
        let (k, text) = long_text(&mut c.t, i);
        let mut ls: Vec<&str> = text.split('\n').collect();
        let at = ls.len() - 1 - c.t.below(100) as usize;
        let before = Some(ls[at - 1].to_string());
        ls[at] = "oops";
        let b = Bad { line: "oops".into(), index: at, header: ls[0].to_string(), pos: at - 1, before, why: "junk".into(), text: ls.join("\n") };
        c.feed("long", &format!("{} {at}", ls[0]));
        return located(c, k, &b);
    }
    match c.t.below(12) {
        0..=5 => {
            let k = c.t.below(6) as usize;
            let text = super::hostile::valid(&mut c.t, k);
            let Some(b) = break_record(&mut c.t, k, &text) else {
                c.trivial = true;
                return Ok(());
            };
            c.feed(FILES[k], &b.text);
            located(c, k, &b)
        }
        6 => headers(c),
        7 => pools(c),
        8 | 9 => refuse_blocks(c, true),
        _ => api_defect(c, true),
    }
}

/// a line that opens no section and stands where a section has to start, in a view or logic file: the
/// text, the number of that line and the line
fn stray_line(t: &mut Tape, view: bool) -> (String, usize, String) {
    let text = if view {
        let m = sect::gen_view_file(t);
        sect::emit_view_file(t, &m)
    } else {
        let m = sect::gen_logic(t);
        sect::emit_logic(t, &m)
    };
    let mut ls: Vec<String> = if text.is_empty() { vec![] } else { text.split('\n').map(|x| x.to_string()).collect() };
    let mut at: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with('@') && (*i == 0 || view || ls[*i - 1].is_empty())).collect();
    if ls.last().map_or(true, |l| l.is_empty()) {
        at.push(ls.len());
    }
    let i = if at.is_empty() { ls.push(String::new()); ls.len() } else { *t.pick(&at) };
    let line = loop {
        let x = match t.below(5) {
            0 => { let v = gen(t, schema::VIEW); schema::emit(&v, t, Default::default()) }
            1 => t.pick(&["0:x", "1:é", "oops", "main.xml", "main.java_var", "{", "}", "MainActivity.java_onCreate_initializeLogic", "\t", "\u{feff}", " "]).to_string(),
            2 => format!(" @{}.xml", t.name_wo(&['\n', '.'])),
            3 => format!("\u{feff}@{}.java_var", t.name_wo(&['\n', '.'])),
            _ => t.name_wo(&['\n']),
        };
        if !x.is_empty() && !x.starts_with('@') {
            break x;
        }
    };
    ls.insert(i, line.clone());
    if t.bool() {
        ls.insert(i + 1, String::new());
    }
    (ls.join("\n"), i, line)
}

/// bad and missing headers
fn headers(c: &mut Ctx) -> R {
    match c.t.below(7) {
        5 => {
            let (text, i, want) = stray_line(&mut c.t, true);
            c.feed("view", &text);
            match c.call_err("View::parse", &format!("line {} is {want:?}, which is no header", i + 1), || View::parse(&text))? {
                ViewParseError::InvalidHeader { line, content } => c.holds(content == want && line as usize == i + 1, || format!("stray line {want:?} in line {}: the error says {line}, {content:?}", i + 1)),
                e => viol(format!("stray line {want:?}: {}", clip(&format!("{e:?}"), 400))),
            }
        }
        6 => {
            let (text, i, want) = stray_line(&mut c.t, false);
            c.feed("logic", &text);
            match c.call_err("Logic::parse", &format!("line {} is {want:?}, which is no header", i + 1), || Logic::parse(&text))? {
                LogicParseError::BlockContainerHeaderParseError { line, .. } => {
                    c.holds(line as usize == i + 1, || format!("stray line {want:?} in line {}: the error says {line}", i + 1))?;
                    c.says(&[&line.to_string()], "stray line")
                }
                e => viol(format!("stray line {want:?}: {}", clip(&format!("{e:?}"), 400))),
            }
        }
        0 => {
            // a section of the library is missing
            let m = sect::gen_library(&mut c.t);
            let text = sect::emit_library(&mut c.t, &m);
            let k = format!("@{}", c.t.pick(&sect::LIBS));
            let mut out = vec![];
            let mut ls = text.split('\n');
            let cut = c.t.bool();
            while let Some(l) = ls.next() {
                if l == k {
                    if cut {
                        out.push(l);
                        break;
                    }
                    ls.next();
                    continue;
                }
                out.push(l);
            }
            let text = out.join("\n");
            c.feed("library", &text);
            match c.call_err("Library::parse", &format!("section {k} is missing or cut off"), || Library::parse(&text))? {
                LibraryParseError::MissingItem { header } if !cut => c.holds(header == k, || format!("section {k} is missing, the error says {header:?}")),
                LibraryParseError::EOFAfterHeader { header } if cut => c.holds(header == k, || format!("the file ends after {k}, the error says {header:?}")),
                e => viol(format!("library without {k} (cut {cut}): {e:?}")),
            }
        }
        1 | 2 => {
            // a view header without a container
            let m = sect::gen_view_file(&mut c.t);
            let text = sect::emit_view_file(&mut c.t, &m);
            let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
            let hs: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with('@')).collect();
            if hs.is_empty() {
                c.trivial = true;
                return Ok(());
            }
            let i = *c.t.pick(&hs);
            if c.t.bool() {
                ls[i] = format!("@{}", c.t.name_wo(&['\n', '.']));
                let (text, want) = (ls.join("\n"), ls[i].clone());
                c.feed("view", &text);
                match c.call_err("View::parse", "header without a container", || View::parse(&text))? {
                    ViewParseError::InvalidHeader { line, content } => c.holds(content == want && line as usize == i + 1, || format!("header {want:?} in line {}: the error says {line}, {content:?}", i + 1)),
                    e => viol(format!("header {want:?}: {}", clip(&format!("{e:?}"), 400))),
                }
            } else {
                // the file ends after the header of a fab
                let name = c.t.name_wo(&['\n', '.']);
                ls.truncate(i);
                ls.push(format!("@{name}.xml_fab"));
                let text = ls.join("\n");
                c.feed("view", &text);
                match c.call_err("View::parse", "the file ends after the header of a fab", || View::parse(&text))? {
                    ViewParseError::EOFAfterFabHeader { screen_name, line } => c.holds(screen_name == name && (line as usize == i + 1 || line as usize == i + 2), || format!("fab header of {name:?}: the error says {screen_name:?}")),
                    e => viol(format!("the file ends after the fab header of {name:?}: {}", clip(&format!("{e:?}"), 400))),
                }
            }
        }
        _ => {
            let m = sect::gen_logic(&mut c.t);
            let text = sect::emit_logic(&mut c.t, &m);
            let mut ls: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
            let hs: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with('@') && (*i == 0 || ls[*i - 1].is_empty())).collect();
            if hs.is_empty() {
                c.trivial = true;
                return Ok(());
            }
            let i = *c.t.pick(&hs);
            ls[i] = format!("@{}", c.t.name_wo(&['\n', '.']));
            let text = ls.join("\n");
            c.feed("logic", &text);
            let h = ls[i].clone();
            match c.call_err("Logic::parse", "header without a container", || Logic::parse(&text))? {
                LogicParseError::BlockContainerHeaderParseError { line, .. } => {
                    c.holds(line as usize == i + 1, || format!("header {h:?} in line {}: the error says {line}", i + 1))?;
                    c.says(&[&line.to_string()], "header without a container")?
                }
                e => return viol(format!("logic header without a container: {e:?}")),
            }
            c.call_err("BlockContainerHeader::parse", "header without a container", || BlockContainerHeader::parse(&h))?;
            Ok(())
        }
    }
}

/// the parsers of single sections and records
fn pools(c: &mut Ctx) -> R {
    let mut vars = arr(&sect::gen_vars(&mut c.t, 30)).clone();
    let at = c.t.below(vars.len() as u64 + 1) as usize;
    vars.insert(at, V::Null);
    let (bad, why) = bad_pool_line(&mut c.t, "var");
    let text: Vec<String> = vars.iter().map(|v| if v.is_null() { bad.clone() } else { format!("{}:{}", v["type"], st(&v["name"])) }).collect();
    let text = text.join("\n");
    c.feed("pool", &text);
    let e = c.call_err("VariablePool::parse", &why, || VariablePool::parse(&text))?;
    c.holds(e.content == bad && e.count as usize == at, || format!("{why} as entry {at}: the error says {}, {:?}", e.count, e.content))?;
    let e = c.call_err("ListVariablePool::parse", &why, || ListVariablePool::parse(&text))?;
    c.holds(e.content == bad && e.count as usize == at, || format!("{why} as entry {at}: the error says {}, {:?}", e.count, e.content))?;
    let mut ls: Vec<String> = arr(&sect::gen_funcs(&mut c.t, 30)).iter().map(|f| format!("{}:{}", st(&f["id"]), st(&f["spec"]))).collect();
    let at = c.t.below(ls.len() as u64 + 1) as usize;
    let (bad, why) = bad_pool_line(&mut c.t, "func");
    ls.insert(at, bad.clone());
    let text = ls.join("\n");
    c.feed("pool", &text);
    let e = c.call_err("MoreBlockPool::parse", &why, || MoreBlockPool::parse(&text))?;
    c.holds(e.content == bad && e.count as usize == at, || format!("{why} as entry {at}: the error says {}, {:?}", e.count, e.content))
}

// ------------------------------------------------------------------ C10
pub const RULE10: &str = "valid records, block lists, layouts, specs and projects with exactly one defect: a record cut, missing, misspelt, of another type or out of range, a line without \
its separator, a reference that dangles, is doubled or runs in a circle, a malformed id, an unknown kind, a missing or ill-typed argument, a missing section, layout or resource file; \
cases are distinct if the inputs differ";

fn refuse_record(c: &mut Ctx) -> R {
    fn go<T: Parsable + std::fmt::Debug>(c: &mut Ctx, op: &'static str, sc: Schema) -> R
    where
        T::ParseError: std::error::Error,
    {
        let v = gen(&mut c.t, sc);
        let (text, why) = spoil(&v, sc, &mut c.t);
        c.feed(op, &text);
        c.call_err(op, &why, || T::parse(&text))?;
        Ok(())
    }
    match c.t.below(8) {
        0 => go::<Project>(c, "Project::parse", schema::PROJECT),
        1 => go::<FileItem>(c, "FileItem::parse", schema::FILE_ITEM),
        2 => go::<LibraryItem>(c, "LibraryItem::parse", schema::LIBRARY_ITEM),
        3 => go::<ResourceItem>(c, "ResourceItem::parse", schema::RESOURCE_ITEM),
        4 => go::<AndroidView>(c, "AndroidView::parse", schema::VIEW),
        5 => go::<PEvent>(c, "Event::parse", schema::EVENT),
        6 => go::<Component>(c, "Component::parse", schema::COMPONENT),
        _ => go::<PBlock>(c, "Block::parse", schema::BLOCK),
    }
}

/// what the error has to name
#[derive(Clone, Debug)]
pub enum Want {
    Block(i64),
    Id(String),
    Type(String, String),
    Missing,
    Ref(String),
    Number(String),
    Bool(String),
    Param(String),
}

/// does the error name what is wrong with the list?
fn names_block(c: &mut Ctx, e: BCE, want: &Want, list: &[V], why: &str) -> R {
    use BlockContentParseError as P;
    let args: HashSet<i64> = list.iter().flat_map(|b| arr(&b["parameters"])).filter_map(|p| st(p).strip_prefix('@')?.parse().ok()).collect();
    let text = chain(&e);
    // the way down through the substacks
    let mut e = e;
    loop {
        let (k, id, to, source) = match e {
            BCE::Substack1ParseError { id, sub_stack1_pointer, source } => ("subStack1", id, sub_stack1_pointer, source),
            BCE::Substack2ParseError { id, sub_stack2_pointer, source } => ("subStack2", id, sub_stack2_pointer, source),
            x => {
                e = x;
                break;
            }
        };
        c.holds(list.iter().any(|b| st(&b["id"]).parse() == Ok(id) && b[k].as_i64() == Some(to as i64)), || format!("{why}: the error says it is in the {k} of block {id}, which is {to}"))?;
        c.holds(text.contains(&id.to_string()), || format!("{why}: {text:?} does not say {id}"))?;
        c.count("substack levels");
        e = *source;
    }
    let named = match (&e, want) {
        // what is wrong within an argument is named by the block that is the argument
        (BCE::BlockContentParseError { source: P::BlockNotFound { block_id } }, _) if args.contains(&(*block_id as i64)) => block_id.to_string(),
        (BCE::BlockNotFound { id }, Want::Block(w)) | (BCE::BlockContentParseError { source: P::BlockNotFound { block_id: id } }, Want::Block(w)) if *id as i64 == *w => id.to_string(),
        (BCE::MalformedBlockId { id, .. }, Want::Id(w)) if id == w => w.clone(),
        (BCE::InvalidType { source }, Want::Type(a, b)) if source.block_type == *a && source.type_name == *b => a.clone(),
        (BCE::BlockContentParseError { source: P::RanOutOfArgs }, Want::Missing) => String::new(),
        // the value that is given one parameter too late
        (BCE::BlockContentParseError { source: P::InvalidBlockId { value } }, Want::Ref(w)) if value == w => w.clone(),
        (BCE::BlockContentParseError { source: P::InvalidNumberArgument { value } }, Want::Number(w)) if value == w => w.clone(),
        (BCE::BlockContentParseError { source: P::InvalidBooleanArgument { value } }, Want::Bool(w)) if value == w => w.clone(),
        (BCE::BlockContentParseError { source: P::UnknownSpecParam { full, .. } }, Want::Param(w)) if full == w => String::new(),
        _ => return viol(format!("{why}: the error says {}", clip(&format!("{e:?}"), 400))),
    };
    c.holds(text.contains(&named), || format!("{why}: {text:?} does not say {named:?}"))?;
    c.count("blocks named");
    Ok(())
}

/// what is wrong with a list of blocks, and what the error has to name
pub fn break_blocks(t: &mut Tape, list: &mut Vec<V>) -> Option<(String, Want)> {
    if list.is_empty() {
        return None;
    }
    let ids: HashSet<i64> = list.iter().map(|b| st(&b["id"]).parse().unwrap()).collect();
    let mut args = HashSet::new();
    for b in list.iter() {
        for p in arr(&b["parameters"]) {
            if let Some(x) = st(p).strip_prefix('@') {
                args.insert(x.parse::<i64>().unwrap());
            }
        }
    }
    let i = t.below(list.len() as u64) as usize;
    let id: i64 = st(&list[i]["id"]).parse().unwrap();
    let is_arg = args.contains(&id);
    let absent = loop {
        let x = t.int(0, i32::MAX as i64);
        if !ids.contains(&x) {
            break x;
        }
    };
    let np = arr(&list[i]["parameters"]).len();
    let some_id = |t: &mut Tape, list: &[V]| st(&t.pick(list)["id"]).parse::<i64>().unwrap();
    Some(match t.below(11) {
        0 | 1 => {
            let k = *t.pick(&["nextBlock", "subStack1", "subStack2"]);
            if k == "nextBlock" && is_arg {
                return None;
            }
            list[i][k] = num(absent);
            (format!("{k} of block {id} is {absent}, which does not exist"), Want::Block(absent))
        }
        2 | 3 => {
            // a second reference to some block: itself, one before it, one after it
            let k = *t.pick(&["nextBlock", "subStack1", "subStack2"]);
            if k == "nextBlock" && is_arg {
                return None;
            }
            let to = some_id(t, list);
            if to > i32::MAX as i64 || list[i][k] == num(to) {
                return None;
            }
            if list[i][k].as_i64().unwrap() >= 0 {
                // the old target is lost, so the new one must still be doubled: it has another referrer
                // unless it was only reachable through the lost one; the block itself and the head are safe
                let to = if t.bool() { id } else { st(&list[0]["id"]).parse().unwrap() };
                if to > i32::MAX as i64 {
                    return None;
                }
                list[i][k] = num(to);
                (format!("{k} of block {id} is {to}, which leads in a circle"), Want::Block(to))
            } else {
                list[i][k] = num(to);
                (format!("{k} of block {id} is {to}, which is used twice"), Want::Block(to))
            }
        }
        4 => {
            list[i]["id"] = s(*t.pick(&["", "x", "-1", "4294967296", "1.5", " 1", "1 ", "@1", "é", "99999999999999999999"]));
            (format!("the id of block {id} is {}", list[i]["id"]), Want::Id(st(&list[i]["id"]).into()))
        }
        5 => {
            let ty = *t.pick(&["", "x", "B", "  ", "bb", "l", "h", "\u{0}"]);
            list[i]["type"] = s(ty);
            if ty == "l" {
                list[i]["typeName"] = s(*t.pick(&["", "List", "String", "list string", "List Boolean"]));
            }
            (format!("the type of block {id} is {} {}", list[i]["type"], list[i]["typeName"]), Want::Type(ty.into(), st(&list[i]["typeName"]).into()))
        }
        6 => {
            if np == 0 {
                return None;
            }
            let p = list[i]["parameters"].as_array_mut().unwrap();
            p.pop();
            (format!("a parameter of block {id} is missing"), Want::Missing)
        }
        7 | 8 => {
            if np == 0 {
                return None;
            }
            let j = t.below(np as u64) as usize;
            let x = *t.pick(&["@", "@x", "@-1", "@4294967296", "@1.5", "@ 1", "@@1", "@1 "]);
            let (x, want) = if t.bool() { (x.to_string(), Want::Ref(x.into())) } else { (format!("@{absent}"), Want::Block(absent)) };
            list[i]["parameters"][j] = s(x.clone());
            (format!("parameter {j} of block {id} is {x:?}, which is no block"), want)
        }
        9 => {
            // an ill-typed argument
            let spec = st(&list[i]["spec"]).to_string();
            let ks: Vec<&str> = spec.split(' ').filter_map(|w| blk::token(w).ok().flatten().map(|x| x.0)).collect();
            let js: Vec<usize> = (0..ks.len()).filter(|j| ks[*j] == "d" || ks[*j] == "b").collect();
            if js.is_empty() {
                return None;
            }
            let j = *t.pick(&js);
            let x = if ks[j] == "d" { *t.pick(&["x", "1,5", "1 ", " 1", "0x10", "--1", "1e", "é"]) } else { *t.pick(&["x", "TRUE", "True", "1", "0", " true", "yes", "truefalse"]) };
            list[i]["parameters"][j] = s(x);
            (format!("parameter {j} (%{}) of block {id} is {x:?}", ks[j]), if ks[j] == "d" { Want::Number(x.into()) } else { Want::Bool(x.into()) })
        }
        _ => {
            let w = *t.pick(&["%x", "%q.name", "%S", "%%", "%1", "%é", "%.s", "%m", "%€", "%日.name", "%😀.x", "%é.s"]);
            let sp = st(&list[i]["spec"]).to_string();
            list[i]["spec"] = s(if t.bool() { format!("{w} {sp}") } else { format!("{sp} {w}") });
            list[i]["parameters"].as_array_mut().unwrap().push(s("x"));
            (format!("the spec of block {id} has the unknown parameter {w:?}"), Want::Param(w.into()))
        }
    })
}

fn refuse_blocks(c: &mut Ctx, located: bool) -> R {
    let size = c.t.range(1, 60);
    let m = blk::gen_code(&mut c.t, size);
    let mut list = blk::emit_list(&mut c.t, &m);
    let mut why = None;
    for _ in 0..10 {
        why = break_blocks(&mut c.t, &mut list);
        if why.is_some() {
            break;
        }
    }
    let Some((why, want)) = why else {
        c.trivial = true;
        return Ok(());
    };
    c.feed("blocks", &V::Array(list.clone()).to_string());
    let bc = BlockContainer(list.iter().map(v_to_block).collect());
    let e = c.call_err("Blocks::try_from", &why, || Blocks::try_from(bc))?;
    if located { names_block(c, e, &want, &list, &why) } else { Ok(()) }
}

fn refuse_spec(c: &mut Ctx) -> R {
    // a spec with arguments, one of them bad
    let o = blk::GenOpt { one_line: true, max_depth: 0 };
    let items = V::Array(blk::gen_items(&mut c.t, &mut 0, 0, &o, false));
    let spec = blk::spec_text(&items);
    let ks: Vec<String> = spec.split(' ').filter_map(|w| blk::token(w).ok().flatten().map(|x| x.0.to_string())).collect();
    let mut args: Vec<String> = ks.iter().map(|k| match k.as_str() { "d" => "1".to_string(), "b" => "true".into(), _ => "x".into() }).collect();
    let (mut sp, why) = (spec.clone(), match c.t.below(3) {
        0 if !args.is_empty() => {
            args.pop();
            "an argument is missing".to_string()
        }
        1 if ks.iter().any(|k| k == "d" || k == "b") => {
            let js: Vec<usize> = (0..ks.len()).filter(|j| ks[*j] == "d" || ks[*j] == "b").collect();
            let j = *c.t.pick(&js);
            args[j] = "maybe".into();
            format!("argument {j} is \"maybe\"")
        }
        _ => String::new(),
    });
    let mut why = why;
    if why.is_empty() {
        let w = *c.t.pick(&["%x", "%q.name", "%S.a", "%%", "%1", "%é", "%.s", "%m", "%€", "%日.name", "%😀.x", "%é.s"]);
        sp = format!("{w} {sp}");
        args.insert(0, "x".into());
        why = format!("unknown parameter {w:?}");
    }
    c.feed("spec", &sp);
    c.feed("args", &format!("{args:?}"));
    let (a, b) = (sp.clone(), args.clone());
    c.call_err("BlockContent::parse", &why, || BlockContent::parse(a, b))?;
    match c.call("parse_wo_params", || BlockContent::parse_wo_params(&sp))? {
        Err(_) => c.holds(why.starts_with("unknown"), || format!("parse_wo_params refused {sp:?}")),
        Ok(x) => {
            c.holds(!why.starts_with("unknown"), || format!("parse_wo_params accepted {sp:?}"))?;
            c.call_err("apply_args", &why, || x.apply_args(args))?;
            Ok(())
        }
    }
}

fn refuse_misc(c: &mut Ctx) -> R {
    match c.t.below(6) {
        0 => {
            let (l, why) = bad_pool_line(&mut c.t, "var");
            c.feed("variable", &l);
            c.call_err("Variable::parse", &why, || Variable::parse(&l))?;
            c.call_err("ListVariable::parse", &why, || ListVariable::parse(&l))?;
            let (l, why) = bad_pool_line(&mut c.t, "func");
            c.feed("more block", &l);
            c.call_err("MoreBlock::parse", &why, || MoreBlock::parse(&l))?;
            let h = token(&mut c.t);
            if !(h.starts_with('@') && h.contains(".java_")) {
                c.feed("container header", &h);
                c.call_err("BlockContainerHeader::parse", "no header", || BlockContainerHeader::parse(&h))?;
            }
            Ok(())
        }
        1 => {
            let x = match c.t.below(4) {
                0 => format!("{}{}", c.t.pick(&["g", "#", "0x", " ", "é", "-", "+", "z"]), c.t.pick(&["", "ff", "ffffff", "12345"])),
                1 => String::new(),
                2 => format!("{:x}{}", c.t.int(1 << 32, i64::MAX), ""),
                _ => format!("{}g", c.t.below(100000)),
            };
            c.feed("hex", &x);
            c.call_err("Color::parse_hex", "no hexadecimal color", || Color::parse_hex(&x))?;
            Ok(())
        }
        2 => {
            let mut v = gen(&mut c.t, schema::COMPONENT);
            v["type"] = num(if c.t.chance(1, 4) { 0 } else { c.t.int(22, 255) });
            c.feed_v("component", &v);
            let pc = v_to_component(&v);
            let e = c.call_err("ComponentKind::from_parser_component", "unknown kind", || ComponentKind::from_parser_component(&pc))?;
            let _ = e;
            Ok(())
        }
        3 => {
            let mut v = gen(&mut c.t, schema::EVENT);
            v["eventType"] = num(if c.t.chance(1, 4) { 0 } else { c.t.int(4, 255) });
            // 4 is the kind of drawer view events in newer versions; it is unknown here
            c.feed_v("event", &v);
            let pe = v_to_event(&v);
            c.call_err("Event::try_from", "unknown kind", || Event::try_from(pe))?;
            Ok(())
        }
        4 => {
            let n = 1 + c.t.count().min(20);
            let f = views::gen_forest(&mut c.t, n, &mut HashSet::new());
            let mut flat = views::emit_flat(&mut c.t, &f);
            if flat.is_empty() {
                c.trivial = true;
                return Ok(());
            }
            let i = c.t.below(flat.len() as u64) as usize;
            let id = st(&flat[i]["id"]).to_string();
            let gone = break_parent(&mut c.t, &mut flat, i);
            c.feed("layout", &V::Array(flat.clone()).to_string());
            let l = Layout(flat.iter().map(v_to_view).collect());
            match (c.call_err("parse_raw_layout", "a view without a parent", || parse_raw_layout(l))?, gone) {
                (PLE::NoParentField { view_id }, None) => c.holds(view_id == id, || format!("view {id:?} has no parent, the error says {view_id:?}")),
                (PLE::NonexistentParent { view_id, parent_id }, Some(p)) => {
                    c.holds(view_id == id && parent_id == p, || format!("the parent {p:?} of view {id:?} does not exist, the error says {view_id:?}, {parent_id:?}"))
                }
                (e, _) => viol(format!("view {id:?} has a missing parent: {e:?}")),
            }
        }
        _ => {
            let (ty, tn) = (token(&mut c.t), token(&mut c.t));
            if [" ", "b", "s", "d", "v", "p", "l", "c", "e", "f"].contains(&ty.as_str()) {
                c.trivial = true;
                return Ok(());
            }
            c.feed("type", &ty);
            c.call_err("BlockType::from", &format!("unknown type {ty:?}"), || BlockType::from(&ty, tn))?;
            Ok(())
        }
    }
}

/// takes the parent of view `i` away: `None` if it has none now, else the id that does not exist
fn break_parent(t: &mut Tape, flat: &mut [V], i: usize) -> Option<String> {
    if t.bool() {
        flat[i].as_object_mut().unwrap().remove("parent");
        return None;
    }
    let ids: HashSet<String> = flat.iter().map(|v| st(&v["id"]).to_string()).collect();
    let p = loop {
        // sometimes the id of a view that comes later, or of the view itself
        let p = match t.below(4) {
            0 => st(&flat[i]["id"]).to_string(),
            1 => t.string(),
            2 => format!("{}x", t.pick(&["root", "Root", "linear1"])),
            _ => String::new(),
        };
        if p != "root" && (!ids.contains(&p) || p == st(&flat[i]["id"])) {
            break p;
        }
    };
    flat[i]["parent"] = s(p.clone());
    Some(p)
}

pub fn refuse(c: &mut Ctx) -> R {
    match c.t.below(10) {
        0..=2 => refuse_record(c),
        3 | 4 => refuse_blocks(c, false),
        5 => refuse_spec(c),
        6 => refuse_misc(c),
        7 => {
            // a whole project with one malformed record
            let m = gen_project(&mut c.t);
            let mut texts = emit_texts(&mut c.t, &m);
            let k = c.t.below(6) as usize;
            let Some(b) = break_record(&mut c.t, k, &texts[k]) else {
                c.trivial = true;
                return Ok(());
            };
            c.feed(FILES[k], &b.text);
            texts[k] = b.text;
            let raw = raw_of(&mut c.t, texts, &m);
            let e = c.call_err("parse_from", &b.why, || Parsed::parse_from(raw))?;
            let w = super::crypto::which(&e);
            c.holds(w == FILES[k], || format!("{} in the data file {}: the error is about {w}", b.why, FILES[k]))
        }
        8 => headers(c),
        _ => api_defect(c, false),
    }
}

// ------------------------------------------------------------------ one defect in a parsed project

/// a valid project, parsed, with one defect the conversion to the API has to refuse
fn api_defect(c: &mut Ctx, located: bool) -> R {
    let m = gen_project(&mut c.t);
    let texts = emit_texts(&mut c.t, &m);
    let raw: Raw = raw_of(&mut c.t, texts, &m);
    let mut p = c.call_ok("parse_from", || Parsed::parse_from(raw))?;
    let screens = arr(&m["screens"]);
    let customs = arr(&m["customs"]);
    let auto = m["files"].is_null();
    let pick_screen = |c: &mut Ctx| if screens.is_empty() { None } else { Some(c.t.pick(screens).clone()) };
    macro_rules! skip {
        () => {{
            c.trivial = true;
            return Ok(());
        }};
    }
    let bad = |c: &mut Ctx, p: &Parsed, why: &str| -> R<ACE> {
        c.feed("defect", why);
        c.fp = crate::tape::hash_bytes(c.fp, format!("{:?}", p.project).as_bytes());
        let q = p.clone();
        c.call_err("parsed -> API", why, || Api::try_from(q))
    };
    let in_screen = |c: &mut Ctx, e: ACE, sc: &V, why: &str| -> R<SCE> {
        let name = st(&sc["file"]["fileName"]).to_string();
        match e {
            ACE::ScreenConstructionError { layout_screen_name, java_screen_name, source } => {
                if located {
                    c.says(&[&name], why)?;
                    c.holds(layout_screen_name == name && java_screen_name == java_name(&name), || format!("{why}: the error is about screen {layout_screen_name:?} / {java_screen_name:?}"))?;
                }
                Ok(source)
            }
            e => viol(format!("{why}: {e:?}")),
        }
    };
    match c.t.below(8) {
        0 => {
            let (k, item) = match c.t.below(4) {
                0 => ("firebase", &mut p.library.firebase_db),
                3 => ("compat", &mut p.library.compat),
                1 => ("admob", &mut p.library.admob),
                _ => ("google map", &mut p.library.google_map),
            };
            let x = c.t.pick(&["", "y", "n", "YES", "true", " Y", "N ", "1", "0"]).to_string();
            item.use_yn = x.clone();
            let why = format!("useYn of {k} is {x:?}");
            match bad(c, &p, &why)? {
                ACE::InvalidUseYNValue { library_name, value } => {
                    c.holds(!located || library_name == k && value == x, || format!("{why}: the error says {library_name:?}, {value:?}"))?;
                    if located { c.says(&[k, &x], &why) } else { Ok(()) }
                }
                e => viol(format!("{why}: {e:?}")),
            }
        }
        1 => {
            if customs.is_empty() {
                skip!();
            }
            let name = st(&c.t.pick(customs)["name"]).to_string();
            if c.t.bool() {
                p.view.layouts.remove(&name);
                let why = format!("the layout of the custom view {name:?} is missing");
                return match bad(c, &p, &why)? {
                    ACE::MissingCustomViewLayout { custom_view_id } => {
                        c.holds(!located || custom_view_id == name, || format!("{why}: the error says {custom_view_id:?}"))?;
                        if located { c.says(&[&name], &why) } else { Ok(()) }
                    }
                    e => viol(format!("{why}: {e:?}")),
                };
            }
            let Some(l) = p.view.layouts.get_mut(&name) else { skip!() };
            if l.0.is_empty() {
                skip!();
            }
            let mut flat: Vec<V> = l.0.iter().map(view_to_v).collect();
            let i = c.t.below(flat.len() as u64) as usize;
            break_parent(&mut c.t, &mut flat, i);
            *l = Layout(flat.iter().map(v_to_view).collect());
            let why = format!("view {} of the custom view {name:?} has no parent", flat[i]["id"]);
            match bad(c, &p, &why)? {
                ACE::CustomViewParseLayoutError { custom_view_id, .. } => {
                        c.holds(!located || custom_view_id == name, || format!("{why}: the error says {custom_view_id:?}"))?;
                        if located { c.says(&[&name], &why) } else { Ok(()) }
                    }
                e => viol(format!("{why}: {e:?}")),
            }
        }
        2 => {
            if auto {
                skip!();
            }
            let ks: Vec<&str> = sect::RES.into_iter().filter(|k| !arr(&m["res"][*k]).is_empty()).collect();
            if ks.is_empty() {
                skip!();
            }
            let k = *c.t.pick(&ks);
            let x = c.t.pick(arr(&m["res"][k])).clone();
            let rf = p.resource_files.as_mut().unwrap();
            let full = st(&x["full"]).to_string();
            let f = match k {
                "images" => rf.images.remove(&full),
                "sounds" => rf.sounds.remove(&full),
                _ => rf.fonts.remove(&full),
            };
            if let (Some(f), true) = (f, c.t.bool()) {
                // it is there, but of another kind
                let m2 = match k {
                    "images" => &mut rf.sounds,
                    _ => &mut rf.images,
                };
                m2.entry(full.clone()).or_insert(f);
            }
            let why = format!("the file {full:?} of the {k} resource {} is missing", x["name"]);
            match bad(c, &p, &why)? {
                ACE::MissingResourceFile { res_name, res_full_name, res_type: rt } => {
                    c.holds(!located || res_name == st(&x["name"]) && res_full_name == full && rt == res_type(k), || format!("{why}: the error says {res_name:?}, {res_full_name:?}, {rt:?}"))?;
                    if located { c.says(&[&res_name], &why) } else { Ok(()) }
                }
                e => viol(format!("{why}: {e:?}")),
            }
        }
        3 => {
            let Some(sc) = pick_screen(c) else { skip!() };
            let name = st(&sc["file"]["fileName"]).to_string();
            let Some(l) = p.view.layouts.get_mut(&name) else { skip!() };
            if l.0.is_empty() {
                skip!();
            }
            let mut flat: Vec<V> = l.0.iter().map(view_to_v).collect();
            let i = c.t.below(flat.len() as u64) as usize;
            break_parent(&mut c.t, &mut flat, i);
            *l = Layout(flat.iter().map(v_to_view).collect());
            let id = st(&flat[i]["id"]).to_string();
            let why = format!("view {id:?} of screen {name:?} has no parent");
            let e = bad(c, &p, &why)?;
            match in_screen(c, e, &sc, &why)? {
                SCE::LayoutParseError(PLE::NoParentField { view_id }) | SCE::LayoutParseError(PLE::NonexistentParent { view_id, .. }) => {
                    c.holds(!located || view_id == id, || format!("{why}: the error says {view_id:?}"))
                }
                e => viol(format!("{why}: {e:?}")),
            }
        }
        k => {
            let Some(sc) = pick_screen(c) else { skip!() };
            let name = st(&sc["file"]["fileName"]).to_string();
            let Some(l) = p.logic.screens.get_mut(&java_name(&name)) else { skip!() };
            match k {
                4 => {
                    let Some(pool) = &mut l.components else { skip!() };
                    if pool.0.is_empty() {
                        skip!();
                    }
                    let i = c.t.below(pool.0.len() as u64) as usize;
                    let ty = if c.t.bool() { 0 } else { c.t.int(22, 255) as u8 };
                    pool.0[i].r#type = ty;
                    let id = pool.0[i].id.clone();
                    let why = format!("a component of screen {name:?} has the unknown type {ty}");
                    let e = bad(c, &p, &why)?;
                    match in_screen(c, e, &sc, &why)? {
                        SCE::UnknownComponentType(x) => {
                            c.holds(!located || x.component_type == ty && x.component_id == id, || format!("{why}: the error says {x:?}"))?;
                            if located { c.says(&[&id, &ty.to_string()], &why) } else { Ok(()) }
                        }
                        e => viol(format!("{why}: {e:?}")),
                    }
                }
                5 => {
                    let Some(pool) = &mut l.events else { skip!() };
                    if pool.0.is_empty() {
                        skip!();
                    }
                    let i = c.t.below(pool.0.len() as u64) as usize;
                    let ty = if c.t.bool() { 0 } else { c.t.int(4, 255) as u8 };
                    pool.0[i].event_type = ty;
                    let ev = pool.0[i].event_name.clone();
                    let why = format!("an event of screen {name:?} has the unknown type {ty}");
                    let e = bad(c, &p, &why)?;
                    match in_screen(c, e, &sc, &why)? {
                        SCE::UnknownEventType(x) => {
                            c.holds(!located || x.event_type == ty && x.event_name == ev, || format!("{why}: the error says {x:?}"))?;
                            if located { c.says(&[&ev, &ty.to_string()], &why) } else { Ok(()) }
                        }
                        e => viol(format!("{why}: {e:?}")),
                    }
                }
                6 => {
                    let Some(pool) = &mut l.more_blocks else { skip!() };
                    let ids: Vec<String> = pool.0.keys().cloned().collect();
                    if ids.is_empty() {
                        skip!();
                    }
                    let id = c.t.pick(&ids).clone();
                    let w = *c.t.pick(&["%x", "%q.name", "%%", "%é", "%m"]);
                    let f = pool.0.get_mut(&id).unwrap();
                    f.spec = format!("{} {w}", f.spec);
                    let why = format!("the spec of the more block {id:?} has the unknown parameter {w:?}");
                    let e = bad(c, &p, &why)?;
                    match in_screen(c, e, &sc, &why)? {
                        SCE::MoreBlockSpecParseError { moreblock_id, .. } => {
                            c.holds(!located || moreblock_id == id, || format!("{why}: the error says {moreblock_id:?}"))?;
                            if located { c.says(&[&id], &why) } else { Ok(()) }
                        }
                        e => viol(format!("{why}: {e:?}")),
                    }
                }
                _ => {
                    let names: Vec<String> = l.block_containers.iter().filter(|(_, b)| !b.0.is_empty()).map(|x| x.0.clone()).collect();
                    if names.is_empty() {
                        skip!();
                    }
                    let cn = c.t.pick(&names).clone();
                    let bc = l.block_containers.get_mut(&cn).unwrap();
                    let mut list: Vec<V> = bc.0.iter().map(block_to_v).collect();
                    let Some((w, want)) = break_blocks(&mut c.t, &mut list) else { skip!() };
                    *bc = BlockContainer(list.iter().map(v_to_block).collect());
                    let why = format!("{w} in the container {cn:?} of screen {name:?}");
                    let e = bad(c, &p, &why)?;
                    match in_screen(c, e, &sc, &why)? {
                        SCE::BlocksParseError { container_name, source } => {
                            c.holds(!located || container_name == cn, || format!("{why}: the error says {container_name:?}"))?;
                            if located {
                                c.says(&[&cn], &why)?;
                            }
                            if located { names_block(c, source, &want, &list, &why) } else { Ok(()) }
                        }
                        e => viol(format!("{why}: {e:?}")),
                    }
                }
            }
        }
    }
}
