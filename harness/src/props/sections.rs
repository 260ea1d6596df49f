//! C03..C08: one data file at a time. Every case makes a model, spells it in one of the equivalent
//! ways, and follows it through parse, reconstruct and parse again; a second, independent model is
//! built as a swrs object by hand and written.
use crate::conv::*;
use crate::rt::{viol, Ctx, R};
use crate::schema::{self, emit, gen, Style};
use crate::sect::*;
use crate::tape::Tape;
use serde_json::{json, Value as V};
use swrs::parser::file::File;
use swrs::parser::library::Library;
use swrs::parser::logic::Logic;
use swrs::parser::project::Project;
use swrs::parser::resource::Resource;
use swrs::parser::view::View;
use swrs::parser::Parsable;

pub const RULE: &str = "seeded random models of the data file (names, numbers and counts biased to boundaries and to the literals of the code under test), \
emitted in random equivalent spellings (member order, spacing, escapes, unknown members, section order), followed through parse, reconstruct, reparse, plus a second \
model written from an object made by hand; cases are distinct if the texts fed differ";

struct Kind<T> {
    emit: fn(&mut Tape, &V) -> String,
    read: fn(&str) -> Result<V, String>,
    obs: fn(&T) -> V,
    build: fn(&mut Tape, &V) -> T,
    /// what the observation of the model looks like
    expect: fn(&V) -> V,
    /// equality of two objects (for logic data, the order of the screens says nothing)
    eq: fn(&T, &T) -> bool,
}

fn plain<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn cycle<T>(c: &mut Ctx, k: Kind<T>, m: &V, m2: &V) -> R
where
    T: Parsable + PartialEq + std::fmt::Debug + Clone,
    T::ParseError: std::fmt::Debug,
    T::ReconstructionError: std::fmt::Debug,
{
    let text = (k.emit)(&mut c.t, m);
    c.feed("text", &text);
    let want = (k.expect)(m);
    let parsed = c.call_ok("parse", || T::parse(&text))?;
    c.same("parsed from the text", &want, &(k.obs)(&parsed))?;
    let before = parsed.clone();
    let out = c.call_ok("reconstruct", || parsed.reconstruct())?;
    c.holds(before == parsed, || "reconstruct changed the object".into())?;
    c.note("reconstructed", || out.clone());
    match (k.read)(&out) {
        Ok(v) => c.same("text written for the parsed object", m, &v)?,
        Err(e) => return viol(format!("the text written is not a valid file: {e}")),
    }
    let again = c.call_ok("reparse", || T::parse(&out))?;
    c.same("parsed again from its own output", &want, &(k.obs)(&again))?;
    c.holds((k.eq)(&again, &parsed), || "the object parsed again differs from the first one".into())?;
    let out2 = c.call_ok("reconstruct", || again.reconstruct())?;
    match (k.read)(&out2) {
        Ok(v) => c.same("text written the second time", m, &v)?,
        Err(e) => return viol(format!("the text written the second time is not a valid file: {e}")),
    }

    // an object made by hand
    let obj = (k.build)(&mut c.t, m2);
    c.note("object", || format!("{obj:?}"));
    let w = c.call_ok("reconstruct", || obj.reconstruct())?;
    c.feed("written", &w);
    match (k.read)(&w) {
        Ok(v) => c.same("text written for an object made by hand", m2, &v)?,
        Err(e) => return viol(format!("the text written for an object made by hand is not a valid file: {e}")),
    }
    let p = c.call_ok("parse", || T::parse(&w))?;
    c.same("an object made by hand, written and parsed", &(k.expect)(m2), &(k.obs)(&p))?;
    c.holds((k.eq)(&p, &obj), || "an object made by hand differs after writing and parsing".into())
}

fn id(v: &V) -> V {
    v.clone()
}

pub fn project(c: &mut Ctx) -> R {
    let m = gen(&mut c.t, schema::PROJECT);
    let m2 = gen(&mut c.t, schema::PROJECT);
    let k = Kind::<Project> {
        emit: |t, m| {
            let st = Style::gen(t);
            emit(m, t, st)
        },
        read: |x| serde_json::from_str(x).map_err(|e| e.to_string()),
        obs: project_to_v,
        build: |_, m| v_to_project(m),
        expect: project_obs,
        eq: plain,
    };
    cycle(c, k, &m, &m2)
}

fn corner_lists(c: &mut Ctx, m: &mut V, ks: &[&str]) {
    // which lists are empty
    if let Some(i) = c.corner {
        for (b, k) in ks.iter().enumerate() {
            if i >> b & 1 == 0 {
                m[*k] = json!([]);
            }
        }
    }
}

pub fn file(c: &mut Ctx) -> R {
    let mut m = gen_file(&mut c.t);
    corner_lists(c, &mut m, &["activity", "customview"]);
    let mut m2 = gen_file(&mut c.t);
    corner_lists(c, &mut m2, &["activity", "customview"]);
    cycle(c, Kind::<File> { emit: emit_file, read: read_file, obs: file_obs, build: |_, m| file_build(m), expect: id, eq: plain }, &m, &m2)
}

pub fn library(c: &mut Ctx) -> R {
    let m = gen_library(&mut c.t);
    let m2 = gen_library(&mut c.t);
    cycle(c, Kind::<Library> { emit: emit_library, read: read_library, obs: library_obs, build: |_, m| library_build(m), expect: id, eq: plain }, &m, &m2)
}

pub fn resource(c: &mut Ctx) -> R {
    let mut m = gen_resource(&mut c.t);
    corner_lists(c, &mut m, &RES);
    let mut m2 = gen_resource(&mut c.t);
    corner_lists(c, &mut m2, &RES);
    cycle(c, Kind::<Resource> { emit: emit_resource, read: read_resource, obs: resource_obs, build: |_, m| resource_build(m), expect: id, eq: plain }, &m, &m2)
}

pub fn view(c: &mut Ctx) -> R {
    let mut m = gen_view_file(&mut c.t);
    corner_lists(c, &mut m, &["layouts", "fabs"]);
    let mut m2 = gen_view_file(&mut c.t);
    corner_lists(c, &mut m2, &["fabs", "layouts"]);
    cycle(c, Kind::<View> { emit: emit_view_file, read: read_view_file, obs: view_file_obs, build: |_, m| view_file_build(m), expect: id, eq: plain }, &m, &m2)
}

pub fn logic(c: &mut Ctx) -> R {
    let m = gen_logic(&mut c.t);
    let m2 = gen_logic(&mut c.t);
    cycle(c, Kind::<Logic> { emit: emit_logic, read: read_logic, obs: logic_obs, build: logic_build, expect: id, eq: |a, b| logic_obs(a) == logic_obs(b) }, &m, &m2)
}
