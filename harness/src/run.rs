//! Supervisor and worker: a check runs its cases in a child process, so that an abort, a stack
//! overflow or a hang of the code under test is an observation as well, not the end of the monitor.
use crate::alloc;
use crate::dict::{self, Dict};
use crate::props::{self, Prop};
use crate::rt::{clip, install_panic_hook, last_panic, Ctx, Viol};
use crate::tape::{hash_bytes, splitmix, Tape};
use serde_json::{json, Value as V};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const STACK: usize = 16 << 20;
/// instrumented code needs more stack and more time
const SAN_STACK: usize = 256 << 20;

/// the sanitizer this worker is built with, if it is
fn san() -> Option<String> {
    std::env::var("VERIF_SAN").ok().filter(|x| !x.is_empty())
}

fn stack_size() -> usize {
    if san().is_some() { SAN_STACK } else { STACK }
}
/// bytes one thread may hold during one case
const CASE_MEM: i64 = 3 << 30;
/// CPU seconds after which a case (typically milliseconds) counts as not terminating
const HANG_S: i64 = 100;
const CONFIRM_CPU_S: u64 = 150;
const EXIT_HANG: i32 = 77;

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

/// ends this process when it takes more CPU time or memory
pub fn limit_process(cpu_s: u64, bytes: u64) {
    unsafe {
        setrlimit(0, &[cpu_s, cpu_s + 5]);
        setrlimit(9, &[bytes, bytes]);
    }
}

fn cpu_ms(clock: i32) -> i64 {
    let mut ts = [0i64; 2];
    unsafe {
        if clock_gettime(clock, &mut ts) != 0 {
            return -1;
        }
    }
    ts[0] * 1000 + ts[1] / 1_000_000
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from("/repo")
}

pub fn the_dict() -> &'static Dict {
    use std::sync::OnceLock;
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| dict::harvest(&repo_dir()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough")
}

fn find(id: &str) -> Option<&'static Prop> {
    props::ALL.iter().find(|p| p.id == id)
}

fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    let mut s = seed ^ hash_bytes(0, id.as_bytes());
    let a = splitmix(&mut s);
    let mut s2 = a ^ case.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut s2)
}

pub enum Out {
    Held,
    Violated(Viol),
    Harness(String),
}

fn make_ctx(p: &Prop, seed: u64, case: u64, thorough: bool, scratch: &Path) -> Ctx {
    let mut t = Tape::new(case_seed(seed, p.id, case), the_dict());
    t.size = *[4u64, 8, 8, 8, 12, 20].get((splitmix(&mut case_seed(seed, p.id, case)) % 6) as usize).unwrap();
    Ctx {
        t,
        case,
        corner: if case < p.ncorner { Some(case) } else { None },
        thorough,
        ev: BTreeMap::new(),
        fp: 0,
        trivial: false,
        said: String::new(),
        record: false,
        arts: vec![],
        known: BTreeSet::new(),
        scratch: scratch.to_path_buf(),
        bytes: 0,
    }
}

pub fn run_case(p: &Prop, c: &mut Ctx) -> Out {
    alloc::set_cap(Some(CASE_MEM));
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(c)));
    alloc::set_cap(None);
    match r {
        Ok(Ok(())) => Out::Held,
        Ok(Err(v)) => Out::Violated(v),
        Err(_) => Out::Harness(last_panic()),
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(stack_size()).spawn(f).unwrap().join().expect("case thread")
}

struct Slot {
    clock: i32,
    case: AtomicU64,
    started_ms: AtomicI64,
}

/// worker <id> <seed> <tier> <dir> [case]
pub fn worker(a: &[String]) -> i32 {
    install_panic_hook();
    let p: &'static Prop = find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let dir = PathBuf::from(&a[3]);
    if let Some(case) = a.get(4) {
        let case: u64 = case.parse().unwrap();
        unsafe {
            let s = if san().is_some() { 4 * CONFIRM_CPU_S } else { CONFIRM_CPU_S };
            setrlimit(0, &[s, s + 5]);
        }
        let scratch = dir.join("single");
        let _ = std::fs::create_dir_all(&scratch);
        let (out, c) = on_big_stack(move || {
            let mut c = make_ctx(p, seed, case, thorough, &scratch);
            c.record = true;
            let o = run_case(p, &mut c);
            (o, c)
        });
        let v = match out {
            Out::Held => json!({"verdict": "held"}),
            Out::Violated(v) => json!({"verdict": "violated", "msg": v.msg}),
            Out::Harness(m) => json!({"verdict": "harness", "msg": m}),
        };
        let arts: Vec<V> = c.arts.iter().map(|(k, x)| json!({"name": k, "content": clip(x, 20000)})).collect();
        let r = json!({"result": v, "artifacts": arts, "known": c.known, "events": c.ev});
        std::fs::write(dir.join("single.json"), r.to_string()).unwrap();
        return 0;
    }
    let total = p.ncorner + if thorough { p.thorough } else { p.quick };
    let san = san();
    let dflt = match (&san, thorough) {
        (None, true) => 600,
        (None, false) => 100,
        (_, true) => 200,
        (_, false) => 25,
    };
    let cap = Duration::from_secs(std::env::var("VERIF_CAP_S").ok().and_then(|x| x.parse().ok()).unwrap_or(dflt));
    let hang_s = if san.is_some() { 4 * HANG_S } else { HANG_S };
    let t0 = Instant::now();
    let n = std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()).min(8));
    // under a sanitizer the corner cases (sizes and depths) are left out
    let next = AtomicU64::new(if san.is_some() { p.ncorner } else { 0 });
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let cur = std::fs::File::create(dir.join("current")).unwrap();
    let slots: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
    struct Acc {
        evals: u64,
        trivial: u64,
        bytes: u64,
        fps: HashSet<u64>,
        ev: BTreeMap<&'static str, u64>,
        viols: Vec<(u64, String)>,
        harness: Vec<(u64, String)>,
        known: BTreeSet<String>,
    }
    let acc = Mutex::new(Acc { evals: 0, trivial: 0, bytes: 0, fps: HashSet::new(), ev: BTreeMap::new(), viols: vec![], harness: vec![], known: BTreeSet::new() });
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for th in 0..n {
            let (next, stop, acc, cur, slots, dir) = (&next, &stop, &acc, &cur, &slots, &dir);
            let h = std::thread::Builder::new()
                .stack_size(stack_size())
                .spawn_scoped(sc, move || {
                    let mut clock = 0;
                    unsafe {
                        pthread_getcpuclockid(pthread_self(), &mut clock);
                    }
                    let slot = std::sync::Arc::new(Slot { clock, case: AtomicU64::new(u64::MAX), started_ms: AtomicI64::new(0) });
                    slots.lock().unwrap().push(slot.clone());
                    let scratch = dir.join(format!("t{th}"));
                    let _ = std::fs::create_dir_all(&scratch);
                    let (mut fps, mut ev, mut evals, mut trivial, mut bytes) = (HashSet::new(), BTreeMap::<&'static str, u64>::new(), 0u64, 0u64, 0u64);
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let case = next.fetch_add(1, Relaxed);
                        // corner cases are always run, the rest as far as the time goes
                        if case >= total || (case >= p.ncorner && t0.elapsed() > cap) {
                            break;
                        }
                        let _ = cur.write_at(&(case + 1).to_le_bytes(), th as u64 * 8);
                        slot.started_ms.store(cpu_ms(clock), Relaxed);
                        slot.case.store(case, Release);
                        let mut c = make_ctx(p, seed, case, thorough, &scratch);
                        std::mem::swap(&mut c.ev, &mut ev);
                        let out = run_case(p, &mut c);
                        slot.case.store(u64::MAX, Release);
                        evals += 1;
                        bytes += c.bytes;
                        if c.trivial { trivial += 1 } else { fps.insert(c.fp); }
                        std::mem::swap(&mut c.ev, &mut ev);
                        if !c.known.is_empty() {
                            acc.lock().unwrap().known.append(&mut c.known);
                        }
                        match out {
                            Out::Held => {}
                            Out::Violated(v) => {
                                acc.lock().unwrap().viols.push((case, v.msg));
                                stop.store(true, Relaxed);
                            }
                            Out::Harness(m) => {
                                acc.lock().unwrap().harness.push((case, m));
                                stop.store(true, Relaxed);
                            }
                        }
                    }
                    let _ = cur.write_at(&0u64.to_le_bytes(), th as u64 * 8);
                    let mut a = acc.lock().unwrap();
                    a.evals += evals;
                    a.trivial += trivial;
                    a.bytes += bytes;
                    a.fps.extend(fps);
                    for (k, v) in ev {
                        *a.ev.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
            hs.push(h);
        }
        let (slots, done, dir) = (&slots, &done, &dir);
        sc.spawn(move || {
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for s in slots.lock().unwrap().iter() {
                    let case = s.case.load(Acquire);
                    if case == u64::MAX {
                        continue;
                    }
                    let used = cpu_ms(s.clock) - s.started_ms.load(Relaxed);
                    if used > hang_s * 1000 && s.case.load(Acquire) == case {
                        let _ = std::fs::write(dir.join("hang"), case.to_string());
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Relaxed);
    });
    let a = acc.into_inner().unwrap();
    let mut viols = a.viols;
    viols.sort();
    let r = json!({
        "evaluations": a.evals, "trivial": a.trivial, "distinct": a.fps.len(), "bytes": a.bytes, "events": a.ev,
        "violations": viols.iter().map(|(c, m)| json!({"case": c, "msg": clip(m, 4000)})).collect::<Vec<_>>(),
        "harness": a.harness.iter().map(|(c, m)| json!({"case": c, "msg": clip(m, 4000)})).collect::<Vec<_>>(),
        "known": a.known, "threads": n, "planned": total, "wall_s": t0.elapsed().as_secs_f64(),
        "dict": {"strings": the_dict().strs.len(), "ints": the_dict().ints.len(), "files": the_dict().files},
    });
    std::fs::write(dir.join("result.json"), r.to_string()).unwrap();
    0
}

enum Single {
    Held,
    Violated(String, V),
    Harness(String),
    Crashed(String),
}

/// a build of the monitors: the plain one or one with a sanitizer
struct Build {
    exe: PathBuf,
    san: Option<String>,
}

impl Build {
    fn plain() -> Build {
        Build { exe: std::env::current_exe().unwrap(), san: None }
    }

    /// what check.sh has built besides, as <sanitizer>=<executable>
    fn sanitized() -> Option<Build> {
        let v = std::env::var("VERIF_SAN_BUILD").ok()?;
        let (n, e) = v.split_once('=')?;
        Some(Build { exe: e.into(), san: Some(n.into()) })
    }

    fn worker(&self, id: &str, seed: u64, tier: &str, dir: &Path) -> std::process::Command {
        let mut c = std::process::Command::new(&self.exe);
        c.args(["worker", id, &seed.to_string(), tier, dir.to_str().unwrap()]);
        c.env_remove("VERIF_SAN");
        if let Some(n) = &self.san {
            c.env("VERIF_SAN", n);
            c.env("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:symbolize=1");
            c.env("TSAN_OPTIONS", "abort_on_error=1:halt_on_error=1:report_signal_unsafe=0");
        }
        c
    }
}

fn run_single(b: &Build, id: &str, seed: u64, tier: &str, dir: &Path, case: u64) -> Single {
    let out = dir.join("single.json");
    let _ = std::fs::remove_file(&out);
    let o = b.worker(id, seed, tier, dir).arg(case.to_string()).output().expect("spawn");
    let err = clip(&String::from_utf8_lossy(&o.stderr), 2000);
    if let Some(s) = o.status.signal() {
        return match s {
            6 | 11 | 4 | 7 | 8 => Single::Crashed(format!("the process died of signal {s}: {err}")),
            24 => Single::Crashed(format!("did not finish within {CONFIRM_CPU_S} s of CPU time")),
            _ => Single::Harness(format!("killed by signal {s}")),
        };
    }
    let Ok(t) = std::fs::read_to_string(&out) else { return Single::Harness(format!("no result, exit {:?}: {err}", o.status.code())) };
    let v: V = serde_json::from_str(&t).unwrap();
    match v["result"]["verdict"].as_str().unwrap() {
        "held" => Single::Held,
        "violated" => Single::Violated(v["result"]["msg"].as_str().unwrap().to_string(), v["artifacts"].clone()),
        _ => Single::Harness(v["result"]["msg"].as_str().unwrap().to_string()),
    }
}

/// findings recorded in known_findings.txt: `finding: property=<id> key=<key> <text>`
fn known_findings(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) else { continue };
            let (k, text) = r.split_once(' ').unwrap_or((r, ""));
            m.insert(k.to_string(), text.to_string());
        }
    }
    m
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Observed {
    result: V,
    confirmed: Vec<(u64, String, V)>,
    errors: Vec<String>,
}

/// one run of a property's workload, with what it showed confirmed
fn observe(b: &Build, id: &str, seed: u64, tier: &str, dir: &Path) -> Observed {
    let o = b.worker(id, seed, tier, dir).output().expect("spawn worker");
    let stderr = String::from_utf8_lossy(&o.stderr).to_string();
    let result: V = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(V::Null);

    let mut confirmed: Vec<(u64, String, V)> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut candidates: Vec<(u64, String)> = vec![];
    if result.is_null() {
        let why = format!("worker ended with {:?} (signal {:?}): {}", o.status.code(), o.status.signal(), clip(&stderr, 1500));
        if let Ok(h) = std::fs::read_to_string(dir.join("hang")) {
            candidates.push((h.trim().parse().unwrap(), "does not terminate".into()));
        } else if let Ok(b) = std::fs::read(dir.join("current")) {
            for ch in b.chunks_exact(8) {
                let c = u64::from_le_bytes(ch.try_into().unwrap());
                if c > 0 {
                    candidates.push((c - 1, why.clone()));
                }
            }
        }
        candidates.sort();
        if candidates.is_empty() {
            errors.push(why);
        }
    } else {
        for v in result["violations"].as_array().unwrap() {
            candidates.push((v["case"].as_u64().unwrap(), v["msg"].as_str().unwrap().to_string()));
        }
        for v in result["harness"].as_array().unwrap() {
            errors.push(format!("harness error in case {}: {}", v["case"], v["msg"]));
        }
    }
    candidates.truncate(16);
    for (case, msg) in &candidates {
        match run_single(b, id, seed, tier, dir, *case) {
            Single::Violated(m, arts) => confirmed.push((*case, m, arts)),
            Single::Crashed(m) => confirmed.push((*case, m, json!([]))),
            Single::Held => errors.push(format!("case {case} did not reproduce alone: {msg}")),
            Single::Harness(m) => errors.push(format!("case {case}: {m}")),
        }
        if !confirmed.is_empty() {
            break;
        }
    }
    // a violation that was observed by the monitors themselves stands even if it does not come back
    // alone (it may need the concurrent load), provided it was not a crash without attribution
    if confirmed.is_empty() && !result.is_null() && !candidates.is_empty() {
        let (c, m) = candidates[0].clone();
        confirmed.push((c, format!("{m} (observed under the concurrent workload, not in isolation)"), json!([])));
        errors.clear();
    }
    Observed { result, confirmed, errors }
}

pub fn check(id: &str) -> i32 {
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let (seed, thorough) = (seed(), thorough());
    let tier = if thorough { "thorough" } else { "quick" };
    let vd = verif_dir();
    let sdir = Scratch(vd.join("scratch").join(format!("{id}-{}", std::process::id())));
    let dir = sdir.0.clone();
    let _ = std::fs::create_dir_all(&dir);
    let ev_dir = vd.join("evidence");
    let _ = std::fs::create_dir_all(ev_dir.join("replay"));
    let known = known_findings(id);

    let plain = Build::plain();
    let mut o = observe(&plain, id, seed, tier, &dir);
    let mut san_ev = V::Null;
    if let (true, true, Some(b)) = (o.confirmed.is_empty(), o.errors.is_empty(), Build::sanitized()) {
        let sub = dir.join("san");
        let _ = std::fs::create_dir_all(&sub);
        // other cases than in the plain run
        let x = observe(&b, id, seed ^ 0x5a5a_0000, tier, &sub);
        let n = b.san.clone().unwrap();
        san_ev = json!({"sanitizer": n, "evaluations": x.result["evaluations"], "distinct": x.result["distinct"], "input_bytes": x.result["bytes"], "monitor_events": x.result["events"], "wall_s": x.result["wall_s"]});
        o.errors.extend(x.errors.into_iter().map(|e| format!("under the {n} sanitizer: {e}")));
        o.confirmed.extend(x.confirmed.into_iter().map(|(c, m, a)| (c, format!("under the {n} sanitizer: {m}"), a)));
    }
    let Observed { result, mut confirmed, mut errors } = o;

    let mut printed_known = vec![];
    for k in result["known"].as_array().cloned().unwrap_or_default() {
        let k = k.as_str().unwrap().to_string();
        match known.get(&k) {
            Some(text) => {
                println!("KNOWN-FINDING: property={id} {k}: {text}");
                printed_known.push(k);
            }
            None => confirmed.push((u64::MAX, format!("defect {k} observed, which is not listed in known_findings.txt"), json!([]))),
        }
    }

    for (case, msg, arts) in &confirmed {
        let path = ev_dir.join("replay").join(format!("{id}-{seed}-{case}.json"));
        let r = json!({"property": id, "seed": seed, "tier": tier, "case": case, "sanitizer": msg.starts_with("under the "), "violation": msg, "artifacts": arts,
            "how": "swrs-monitor replay <this file> re-runs the case against the current tree (for a sanitizer report set VERIF_SAN_BUILD=<sanitizer>=<executable>, see check.sh)"});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
        println!("{}", clip(msg, 1500));
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let evals = result["evaluations"].as_u64().unwrap_or(0);
    let distinct = result["distinct"].as_u64().unwrap_or(0);
    // samples: a few cases written out
    let mut samples = vec![];
    if !result.is_null() {
        for case in [p.ncorner, p.ncorner + 1, 0] {
            if samples.len() < 2 && case < p.ncorner + p.quick {
                let _ = run_single(&plain, id, seed, tier, &dir, case);
                if let Some(v) = std::fs::read_to_string(dir.join("single.json")).ok().and_then(|t| serde_json::from_str::<V>(&t).ok()) {
                    let arts: Vec<V> = v["artifacts"].as_array().unwrap().iter().take(6).map(|a| json!({"name": a["name"], "content": clip(a["content"].as_str().unwrap(), 600)})).collect();
                    samples.push(json!({"case": case, "verdict": v["result"]["verdict"], "inputs": arts, "events": v["events"]}));
                }
            }
        }
    }
    if !result.is_null() && confirmed.is_empty() && errors.is_empty() && (distinct < 2 || evals < p.ncorner.min(2)) {
        errors.push(format!("observed too little: {evals} cases, {distinct} distinct"));
    }
    let evd = json!({
        "property": id, "tier": tier, "seed": seed as i64, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": p.rule, "samples": samples,
            "monitor_events": result["events"], "corner_cases": p.ncorner.min(evals), "planned": result["planned"], "input_bytes": result["bytes"], "trivial_cases": result["trivial"],
            "threads": result["threads"], "dictionary": result["dict"], "known_findings_observed": printed_known, "sanitizer_run": san_ev, "errors": errors,
        },
        "assumptions": ["the verdict is about the executions of this run only", "inputs stay within the domain stated in /verif/DESIGN.md for this property"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": confirmed.len(),
    });
    std::fs::write(ev_dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evd).unwrap()).unwrap();
    if !confirmed.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("INCONCLUSIVE property={id} {}", clip(e, 1500));
        }
        return 2;
    }
    println!("held property={id} cases={evals} distinct={distinct} seed={seed} tier={tier} wall={:.1}s", t0.elapsed().as_secs_f64());
    0
}

pub fn replay(file: &str) -> i32 {
    let v: V = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let id = v["property"].as_str().unwrap();
    let sdir = Scratch(verif_dir().join("scratch").join(format!("replay-{}", std::process::id())));
    let _ = std::fs::create_dir_all(&sdir.0);
    let seed = v["seed"].as_u64().unwrap();
    let (b, seed) = match (v["sanitizer"] == json!(true), Build::sanitized()) {
        (true, Some(b)) => (b, seed ^ 0x5a5a_0000),
        (true, None) => (Build::plain(), seed ^ 0x5a5a_0000),
        _ => (Build::plain(), seed),
    };
    match run_single(&b, id, seed, v["tier"].as_str().unwrap(), &sdir.0, v["case"].as_u64().unwrap()) {
        Single::Violated(m, _) | Single::Crashed(m) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            1
        }
        Single::Held => {
            println!("held");
            0
        }
        Single::Harness(m) => {
            println!("INCONCLUSIVE {m}");
            2
        }
    }
}
