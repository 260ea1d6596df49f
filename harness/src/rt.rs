//! Monitor runtime: the context of one monitored execution (case), the wrapper around every call into
//! swrs, and the verdict type.
use crate::schema::diff;
use crate::tape::{hash_bytes, Tape};
use serde_json::Value as V;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

/// an observed violation
#[derive(Debug, Clone)]
pub struct Viol {
    pub msg: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(msg: impl Into<String>) -> R<T> {
    Err(Viol { msg: msg.into() })
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub struct Ctx {
    pub t: Tape,
    pub case: u64,
    pub corner: Option<u64>,
    pub thorough: bool,
    /// events observed by the monitors of this thread
    pub ev: BTreeMap<&'static str, u64>,
    pub fp: u64,
    pub trivial: bool,
    /// what the last error that had to occur says, with its causes
    pub said: String,
    pub record: bool,
    pub arts: Vec<(String, String)>,
    pub known: BTreeSet<String>,
    pub scratch: PathBuf,
    pub bytes: u64,
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n { format!("{}…", s.chars().take(n).collect::<String>()) } else { s.to_string() }
}

/// the text of an error and its causes
pub fn chain(e: &dyn std::error::Error) -> String {
    let mut out = e.to_string();
    let mut at = e.source();
    while let Some(x) = at {
        out.push_str(": ");
        out.push_str(&x.to_string());
        at = x.source();
    }
    out
}

impl Ctx {
    pub fn count(&mut self, k: &'static str) {
        *self.ev.entry(k).or_insert(0) += 1;
    }

    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.ev.entry(k).or_insert(0) += n;
    }

    /// an input handed to the code under test: fingerprinted, and written out when recording
    pub fn feed(&mut self, name: &str, text: &str) {
        self.fp = hash_bytes(self.fp, name.as_bytes());
        self.fp = hash_bytes(self.fp, text.as_bytes());
        self.bytes += text.len() as u64;
        if self.record {
            self.arts.push((name.to_string(), text.to_string()));
        }
    }

    pub fn feed_v(&mut self, name: &str, v: &V) {
        let s = v.to_string();
        self.feed(name, &s);
    }

    pub fn note(&mut self, name: &str, text: impl FnOnce() -> String) {
        if self.record {
            self.arts.push((name.to_string(), text()));
        }
    }

    /// one call into swrs: counted, and a panic is a violation
    pub fn call<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> R<T> {
        self.count(op);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => viol(format!("{op} panicked: {}", last_panic())),
        }
    }

    /// like `call`, for an operation that has to succeed
    pub fn call_ok<T, E: std::fmt::Debug>(&mut self, op: &'static str, f: impl FnOnce() -> Result<T, E>) -> R<T> {
        match self.call(op, f)? {
            Ok(v) => Ok(v),
            Err(e) => viol(format!("{op} refused what it has to accept: {}", clip(&format!("{e:?}"), 600))),
        }
    }

    /// like `call`, for an operation that has to fail
    pub fn call_err<T: std::fmt::Debug, E: std::error::Error>(&mut self, op: &'static str, why: &str, f: impl FnOnce() -> Result<T, E>) -> R<E> {
        match self.call(op, f)? {
            Err(e) => {
                self.said = self.call("Display of the error", || chain(&e))?;
                Ok(e)
            }
            Ok(v) => viol(format!("{op} accepted what it has to refuse ({why}) and returned {}", clip(&format!("{v:?}"), 600))),
        }
    }

    /// the text of the last error and its causes has to contain all of these
    pub fn says(&mut self, what: &[&str], why: &str) -> R {
        self.count("error texts");
        match what.iter().find(|w| !self.said.contains(**w)) {
            None => Ok(()),
            Some(w) => viol(format!("{why}: the text of the error, {:?}, does not say {w:?}", clip(&self.said, 600))),
        }
    }

    pub fn same(&mut self, what: &str, expected: &V, got: &V) -> R {
        self.count("comparisons");
        match diff(expected, got) {
            None => Ok(()),
            Some(d) => viol(format!("{what}: {d}")),
        }
    }

    pub fn holds(&mut self, cond: bool, msg: impl FnOnce() -> String) -> R {
        self.count("assertions");
        if cond { Ok(()) } else { viol(msg()) }
    }
}
