//! Runs cases, counts them, keeps violations.

use crate::sys::Journal;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

static JOURNAL: OnceLock<Journal> = OnceLock::new();

pub fn set_journal(j: Journal) {
    let _ = JOURNAL.set(j);
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{}{}", m, loc);
        if let Ok(mut a) = ANY_PANIC.try_lock() {
            *a = m.clone();
        }
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn last_panic_anywhere() -> String {
    ANY_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs library code; Err is the message of a panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let j = JOURNAL.get();
    if let Some(j) = j {
        j.enter();
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Some(j) = j {
        j.leave();
    }
    r.map_err(|_| last_panic())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Outcome of one case
pub enum V {
    /// property held; the number tells outcome classes apart
    Ok(u32),
    /// known finding
    Known(&'static str),
    /// not a case for this property (precondition not met)
    Skip,
    Bad(String),
}

pub type Eval = fn(kind: &str, args: &[&str]) -> V;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub args: Vec<String>,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub skipped: u64,
    pub known: Vec<(String, u64)>,
    pub classes: Vec<u64>,
    pub states: u64,
    pub transitions: u64,
    pub samples: Vec<String>,
    pub groups: Vec<(String, u64)>,
}

pub struct Ctx {
    pub tier: Tier,
    pub shard: u64,
    pub shards: u64,
    pub eval: Eval,
    pub n: u64,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub stop: bool,
    /// when the first violation was met
    first: Option<std::time::Instant>,
    models: std::collections::HashSet<String>,
    known: Vec<String>,
    /// first case of each group is kept as a sample
    group_new: bool,
    group_name: String,
    group_start: u64,
    /// the comparison is dear: the wide families are taken with narrower bounds
    pub dear: bool,
}

pub const MAX_VIOLS: usize = 40;
/// a violation decides; others are looked for this long
pub const GRACE: std::time::Duration = std::time::Duration::from_secs(45);

impl Ctx {
    pub fn new(tier: Tier, shard: u64, shards: u64, eval: Eval, known: Vec<String>) -> Ctx {
        Ctx {
            tier,
            shard,
            shards,
            eval,
            n: 0,
            stats: Stats::default(),
            viols: vec![],
            stop: false,
            first: None,
            models: Default::default(),
            known,
            group_new: false,
            group_name: String::new(),
            group_start: 0,
            dear: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// names a family of cases and its bound, for the evidence
    pub fn group(&mut self, name: &str) {
        self.end_group();
        self.group_new = true;
        self.group_name = name.to_string();
        self.group_start = self.stats.cases;
    }
    pub fn end_group(&mut self) {
        if !self.group_name.is_empty() {
            let g = std::mem::take(&mut self.group_name);
            let k = self.stats.cases - self.group_start;
            self.stats.groups.push((g, k));
        }
    }
    /// model states and transitions explored (the same in every shard)
    pub fn model(&mut self, states: u64, transitions: u64) {
        let key = self.group_name.clone();
        self.model_of(&key, states, transitions);
    }
    /// as `model`; a model that several groups use is counted once
    pub fn model_of(&mut self, key: &str, states: u64, transitions: u64) {
        if self.models.insert(key.to_string()) {
            self.stats.states += states;
            self.stats.transitions += transitions;
        }
    }
    /// is the next case this shard's? (call exactly once per case)
    pub fn mine(&mut self) -> bool {
        let m = self.n % self.shards == self.shard;
        self.n += 1;
        m && !self.stop
    }
    pub fn go(&mut self, kind: &'static str, args: &[&str]) {
        if self.mine() {
            self.run(kind, args);
        }
    }
    /// evaluates a case that is known to be this shard's
    pub fn run(&mut self, kind: &str, args: &[&str]) {
        if self.first.is_some_and(|f| f.elapsed() > GRACE) {
            self.stop = true;
            return;
        }
        if let Some(j) = JOURNAL.get() {
            j.record(kind, args);
        }
        self.stats.cases += 1;
        if self.group_new {
            self.group_new = false;
            self.stats.samples.push(format!("{}: {} {:?}", self.group_name, kind, args.iter().map(|a| trunc(a)).collect::<Vec<_>>()));
        }
        match (self.eval)(kind, args) {
            V::Ok(c) => {
                let c = c as usize;
                if self.stats.classes.len() <= c {
                    self.stats.classes.resize(c + 1, 0);
                }
                self.stats.classes[c] += 1;
            }
            V::Skip => self.stats.skipped += 1,
            V::Known(id) if !self.known.iter().any(|k| k == id) => {
                self.bad(kind, args, format!("behaves as finding {} does, which is not listed for this property", id));
            }
            V::Known(id) => match self.stats.known.iter_mut().find(|k| k.0 == id) {
                Some(k) => k.1 += 1,
                None => self.stats.known.push((id.to_string(), 1)),
            },
            V::Bad(msg) => self.bad(kind, args, msg),
        }
    }
    fn bad(&mut self, kind: &str, args: &[&str], msg: String) {
        self.viols.push(Viol { kind: kind.to_string(), args: args.iter().map(|s| s.to_string()).collect(), msg });
        let first = *self.first.get_or_insert_with(std::time::Instant::now);
        if self.viols.len() >= MAX_VIOLS || first.elapsed() > GRACE {
            self.stop = true;
        }
    }
}

pub fn trunc(s: &str) -> String {
    if s.chars().count() > 160 {
        let t: String = s.chars().take(150).collect();
        format!("{}...({} bytes)", t, s.len())
    } else {
        s.to_string()
    }
}
