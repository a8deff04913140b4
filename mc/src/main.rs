//! mc check <property> <tier>   explore, report, write evidence
//! mc replay <file>             run one recorded case again
//! mc graph                     sizes of the models

mod build;
mod checks;
mod d;
mod dump;
mod engine;
mod evals;
mod evals2;
mod evals3;
mod evals4;
mod fam;
mod fam2;
mod gen;
mod gram;
mod hist;
mod imp;
mod lexref;
mod mem;
mod refparse;
mod report;
mod sys;
mod visit;

use checks::Check;
use engine::*;
use report::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

const STACK: usize = 2 << 20;
/// how a worker ends that has reported violations
const FOUND: i32 = 10;
const HANG: Duration = Duration::from_secs(40);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match &a[1..] {
        ["check", id, tier] => supervise(id, tier),
        ["worker", id, tier, shard, shards, dir, known] => {
            worker(id, tier, shard.parse().unwrap(), shards.parse().unwrap(), Path::new(dir), known);
            0
        }
        ["replay", file] => replay(Path::new(file)),
        ["graph"] => {
            graph();
            0
        }
        _ => {
            eprintln!("usage: mc check <property> quick|thorough | mc replay <file> | mc graph");
            2
        }
    };
    std::process::exit(code);
}

fn tier_of(t: &str) -> Tier {
    match t {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("tier {}", t),
    }
}

fn graph() {
    for (nm, g) in [("query", gram::Gram::query()), ("schema", gram::Gram::schema())] {
        for d in 1..6 {
            let gr = gram::Graph::explore(&g, d);
            println!("{} bracket depth {}: {} configurations, {} transitions ({} leave the bound)", nm, d, gr.confs.len(), gr.transitions, gr.over.len());
        }
        let a = gen::All::new(&g, 14, true);
        for n in 3..15 {
            println!("  sentences of <= {} tokens: {}", n, a.count(n));
        }
    }
}

fn worker(id: &str, tier: &str, shard: u64, shards: u64, dir: &Path, known: &str) {
    sys::limits();
    quiet_panics();
    let chk: &'static Check = checks::find(id).expect("property");
    set_journal(sys::Journal::open(&dir.join(format!("journal.{}", shard)), false));
    let known: Vec<String> = known.split(',').map(|s| s.to_string()).collect();
    let tier = tier_of(tier);
    let out = dir.join(format!("out.{}", shard));
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut ctx = Ctx::new(tier, shard, shards, chk.eval, known);
            (chk.gen)(&mut ctx);
            ctx.end_group();
            if !ctx.viols.is_empty() {
                ctx.viols.sort_by_key(|v| v.args.iter().map(|a| a.len()).sum::<usize>());
                ctx.viols.truncate(5);
                if chk.shrink {
                    if let Some(v) = ctx.viols.first_mut() {
                        shrink(chk, v);
                    }
                }
            }
            ctx
        })
        .expect("thread");
    match h.join() {
        Ok(ctx) => {
            write_result(&out, &ctx);
            if !ctx.viols.is_empty() {
                std::process::exit(FOUND);
            }
        }
        Err(_) => {
            eprintln!("worker {} of {} failed: {}", shard, id, engine::last_panic_anywhere());
            std::process::exit(3);
        }
    }
}

/// deletes parts of the last argument while the case still fails
fn shrink(chk: &Check, v: &mut Viol) {
    if v.kind == "rep" {
        return;
    }
    let start = Instant::now();
    let last = v.args.len() - 1;
    let mut size = v.args[last].chars().count() / 2;
    while size > 0 {
        let mut i = 0;
        let mut any = false;
        loop {
            let c: Vec<char> = v.args[last].chars().collect();
            if i >= c.len() || start.elapsed() > Duration::from_secs(10) {
                break;
            }
            let cut: String = c[..i].iter().chain(c[(i + size).min(c.len())..].iter()).collect();
            let mut args: Vec<&str> = v.args.iter().map(|s| s.as_str()).collect();
            args[last] = &cut;
            match (chk.eval)(&v.kind, &args) {
                V::Bad(m) => {
                    v.msg = m;
                    v.args[last] = cut;
                    any = true;
                }
                _ => i += size,
            }
        }
        if !any {
            size /= 2;
        }
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    let chk = match checks::find(id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    tier_of(tier);
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    let findings = Findings::load(&root.join("KNOWN_FINDINGS.txt"), id);
    let shards: usize = 8;
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let exe = std::env::current_exe().expect("own path");
    let wall = Duration::from_secs(if tier == "quick" { 800 } else { 4 * 3600 });

    struct W {
        child: std::process::Child,
        j: sys::Journal,
        beat: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = vec![];
    for i in 0..shards {
        let j = sys::Journal::open(&dir.join(format!("journal.{}", i)), true);
        let child = std::process::Command::new(&exe)
            .args(["worker", id, tier, &i.to_string(), &shards.to_string(), dir.to_str().unwrap(), &findings.ids()])
            .spawn()
            .expect("worker");
        ws.push(W { child, j, beat: 0, since: Instant::now(), done: false });
    }
    let mut viols: Vec<Viol> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut found: Option<Instant> = None;
    loop {
        let mut all = true;
        for (i, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            if let Some(st) = w.child.try_wait().expect("wait") {
                w.done = true;
                if !st.success() {
                    found.get_or_insert_with(Instant::now);
                }
                if !st.success() && st.code() != Some(FOUND) {
                    if w.j.state().1 {
                        let (kind, args) = w.j.current();
                        viols.push(Viol { kind, args, msg: format!("the library ended the process: {}", st) });
                    } else {
                        broken.push(format!("worker {} ended with {}", i, st));
                    }
                }
                continue;
            }
            all = false;
            let (beat, inside) = w.j.state();
            if beat != w.beat {
                w.beat = beat;
                w.since = Instant::now();
            } else if inside && w.since.elapsed() > HANG {
                let (kind, args) = w.j.current();
                viols.push(Viol { kind, args, msg: format!("the library did not return within {} s", HANG.as_secs()) });
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                found.get_or_insert_with(Instant::now);
            }
        }
        if all {
            break;
        }
        let enough = found.is_some_and(|f| f.elapsed() > GRACE);
        if start.elapsed() > wall || !broken.is_empty() || enough {
            if broken.is_empty() && !enough {
                broken.push("out of time".into());
            }
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    let mut total = Merged::default();
    for i in 0..shards {
        total.read(&dir.join(format!("out.{}", i)), i == 0);
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.extend(std::mem::take(&mut total.viols));
    viols.sort_by_key(|v| v.args.iter().map(|a| a.len()).sum::<usize>());
    if viols.is_empty() && !broken.is_empty() {
        for b in &broken {
            eprintln!("error: {}", b);
        }
        return 2;
    }
    if viols.is_empty() && total.files != shards {
        eprintln!("error: {} of {} workers reported", total.files, shards);
        return 2;
    }
    // vacuity: something must have been explored and judged
    if viols.is_empty() && (total.cases <= total.skipped || total.states == 0) {
        eprintln!("error: nothing was explored");
        return 2;
    }
    let ev = root.join("evidence");
    std::fs::create_dir_all(&ev).expect("evidence directory");
    let wall_s = start.elapsed().as_secs_f64();
    std::fs::write(ev.join(format!("{}.json", id)), evidence_json(chk, tier, &total, viols.len(), wall_s)).expect("evidence");
    println!(
        "{} {}: {} states, {} transitions, {} executions compared ({} not applicable), {:.1} s",
        id,
        tier,
        total.states,
        total.transitions,
        total.cases - total.skipped,
        total.skipped,
        wall_s
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (g, n) in &total.groups {
            println!("  {:>9}  {}", n, g);
        }
        println!("  classes {:?}", total.classes);
    }
    for (k, n) in &total.known {
        println!("KNOWN-FINDING: property={} {} ({} executions)", id, findings.text(k), n);
    }
    if let Some(v) = viols.first() {
        let rd = ev.join("replay");
        std::fs::create_dir_all(&rd).expect("replay directory");
        let path = rd.join(format!("{}.txt", id));
        std::fs::write(&path, replay_text(id, v)).expect("replay file");
        println!("VIOLATION property={} replay={}", id, path.display());
        println!("  {:?} {}", v.kind, v.args.iter().map(|a| format!("{:?}", trunc(a))).collect::<Vec<_>>().join(" "));
        for l in v.msg.lines().take(40) {
            println!("  {}", trunc(l));
        }
        return 1;
    }
    0
}

fn replay(file: &Path) -> i32 {
    quiet_panics();
    let (id, v) = read_replay(&std::fs::read_to_string(file).expect("replay file"));
    let chk = checks::find(&id).expect("property");
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let args: Vec<&str> = v.args.iter().map(|s| s.as_str()).collect();
            (chk.eval)(&v.kind, &args)
        })
        .expect("thread");
    match h.join().expect("evaluation") {
        V::Bad(m) => {
            println!("still fails: {}", m);
            1
        }
        V::Known(k) => {
            println!("known finding {}", k);
            0
        }
        V::Ok(_) => {
            println!("holds");
            0
        }
        V::Skip => {
            println!("not applicable");
            0
        }
    }
}

/// sums over workers
#[derive(Default)]
pub struct Merged {
    pub files: usize,
    pub cases: u64,
    pub skipped: u64,
    pub states: u64,
    pub transitions: u64,
    pub known: BTreeMap<String, u64>,
    pub classes: BTreeMap<u64, u64>,
    pub groups: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub stopped: bool,
    pub viols: Vec<Viol>,
}
