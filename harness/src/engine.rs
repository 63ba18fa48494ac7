//! Running cases: deterministic generation, threads, shrinking, evidence, crash handling.

use std::os::unix::process::CommandExt;
use crate::json::J;
use crate::sys::Shared;
use refwasm::src::{hash_bytes, mix, Rng, Src};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Family {
    pub name: &'static str,
    /// What is generated and compared, for the evidence.
    pub what: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// `idx` enumerates a finite space completely.
    pub exhaustive: bool,
    pub run: fn(&mut Case) -> Res,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
    /// Runs after the families, in the parent, for known findings.
    pub known: Option<fn()>,
}

pub struct Case {
    pub s: Src,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
    /// Only a description is wanted.
    pub sampling: bool,
    pub notes: Vec<(String, String)>,
    evals: u64,
    hit: Option<u64>,
    hits: Vec<u64>,
    labels: Vec<&'static str>,
}

impl Case {
    fn new(s: Src, idx: u64, thorough: bool, verbose: bool) -> Case {
        Case { s, idx, thorough, verbose, sampling: false, notes: vec![], evals: 0, hit: None, hits: vec![], labels: vec![] }
    }
    /// Counts one comparison of the code under test with the oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// Comparisons made so far.
    pub fn compared(&self) -> u64 {
        self.evals
    }
    /// Declares the case non-trivial, with what identifies it.
    pub fn nontrivial(&mut self, id: &[u8]) {
        let h = hash_bytes(id);
        self.hit = Some(match self.hit {
            None => h,
            Some(g) => mix(g ^ h.rotate_left(17)),
        });
    }
    /// The same for one of several inputs in a case.
    pub fn part(&mut self, id: &[u8]) {
        self.hits.push(hash_bytes(id));
        self.hit.get_or_insert(0);
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn note(&mut self, k: &str, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut v = f();
            if v.len() > 6000 {
                let mut n = 6000;
                while !v.is_char_boundary(n) {
                    n -= 1;
                }
                let total = v.len();
                v.truncate(n);
                v.push_str(&format!("… ({} characters)", total));
            }
            self.notes.retain(|n| n.0 != k);
            self.notes.push((k.to_string(), v));
        }
    }
    /// Splits a digit off the index of an enumerated case.
    pub fn digit(&mut self, n: u64) -> u64 {
        let d = self.idx % n;
        self.idx /= n;
        d
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Calls into the code under test. A panic is an answer (of the wrong kind), not an accident.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let before = IN_SUT.with(|c| c.replace(true));
    cov::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    cov::leave();
    IN_SUT.with(|c| c.set(before));
    r.map_err(|_| format!("{} panicked: {}", what, PANIC.with(|p| p.borrow().clone())))
}

/// Must be called once per process, before any case.
pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|c| c.get()) {
            PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            default(info);
        }
    }));
}

fn case_seed(seed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ hash_bytes(fam.as_bytes()).rotate_left(7) ^ mix(idx))
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub threads: usize,
    pub wall: Duration,
    pub only: Option<String>,
}

/// Where the checks live.
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

impl Cfg {
    pub fn from_env() -> Cfg {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let root = root();
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8);
        let wall = Duration::from_secs(if thorough { 3 * 3600 } else { 480 });
        Cfg { seed, thorough, root, threads, wall, only: std::env::var("VERIF_FAMILY").ok() }
    }
    pub fn tier(&self) -> &'static str {
        if self.thorough { "thorough" } else { "quick" }
    }
    /// Guided cases per shard.
    fn guided(&self) -> u64 {
        if let Ok(n) = std::env::var("VERIF_GUIDED") {
            return n.parse().expect("number");
        }
        if self.thorough { 10_000_000 } else { 60_000 }
    }
    fn n(&self, f: &Family) -> u64 {
        if self.thorough {
            f.thorough
        } else if !f.exhaustive && f.quick >= 50_000 && f.quick < 1_000_000 {
            // the numbers given are those of a short run
            f.quick * 5
        } else {
            f.quick
        }
    }
}

#[derive(Default)]
struct Stats {
    cases: u64,
    evals: u64,
    distinct: HashSet<u64>,
    enumerated: u64,
    labels: BTreeMap<&'static str, u64>,
    slowest: Duration,
}

const BLOCK: u64 = 64;
const SLOT: usize = 4;
pub const TRACE_WORDS: usize = 1 << 21;

/// Processor seconds after which a case does not return: thousands of times what the slowest takes.
const PATIENCE: f64 = 40.0;

const WATCHED: usize = 16;
/// What each thread is doing: a number that changes with every case, 0 for nothing.
static TICKS: [AtomicU64; WATCHED] = [const { AtomicU64::new(0) }; WATCHED];
/// The clock of the processor time of the thread that runs the case.
static CLOCKS: [AtomicI64; WATCHED] = [const { AtomicI64::new(i64::MIN) }; WATCHED];

thread_local! {
    static WATCH: Cell<Option<usize>> = const { Cell::new(None) };
}

fn watch_this_thread(slot: usize) {
    if slot < WATCHED {
        CLOCKS[slot].store(crate::sys::own_clock().map_or(i64::MIN, |c| c as i64), Relaxed);
        WATCH.with(|w| w.set(Some(slot)));
    }
}
fn tick(slot: usize) {
    if slot < WATCHED {
        TICKS[slot].fetch_add(1, Relaxed);
    }
}
/// Runs `f` on a thread with a stack of the given size.
pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let slot = WATCH.with(|w| w.get());
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(sc, || {
                if let Some(slot) = slot {
                    watch_this_thread(slot);
                }
                f()
            })
            .expect("thread")
            .join()
    });
    if let Some(slot) = slot {
        watch_this_thread(slot);
    }
    r.map_err(|_| "the thread panicked".to_string())
}
/// Ends the process when one case has used up the patience; the supervisor then reproduces that
/// case on its own. Only time spent computing counts, however busy the machine is.
fn start_watching() {
    std::thread::spawn(|| {
        let mut seen = [(0u64, 0.0f64); WATCHED];
        let mut clocks = [i64::MIN; WATCHED];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..WATCHED {
                let (t, c) = (TICKS[i].load(Relaxed), CLOCKS[i].load(Relaxed));
                let now = if c == i64::MIN { None } else { crate::sys::clock_seconds(c as i32) };
                match now {
                    Some(now) if t != 0 && t == seen[i].0 && c == clocks[i] => {
                        if now - seen[i].1 > PATIENCE {
                            println!("a case has not returned after {} seconds of computing", PATIENCE);
                            std::process::abort();
                        }
                    }
                    now => {
                        seen[i] = (t, now.unwrap_or(0.0));
                        clocks[i] = c;
                    }
                }
            }
        }
    });
}

fn status_path(cfg: &Cfg, id: &str) -> PathBuf {
    cfg.root.join("target").join(format!("status-{}-{}", id, std::process::id()))
}

/// Runs one case in this process.
fn run_case(f: &Family, c: &mut Case) -> Res {
    (f.run)(c)
}

pub struct Failure {
    pub fam: usize,
    pub idx: u64,
    pub choices: Vec<u64>,
    pub why: String,
}

fn replay_case(f: &Family, idx: u64, choices: &[u64], thorough: bool, verbose: bool) -> (Res, Case) {
    let mut c = Case::new(Src::replay(choices.to_vec()), idx, thorough, verbose);
    let r = run_case(f, &mut c);
    c.idx = idx;
    (r, c)
}

/// Makes the choice sequence smaller while the test says it still fails.
pub fn shrink(start: Vec<u64>, budget: Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    // what was actually drawn may be shorter
    if let Some(used) = fails(&best) {
        if used.len() <= best.len() {
            best = used;
        }
    }
    let better = |a: &[u64], b: &[u64]| (a.len(), a.iter().map(|x| *x as u128).sum::<u128>(), a) < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>(), b);
    loop {
        let mut improved = false;
        macro_rules! attempt {
            ($cand:expr) => {{
                let cand: Vec<u64> = $cand;
                let mut ok = false;
                if t0.elapsed() < budget {
                    if let Some(used) = fails(&cand) {
                        let pick = if better(&used, &cand) { used } else { cand };
                        if better(&pick, &best) {
                            best = pick;
                            improved = true;
                            ok = true;
                        }
                    }
                }
                ok
            }};
        }
        // delete runs of choices
        let mut k = best.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let e = (i + k).min(cand.len());
                cand.drain(i..e);
                if !attempt!(cand) {
                    i += k;
                }
                if t0.elapsed() > budget {
                    return best;
                }
            }
            k /= 2;
        }
        // zero runs
        let mut k = best.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt!(cand);
                }
                i += k;
                if t0.elapsed() > budget {
                    return best;
                }
            }
            k /= 2;
        }
        // reduce single choices
        let mut i = 0;
        while i < best.len() {
            let mut d = best[i] / 2 + 1;
            while d >= 1 && i < best.len() && best[i] > 0 {
                if best[i] >= d {
                    let mut cand = best.clone();
                    cand[i] -= d;
                    if attempt!(cand) {
                        continue;
                    }
                }
                d /= 2;
            }
            // lower a count and drop one following choice
            if i + 1 < best.len() && best[i] > 0 {
                for j in i + 1..(i + 6).min(best.len()) {
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.remove(j);
                    if attempt!(cand) {
                        break;
                    }
                }
            }
            i += 1;
            if t0.elapsed() > budget {
                return best;
            }
        }
        if !improved {
            return best;
        }
    }
}

fn evidence(
    cfg: &Cfg,
    p: &Property,
    stats: &[Stats],
    guided: Option<J>,
    samples: Vec<J>,
    wall: f64,
    violations: u64,
    complete: bool,
) -> std::io::Result<()> {
    let evals: u64 = stats.iter().map(|s| s.evals).sum::<u64>() + guided.as_ref().map_or(0, |g| g.number("evaluations"));
    let distinct: u64 = stats.iter().map(|s| s.distinct.len() as u64 + s.enumerated).sum();
    let mut fams: Vec<J> = p
        .families
        .iter()
        .zip(stats)
        .map(|(f, s)| {
            J::obj(vec![
                ("name", J::s(f.name)),
                ("what", J::s(f.what)),
                ("cases", J::n(s.cases)),
                ("evaluations", J::n(s.evals)),
                ("distinct_nontrivial", J::n(s.distinct.len() as u64 + s.enumerated)),
                ("exhaustive", J::B(f.exhaustive && s.cases == cfg.n(f))),
                ("outcomes", J::Obj(s.labels.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect())),
            ])
        })
        .collect();
    // its cases may be cases of the families as well: they are not counted twice as distinct
    fams.extend(guided);
    let all_exh = p.families.iter().zip(stats).all(|(f, s)| f.exhaustive && s.cases == cfg.n(f));
    let j = J::obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(cfg.tier())),
        ("seed", J::I(cfg.seed as i64)),
        ("level", J::s("exploration")),
        (
            "coverage",
            J::obj(vec![
                ("evaluations", J::n(evals)),
                ("distinct_nontrivial", J::n(distinct)),
                ("rule", J::s(p.rule)),
                ("samples", J::Arr(samples)),
                ("exhaustive", J::B(all_exh)),
                ("families", J::Arr(fams)),
                ("ran_to_completion", J::B(complete)),
            ]),
        ),
        ("assumptions", J::Arr(p.assumptions.iter().map(|a| J::s(a)).collect())),
        ("wall_s", J::F((wall * 100.0).round() / 100.0)),
        ("violations", J::n(violations)),
    ]);
    let dir = cfg.root.join("evidence");
    std::fs::create_dir_all(&dir)?;
    let tmp = dir.join(format!(".{}.tmp", p.id));
    std::fs::write(&tmp, j.pretty())?;
    std::fs::rename(tmp, dir.join(format!("{}.json", p.id)))
}

fn write_replay(cfg: &Cfg, p: &Property, fail: &Failure, notes: &[(String, String)]) -> PathBuf {
    let f = &p.families[fail.fam];
    let dir = cfg.root.join("replays");
    std::fs::create_dir_all(&dir).expect("replays directory");
    let path = dir.join(format!("{}-{}.json", p.id, f.name));
    let j = J::obj(vec![
        ("property", J::s(p.id)),
        ("family", J::s(f.name)),
        ("seed", J::I(cfg.seed as i64)),
        ("tier", J::s(cfg.tier())),
        ("index", J::n(fail.idx)),
        ("choices", J::Arr(fail.choices.iter().map(|c| J::n(*c)).collect())),
        ("violation", J::s(&fail.why)),
        ("case", J::Obj(notes.iter().map(|(k, v)| (k.clone(), J::s(v))).collect())),
        ("how", J::s(&format!("bash check.sh replay {}", path.display()))),
    ]);
    std::fs::write(&path, j.pretty()).expect("replay file");
    path
}

fn report(cfg: &Cfg, p: &Property, fail: &Failure, notes: &[(String, String)]) {
    let path = write_replay(cfg, p, fail, notes);
    println!("family {} case {}: {}", p.families[fail.fam].name, fail.idx, fail.why);
    for (k, v) in notes {
        println!("  {}: {}", k, v.chars().take(1500).collect::<String>());
    }
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// The worker: runs every family; exit code 0, 1 (violation) or 2 (trouble).
pub fn worker(cfg: &Cfg, p: &Property) -> i32 {
    let t0 = Instant::now();
    let status = match std::env::var("VERIF_STATUS") {
        Ok(path) => Some(Shared::open(Path::new(&path), cfg.threads * SLOT + 2).expect("status file")),
        Err(_) => None,
    };
    if !matches!(p.id, "C24" | "C25") {
        start_watching();
    }
    let mut all: Vec<Stats> = vec![];
    let mut failure: Option<Failure> = None;
    let mut complete = true;
    for (fi, f) in p.families.iter().enumerate() {
        if failure.is_some() || cfg.only.as_ref().map_or(false, |o| o != f.name) {
            all.push(Stats::default());
            continue;
        }
        let tf = Instant::now();
        let n = cfg.n(f);
        // few slow cases are spread as well as many quick ones
        let block = (n / (cfg.threads as u64 * 4)).clamp(1, BLOCK);
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
        let results: Mutex<Vec<Stats>> = Mutex::new(vec![]);
        let late = AtomicU64::new(0);
        std::thread::scope(|scope| {
            let mut hs = vec![];
            for t in 0..cfg.threads {
                let (next, first_bad, fails, results, late) = (&next, &first_bad, &fails, &results, &late);
                let h = std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(scope, move || {
                        let mut st = Stats::default();
                        let mut src = Src::random(0);
                        watch_this_thread(t);
                        let mut last = Instant::now();
                        loop {
                            let b = next.fetch_add(1, Relaxed);
                            let lo = b * block;
                            if lo >= n || lo > first_bad.load(Relaxed) {
                                break;
                            }
                            if t0.elapsed() > cfg.wall {
                                late.store(1, Relaxed);
                                break;
                            }
                            for idx in lo..(lo + block).min(n) {
                                if idx > first_bad.load(Relaxed) {
                                    break;
                                }
                                if let Some(s) = status {
                                    s.set(t * SLOT, fi as u64);
                                    s.set(t * SLOT + 1, idx);
                                    s.set(t * SLOT + 2, 1);
                                    s.set(t * SLOT + 3, st.evals);
                                }
                                let mut s = std::mem::replace(&mut src, Src::replay(vec![]));
                                s.reseed(case_seed(cfg.seed, p.id, f.name, idx));
                                let mut c = Case::new(s, idx, cfg.thorough, false);
                                tick(t);
                                let r = run_case(f, &mut c);
                                let now = Instant::now();
                                st.slowest = st.slowest.max(now - last);
                                last = now;
                                st.cases += 1;
                                st.evals += c.evals;
                                if !c.hits.is_empty() {
                                    st.distinct.extend(c.hits.drain(..));
                                } else if let Some(h) = c.hit {
                                    if f.exhaustive {
                                        st.enumerated += 1;
                                    } else {
                                        st.distinct.insert(h);
                                    }
                                }
                                for l in c.labels.drain(..) {
                                    *st.labels.entry(l).or_insert(0) += 1;
                                }
                                if let Err(why) = r {
                                    first_bad.fetch_min(idx, Relaxed);
                                    fails.lock().unwrap().push(Failure { fam: fi, idx, choices: c.s.log.clone(), why });
                                }
                                src = c.s;
                            }
                        }
                        if t < WATCHED {
                            CLOCKS[t].store(i64::MIN, Relaxed);
                        }
                        if let Some(s) = status {
                            s.set(t * SLOT + 2, 0);
                        }
                        results.lock().unwrap().push(st);
                    })
                    .expect("thread");
                hs.push(h);
            }
            for h in hs {
                if h.join().is_err() {
                    println!("harness error in family {}", f.name);
                    std::process::exit(2);
                }
            }
        });
        let mut sum = Stats::default();
        for s in results.into_inner().unwrap() {
            sum.cases += s.cases;
            sum.evals += s.evals;
            sum.enumerated += s.enumerated;
            sum.slowest = sum.slowest.max(s.slowest);
            if sum.distinct.is_empty() {
                sum.distinct = s.distinct;
            } else {
                sum.distinct.extend(s.distinct);
            }
            for (k, v) in s.labels {
                *sum.labels.entry(k).or_insert(0) += v;
            }
        }
        if late.into_inner() != 0 {
            complete = false;
        }
        let mut v = fails.into_inner().unwrap();
        v.sort_by_key(|f| f.idx);
        failure = v.into_iter().next();
        if let (Some(s), Some(x)) = (status, &failure) {
            // for the supervisor, should making it small go wrong
            s.set(cfg.threads * SLOT + 1, x.idx);
            s.set(cfg.threads * SLOT, fi as u64 + 1);
        }
        println!(
            "{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s, slowest {:.2}s {:?}",
            p.id,
            f.name,
            sum.cases,
            sum.evals,
            sum.distinct.len() as u64 + sum.enumerated,
            tf.elapsed().as_secs_f64(),
            sum.slowest.as_secs_f64(),
            sum.labels
        );
        all.push(sum);
    }
    // samples: the first non-trivial cases of each family, run again in verbose mode
    let mut samples = vec![];
    let sample_run = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(scope, || {
                for (fi, f) in p.families.iter().enumerate() {
                    if all[fi].cases == 0 || failure.as_ref().map_or(false, |x| x.fam == fi) {
                        continue;
                    }
                    let n = all[fi].cases.min(4000);
                    let step = if f.exhaustive { (n / 7).max(1) } else { 1 };
                    let mut got = 0;
                    let mut idx = 0;
                    while idx < n && got < 2 {
                        let mut c = Case::new(Src::random(case_seed(cfg.seed, p.id, f.name, idx)), idx, cfg.thorough, true);
                        c.sampling = true;
                        let _ = run_case(f, &mut c);
                        if c.hit.is_some() && !c.notes.is_empty() {
                            let mut o = vec![("family".to_string(), J::s(f.name)), ("index".to_string(), J::n(idx))];
                            for (k, v) in &c.notes {
                                o.push((k.clone(), J::s(&v.chars().take(700).collect::<String>())));
                            }
                            samples.push(J::Obj(o));
                            got += 1;
                        }
                        idx += step;
                    }
                }
                if let Some(fail) = &mut failure {
                    make_small(cfg, p, fail);
                }
                Ok::<(), ()>(())
            })
            .expect("thread")
            .join()
    });
    match sample_run {
        Ok(Ok(())) => {}
        _ => {
            println!("harness error while sampling or shrinking");
            return 2;
        }
    }
    evidence(cfg, p, &all, read_guided(), samples, t0.elapsed().as_secs_f64(), failure.is_some() as u64, complete).expect("evidence");
    if failure.is_some() { 1 } else { 0 }
}

/// Makes a failing case small and reports it.
fn make_small(cfg: &Cfg, p: &Property, fail: &mut Failure) {
    let f = &p.families[fail.fam];
    let budget = Duration::from_secs(20);
    let original = fail.choices.clone();
    if !f.exhaustive {
        let small = shrink(fail.choices.clone(), budget, |ch| {
            let r = catch_unwind(AssertUnwindSafe(|| replay_case(f, fail.idx, ch, cfg.thorough, false)));
            match r {
                Ok((Err(_), c)) => Some(c.s.log),
                _ => None,
            }
        });
        fail.choices = small;
    }
    let mut again = replay_case(f, fail.idx, &fail.choices, cfg.thorough, true);
    let t1 = Instant::now();
    for _ in 0..200 {
        if again.0.is_err() || t1.elapsed() > Duration::from_secs(20) {
            break;
        }
        again = replay_case(f, fail.idx, &original, cfg.thorough, true);
    }
    let (r, mut c) = again;
    match r {
        Err(why) => fail.why = why,
        // the wrong answer was given all the same
        Ok(()) => {
            c.notes.push(("history".into(), "the case does not fail again on its own: the answer depends on what ran before or beside it; rerun the check with the same seed".into()));
        }
    }
    report(cfg, p, fail, &c.notes);
}

/// The guided search, in a process of its own; exit codes as for the worker.
pub fn guided_worker(cfg: &Cfg, p: &Property) -> i32 {
    let t0 = Instant::now();
    let path = PathBuf::from(std::env::var("VERIF_STATUS").expect("status file"));
    let status = Shared::open(&path, cfg.threads * SLOT + 2).expect("status file");
    if !matches!(p.id, "C24" | "C25") {
        start_watching();
    }
    let mut g = guide(cfg, p, &path, status);
    if g.stats.cases == 0 {
        return 0;
    }
    println!(
        "{} guided: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s, slowest {:.2}s, {} kept, {} places {:?}",
        p.id,
        g.stats.cases,
        g.stats.evals,
        g.stats.distinct.len(),
        t0.elapsed().as_secs_f64(),
        g.stats.slowest.as_secs_f64(),
        g.kept,
        g.places,
        g.stats.labels
    );
    let entry = J::obj(vec![
        ("name", J::s("guided")),
        ("what", J::s("choices of the families with many small cases, changed, and kept when they reach new places in the code or bring compared values closer")),
        ("cases", J::n(g.stats.cases)),
        ("evaluations", J::n(g.stats.evals)),
        ("distinct_nontrivial", J::n(g.stats.distinct.len() as u64)),
        ("exhaustive", J::B(false)),
        ("kept", J::n(g.kept)),
        ("places_reached", J::n(g.places)),
        ("ran_to_completion", J::B(!g.late)),
        ("outcomes", J::Obj(g.stats.labels.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect())),
    ]);
    let Some(mut fail) = g.failure.take() else {
        std::fs::write(path.with_extension("guided"), entry.pretty()).expect("guided file");
        return 0;
    };
    println!("found by the guided search");
    // for the supervisor, should making it small go wrong
    let sh = Shared::open(&guided_trace(&path, 0), GUIDED_WORDS).expect("trace file");
    let n = fail.choices.len().min(GUIDED_WORDS - 1);
    for (i, v) in fail.choices[..n].iter().enumerate() {
        sh.set(i + 1, *v);
    }
    sh.set(0, n as u64);
    status.set(0, fail.fam as u64);
    status.set(1, fail.idx);
    status.set(2, 2);
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(scope, || make_small(cfg, p, &mut fail)).expect("thread").join()
    });
    if r.is_err() {
        println!("harness error while shrinking");
        return 2;
    }
    let none: Vec<Stats> = p.families.iter().map(|_| Stats::default()).collect();
    evidence(cfg, p, &none, Some(entry), vec![], t0.elapsed().as_secs_f64(), 1, false).expect("evidence");
    1
}
/// What the guided search that ran before left for the evidence.
fn read_guided() -> Option<J> {
    let path = PathBuf::from(std::env::var("VERIF_STATUS").ok()?).with_extension("guided");
    std::fs::read_to_string(path).ok().map(J::Raw)
}

/// Words in which a guided case leaves its choices, for the case that it ends the process.
const GUIDED_WORDS: usize = 1 << 16;

fn guided_trace(status: &Path, thread: usize) -> PathBuf {
    status.with_extension(format!("t{}", thread))
}

#[derive(Default)]
struct Guided {
    stats: Stats,
    kept: u64,
    places: u64,
    late: bool,
    failure: Option<Failure>,
}

/// A case worth changing.
struct Kept {
    fam: usize,
    idx: u64,
    log: Vec<u64>,
    bounds: Vec<u64>,
}

const SHARDS: u64 = 8;

/// The search is cut in shards that know nothing of each other, so that what it finds does not
/// depend on the number of threads.
fn guide(cfg: &Cfg, p: &Property, path: &Path, status: Shared) -> Guided {
    // the families with many small cases
    let fams: Vec<usize> = (0..p.families.len()).filter(|i| !p.families[*i].exhaustive && p.families[*i].quick >= 50_000).collect();
    let mut sum = Guided::default();
    if fams.is_empty() || matches!(p.id, "C24" | "C25") {
        return sum;
    }
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(0);
    let results: Mutex<Vec<(u64, Guided, HashSet<u32>)>> = Mutex::new(vec![]);
    std::thread::scope(|scope| {
        for t in 0..cfg.threads.min(SHARDS as usize) {
            let (next, stop, results, fams) = (&next, &stop, &results, &fams);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(scope, move || {
                    watch_this_thread(t);
                    let sh = Shared::open(&guided_trace(path, t), GUIDED_WORDS).expect("trace file");
                    TRACE.with(|x| *x.borrow_mut() = Some(sh));
                    loop {
                        let shard = next.fetch_add(1, Relaxed);
                        if shard >= SHARDS {
                            break;
                        }
                        cov::arm();
                        let r = guide_shard(cfg, p, fams, shard, t, status, stop);
                        cov::disarm();
                        results.lock().unwrap().push((shard, r.0, r.1));
                    }
                    if t < WATCHED {
                        CLOCKS[t].store(i64::MIN, Relaxed);
                    }
                    status.set(t * SLOT + 2, 0);
                })
                .expect("thread");
        }
    });
    let mut v = results.into_inner().unwrap();
    v.sort_by_key(|r| r.0);
    let mut places = HashSet::new();
    for (_, g, seen) in v {
        sum.stats.cases += g.stats.cases;
        sum.stats.evals += g.stats.evals;
        sum.stats.slowest = sum.stats.slowest.max(g.stats.slowest);
        sum.stats.distinct.extend(g.stats.distinct);
        for (k, n) in g.stats.labels {
            *sum.stats.labels.entry(k).or_insert(0) += n;
        }
        sum.kept += g.kept;
        sum.late |= g.late;
        places.extend(seen.into_iter().map(|f| f / 8).filter(|f| (*f as usize) < cov::EDGES));
        if sum.failure.is_none() {
            sum.failure = g.failure;
        }
    }
    sum.places = places.len() as u64;
    sum
}

fn guide_shard(cfg: &Cfg, p: &Property, fams: &[usize], shard: u64, t: usize, status: Shared, stop: &AtomicU64) -> (Guided, HashSet<u32>) {
    let mut g = Guided::default();
    let mut seen: HashSet<u32> = HashSet::new();
    let mut corpus: Vec<Kept> = vec![];
    let mut words: Vec<u64> = vec![];
    let mut rng = Rng::new(mix(case_seed(cfg.seed, p.id, "guided", shard)));
    let total = cfg.guided();
    let first = total / 8;
    let mut last = Instant::now();
    let limit = Duration::from_secs(if cfg.thorough { 3600 } else { 40 });
    let start = Instant::now();
    for n in 0..total {
        if n % 64 == 0 && (stop.load(Relaxed) != 0 || start.elapsed() > limit) {
            g.late |= stop.load(Relaxed) == 0;
            break;
        }
        // in the beginning, and every now and then, something new
        let fresh = corpus.is_empty() || n < first || rng.below(32) == 0;
        let seed = mix(rng.next());
        let (fam, idx, choices) = if fresh {
            let fam = fams[rng.below(fams.len() as u64) as usize];
            (fam, rng.next() >> 8, vec![])
        } else {
            let len = corpus.len() as u64;
            let at = match rng.below(4) {
                0 => len - 1 - rng.below(len.min(16)),
                1 => len - 1 - rng.below(len.min(256)),
                _ => rng.below(len),
            } as usize;
            let other = rng.below(len) as usize;
            let k = &corpus[at];
            (k.fam, k.idx, alter(&mut rng, k, &corpus[other], &words))
        };
        status.set(t * SLOT, fam as u64);
        status.set(t * SLOT + 1, idx);
        TRACE.with(|x| x.borrow().as_ref().unwrap().set(0, 0));
        status.set(t * SLOT + 2, 2);
        let f = &p.families[fam];
        let mut c = Case::new(Src::guided(choices, seed), idx, cfg.thorough, false);
        c.s.tap = Some(tap);
        tick(t);
        let r = run_case(f, &mut c);
        let now = Instant::now();
        g.stats.slowest = g.stats.slowest.max(now - last);
        last = now;
        g.stats.cases += 1;
        g.stats.evals += c.evals;
        if !c.hits.is_empty() {
            g.stats.distinct.extend(c.hits.drain(..));
        } else if let Some(h) = c.hit {
            g.stats.distinct.insert(h);
        }
        for l in c.labels.drain(..) {
            *g.stats.labels.entry(l).or_insert(0) += 1;
        }
        let mut new = false;
        cov::take(|x| new |= seen.insert(x));
        if r.is_err() {
            stop.store(1, Relaxed);
            g.failure = Some(Failure { fam, idx, choices: c.s.log, why: r.unwrap_err() });
            break;
        }
        cov::pairs(|v| {
            if new {
                for (a, b) in v {
                    for x in [*a, *b] {
                        if x > 3 {
                            if words.len() < 4096 {
                                words.push(x);
                            } else {
                                words[rng.below(4096) as usize] = x;
                            }
                        }
                    }
                }
            }
        });
        if new && c.s.log.len() < GUIDED_WORDS / 4 {
            corpus.push(Kept { fam, idx, log: std::mem::take(&mut c.s.log), bounds: std::mem::take(&mut c.s.bounds) });
        }
    }
    g.kept = corpus.len() as u64;
    (g, seen)
}

/// Changes some of the choices of a case.
fn alter(rng: &mut Rng, k: &Kept, other: &Kept, words: &[u64]) -> Vec<u64> {
    let mut v = k.log.clone();
    let mut bounds = k.bounds.clone();
    let times = 1 + if rng.below(2) == 0 { 0 } else { rng.below(6) };
    for _ in 0..times {
        if v.is_empty() {
            break;
        }
        let i = rng.below(v.len() as u64) as usize;
        let n = bounds[i];
        match rng.below(12) {
            0..=3 => v[i] = rng.below(n),
            4 => v[i] = if rng.below(2) == 0 { 0 } else { n - 1 },
            5 => v[i] = if rng.below(2) == 0 { (v[i] + 1) % n } else { v[i].checked_sub(1).unwrap_or(n - 1) },
            // a number that the code compares with, or close to it, at a place that takes numbers
            6 | 7 if !words.is_empty() => {
                let mut w = words[rng.below(words.len() as u64) as usize];
                match rng.below(6) {
                    0 => w = w.wrapping_add(1),
                    1 => w = w.wrapping_sub(1),
                    _ => {}
                }
                let wide: Vec<usize> = (0..v.len()).filter(|j| bounds[*j] > w).collect();
                if !wide.is_empty() {
                    let j = wide[rng.below(wide.len() as u64) as usize];
                    v[j] = w;
                }
            }
            8 => {
                // something left out
                let m = 1 + rng.below((v.len() - i).min(16) as u64) as usize;
                v.drain(i..i + m);
                bounds.drain(i..i + m);
            }
            9 => {
                // something repeated
                let m = 1 + rng.below((v.len() - i).min(16) as u64) as usize;
                let (x, b): (Vec<u64>, Vec<u64>) = (v[i..i + m].to_vec(), bounds[i..i + m].to_vec());
                v.splice(i..i, x);
                bounds.splice(i..i, b);
            }
            10 => {
                // something from another case
                if other.fam == k.fam && !other.log.is_empty() {
                    let a = rng.below(other.log.len() as u64) as usize;
                    let m = 1 + rng.below((other.log.len() - a).min(64) as u64) as usize;
                    let end = if rng.below(2) == 0 { i } else { (i + m).min(v.len()) };
                    v.splice(i..end, other.log[a..a + m].iter().copied());
                    bounds.splice(i..end, other.bounds[a..a + m].iter().copied());
                }
            }
            _ => {
                // the rest at random
                if rng.below(4) == 0 {
                    v.truncate(i);
                    bounds.truncate(i);
                } else {
                    v[i] = rng.below(n);
                }
            }
        }
    }
    v
}

/// Runs a single case; for the supervisor and for replays.
pub fn one(cfg: &Cfg, p: &Property, fam: usize, idx: u64, choices: Option<Vec<u64>>, trace: Option<PathBuf>, verbose: bool) -> i32 {
    let f = &p.families[fam];
    let src = match choices {
        Some(c) => Src::replay(c),
        None => Src::random(case_seed(cfg.seed, p.id, f.name, idx)),
    };
    if !matches!(p.id, "C24" | "C25") {
        start_watching();
    }
    let r = std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(scope, || {
                let mut c = Case::new(src, idx, cfg.thorough, verbose);
                watch_this_thread(0);
                tick(0);
                if let Some(t) = &trace {
                    let sh = Shared::open(t, TRACE_WORDS).expect("trace file");
                    TRACE.with(|x| *x.borrow_mut() = Some(sh));
                    c.s.tap = Some(tap);
                }
                let r = run_case(f, &mut c);
                if verbose {
                    for (k, v) in &c.notes {
                        println!("  {}: {}", k, v);
                    }
                }
                r
            })
            .expect("thread")
            .join()
    });
    match r {
        Ok(Ok(())) => 0,
        Ok(Err(why)) => {
            println!("{}", why);
            1
        }
        Err(_) => 2,
    }
}

thread_local! {
    static TRACE: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

fn tap(v: u64) {
    TRACE.with(|t| {
        if let Some(s) = &*t.borrow() {
            let n = s.get(0) as usize;
            if n + 1 < s.len() {
                s.set(n + 1, v);
                s.set(0, n as u64 + 1);
            }
        }
    })
}

fn read_trace(path: &Path, words: usize) -> Vec<u64> {
    let s = Shared::open(path, words).expect("trace file");
    (0..(s.get(0) as usize).min(words - 1)).map(|i| s.get(i + 1)).collect()
}

fn fatal_signal(st: &ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(s @ (4 | 5 | 6 | 7 | 8 | 11)) => Some(s),
        _ => None,
    }
}

fn wait_timeout(mut child: std::process::Child, limit: Duration) -> Option<ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if t0.elapsed() > limit {
            crate::sys::kill_group(child.id());
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_millis(200) { 2 } else { 20 }));
    }
}

/// Starts the worker and turns a crash of it into a reproduced, shrunk violation.
pub fn supervise(cfg: &Cfg, p: &Property) -> i32 {
    let status = status_path(cfg, p.id);
    let _ = std::fs::create_dir_all(cfg.root.join("target"));
    // the instrumented build of this program; a trouble of its own is not an answer
    let instrumented = cfg.root.join("target/guided/release/harness");
    let guided = cfg.only.as_ref().map_or(true, |o| o == "guided") && !matches!(p.id, "C24" | "C25");
    let mut code = 0;
    if guided {
        code = stage(cfg, p, &instrumented, "guided", &status);
        if code > 1 {
            println!("the guided search ended with {}", code);
            code = 0;
        }
    }
    if code == 0 {
        code = stage(cfg, p, &std::env::current_exe().expect("own path"), "worker", &status);
        if let (0, Some(k)) = (code, p.known) {
            k();
        }
    }
    let _ = std::fs::remove_file(status.with_extension("guided"));
    code
}

/// One of the two processes that run cases.
fn stage(cfg: &Cfg, p: &Property, program: &Path, what: &str, status: &Path) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("own path");
    let _ = std::fs::remove_file(status);
    let cleanup = |code: i32| {
        let _ = std::fs::remove_file(status);
        for t in 0..cfg.threads {
            let _ = std::fs::remove_file(guided_trace(status, t));
        }
        code
    };
    let child = match Command::new(program).args([what, p.id]).env("VERIF_STATUS", status).process_group(0).spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("{}: {}", program.display(), e);
            return 2;
        }
    };
    let limit = Duration::from_secs(match (cfg.thorough, what) {
        (true, _) => 3 * 3600 + 900,
        (false, "guided") => 130,
        (false, _) => 600,
    });
    let st = wait_timeout(child, limit);
    match st.and_then(|st| st.code()) {
        Some(0) => return cleanup(0),
        Some(1) => return cleanup(1),
        _ => {}
    }
    let sh = Shared::open(status, cfg.threads * SLOT + 2).expect("status file");
    let mut cands: Vec<(usize, u64, Option<Vec<u64>>)> = (0..cfg.threads)
        .filter(|t| sh.get(t * SLOT + 2) != 0)
        .map(|t| {
            let choices = if sh.get(t * SLOT + 2) == 2 { Some(read_trace(&guided_trace(status, t), GUIDED_WORDS)) } else { None };
            (sh.get(t * SLOT) as usize, sh.get(t * SLOT + 1), choices)
        })
        .collect();
    for t in 0..cfg.threads {
        let _ = std::fs::remove_file(guided_trace(status, t));
    }
    let evals: u64 = (0..cfg.threads).map(|t| sh.get(t * SLOT + 3)).sum();
    cands.sort();
    // a violation that was found counts even if making it small failed
    let found = sh.get(cfg.threads * SLOT);
    let sig = match st {
        None if found == 0 => {
            println!("the worker did not finish in time");
            return cleanup(3);
        }
        Some(st) if found == 0 => match fatal_signal(&st) {
            Some(sig) => {
                println!("the worker died from signal {}; looking for the case", sig);
                sig
            }
            None => {
                println!("the worker ended with {:?}", st);
                return cleanup(st.code().unwrap_or(4));
            }
        },
        _ => {
            println!("the worker found a violation and did not get to report it");
            cands = vec![(found as usize - 1, sh.get(cfg.threads * SLOT + 1), None)];
            0
        }
    };
    let trace = cfg.root.join("target").join(format!("trace-{}-{}", p.id, std::process::id()));
    let choices_file = trace.with_extension("choices");
    let run_one = |fam: usize, idx: u64, choices: Option<&[u64]>, trace: Option<&Path>| -> Option<bool> {
        let mut cmd = Command::new(&exe);
        cmd.args(["one", p.id, &fam.to_string(), &idx.to_string()]);
        if let Some(c) = choices {
            let text: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            std::fs::write(&choices_file, text.join(" ")).expect("choices file");
            cmd.arg("--choices").arg(&choices_file);
        }
        if let Some(t) = trace {
            let _ = std::fs::remove_file(t);
            cmd.arg("--trace").arg(t);
        }
        cmd.stdout(Stdio::null()).stderr(Stdio::null()).process_group(0);
        let st = wait_timeout(cmd.spawn().ok()?, Duration::from_secs(150))?;
        if fatal_signal(&st).is_some() || st.code() == Some(1) {
            Some(true)
        } else {
            Some(false)
        }
    };
    let mut code = 5;
    for (fam, idx, given) in cands {
        if run_one(fam, idx, given.as_deref(), Some(&trace)) != Some(true) {
            continue;
        }
        let mut choices = read_trace(&trace, TRACE_WORDS);
        if !p.families[fam].exhaustive && sig != 0 {
            choices = shrink(choices, Duration::from_secs(90), |c| {
                if run_one(fam, idx, Some(c), None) == Some(true) { Some(c.to_vec()) } else { None }
            });
        }
        let fail = Failure { fam, idx, choices, why: match sig {
            0 => "this case fails".to_string(),
            _ => format!("the process dies from signal {} (or does not return) while running this case", sig),
        } };
        report(cfg, p, &fail, &[]);
        let mut stats: Vec<Stats> = p.families.iter().map(|_| Stats::default()).collect();
        stats[fam].evals = evals;
        stats[fam].cases = idx;
        evidence(cfg, p, &stats, None, vec![], t0.elapsed().as_secs_f64(), 1, false).expect("evidence");
        code = 1;
        break;
    }
    if code != 1 {
        println!("no running case reproduces the crash on its own");
    }
    let _ = std::fs::remove_file(&trace);
    let _ = std::fs::remove_file(&choices_file);
    cleanup(code)
}
