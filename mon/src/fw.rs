//! Framework of the monitoring harness: cases, worker threads, verdicts, evidence, replay.
//!
//! A property consists of groups of cases. Every case runs in a fresh thread with its own deterministic random
//! stream below `rand::thread_rng()`, and ends in one of three ways: held (with what it observed), violated
//! (with a message), or harness error. Nothing here knows about optlib.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use rand::RngCore;
use rand_chacha::ctl;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violated property: a signature (for known findings) and what was observed.
#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type R<X = ()> = Result<X, Viol>;

impl From<String> for Viol {
    fn from(msg: String) -> Self {
        Viol { sig: String::new(), msg }
    }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::fw::Viol::from(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::fw::Viol::from(format!($($a)*))) } };
}

/// Raise a violation from inside a callback of the code under test.
pub fn raise(msg: String) -> ! {
    panic::panic_any(Viol::from(msg))
}

// ---------------------------------------------------------------------------------------------- randomness

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    s.iter().fold(0xcbf2_9ce4_8422_2325, |h: u64, b| (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3))
}
pub fn hash_u64s(s: &[u64]) -> u64 {
    s.iter().fold(0x51ed_270b, |h: u64, b| mix(h ^ *b).rotate_left(7))
}

/// The harness' own generator (never touches `rand`).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    /// `usual`, but now and then a number from lo to hi.
    pub fn rarely(&mut self, usual: usize, lo: usize, hi: usize) -> usize {
        if self.chance(0.02) {
            self.range(lo, hi)
        } else {
            usual
        }
    }
    /// From lo to usual, but now and then up to most.
    pub fn few(&mut self, lo: usize, usual: usize, most: usize) -> usize {
        let n = self.range(lo, usual);
        self.rarely(n, usual + 1, most)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'x, X>(&mut self, xs: &'x [X]) -> &'x X {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.u64())
    }
}

/// Put the stream below `rand::thread_rng()` of this thread at the start of the stream (mode, seed).
pub fn restart(mode: ctl::Mode, seed: u64) {
    let mut rng = rand::thread_rng();
    let before = ctl::blocks();
    let mut n = 0;
    while ctl::blocks() == before {
        rng.next_u32();
        n += 1;
        assert!(n < 1000, "the controlled random source is not in use");
    }
    for _ in 1..ctl::BLOCK {
        rng.next_u32();
    }
    ctl::set(mode, seed);
}

/// A random stream: mostly honest, sometimes spiced with extreme words.
pub fn any_mode(r: &mut Rng) -> ctl::Mode {
    match r.below(4) {
        0 => ctl::Mode::Mixed { per_256: *r.pick(&[8, 32, 128]) },
        _ => ctl::Mode::Honest,
    }
}

// ---------------------------------------------------------------------------------------------------- cases

pub struct Case {
    pub rng: Rng,
    pub tier: Tier,
    pub index: u64,
    pub evals: u64,
    obs: BTreeMap<String, u64>,
    fps: Vec<u64>,
    desc: String,
    known: Vec<Viol>,
}

thread_local!(static LONG: std::cell::Cell<bool> = std::cell::Cell::new(false));
/// Configurations and limits made in here are for runs of hundreds of iterations with few agents.
pub fn at_length(case: &mut Case, f: fn(&mut Case) -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LONG.with(|l| l.set(false))
        }
    }
    let _off = Off;
    LONG.with(|l| l.set(true));
    f(case)
}
pub fn lengthy() -> bool {
    LONG.with(|l| l.get())
}
/// The last iteration of a long run.
pub fn long_span(r: &mut Rng) -> usize {
    *r.pick(&[70, 105, 130, 130, 200, 260, 260, 300, 520, 1030]) + r.below(8)
}
thread_local!(static COUNT: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None));
/// While it lives, the start of a run may have another number of agents than configured.
pub struct Agents;
impl Agents {
    pub fn set(&self, n: Option<usize>) {
        COUNT.with(|c| c.set(n))
    }
}
impl Drop for Agents {
    fn drop(&mut self) {
        self.set(None)
    }
}
pub fn resized<T: Clone>(mut v: Vec<T>) -> Vec<T> {
    if let Some(n) = COUNT.with(|c| c.get()) {
        let first = v.first().cloned();
        v.truncate(n);
        if let Some(x) = first {
            v.resize(n, x);
        }
    }
    v
}
thread_local!(static DESC: RefCell<String> = RefCell::new(String::new()));

impl Case {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Count something observed.
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.obs.entry(name.to_string()).or_insert(0) += n;
        }
    }
    /// This case (or one input of it) was not trivial; `fp` identifies what was seen.
    pub fn nontrivial(&mut self, fp: u64) {
        self.fps.push(fp);
    }
    /// Describe the case (for samples and replay files).
    pub fn describe(&mut self, s: String) {
        DESC.with(|d| *d.borrow_mut() = s.clone());
        self.desc = s;
    }
    /// Honest stream for this case, derived from its generator.
    pub fn honest(&mut self) -> u64 {
        let s = self.rng.u64();
        restart(ctl::Mode::Honest, s);
        s
    }
    pub fn any_stream(&mut self) -> (ctl::Mode, u64) {
        let m = any_mode(&mut self.rng);
        let s = self.rng.u64();
        restart(m, s);
        (m, s)
    }
    /// A violation that must not stop the case because it may be a listed finding.
    pub fn finding(&mut self, sig: &str, msg: String) {
        if !self.known.iter().any(|v| v.sig == sig) {
            self.known.push(Viol { sig: sig.to_string(), msg });
        }
    }
}

pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub groups: Vec<Group>,
    /// Counters that have to be reached, else the run is inconclusive.
    pub need: Vec<(&'static str, u64)>,
    /// Group, counter, counter of the total, lowest acceptable ratio: judged over the whole check.
    pub rates: Vec<(&'static str, String, String, f64)>,
    pub assumptions: Vec<&'static str>,
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub verif: String,
    pub scale: f64,
    pub write: bool,
}

enum End {
    Held,
    Violated(Viol),
    Harness(String),
}

thread_local!(static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None));

/// Where the last caught panic of this thread happened, and what it said.
pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let m = msg.clone();
        let l = loc.clone();
        let known = PANIC.try_with(|p| *p.borrow_mut() = Some((l, m))).is_ok();
        if !known || std::env::var_os("MON_TRACE").is_some() {
            eprintln!("panic at {}: {}", loc, msg);
        }
        if msg.contains("unsafe precondition") {
            eprintln!("CRASH {} {}", loc, msg);
        }
    }));
}

/// True for a panic location in the harness itself (its files are compiled with paths relative to the crate).
pub fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/")
}

/// Run `f`; a panic of the code under test is a violation, one of the harness is passed on.
pub fn guarded<X>(f: impl FnOnce() -> X) -> R<X> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(payload) => {
            if let Some(v) = payload.downcast_ref::<Viol>() {
                return Err(v.clone());
            }
            let (loc, msg) = last_panic().unwrap_or_default();
            if in_harness(&loc) {
                PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
                panic::resume_unwind(payload)
            }
            Err(Viol::from(format!("panic at {}: {}", loc, msg)))
        }
    }
}

fn run_case(prop: &'static str, g: &Group, index: u64, opts: &Opts) -> (End, Case) {
    let seed = hash_u64s(&[opts.seed, hash_bytes(prop.as_bytes()), hash_bytes(g.name.as_bytes()), index]);
    let mut case = Case {
        rng: Rng(seed),
        tier: opts.tier,
        index,
        evals: 0,
        obs: BTreeMap::new(),
        fps: vec![],
        desc: String::new(),
        known: vec![],
    };
    ctl::set(ctl::Mode::Honest, mix(seed));
    let f = g.run;
    let end = match panic::catch_unwind(AssertUnwindSafe(|| f(&mut case))) {
        Ok(Ok(())) => End::Held,
        Ok(Err(v)) => End::Violated(v),
        Err(payload) => {
            if let Some(v) = payload.downcast_ref::<Viol>() {
                End::Violated(v.clone())
            } else {
                let (loc, msg) = last_panic().unwrap_or_default();
                if in_harness(&loc) || loc.is_empty() {
                    End::Harness(format!("harness panic at {}: {}", loc, msg))
                } else {
                    End::Violated(Viol::from(format!("panic at {}: {}", loc, msg)))
                }
            }
        }
    };
    if case.desc.is_empty() {
        case.desc = DESC.with(|d| d.borrow().clone());
    }
    if case.evals == 0 {
        case.evals = 1;
    }
    (end, case)
}

#[derive(Default)]
struct Agg {
    evals: u64,
    cases: BTreeMap<String, u64>,
    spent: BTreeMap<String, f64>,
    obs: BTreeMap<String, u64>,
    fps: HashSet<u64>,
    samples: BTreeMap<(String, u64), String>,
    viols: Vec<(usize, String, u64, Viol, String)>,
    known: BTreeMap<String, (String, u64)>,
    harness: Vec<String>,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(verif: &str, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    let head = format!("known: property={} sig=", id);
    text.lines().filter_map(|l| l.strip_prefix(&head)).map(|l| l.split_whitespace().next().unwrap_or("").to_string()).collect()
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    } else {
        s.to_string()
    }
}

/// A single case that takes longer than this is taken for endless.
const STUCK: Duration = Duration::from_secs(150);

/// Run a property; the exit status of the check.
pub fn run(prop: Prop, opts: &Opts) -> i32 {
    let t0 = Instant::now();
    // Interleave the groups so that a truncated run still covers all of them.
    let mut list: Vec<(usize, u64, f64)> = vec![];
    for (gi, g) in prop.groups.iter().enumerate() {
        let base = if opts.tier == Tier::Quick { g.quick } else { g.thorough };
        let n = ((base as f64 * opts.scale).ceil() as u64).max(1);
        match &opts.only {
            Some((name, i)) => {
                if name == g.name {
                    list.push((gi, *i, 0.0))
                }
            }
            None => {
                for i in 0..n {
                    list.push((gi, i, (i as f64 + 0.5) / n as f64));
                }
            }
        }
    }
    list.sort_by(|a, b| a.2.partial_cmp(&b.2).unwrap().then(a.0.cmp(&b.0)));
    if list.is_empty() {
        eprintln!("nothing to run");
        return 2;
    }
    let soft = Duration::from_secs(if opts.tier == Tier::Quick { 240 } else { 780 });
    let hard = Duration::from_secs(if opts.tier == Tier::Quick { 600 } else { 870 });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let skipped = AtomicU64::new(0);
    let agg = Mutex::new(Agg::default());
    let done = AtomicBool::new(false);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let listed = known_findings(&opts.verif, prop.id);
    let running: Vec<Mutex<Option<(String, u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let id = prop.id;
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                // The cases take milliseconds, the longest ones seconds: the code under test does not come to an end.
                let stuck = running.iter().find_map(|m| m.lock().ok().and_then(|x| x.clone()).filter(|x| x.2.elapsed() > STUCK));
                if let Some((g, i, _)) = stuck {
                    let mut a = Agg::default();
                    let v = Viol::from(format!("the case does not finish within {:?}", STUCK));
                    a.viols.push((0, g, i, v, "see the replay".to_string()));
                    report(id, opts, &a);
                    std::process::exit(1);
                }
                if t0.elapsed() > hard {
                    let what: Vec<_> = running.iter().filter_map(|m| m.lock().ok().and_then(|x| x.clone())).map(|x| (x.0, x.1)).collect();
                    println!("INCONCLUSIVE property={} watchdog after {:?}; running: {:?}", id, hard, what);
                    // A violation found before something else got stuck still counts.
                    if let Ok(a) = agg.try_lock() {
                        if !a.viols.is_empty() {
                            report(id, opts, &a);
                            std::process::exit(1);
                        }
                    }
                    std::process::exit(2);
                }
            }
        });
        let workers: Vec<_> = (0..threads)
            .map(|w| {
                let (next, stop, skipped, agg, list, groups, listed, running) =
                    (&next, &stop, &skipped, &agg, &list, &prop.groups, &listed, &running);
                s.spawn(move || loop {
                    if stop.load(Ordering::SeqCst) {
                        return;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= list.len() {
                        return;
                    }
                    if t0.elapsed() > soft {
                        skipped.fetch_add(1, Ordering::SeqCst);
                        continue;
                    }
                    let (gi, index, _) = list[k];
                    let g = &groups[gi];
                    *running[w].lock().unwrap() = Some((g.name.to_string(), index, Instant::now()));
                    let t1 = Instant::now();
                    let (end, case) = std::thread::scope(|s2| {
                        s2.spawn(move || {
                            let r = run_case(id, g, index, opts);
                            // optlib and monitors must be gone before the thread's locals are
                            r
                        })
                        .join()
                        .expect("case thread")
                    });
                    *running[w].lock().unwrap() = None;
                    let mut a = agg.lock().unwrap();
                    a.evals += case.evals;
                    *a.cases.entry(g.name.to_string()).or_insert(0) += 1;
                    *a.spent.entry(g.name.to_string()).or_insert(0.0) += t1.elapsed().as_secs_f64();
                    for (k, v) in &case.obs {
                        *a.obs.entry(k.clone()).or_insert(0) += v;
                    }
                    a.fps.extend(case.fps.iter().copied());
                    if !case.desc.is_empty() && index < 2 {
                        a.samples.insert((g.name.to_string(), index), cut(&case.desc, 600));
                    }
                    let mut found: Vec<Viol> = case.known.clone();
                    match end {
                        End::Held => {}
                        End::Violated(v) => found.push(v),
                        End::Harness(m) => {
                            let m = format!("{} [{}:{}] {}", m, g.name, index, case.desc);
                            a.harness.push(m);
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    for v in found {
                        if !v.sig.is_empty() && listed.contains(&v.sig) {
                            let e = a.known.entry(v.sig.clone()).or_insert((v.msg.clone(), 0));
                            e.1 += 1;
                        } else {
                            a.viols.push((k, g.name.to_string(), index, v, case.desc.clone()));
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut a = agg.into_inner().unwrap();
    a.viols.sort_by_key(|v| v.0);
    let skipped = skipped.into_inner();
    let wall = t0.elapsed().as_secs_f64();
    for (sig, (msg, n)) in &a.known {
        println!("KNOWN-FINDING: property={} {} ({} occurrences) {}", id, sig, n, cut(msg, 300));
    }
    if opts.only.is_none() && a.viols.is_empty() && a.harness.is_empty() {
        for (group, good, total, min) in &prop.rates {
            let get = |k: &String| a.obs.get(k).copied().unwrap_or(0);
            let (g, t) = (get(good), get(total));
            // the bounds are chosen for samples of this size
            if t >= 24 && (g as f64) < min * t as f64 {
                let msg = format!("{}: {} of {} runs, at least {} of them expected", good, g, t, min);
                a.viols.push((usize::MAX, group.to_string(), u64::MAX, Viol::from(msg), String::new()));
            }
        }
    }
    let mut lacking = vec![];
    if opts.only.is_none() && a.viols.is_empty() {
        for (name, min) in &prop.need {
            let got = a.obs.get(*name).copied().unwrap_or(0);
            let min = (*min as f64 * opts.scale.min(1.0)) as u64;
            if got < min {
                lacking.push(format!("{}: {} < {}", name, got, min));
            }
        }
    }
    if opts.write && opts.only.is_none() {
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            jstr(id),
            jstr(if opts.tier == Tier::Quick { "quick" } else { "thorough" }),
            opts.seed,
            a.evals,
            a.fps.len(),
            jstr(prop.rule)
        );
        let samples: Vec<String> = a.samples.iter().map(|((g, i), d)| jstr(&format!("{}:{} {}", g, i, d))).collect();
        let _ = write!(j, "  \"samples\": [{}],\n", samples.join(",\n   "));
        let cases: Vec<String> = a.cases.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let _ = write!(j, "  \"cases_per_group\": {{{}}},\n  \"cases_skipped_for_time\": {},\n", cases.join(", "), skipped);
        let obs: Vec<String> = a.obs.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let _ = write!(j, "  \"observed\": {{{}}}\n }},\n", obs.join(", "));
        let ass: Vec<String> = prop.assumptions.iter().map(|s| jstr(s)).collect();
        let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n", ass.join(", "), wall, a.viols.len());
        let _ = std::fs::create_dir_all(format!("{}/evidence", opts.verif));
        if std::fs::write(format!("{}/evidence/{}.json", opts.verif, id), j).is_err() {
            println!("cannot write evidence");
            return 2;
        }
    }
    let obs: Vec<String> = a.obs.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!("{}: evaluations={} distinct={} {} wall={:.1}s", id, a.evals, a.fps.len(), obs.join(" "), wall);
    if std::env::var_os("MON_SHOW").is_some() {
        for (g, t) in &a.spent {
            println!("  group {}: {} cases, {:.2} thread seconds", g, a.cases[g], t);
        }
    }
    if !a.viols.is_empty() {
        report(id, opts, &a);
        return 1;
    }
    if !a.harness.is_empty() {
        println!("HARNESS ERROR property={} {}", id, a.harness[0]);
        return 2;
    }
    if !lacking.is_empty() {
        println!("INCONCLUSIVE property={} too little observed: {}", id, lacking.join("; "));
        return 2;
    }
    0
}

fn report(id: &str, opts: &Opts, a: &Agg) {
    let (_, g, i, v, desc) = &a.viols[0];
    let _ = std::fs::create_dir_all(format!("{}/replay", opts.verif));
    let whole = *i == u64::MAX;
    let case = if whole { format!("{}-all", g) } else { format!("{}-{}", g, i) };
    let only = if whole { String::new() } else { format!(" --only {}:{}", g, i) };
    let path = format!("{}/replay/{}-{}-{}.txt", opts.verif, id, case, opts.seed);
    let tier = if opts.tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = std::fs::write(
        &path,
        format!(
            "property {}\n{}\n\ncase {}\n{}\n\nreplay: {}/tools/check.sh {} --tier {} --seed {}{}\n",
            id, v.msg, case, desc, opts.verif, id, tier, opts.seed, only
        ),
    );
    println!("{}", cut(&v.msg, 1500));
    println!("case {} {}", case, cut(desc, 1000));
    println!("VIOLATION property={} replay={}", id, path);
}
