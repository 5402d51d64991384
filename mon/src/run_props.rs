//! Whole runs: robustness against hostile goals (C26), isolation of parallel runs (C27), and what the standard
//! configurations achieve (C30).
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::ga_props::first_diff;
use crate::pso::*;
use crate::{ensure, fail};
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::{ParticleSwarmOptimizer, VelocityCalculator};
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::{Goal, GoalFromFunction, IterativeOptimizer, Optimizer};
use rand_chacha::ctl;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

macro_rules! both {
    ($name:ident, $gen:ident) => {
        pub fn $name(case: &mut Case) -> R {
            if case.index % 2 == 0 {
                $gen::<f64>(case)
            } else {
                $gen::<f32>(case)
            }
        }
    };
}

// ------------------------------------------------------------------------------------------------------ C26

/// A goal made of segments: it changes its character after some calls.
struct Turncoat {
    kinds: Vec<(u64, GoalKind)>,
    calls: u64,
    cap: u64,
}
impl Turncoat {
    fn random(r: &mut Rng, cap: u64) -> Turncoat {
        let mut at = 0;
        let mut kinds = vec![];
        for _ in 0..r.range(1, 3) {
            kinds.push((at, GoalKind::any(r)));
            at += r.range(1, 300) as u64;
        }
        Turncoat { kinds, calls: 0, cap }
    }
    fn value(&mut self, k: &[u64], c: &[f64]) -> f64 {
        let n = self.calls;
        self.calls += 1;
        if n > self.cap {
            raise(format!("more than {} goal calls: the run goes on without end", self.cap));
        }
        let kind = self.kinds.iter().rev().find(|x| x.0 <= n).map(|x| x.1.clone()).unwrap_or(GoalKind::AllNan);
        kind.eval(k, c, n)
    }
}
impl<F: Fl> Goal<Vec<F>> for Turncoat {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let c: Vec<f64> = x.iter().map(|v| v.f()).collect();
        self.value(&key(x), &c)
    }
}
struct Sink(u64);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// How a history goes on: new runs and resumptions with growing limits.
fn plan(r: &mut Rng) -> Vec<(bool, usize)> {
    let mut limit = r.below(8);
    let mut p = vec![(true, limit)];
    for _ in 0..r.few(0, 3, 12) {
        if r.chance(0.3) {
            limit = r.below(8);
            p.push((true, limit));
        } else {
            limit += r.few(0, 5, 60);
            p.push((false, limit));
        }
    }
    p
}
fn hostile_stop<T: 'static>(r: &mut Rng, cell: &Rc<Cell<usize>>) -> Box<dyn StopChecker<T>> {
    let bound: Box<dyn StopChecker<T>> = Box::new(StopAt(cell.clone()));
    let mut v = vec![bound];
    for _ in 0..r.below(3) {
        v.push(StopK::random(r, 20).build());
    }
    Box::new(CompositeAny::new(v))
}
/// Everything the shipped statistics can be asked.
fn ask<F: Fl>(s: &Statistics<Vec<F>>, dim: usize) -> usize {
    let res = s.get_results();
    let n = s.get_run_count();
    let _ = (res.get_average_goal(), res.get_standard_deviation_goal());
    let _ = res.get_success_rate(get_predicate_success_goal(0.0, 1.0));
    let valid = vec![F::zero(); dim];
    let _ = res.get_success_rate(get_predicate_success_vec_solution(valid.clone(), valid));
    let _ = s.get_convergence().get_average_convergence();
    n
}
fn finish(case: &mut Case, writes: u64, iterations: u64, calls: u64, nones: u64, fp: u64) {
    case.count("goal_calls", calls);
    case.count("log_bytes", writes);
    case.count("iterations", iterations);
    case.count("runs_without_solution", nones);
    if calls > 3 {
        case.nontrivial(fp);
    }
}
fn c26_ga_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = VecCfg::<F>::random(&mut case.rng, 1);
    let r = &mut case.rng;
    // also unusual but valid arrangements: no selections, several limits, limits of zero, any order
    match r.below(6) {
        0 => cfg.sels.clear(),
        1 => cfg.sels.push(SelK::Limit(r.below(3))),
        2 => {
            cfg.sels.push(SelK::Finite);
            r.shuffle(&mut cfg.sels);
        }
        _ => {}
    }
    if cfg.sels.is_empty() {
        cfg.pop = cfg.pop.min(6);
        cfg.pair = PairK::Tournament(3, 1);
    }
    let goal = Turncoat::random(r, 1_000_000);
    let steps = plan(r);
    let cell = Rc::new(Cell::new(0));
    let stop = hostile_stop::<Vec<F>>(r, &cell);
    case.describe(format!("{} plan {:?} goals {:?}", cfg.show(), steps, goal.kinds));
    let (_, seed) = case.any_stream();
    let (mut a, mut b, mut c) = (Sink(0), Sink(0), Sink(0));
    let mut stat = Statistics::new();
    let mut calls = CallCountData::new();
    let mut goal = goal;
    let prec = case.rng.below(20);
    let mut nones = 0;
    let (mut fresh_runs, mut with_loggers) = (0, 0u32);
    {
        let counted = GoalCalcStatistics::new(&mut goal, &mut calls);
        let mut o = GeneticOptimizer::new(
            Box::new(counted),
            stop,
            Box::new(creation::vec_float::RandomCreator::new(cfg.pop, cfg.iv.clone())),
            cfg.pairing(),
            cfg.crossing(),
            cfg.mutation(),
            cfg.selections(),
            cfg.pre_births(),
        );
        let loggers: Vec<Box<dyn Logger<Vec<F>> + '_>> = vec![
            Box::new(VerboseLogger::new(&mut a, prec)),
            Box::new(ResultOnlyLogger::new(&mut b, prec)),
            Box::new(TimeLogger::new(&mut c)),
            Box::new(StatisticsLogger::new(&mut stat)),
        ];
        if case.rng.chance(0.8) {
            o.set_loggers(loggers);
            with_loggers = 1;
        }
        for (fresh, limit) in &steps {
            cell.set(*limit);
            fresh_runs += u64::from(*fresh);
            let s = guarded(|| if *fresh { o.find_min() } else { o.next_iterations() })?;
            if let Some((x, _)) = &s {
                ensure!(x.len() == cfg.iv.len(), "the solution {:?} has {} components instead of {}", x, x.len(), cfg.iv.len());
            } else {
                nones += 1
            }
        }
    }
    let n = guarded(|| ask(&stat, cfg.iv.len()))?;
    ensure!(with_loggers == 0 || n as u64 == fresh_runs, "{} runs recorded instead of {}", n, fresh_runs);
    let iterations: usize = stat.get_convergence().iter().map(|c| c.len()).sum();
    finish(case, a.0 + b.0 + c.0, iterations as u64, goal.calls, nones, mix(seed));
    Ok(())
}
both!(c26_ga, c26_ga_t);

fn c26_pso_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 1);
    // a swarm of nobody
    if case.rng.chance(0.04) {
        cfg.n = 0;
        case.count("empty_swarms", 1);
    }
    // velocities that run away: huge factors now and then
    if case.rng.chance(0.15) {
        cfg.vel = VelK::Classic(1e30, 1e30);
    }
    if case.rng.chance(0.1) {
        cfg.pvs = vec![PvK::Abs(*case.rng.pick(&[0.0, 1e-30, 1e30]))];
    }
    cfg.pvs.retain(|p| !matches!(p, PvK::Scale(_)));
    cfg.pms.retain(|p| !matches!(p, PmK::Shift(_)));
    let mut goal = Turncoat::random(&mut case.rng, 1_000_000);
    let steps = plan(&mut case.rng);
    let cell = Rc::new(Cell::new(0));
    let stop = hostile_stop::<Vec<F>>(&mut case.rng, &cell);
    case.describe(format!("{} plan {:?} goals {:?}", cfg.show(), steps, goal.kinds));
    let (_, seed) = case.any_stream();
    let (mut a, mut b, mut c) = (Sink(0), Sink(0), Sink(0));
    let mut stat = Statistics::new();
    let mut calls = CallCountData::new();
    let prec = case.rng.below(20);
    let l = cfg.logs();
    let mut nones = 0;
    let (mut fresh_runs, mut with_loggers) = (0u64, 0u32);
    {
        let counted = GoalCalcStatistics::new(&mut goal, &mut calls);
        let mut o = ParticleSwarmOptimizer::new(Box::new(counted), stop, cfg.coords(), cfg.vels(), cfg.vel.build());
        o.set_post_velocity_calc(cfg.post_vels(&l, 0));
        o.set_post_moves(cfg.post_moves(&l, 0));
        let loggers: Vec<Box<dyn Logger<Vec<F>> + '_>> = vec![
            Box::new(VerboseLogger::new(&mut a, prec)),
            Box::new(ResultOnlyLogger::new(&mut b, prec)),
            Box::new(TimeLogger::new(&mut c)),
            Box::new(StatisticsLogger::new(&mut stat)),
        ];
        if case.rng.chance(0.8) {
            o.set_loggers(loggers);
            with_loggers = 1;
        }
        for (fresh, limit) in &steps {
            cell.set(*limit);
            fresh_runs += u64::from(*fresh);
            let s = guarded(|| if *fresh { o.find_min() } else { o.next_iterations() })?;
            match &s {
                Some((x, _)) => ensure!(x.len() == cfg.iv.len(), "the solution {:?} has {} components instead of {}", x, x.len(), cfg.iv.len()),
                None => nones += 1,
            }
        }
    }
    let n = guarded(|| ask(&stat, cfg.iv.len()))?;
    ensure!(with_loggers == 0 || n as u64 == fresh_runs, "{} runs recorded instead of {}", n, fresh_runs);
    let iterations: usize = stat.get_convergence().iter().map(|c| c.len()).sum();
    finish(case, a.0 + b.0 + c.0, iterations as u64, goal.calls, nones, mix(seed));
    Ok(())
}
both!(c26_pso, c26_pso_t);

// ------------------------------------------------------------------------------------------------------ C27

fn diverging<F: Fl>(r: &mut Rng) -> PsoCfg<F> {
    let mut c = PsoCfg::random(r, 1);
    c.diverge(r, 0.08);
    c
}

/// One run as data, so that it can be executed in any thread.
#[derive(Clone, Debug)]
enum Job {
    Ga64(VecCfg<f64>),
    Ga32(VecCfg<f32>),
    Pso64(PsoCfg<f64>),
    Pso32(PsoCfg<f32>),
}
#[derive(Clone, Debug)]
struct Task {
    job: Job,
    seed: u64,
    /// Seed of the injected delays (0: none).
    delays: u64,
    /// Where the run is paused and resumed.
    pause: Option<usize>,
    end: usize,
}
impl Task {
    fn random(r: &mut Rng) -> Task {
        let job = match r.below(4) {
            0 => Job::Ga64(VecCfg::random(r, 1)),
            1 => Job::Ga32(VecCfg::random(r, 1)),
            2 => Job::Pso64(diverging(r)),
            _ => Job::Pso32(diverging(r)),
        };
        let end = r.range(1, 7);
        Task { job, seed: r.u64(), delays: 0, pause: if r.chance(0.4) { Some(r.below(end)) } else { None }, end }
    }
}
/// Order in which the threads evaluated (thread numbers), for the evidence.
static CLOCK: AtomicU64 = AtomicU64::new(0);

struct Hook<'h> {
    rng: Rng,
    on: bool,
    stamps: &'h Mutex<Vec<(u64, u64)>>,
    local: Vec<u64>,
    me: u64,
    nest: Option<Nest>,
}
/// Every `every`-th goal call runs other optimizers, or only restarts the random stream as it is after them.
struct Nest {
    every: u64,
    calls: u64,
    seed: u64,
    inner: Rc<Vec<Task>>,
    really: bool,
    logs: Rc<RefCell<Vec<(usize, Vec<String>)>>>,
}
impl Nest {
    fn tick(&mut self, stamps: &Mutex<Vec<(u64, u64)>>) {
        self.calls += 1;
        if self.calls % self.every != 0 || self.calls > 20 * self.every {
            return;
        }
        if self.really {
            let k = (self.calls / self.every) as usize % self.inner.len();
            let (log, _) = execute(&self.inner[k], stamps, 0).unwrap_or_else(|v| std::panic::panic_any(v));
            self.logs.borrow_mut().push((k, log));
        }
        restart(ctl::Mode::Honest, mix(self.seed ^ self.calls));
    }
}
impl Hook<'_> {
    fn tick(&mut self) {
        if let Some(n) = &mut self.nest {
            n.tick(self.stamps);
        }
        if !self.on {
            return;
        }
        self.local.push(CLOCK.fetch_add(1, Ordering::SeqCst));
        match self.rng.below(40) {
            0..=5 => std::thread::yield_now(),
            6 => std::thread::sleep(Duration::from_micros(self.rng.below(60) as u64)),
            7..=10 => {
                for _ in 0..self.rng.below(2000) {
                    std::hint::spin_loop()
                }
            }
            _ => {}
        }
    }
}
impl Drop for Hook<'_> {
    fn drop(&mut self) {
        if let Ok(mut s) = self.stamps.lock() {
            s.extend(self.local.iter().map(|t| (*t, self.me)));
        }
    }
}
struct DelayGa<'h, F: Fl>(Box<MGoal<Vec<F>>>, Hook<'h>);
impl<F: Fl> Goal<Vec<F>> for DelayGa<'_, F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        self.1.tick();
        self.0.get(x)
    }
}
struct DelayPso<'h, F: Fl>(Box<PGoal<F>>, Hook<'h>);
impl<F: Fl> Goal<Vec<F>> for DelayPso<'_, F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        self.1.tick();
        self.0.get(x)
    }
}
fn ga_job<F: Fl>(cfg: &VecCfg<F>, t: &Task, hook: Hook) -> Vec<String> {
    let log = cfg.log();
    let cell = Rc::new(Cell::new(0));
    let goal = DelayGa(float_goal::<F>(&log, cfg.goal.clone()), hook);
    let w = |b: Box<dyn StopChecker<Vec<F>>>| MStop::new(&log, 0, b);
    let mut o = GeneticOptimizer::new(
        Box::new(goal),
        w(Box::new(StopAt(cell.clone()))),
        MCreator::new(&log, 0, Box::new(creation::vec_float::RandomCreator::new(cfg.pop, cfg.iv.clone()))),
        MPairing::new(&log, 0, cfg.pairing()),
        MCross::new(&log, 0, cfg.crossing()),
        MMut::new(&log, 0, cfg.mutation()),
        cfg.selections().into_iter().enumerate().map(|(i, s)| MSel::new(&log, i as u32, s) as Box<dyn Selection<Vec<F>>>).collect(),
        cfg.pre_births().into_iter().enumerate().map(|(i, s)| MPre::new(&log, i as u32, s) as Box<dyn PreBirth<Vec<F>>>).collect(),
    );
    o.set_loggers(vec![Box::new(MLogger { tag: 0, log: log.clone() })]);
    cell.set(t.pause.unwrap_or(t.end));
    find_min(&mut o, &log);
    if t.pause.is_some() {
        cell.set(t.end);
        next_iters(&mut o, &log);
    }
    drop(o);
    take(&log).iter().map(|e| format!("{:x?}", e)).collect()
}
fn pso_job<F: Fl>(cfg: &PsoCfg<F>, t: &Task, hook: Hook) -> Vec<String> {
    let l = cfg.logs();
    let cell = Rc::new(Cell::new(0));
    let goal = DelayPso(pgoal::<F>(&l, cfg.goal.clone()), hook);
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(goal),
        Box::new(PStop { tag: 0, l: l.clone(), inner: Box::new(StopAt(cell.clone())) }),
        PCoords::new(&l, 0, cfg.coords()),
        PVels::new(&l, 0, cfg.vels()),
        PCalc::new(&l, 0, cfg.vel.build()),
    );
    o.set_post_velocity_calc(cfg.post_vels(&l, 0));
    o.set_post_moves(cfg.post_moves(&l, 0));
    o.set_loggers(cfg.loggers(&l, 0, 1));
    cell.set(t.pause.unwrap_or(t.end));
    pfind(&mut o, &l);
    if t.pause.is_some() {
        cell.set(t.end);
        pnext(&mut o, &l);
    }
    drop(o);
    l.take().iter().map(|e| format!("{:x?}", e)).collect()
}
fn execute(t: &Task, stamps: &Mutex<Vec<(u64, u64)>>, me: u64) -> R<(Vec<String>, u64)> {
    execute_with(t, stamps, me, None)
}
fn execute_with(t: &Task, stamps: &Mutex<Vec<(u64, u64)>>, me: u64, nest: Option<Nest>) -> R<(Vec<String>, u64)> {
    restart(ctl::Mode::Honest, t.seed);
    let hook = Hook { rng: Rng(t.delays), on: t.delays != 0, stamps, local: vec![], me, nest };
    let ev = guarded(|| match &t.job {
        Job::Ga64(c) => ga_job(c, t, hook),
        Job::Ga32(c) => ga_job(c, t, hook),
        Job::Pso64(c) => pso_job(c, t, hook),
        Job::Pso32(c) => pso_job(c, t, hook),
    })?;
    Ok((ev, ctl::words()))
}
fn alone(t: &Task, stamps: &Mutex<Vec<(u64, u64)>>) -> R<(Vec<String>, u64)> {
    std::thread::scope(|s| s.spawn(|| execute(t, stamps, 0)).join().expect("run thread"))
}
/// Every run alone in a fresh thread; then all of them at once; then alone again.
pub fn c27(case: &mut Case) -> R {
    let n = case.rng.range(2, 6);
    let mut tasks: Vec<Task> = (0..n).map(|_| Task::random(&mut case.rng)).collect();
    // now and then the same run several times at once, or twice after each other in one thread
    if case.rng.chance(0.3) {
        let t = tasks[0].clone();
        for k in 1..n {
            if case.rng.chance(0.5) {
                tasks[k] = t.clone();
            }
        }
    }
    let repeat = case.rng.range(1, 3);
    case.describe(format!("{} threads, {} runs each: {:?}", n, repeat, tasks));
    let stamps = Mutex::new(vec![]);
    let mut base = vec![];
    for t in &tasks {
        base.push(alone(t, &stamps)?);
    }
    let delayed: Vec<Task> = tasks.iter().map(|t| Task { delays: case.rng.u64() | 1, ..t.clone() }).collect();
    let barrier = Barrier::new(n);
    let start: u64 = CLOCK.load(Ordering::SeqCst);
    let results: Vec<R<Vec<(Vec<String>, u64)>>> = std::thread::scope(|s| {
        let hs: Vec<_> = delayed
            .iter()
            .enumerate()
            .map(|(me, t)| {
                let (barrier, stamps) = (&barrier, &stamps);
                s.spawn(move || {
                    barrier.wait();
                    let mut out = vec![];
                    for _ in 0..repeat {
                        out.push(execute(t, stamps, me as u64)?);
                    }
                    Ok(out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("run thread")).collect()
    });
    let mut events = 0u64;
    for (k, r) in results.into_iter().enumerate() {
        for (ev, words) in r? {
            if let Some(d) = first_diff(&ev, &base[k].0) {
                fail!("run {} in parallel <> alone: {}", k, d);
            }
            ensure!(words == base[k].1, "run {} drew {} random words in parallel and {} alone", k, words, base[k].1);
            events += ev.len() as u64;
        }
    }
    for (k, t) in tasks.iter().enumerate() {
        let again = alone(t, &stamps)?;
        if let Some(d) = first_diff(&again.0, &base[k].0) {
            fail!("run {} alone after the parallel runs <> alone before: {}", k, d);
        }
    }
    let mut order = stamps.into_inner().unwrap_or_default();
    order.retain(|x| x.0 >= start);
    order.sort();
    let switches = order.windows(2).filter(|w| w[0].1 != w[1].1).count() as u64;
    case.count("parallel_events_compared", events);
    case.count("thread_switches", switches);
    case.evals += (n * repeat) as u64;
    if switches > 2 {
        case.nontrivial(hash_u64s(&order.iter().map(|x| x.1).collect::<Vec<_>>()) ^ tasks[0].seed);
    }
    Ok(())
}
/// A goal function that itself runs optimizers (as a search for good parameters does).
pub fn c27_nested(case: &mut Case) -> R {
    let outer = Task::random(&mut case.rng);
    let mut inner: Vec<Task> = (0..case.rng.range(1, 3)).map(|_| Task::random(&mut case.rng)).collect();
    if case.rng.chance(0.3) {
        // the same kind of run inside
        inner[0] = Task { seed: case.rng.u64(), ..outer.clone() };
    }
    let (every, seed) = (case.rng.range(1, 12) as u64, case.rng.u64());
    case.describe(format!("every {}-th goal call of {:?} runs one of {:?}", every, outer, inner));
    let stamps = Mutex::new(vec![]);
    let mut base = vec![];
    for t in &inner {
        base.push(alone(t, &stamps)?.0);
    }
    let inner = Rc::new(inner);
    let logs = Rc::new(RefCell::new(vec![]));
    let mut both = vec![];
    for really in [false, true] {
        let nest = Nest { every, calls: 0, seed, inner: inner.clone(), really, logs: logs.clone() };
        both.push(execute_with(&outer, &stamps, 0, Some(nest))?.0);
    }
    if let Some(d) = first_diff(&both[1], &both[0]) {
        fail!("a run whose goal runs other optimizers <> the same run without them: {}", d);
    }
    for (k, log) in logs.borrow().iter() {
        if let Some(d) = first_diff(log, &base[*k]) {
            fail!("a run inside the goal of another one <> alone: {}", d);
        }
    }
    let n = logs.borrow().len() as u64;
    case.count("runs_inside_goals", n);
    if n > 0 {
        case.nontrivial(hash_u64s(&[seed, n, both[0].len() as u64]));
    }
    Ok(())
}
/// Optimizers taking turns in one thread: pieces of several runs one after another.
fn c27_turns_t<F: Fl>(case: &mut Case) -> R {
    let n = case.rng.range(2, 4);
    struct Run<F> {
        ga: bool,
        g: VecCfg<F>,
        p: PsoCfg<F>,
        pieces: Vec<(usize, u64)>,
    }
    let mut runs: Vec<Run<F>> = vec![];
    for _ in 0..n {
        let mut at = case.rng.below(3);
        let mut pieces = vec![(at, case.rng.u64())];
        for _ in 0..case.rng.range(1, 3) {
            at += case.rng.below(3);
            pieces.push((at, case.rng.u64()));
        }
        runs.push(Run { ga: case.rng.chance(0.5), g: VecCfg::random(&mut case.rng, 1), p: PsoCfg::random(&mut case.rng, 1), pieces });
    }
    enum Live<F: Fl> {
        G(GeneticOptimizer<'static, Vec<F>>, Log, Rc<Cell<usize>>),
        P(ParticleSwarmOptimizer<'static, F>, Logs, Rc<Cell<usize>>),
    }
    fn make<F: Fl>(r: &Run<F>) -> Live<F> {
        let cell = Rc::new(Cell::new(0));
        if r.ga {
            let log = r.g.log();
            Live::G(r.g.build_with(&log, Box::new(StopAt(cell.clone()))), log, cell)
        } else {
            let l = r.p.logs();
            Live::P(r.p.build_with(&l, Box::new(StopAt(cell.clone()))), l, cell)
        }
    }
    fn step<F: Fl>(l: &mut Live<F>, first: bool, piece: (usize, u64)) {
        restart(ctl::Mode::Honest, piece.1);
        match l {
            Live::G(o, log, cell) => {
                cell.set(piece.0);
                if first {
                    find_min(o, log);
                } else {
                    next_iters(o, log);
                }
            }
            Live::P(o, l, cell) => {
                cell.set(piece.0);
                if first {
                    pfind(o, l);
                } else {
                    pnext(o, l);
                }
            }
        }
    }
    fn text<F: Fl>(l: &Live<F>) -> Vec<String> {
        match l {
            Live::G(_, log, _) => take(log).iter().map(|e| format!("{:x?}", e)).collect(),
            Live::P(_, l, _) => l.take().iter().map(|e| format!("{:x?}", e)).collect(),
        }
    }
    case.describe(format!(
        "{} optimizers in one thread: {}",
        n,
        runs.iter().map(|r| format!("{} pieces {:?}", if r.ga { r.g.show() } else { r.p.show() }, r.pieces)).collect::<Vec<_>>().join(" || ")
    ));
    let mut base = vec![];
    for r in &runs {
        let mut l = make(r);
        for (i, p) in r.pieces.iter().enumerate() {
            guarded(|| step(&mut l, i == 0, *p))?;
        }
        base.push(text(&l));
    }
    let mut live: Vec<Live<F>> = runs.iter().map(make).collect();
    let mut at = vec![0usize; n];
    let mut order = vec![];
    while at.iter().zip(&runs).any(|(a, r)| *a < r.pieces.len()) {
        let k = case.rng.below(n);
        if at[k] < runs[k].pieces.len() {
            guarded(|| step(&mut live[k], at[k] == 0, runs[k].pieces[at[k]]))?;
            at[k] += 1;
            order.push(k as u64);
        }
    }
    let mut events = 0;
    for (k, l) in live.iter().enumerate() {
        let t = text(l);
        if let Some(d) = first_diff(&t, &base[k]) {
            fail!("run {} interleaved with others (order {:?}) <> alone: {}", k, order, d);
        }
        events += t.len() as u64;
    }
    case.count("interleaved_events_compared", events);
    case.nontrivial(hash_u64s(&order) ^ runs[0].pieces[0].1);
    Ok(())
}
both!(c27_turns, c27_turns_t);

// ------------------------------------------------------------------------------------------------------ C30

type Chromo = Vec<f32>;
#[derive(Clone, Copy)]
enum Algo {
    /// population, tournament rounds (none: random pairing), mutation %, bits
    Ga(usize, Option<usize>, f64, usize),
    /// particles, velocity limit, velocity rule
    Pso(usize, Option<f32>, V),
}
#[derive(Clone, Copy)]
enum V {
    Canonical(f32, f32, f32),
    Inertia(f32, f32, f32),
    Classic(f32, f32),
}
struct Std {
    name: &'static str,
    f: fn(&Chromo) -> f64,
    iv: (f32, f32),
    dim: usize,
    algo: Algo,
    thr: f64,
    nochange: Option<(usize, f64)>,
    max: usize,
    /// What a run may reach; which part of the runs has to is in `c30_rates`.
    levels: &'static [f64],
    opt: fn(usize) -> f32,
    /// Goal calls a fast run needs at most.
    fast: usize,
    /// Runs per case.
    runs: usize,
}
fn std_run(s: &Std, seen: &mut Vec<(u64, u64)>) -> (Option<(Chromo, f64)>, usize) {
    let iv = vec![s.iv; s.dim];
    let mut stops: Vec<Box<dyn StopChecker<Chromo>>> = vec![Box::new(Threshold::new(s.thr))];
    if let Some((n, d)) = s.nochange {
        stops.push(Box::new(GoalNotChange::new(n, d)));
    }
    stops.push(Box::new(MaxIterations::new(s.max)));
    let stop = Box::new(CompositeAny::new(stops));
    let mut calls = CallCountData::new();
    struct Spy<'a> {
        f: GoalFromFunction<Chromo>,
        first: &'a mut Vec<(u64, u64)>,
    }
    impl Goal<Chromo> for Spy<'_> {
        fn get(&mut self, x: &Chromo) -> f64 {
            let v = self.f.get(x);
            if self.first.len() < 40 {
                self.first.push((hash_u64s(&key(x)), v.to_bits()));
            }
            v
        }
    }
    let mut spy = Spy { f: GoalFromFunction::new(s.f), first: seen };
    let r = {
        let goal = GoalCalcStatistics::new(&mut spy, &mut calls);
        match s.algo {
            Algo::Ga(pop, rounds, p, bits) => {
                let mut o = GeneticOptimizer::new(
                    Box::new(goal),
                    stop,
                    Box::new(creation::vec_float::RandomCreator::new(pop, iv.clone())),
                    match rounds {
                        Some(n) => Box::new(pairing::Tournament::new(pop / 2).rounds_count(n)) as Box<dyn Pairing<Chromo>>,
                        None => Box::new(pairing::RandomPairing::new()),
                    },
                    Box::new(cross::VecCrossAllGenes::new(Box::new(cross::FloatCrossExp::new()))),
                    Box::new(mutation::VecMutation::new(p, Box::new(mutation::BitwiseMutation::new(bits)))),
                    vec![Box::new(selection::KillFitnessNaN::new()), Box::new(selection::LimitPopulation::new(pop))],
                    vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv))],
                );
                o.find_min()
            }
            Algo::Pso(n, limit, v) => {
                let calc: Box<dyn VelocityCalculator<f32>> = match v {
                    V::Canonical(a, b, k) => Box::new(CanonicalVelocityCalculator::new(a, b, k)),
                    V::Inertia(a, b, w) => Box::new(InertiaVelocityCalculator::new(a, b, Box::new(ConstInertia::new(w)))),
                    V::Classic(a, b) => Box::new(ClassicVelocityCalculator::new(a, b)),
                };
                let mut o = ParticleSwarmOptimizer::new(
                    Box::new(goal),
                    stop,
                    Box::new(RandomCoordinatesInitializer::new(iv.clone(), n)),
                    Box::new(ZeroVelocityInitializer::new(s.dim, n)),
                    calc,
                );
                if let Some(l) = limit {
                    o.set_post_velocity_calc(vec![Box::new(MaxVelocityAbs::new(l))]);
                }
                o.set_post_moves(vec![Box::new(MoveToBoundary::new(iv))]);
                o.find_min()
            }
        }
    };
    (r, calls.get_call_count().iter().sum())
}
fn c30_case(case: &mut Case, s: &Std) -> R {
    case.describe(format!("{}: {} runs", s.name, s.runs));
    let mut results = vec![];
    let mut starts: Vec<Vec<(u64, u64)>> = vec![];
    let mut evaluations = 0;
    let budget = match s.algo {
        Algo::Ga(pop, ..) => pop + s.max * pop,
        Algo::Pso(n, ..) => n + s.max * n,
    };
    for _ in 0..s.runs {
        case.honest();
        let mut first = vec![];
        let (r, calls) = guarded(|| std_run(s, &mut first))?;
        ensure!(calls <= budget, "{}: {} evaluations, the budget is {}", s.name, calls, budget);
        evaluations += calls as u64;
        for (k, other) in starts.iter().enumerate() {
            let same = first.iter().filter(|x| other.contains(x)).count();
            ensure!(
                same < 5,
                "{}: run {} and run {} with different random draws evaluate {} of their first {} points in common",
                s.name, k, starts.len(), same, first.len()
            );
        }
        starts.push(first.clone());
        let (point, v) = match r {
            Some(x) => x,
            None => fail!("{}: no solution", s.name),
        };
        ensure!((s.f)(&point) == v, "{}: the goal of {:?} is {}, reported is {}", s.name, point, (s.f)(&point), v);
        for l in s.levels.iter().filter(|l| v <= **l) {
            case.count(&format!("{}<={}", s.name, l), 1);
        }
        if calls <= s.fast {
            case.count(&format!("{}<=fast", s.name), 1);
        }
        let off = point.iter().enumerate().map(|(i, c)| (c - (s.opt)(i)).abs()).fold(0.0, f32::max);
        results.push((v, off, calls));
        case.nontrivial(hash_u64s(&first.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    case.evals += s.runs as u64;
    case.count(&format!("{}_runs", s.name), s.runs as u64);
    case.count("runs", s.runs as u64);
    case.count("evaluations", evaluations);
    if std::env::var_os("MON_SHOW").is_some() {
        for (v, off, n) in &results {
            println!("{} {:e} {} {}", s.name, v, off, n);
        }
    }
    Ok(())
}
fn one(_: usize) -> f32 {
    1.0
}
fn zero(_: usize) -> f32 {
    0.0
}
fn step(i: usize) -> f32 {
    i as f32 + 1.0
}
fn schwefel_opt(_: usize) -> f32 {
    420.9687
}
macro_rules! std_case {
    ($name:ident, $s:expr) => {
        pub fn $name(case: &mut Case) -> R {
            c30_case(case, &$s)
        }
    };
}
use optlib_testfunc::{paraboloid, rastrigin, rosenbrock, schwefel};
std_case!(c30_ga_paraboloid, Std { name: "ga_paraboloid", f: paraboloid::<f32>, iv: (-100.0, 100.0), dim: 5, algo: Algo::Ga(200, Some(2), 15.0, 3), thr: 1e-6, nochange: None, max: 3000, levels: &[1e-2, 5.0], opt: step, fast: 0, runs: 4 });
std_case!(c30_ga_schwefel, Std { name: "ga_schwefel", f: schwefel::<f32>, iv: (-500.0, 500.0), dim: 5, algo: Algo::Ga(200, Some(5), 15.0, 3), thr: 1e-3, nochange: None, max: 600, levels: &[1.0, 20.0], opt: schwefel_opt, fast: 0, runs: 4 });
std_case!(c30_ga_rastrigin, Std { name: "ga_rastrigin", f: rastrigin::<f32>, iv: (-5.12, 5.12), dim: 10, algo: Algo::Ga(100, Some(5), 15.0, 3), thr: 1e-4, nochange: None, max: 1000, levels: &[1e-2, 1.5], opt: zero, fast: 2500, runs: 4 });
std_case!(c30_ga_rosenbrock, Std { name: "ga_rosenbrock", f: rosenbrock::<f32>, iv: (-2.0, 2.0), dim: 3, algo: Algo::Ga(700, None, 80.0, 3), thr: 1e-6, nochange: Some((2000, 1e-7)), max: 8000, levels: &[1e-4, 1e-2, 0.5], opt: one, fast: 0, runs: 2 });
std_case!(c30_ga_rosenbrock_small, Std { name: "ga_rosenbrock_small", f: rosenbrock::<f32>, iv: (-2.0, 2.0), dim: 3, algo: Algo::Ga(200, Some(5), 85.0, 3), thr: 1e-5, nochange: None, max: 1000, levels: &[0.3, 1.5], opt: one, fast: 0, runs: 4 });
std_case!(c30_pso_paraboloid, Std { name: "pso_paraboloid", f: paraboloid::<f32>, iv: (-100.0, 100.0), dim: 5, algo: Algo::Pso(80, None, V::Canonical(2.0, 6.0, 0.2)), thr: 1e-6, nochange: Some((150, 1e-7)), max: 3000, levels: &[0.1, 1.0, 10.0], opt: step, fast: 0, runs: 4 });
std_case!(c30_pso_limited, Std { name: "pso_limited", f: paraboloid::<f32>, iv: (-100.0, 100.0), dim: 5, algo: Algo::Pso(80, Some(10.0), V::Canonical(2.0, 6.0, 0.2)), thr: 1e-6, nochange: Some((150, 1e-7)), max: 3000, levels: &[0.2, 1.0, 10.0], opt: step, fast: 0, runs: 4 });
std_case!(c30_pso_schwefel, Std { name: "pso_schwefel", f: schwefel::<f32>, iv: (-500.0, 500.0), dim: 3, algo: Algo::Pso(100, Some(700.0), V::Canonical(3.2, 1.0, 0.9)), thr: 1e-6, nochange: Some((150, 1e-8)), max: 3000, levels: &[1.0, 130.0], opt: schwefel_opt, fast: 0, runs: 4 });
std_case!(c30_pso_rastrigin, Std { name: "pso_rastrigin", f: rastrigin::<f32>, iv: (-5.12, 5.12), dim: 3, algo: Algo::Pso(500, None, V::Canonical(2.0, 5.0, 0.2)), thr: 1e-6, nochange: Some((150, 1e-8)), max: 3000, levels: &[0.1, 1.1], opt: zero, fast: 0, runs: 4 });
std_case!(c30_pso_rosenbrock, Std { name: "pso_rosenbrock", f: rosenbrock::<f32>, iv: (-2.0, 2.0), dim: 3, algo: Algo::Pso(1000, None, V::Canonical(1.0, 8.0, 0.2)), thr: 1e-6, nochange: Some((150, 1e-8)), max: 3000, levels: &[0.05, 0.5, 1.5], opt: one, fast: 0, runs: 2 });
std_case!(c30_pso_inertia, Std { name: "pso_inertia_schwefel", f: schwefel::<f32>, iv: (-500.0, 500.0), dim: 3, algo: Algo::Pso(50, Some(700.0), V::Inertia(2.2, 0.6, 0.85)), thr: 1e-6, nochange: Some((50, 1e-8)), max: 400, levels: &[1.0, 130.0], opt: schwefel_opt, fast: 0, runs: 4 });
std_case!(c30_pso_classic, Std { name: "pso_classic_paraboloid", f: paraboloid::<f32>, iv: (-100.0, 100.0), dim: 3, algo: Algo::Pso(80, Some(20.0), V::Classic(1.0, 1.0)), thr: 1e-6, nochange: None, max: 1000, levels: &[0.1, 1.0], opt: step, fast: 0, runs: 4 });
