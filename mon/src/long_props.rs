//! Runs of thousands of iterations with a handful of agents: counters, limits and records must not wrap, saturate, sample
//! or forget. One workload, judged for the property whose group it is.
use crate::fl::*;
use crate::fw::*;
use crate::ensure;
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::{ParticleSwarmOptimizer, VelocityCalculator};
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Part {
    Best,
    Steps,
    Inertia,
    Stop,
    Resume,
    Reuse,
    Log,
    Stats,
}
type V = Vec<f64>;

/// What the monitors have seen of the current run.
struct Hub {
    part: Part,
    calls: u64,
    hash: u64,
    min: f64,
    /// The points that were evaluated to `min`.
    at_min: HashSet<u64>,
    iteration: usize,

    starts: u64,
    resumes: u64,
    finishes: u64,
    nexts: u64,
    checks: u64,
    bests: Vec<Option<(u64, u64)>>,
    last: Option<(u64, u64)>,
    late_improvements: u64,
    finished: bool,
}
type Shared = Rc<RefCell<Hub>>;
fn point(s: &Option<(V, f64)>) -> Option<(u64, u64)> {
    s.as_ref().map(|(x, v)| (hash_u64s(&key(x)), v.to_bits()))
}
impl Hub {
    fn new_run(&mut self) {
        self.calls = 0;
        self.hash = 7;
        self.min = f64::INFINITY;
        self.at_min.clear();
        self.iteration = 0;
        self.bests.clear();
        self.starts = 0;
        self.resumes = 0;
        self.finishes = 0;
        self.nexts = 0;
        self.checks = 0;
        self.finished = false;
    }
    fn check(&self, part: Part, ok: bool, msg: impl FnOnce() -> String) {
        if part == self.part && !ok {
            raise(msg());
        }
    }
    fn best_is_min(&self, state: &dyn AlgorithmState<V>) {
        if self.part != Part::Best {
            return;
        }
        match state.get_best_solution() {
            None => raise(format!("no best solution after {} iterations and {} evaluations", self.iteration, self.calls)),
            Some((x, v)) => {
                let k = hash_u64s(&key(&x));
                if v != self.min {
                    raise(format!("after {} iterations the reported best value is {}, the best evaluated one is {}", self.iteration, v, self.min));
                }
                if !self.at_min.contains(&k) {
                    raise(format!("after {} iterations the reported best solution {:?} was never evaluated to {}", self.iteration, x, v));
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Shape {
    /// Better with every call.
    Falling,
    /// Better once in so many calls.
    Rare(u64),
    /// A function of the point.
    Sphere,
    /// Any value for any point.
    Noise,
}
struct G(Shared, Shape);
impl Goal<V> for G {
    fn get(&mut self, x: &V) -> f64 {
        let mut h = self.0.borrow_mut();
        let n = h.calls;
        let k = hash_u64s(&key(x));
        let v = match self.1 {
            Shape::Falling => 1e6 - n as f64,
            Shape::Rare(m) => {
                if n % m == m - 1 {
                    -(n as f64)
                } else {
                    5.0 + (k % 1000) as f64
                }
            }
            Shape::Sphere => {
                let s: f64 = x.iter().map(|c| c * c).sum();
                if s.is_finite() {
                    s
                } else {
                    1e300
                }
            }
            Shape::Noise => (mix(k) >> 11) as f64 - 1e14,
        };
        h.calls += 1;
        h.hash = mix(h.hash ^ k).rotate_left(9) ^ v.to_bits();
        if v < h.min {
            h.min = v;
            h.at_min.clear();
            if h.iteration > 255 {
                h.late_improvements += 1;
            }
        }
        if v == h.min {
            h.at_min.insert(k);
        }
        v
    }
}
struct Watch(Shared);
impl Watch {
    fn see(&self, state: &dyn AlgorithmState<V>, what: &str) {
        let h = self.0.borrow();
        let it = state.get_iteration();
        h.check(Part::Log, it == h.iteration, || format!("{} shows iteration {} after {} iterations", what, it, h.iteration));
    }
}
impl Logger<V> for Watch {
    fn start(&mut self, state: &dyn AlgorithmState<V>) {
        self.see(state, "start");
        let mut h = self.0.borrow_mut();
        h.starts += 1;
        h.check(Part::Log, h.starts == 1 && h.nexts == 0 && h.resumes == 0, || "start comes after other calls".to_string());
    }
    fn resume(&mut self, state: &dyn AlgorithmState<V>) {
        self.see(state, "resume");
        let mut h = self.0.borrow_mut();
        h.resumes += 1;
        h.finished = false;
    }
    fn next_iteration(&mut self, state: &dyn AlgorithmState<V>) {
        {
            let mut h = self.0.borrow_mut();
            h.iteration += 1;
            h.nexts += 1;
            h.check(Part::Log, !h.finished, || "an iteration is logged after finish".to_string());
            h.last = point(&state.get_best_solution());
            if h.part == Part::Stats {
                let l = h.last;
                h.bests.push(l);
            }
        }
        self.see(state, "next_iteration");
        self.0.borrow().best_is_min(state);
    }
    fn finish(&mut self, state: &dyn AlgorithmState<V>) {
        self.see(state, "finish");
        let mut h = self.0.borrow_mut();
        h.finishes += 1;
        h.finished = true;
        let p = point(&state.get_best_solution());
        h.check(Part::Log, h.iteration == 0 || p == h.last, || format!("finish shows another solution than iteration {}", h.iteration));
    }
}
/// The shipped criterion beside its definition.
struct Stop {
    h: Shared,
    limit: usize,
    inner: Box<dyn StopChecker<V>>,
    no_change: Option<(usize, f64)>,
    old: f64,
    since: usize,
}
impl StopChecker<V> for Stop {
    fn can_stop(&mut self, state: &dyn AlgorithmState<V>) -> bool {
        let stop = self.inner.can_stop(state);
        let mut h = self.h.borrow_mut();
        h.checks += 1;
        let it = h.iteration;
        if it == 0 {
            self.old = f64::MAX;
            self.since = 0;
        }
        let mut want = it >= self.limit;
        if let (Some((m, d)), Some((_, b))) = (self.no_change, state.get_best_solution()) {
            if (b - self.old).abs() > d {
                self.old = b;
                self.since = it;
            }
            want |= it - self.since > m;
        }
        h.check(Part::Stop, stop == want, || {
            format!("after {} iterations the criterion (limit {}, no change {:?}, last change at {}) says {}", it, self.limit, self.no_change, self.since, stop)
        });
        stop
    }
}
fn stop(h: &Shared, limit: usize, no_change: Option<(usize, f64)>) -> Box<dyn StopChecker<V>> {
    let mut v: Vec<Box<dyn StopChecker<V>>> = vec![Box::new(MaxIterations::new(limit))];
    if let Some((m, d)) = no_change {
        v.push(Box::new(GoalNotChange::new(m, d)));
    }
    let inner = if v.len() == 1 { v.pop().unwrap() } else { Box::new(CompositeAny::new(v)) };
    Box::new(Stop { h: h.clone(), limit, inner, no_change, old: f64::MAX, since: 0 })
}
/// The inertia has to be asked for the current iteration.
struct Inert(Shared, Box<dyn Inertia<f64>>, Option<(f64, f64, usize)>);
impl Inertia<f64> for Inert {
    fn get(&mut self, iteration: usize) -> f64 {
        let h = self.0.borrow();
        h.check(Part::Inertia, iteration == h.iteration, || format!("the inertia of iteration {} is that for {}", h.iteration, iteration));
        let w = self.1.get(iteration);
        if let Some((lo, hi, t)) = self.2 {
            let want = hi - (hi - lo) * (iteration.min(t) as f64 / t as f64);
            h.check(Part::Inertia, (w - want).abs() < 1e-12, || format!("linear inertia {}..{} over {} is {} at {}", hi, lo, t, w, iteration));
        }
        w
    }
}
trait Both: Optimizer<V> + IterativeOptimizer<V> {
    fn stop(&mut self, s: Box<dyn StopChecker<V>>);
}
impl Both for GeneticOptimizer<'_, V> {
    fn stop(&mut self, s: Box<dyn StopChecker<V>>) {
        self.set_stop_checker(s)
    }
}
impl Both for ParticleSwarmOptimizer<'_, f64> {
    fn stop(&mut self, s: Box<dyn StopChecker<V>>) {
        self.set_stop_checker(s)
    }
}
#[derive(Clone, Debug)]
struct Cfg {
    swarm: bool,
    agents: usize,
    dim: usize,
    shape: Shape,
    kind: usize,
    t_max: usize,
    pre: bool,
    mutate: f64,
}
impl Cfg {
    fn build<'a>(&self, h: &Shared, first: Box<dyn StopChecker<V>>, goal: Box<dyn Goal<V> + 'a>, extra: Vec<Box<dyn Logger<V> + 'a>>) -> Box<dyn Both + 'a> {
        let iv = vec![(-10.0, 10.0); self.dim];
        let mut loggers = extra;
        loggers.insert(0, Box::new(Watch(h.clone())));
        if self.swarm {
            let calc: Box<dyn VelocityCalculator<f64>> = match self.kind {
                0 => Box::new(InertiaVelocityCalculator::new(1.0, 1.5, Box::new(Inert(h.clone(), Box::new(LinearInertia::new(0.2, 0.9, self.t_max)), Some((0.2, 0.9, self.t_max)))))),
                1 => Box::new(InertiaVelocityCalculator::new(1.0, 1.5, Box::new(Inert(h.clone(), Box::new(ConstInertia::new(0.8)), None)))),
                2 => Box::new(CanonicalVelocityCalculator::new(2.0, 3.0, 0.7)),
                3 => Box::new(NegativeReinforcement::new(1.0, 0.2, 1.0, 0.1, 0.1, 0.1, 0.6)),
                _ => Box::new(ClassicVelocityCalculator::new(1.0, 1.0)),
            };
            let mut o = ParticleSwarmOptimizer::new(
                goal,
                first,
                Box::new(RandomCoordinatesInitializer::new(iv.clone(), self.agents)),
                Box::new(RandomVelocityInitializer::new(vec![(-1.0, 1.0); self.dim], self.agents)),
                calc,
            );
            o.set_post_velocity_calc(vec![Box::new(MaxVelocityAbs::new(2.0))]);
            o.set_post_moves(vec![Box::new(MoveToBoundary::new(iv))]);
            o.set_loggers(loggers);
            Box::new(o)
        } else {
            let pairs: Box<dyn Pairing<V>> = if self.kind % 2 == 0 { Box::new(pairing::Tournament::new(1 + self.kind / 2)) } else { Box::new(pairing::RandomPairing::new()) };
            let genes: Box<dyn Cross<f64>> = if self.kind < 3 { Box::new(cross::CrossBitwise::new()) } else { Box::new(cross::CrossMean::new()) };
            let pre: Vec<Box<dyn PreBirth<V>>> = if self.pre { vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv.clone()))] } else { vec![] };
            let mut o = GeneticOptimizer::new(
                goal,
                first,
                Box::new(creation::vec_float::RandomCreator::new(self.agents, iv)),
                pairs,
                Box::new(cross::VecCrossAllGenes::new(genes)),
                Box::new(mutation::VecMutation::new(self.mutate, Box::new(mutation::BitwiseMutation::new(1)))),
                vec![Box::new(selection::KillFitnessNaN::new()), Box::new(selection::LimitPopulation::new(self.agents))],
                pre,
            );
            o.set_loggers(loggers);
            Box::new(o)
        }
    }
}
fn iterations(r: &mut Rng) -> usize {
    let huge = r.chance(0.04);
    let n = *r.pick(if huge { &[10_000usize, 32_768, 65_536] } else { &[254, 256, 511, 700, 1000, 1023, 2000, 2047, 4096] });
    n + r.below(6)
}
/// Pauses: limits that grow to n.
fn limits(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(n + 1)).collect();
    if n > 256 && r.chance(0.3) {
        v.push(255 + r.below(3));
    }
    v.push(n);
    v.sort();
    v
}
fn long(case: &mut Case, part: Part, swarm: Option<bool>) -> R {
    let r = &mut case.rng;
    let n = iterations(r);
    let swarm = swarm.unwrap_or_else(|| r.chance(0.5));
    let cfg = Cfg {
        swarm,
        agents: r.range(1, 4),
        dim: r.range(1, 3),
        shape: match r.below(4) {
            0 => Shape::Falling,
            1 => Shape::Rare(r.range(50, 3000) as u64),
            2 => Shape::Sphere,
            _ => Shape::Noise,
        },
        kind: if part == Part::Inertia { r.below(2) } else { r.below(5) },
        t_max: r.range(1, 2 * n),
        pre: r.chance(0.5),
        mutate: *r.pick(&[0.0, 20.0, 100.0]),
    };
    let no_change = if part == Part::Stop && r.chance(0.7) { Some((r.range(100, n.max(300)), *r.pick(&[0.0, 0.5, 3.0]))) } else { None };
    let cuts = if part == Part::Stop && no_change.is_some() { vec![n] } else { limits(r, n) };
    let again = r.chance(0.4);
    let seed = r.u64();
    case.describe(format!("{:?} {:?}: {} iterations, pauses {:?}, no change {:?}, stream {}", part, cfg, n, cuts, no_change, seed));
    let h: Shared = Rc::new(RefCell::new(Hub {
        part, calls: 0, hash: 0, min: 0.0, at_min: HashSet::new(), iteration: 0, starts: 0, resumes: 0, finishes: 0, nexts: 0, checks: 0,
        bests: vec![], last: None, late_improvements: 0, finished: false,
    }));
    let goal = || Box::new(G(h.clone(), cfg.shape));
    let fresh = |case: &mut Case| {
        let _ = case;
        restart(rand_chacha::ctl::Mode::Honest, seed);
        h.borrow_mut().new_run();
    };
    let mut total = 0u64;
    match part {
        Part::Resume | Part::Reuse => {
            fresh(case);
            let a = {
                let mut o = cfg.build(&h, stop(&h, n, None), goal(), vec![]);
                guarded(|| o.find_min())?
            };
            let (calls, hash, its) = { let h = h.borrow(); (h.calls, h.hash, h.iteration) };
            let mut o = cfg.build(&h, stop(&h, cuts[0], None), goal(), vec![]);
            let b;
            if part == Part::Reuse {
                h.borrow_mut().new_run();
                guarded(|| o.find_min())?;
                if again {
                    o.stop(stop(&h, n, None));
                    guarded(|| o.next_iterations())?;
                    total += h.borrow().iteration as u64;
                }
                o.stop(stop(&h, n, None));
                fresh(case);
                b = guarded(|| o.find_min())?;
            } else {
                fresh(case);
                let mut x = guarded(|| o.find_min())?;
                for c in &cuts[1..] {
                    o.stop(stop(&h, *c, None));
                    x = guarded(|| o.next_iterations())?;
                }
                b = x;
            }
            let h = h.borrow();
            let what = if part == Part::Resume { "the paused run" } else { "the run on the used optimizer" };
            ensure!(its == h.iteration && calls == h.calls, "{} has {} iterations and {} evaluations, the reference {} and {}", what, h.iteration, h.calls, its, calls);
            ensure!(hash == h.hash, "{} evaluates other points than the reference", what);
            ensure!(point(&a) == point(&b), "{} returns {:?}, the reference {:?}", what, b, a);
            total += its as u64 * 2;
        }
        _ => {
            let mut stats: Statistics<V> = Statistics::new();
            let mut counts = CallCountData::new();
            let mut runs: Vec<(Vec<Option<(u64, u64)>>, Option<(u64, u64)>, u64)> = vec![];
            fresh(case);
            {
                let mut inner = G(h.clone(), cfg.shape);
                let g: Box<dyn Goal<V>>;
                let extra: Vec<Box<dyn Logger<V>>>;
                // The borrowed statistics outlive the optimizer below.
                let (sref, cref, iref): (&mut Statistics<V>, &mut CallCountData, &mut G) = (&mut stats, &mut counts, &mut inner);
                let o: &mut dyn Both;
                let mut boxed;
                if part == Part::Stats {
                    boxed = cfg.build(&h, stop(&h, cuts[0], no_change), Box::new(GoalCalcStatistics::new(iref, cref)), vec![Box::new(StatisticsLogger::new(sref))]);
                    o = &mut *boxed;
                } else {
                    g = Box::new(G(h.clone(), cfg.shape));
                    extra = vec![];
                    boxed = cfg.build(&h, stop(&h, cuts[0], no_change), g, extra);
                    o = &mut *boxed;
                }
                for run in 0..(1 + again as usize) {
                    if run > 0 {
                        total += h.borrow().iteration as u64;
                        h.borrow_mut().new_run();
                        o.stop(stop(&h, cuts[0], no_change));
                    }
                    let mut result = guarded(|| o.find_min())?;
                    for c in &cuts[1..] {
                        o.stop(stop(&h, *c, no_change));
                        result = guarded(|| o.next_iterations())?;
                    }
                    let h = h.borrow();
                    let segments = cuts.len() as u64;
                    match part {
                        Part::Best => {
                            let p = point(&result);
                            ensure!(h.iteration == 0 || p == h.last, "the result {:?} is not the last reported solution", result);
                        }
                        Part::Steps => {
                            let want = cfg.agents as u64 * (h.iteration as u64 + 1);
                            ensure!(h.calls == want, "{} particles were evaluated {} times in {} iterations, expected {}", cfg.agents, h.calls, h.iteration, want);
                        }
                        Part::Stop => {
                            ensure!(no_change.is_some() || h.iteration == n, "{} iterations with a limit of {}", h.iteration, n);
                            ensure!(h.checks == h.iteration as u64 + segments, "the criterion was consulted {} times in {} iterations and {} segments", h.checks, h.iteration, segments);
                        }
                        Part::Log => {
                            ensure!(h.starts == 1 && h.resumes == segments && h.finishes == segments && h.nexts == n as u64,
                                "{} start, {} resume, {} next_iteration and {} finish calls in a run of {} iterations and {} segments", h.starts, h.resumes, h.nexts, h.finishes, n, segments);
                        }
                        Part::Stats => runs.push((h.bests.clone(), point(&result), h.calls)),
                        _ => {}
                    }
                }
            }
            if part == Part::Stats {
                let c = stats.get_convergence();
                ensure!(c.len() == runs.len() && stats.get_results().len() == runs.len(), "{} runs are recorded as {} and {}", runs.len(), c.len(), stats.get_results().len());
                for (i, (bests, result, _)) in runs.iter().enumerate() {
                    let got: Vec<_> = c[i].iter().map(point).collect();
                    ensure!(got.len() == bests.len(), "{} iterations are recorded as {}", bests.len(), got.len());
                    if let Some(k) = (0..got.len()).find(|k| got[*k] != bests[*k]) {
                        crate::fail!("iteration {} of run {} is recorded with another solution", k + 1, i);
                    }
                    ensure!(point(&stats.get_results()[i]) == *result, "the recorded result of run {} is not the returned one", i);
                }
                let want: u64 = runs.iter().map(|r| r.2).sum();
                let got = counts.get_call_count();
                // the workload never announces a new run to the call counter
                ensure!(got == vec![want as usize], "{} goal calls were counted as {:?}", want, got);
            }
            total += h.borrow().iteration as u64;
        }
    }
    let h = h.borrow();
    case.count("iterations_of_long_runs", total);
    case.count("late_improvements", h.late_improvements);
    case.evals = 1 + again as u64;
    case.nontrivial(h.hash);
    Ok(())
}
macro_rules! parts {
    ($($name:ident $p:ident $s:expr;)*) => { $(pub fn $name(case: &mut Case) -> R { long(case, Part::$p, $s) })* };
}
parts! {
    best_ga Best Some(false);
    best_swarm Best Some(true);
    steps Steps Some(true);
    inertia Inertia Some(true);
    stops Stop None;
    resume Resume None;
    reuse Reuse None;
    log Log None;
    stats Stats None;
}
