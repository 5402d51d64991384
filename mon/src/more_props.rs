//! C32: memory of long and repeated runs (counting allocator); C33: only the order of the goal values matters
//! (metamorphic runs).
use crate::ensure;
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::pso::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::*;
use optlib::particleswarm::ParticleSwarmOptimizer;
use optlib::tools::logging::*;
use optlib::tools::stopchecker::*;
use optlib::{AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::RngCore;
use rand_chacha::ctl;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

// --------------------------------------------------------------------------------------------------- C32

/// Counts the bytes this thread has allocated and not released.
pub struct Meter;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn change(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        change(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        change(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Asked at every check of the stop criterion; notes the memory in use.
#[derive(Default)]
struct Gauge {
    base: i64,
    limit: usize,
    /// Up to this iteration the memory may grow.
    young: usize,
    early: i64,
    late: i64,
    late_checks: u64,
}
struct GaugeStop<T> {
    g: Rc<RefCell<Gauge>>,
    inner: Box<dyn StopChecker<T>>,
}
impl<T> StopChecker<T> for GaugeStop<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        self.inner.can_stop(s);
        let mut g = self.g.borrow_mut();
        let now = live() - g.base;
        if s.get_iteration() <= g.young {
            g.early = g.early.max(now);
        } else {
            g.late = g.late.max(now);
            g.late_checks += 1;
        }
        s.get_iteration() >= g.limit
    }
}
struct BareGoal<G>(G);
impl<F: Fl, G: FnMut(&Vec<F>) -> f64> Goal<Vec<F>> for BareGoal<G> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        (self.0)(x)
    }
}
fn bare_goal<F: Fl>(kind: GoalKind) -> impl FnMut(&Vec<F>) -> f64 {
    let mut n = 0;
    move |x: &Vec<F>| {
        let f: Vec<f64> = x.iter().map(|x| x.f()).collect();
        n += 1;
        kind.eval(&key(x), &f, n)
    }
}
type Opt<'a, F> = Box<dyn Both<F> + 'a>;
trait Both<F> {
    fn first(&mut self) -> Option<(Vec<F>, f64)>;
    fn again(&mut self) -> Option<(Vec<F>, f64)>;
}
impl<F: Fl> Both<F> for GeneticOptimizer<'_, Vec<F>> {
    fn first(&mut self) -> Option<(Vec<F>, f64)> {
        self.find_min()
    }
    fn again(&mut self) -> Option<(Vec<F>, f64)> {
        self.next_iterations()
    }
}
impl<F: Fl> Both<F> for ParticleSwarmOptimizer<'_, F> {
    fn first(&mut self) -> Option<(Vec<F>, f64)> {
        self.find_min()
    }
    fn again(&mut self) -> Option<(Vec<F>, f64)> {
        self.next_iterations()
    }
}
enum Cfg<F> {
    Ga(VecCfg<F>),
    Pso(PsoCfg<F>),
}
impl<F: Fl> Cfg<F> {
    fn random(r: &mut Rng, max_agents: usize) -> Self {
        if r.chance(0.5) {
            let mut c = VecCfg::<F>::random(r, 10);
            if c.pop > max_agents {
                c.pop = max_agents;
                c.pair = PairK::Random;
            }
            for s in c.sels.iter_mut() {
                if let SelK::Limit(n) = s {
                    *n = (*n).min(c.pop);
                }
            }
            Cfg::Ga(c)
        } else {
            let mut c = PsoCfg::<F>::random(r, 10);
            c.n = c.n.min(max_agents);
            Cfg::Pso(c)
        }
    }
    fn show(&self) -> String {
        match self {
            Cfg::Ga(c) => c.show(),
            Cfg::Pso(c) => c.show(),
        }
    }
    /// Without monitors.
    fn build<'a>(&self, goal: impl FnMut(&Vec<F>) -> f64 + 'a, stop: impl FnOnce(Box<dyn StopChecker<Vec<F>>>) -> Box<dyn StopChecker<Vec<F>>>, loggers: Vec<Box<dyn Logger<Vec<F>> + 'a>>) -> Opt<'a, F> {
        match self {
            Cfg::Ga(c) => {
                let mut o = GeneticOptimizer::new(
                    Box::new(BareGoal(goal)),
                    stop(c.stop.build()),
                    Box::new(RandomCreator::new(c.pop, c.iv.clone())),
                    c.pairing(),
                    c.crossing(),
                    c.mutation(),
                    c.selections(),
                    c.pre_births(),
                );
                o.set_loggers(loggers);
                Box::new(o)
            }
            Cfg::Pso(c) => {
                let mut o = ParticleSwarmOptimizer::new(Box::new(BareGoal(goal)), stop(c.stop.build()), c.coords(), c.vels(), c.vel.build());
                o.set_post_velocity_calc(c.bare_post_vels());
                o.set_post_moves(c.bare_post_moves());
                o.set_loggers(loggers);
                Box::new(o)
            }
        }
    }
}

/// What may be added to twice the early memory: reserve of vectors that grow by doubling.
const SLACK: i64 = 4096;

/// The memory of a run and of many runs does not grow with the number of iterations and runs; everything is released.
fn c32_t<F: Fl>(case: &mut Case) -> R {
    let cfg = Cfg::<F>::random(&mut case.rng, 12);
    let (goal, agents) = match &cfg {
        Cfg::Ga(c) => (c.goal.clone(), c.pop),
        Cfg::Pso(c) => (c.goal.clone(), c.n),
    };
    let total = if case.thorough() { 8000 } else { 1500 };
    let segments = case.rng.range(1, 4);
    let runs = case.rng.range(6, 30);
    let logged = case.rng.chance(0.5);
    case.describe(format!("{} iterations in {} segments, then {} short runs, text loggers: {}; {}", total, segments, runs, logged, cfg.show()));
    case.any_stream();
    rand::thread_rng().next_u64();
    let mut report = [0i64; 5];
    let (mut late_checks, mut left) = (0, 0);
    // The first round fills what is filled once per thread.
    for round in 0..2 {
        let total = if round == 0 { 3 } else { total };
        let g = Rc::new(RefCell::new(Gauge { young: total / 5, ..Gauge::default() }));
        let mut sinks = [std::io::sink(), std::io::sink(), std::io::sink()];
        let before = live();
        {
            let [s0, s1, s2] = &mut sinks;
            let loggers: Vec<Box<dyn Logger<Vec<F>> + '_>> = if logged { vec![Box::new(VerboseLogger::new(s0, 3)), Box::new(ResultOnlyLogger::new(s1, 3)), Box::new(TimeLogger::new(s2))] } else { vec![] };
            let mut o = cfg.build(bare_goal(goal.clone()), |inner| Box::new(GaugeStop { g: g.clone(), inner }), loggers);
            g.borrow_mut().base = before;
            for i in 1..=segments {
                g.borrow_mut().limit = total * i / segments;
                if i == 1 {
                    o.first();
                } else {
                    o.again();
                }
            }
            {
                let g = g.borrow();
                report[0] = g.early;
                report[1] = g.late;
                late_checks = g.late_checks;
            }
            // many short runs
            for run in 0..runs {
                g.borrow_mut().limit = 4;
                o.first();
                report[if run < 3 { 2 } else { 3 }] = report[if run < 3 { 2 } else { 3 }].max(live() - before);
            }
            if round == 0 {
                report = [0; 5];
            }
        }
        left = live() - before;
    }
    ensure!(report[1] <= 2 * report[0] + SLACK, "{} agents: after {} iterations the run held at most {} bytes, later in {} iterations {}", agents, total / 5, report[0], total, report[1]);
    let one = report[0].max(report[1]).max(report[2]);
    ensure!(report[3] <= 2 * one + SLACK, "{} agents: the first runs held at most {} bytes, later ones of {} runs {}", agents, one, runs, report[3]);
    ensure!(left == 0, "{} bytes are still allocated after the optimizer was dropped", left);
    case.count("late_measurements", late_checks);
    case.count("runs_measured", runs as u64);
    case.count("bytes_at_most", report[1].max(report[3]) as u64);
    case.evals = late_checks;
    case.nontrivial(hash_bytes(cfg.show().as_bytes()) ^ report[1] as u64);
    Ok(())
}
pub fn c32(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c32_t::<f64>(case)
    } else {
        c32_t::<f32>(case)
    }
}

// --------------------------------------------------------------------------------------------------- C33

/// Strictly increasing replacements for the values `v` (sorted, distinct, finite).
fn replacements(r: &mut Rng, n: usize) -> (&'static str, Vec<f64>) {
    let up = |x: f64, k: usize| f64::from_bits(x.to_bits() + k as u64);
    match r.below(8) {
        0 => ("ranks", (0..n).map(|i| i as f64).collect()),
        1 => ("negative ranks", (0..n).map(|i| i as f64 - n as f64 - 1.0).collect()),
        2 => ("neighbours of one", (0..n).map(|i| up(1.0, i)).collect()),
        3 => ("neighbours of a great number", (0..n).map(|i| up(1e300, i)).collect()),
        4 => ("neighbours of a negative number", (0..n).map(|i| -up(1e-3, n - i)).collect()),
        5 => ("the smallest numbers", (0..n).map(|i| f64::from_bits(i as u64 + 1)).collect()),
        6 => ("the greatest numbers", (0..n).map(|i| f64::from_bits(f64::MAX.to_bits() - (n - 1 - i) as u64)).collect()),
        _ => ("all magnitudes", {
            let mut x: Vec<f64> = (0..n).map(|_| if r.chance(0.5) { -1.0 } else { 1.0 } * (2.0f64).powf(r.f(-1000.0, 1000.0))).collect();
            x.sort_by(|a, b| a.partial_cmp(b).unwrap());
            x.dedup();
            while x.len() < n {
                x.push(f64::from_bits(x.last().map_or(5, |y| if *y > 0.0 { y.to_bits() + 1 } else { 1 })));
            }
            x
        }),
    }
}
struct Until(usize);
impl<T> StopChecker<T> for Until {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        s.get_iteration() >= self.0
    }
}
fn c33_t<F: Fl>(case: &mut Case) -> R {
    let cfg = Cfg::<F>::random(&mut case.rng, 40);
    let mut kind = GoalKind::any(&mut case.rng);
    while matches!(kind, GoalKind::Const(_) | GoalKind::AllNan) && case.rng.chance(0.8) {
        kind = GoalKind::any(&mut case.rng);
    }
    let agents = match &cfg {
        Cfg::Ga(c) => c.pop,
        Cfg::Pso(c) => c.n,
    };
    let iterations = case.rng.range(1, 3 + 300 / (agents + 5));
    let (mode, seed) = case.any_stream();
    let run = |f: &mut dyn FnMut(&Vec<F>) -> f64| {
        restart(mode, seed);
        let mut o = cfg.build(f, |_| Box::new(Until(iterations)), vec![]);
        let x = o.first();
        drop(o);
        (x, ctl::words())
    };
    let mut calls: Vec<(Vec<u64>, f64)> = vec![];
    let (r1, w1) = {
        let mut g = bare_goal::<F>(kind.clone());
        run(&mut |x| {
            // no negative zero: it is equal to zero, but may be ordered before it
            let v = g(x) + 0.0;
            calls.push((key(x), v));
            v
        })
    };
    let mut values: Vec<f64> = calls.iter().map(|c| c.1).filter(|v| v.is_finite()).collect();
    values.sort_by(|a, b| a.partial_cmp(b).unwrap());
    values.dedup();
    let (name, new) = replacements(&mut case.rng, values.len());
    debug_assert!(new.windows(2).all(|w| w[0] < w[1]) && new.iter().all(|x| x.is_finite()));
    case.describe(format!("{} iterations, goal {:?}, its values replaced in order by {}; stream {:?} {}; {}", iterations, kind, name, mode, seed, cfg.show()));
    let map: HashMap<u64, f64> = values.iter().zip(&new).map(|(a, b)| (a.to_bits(), *b)).collect();
    let other = |v: f64| if v.is_finite() { map[&v.to_bits()] } else { v };
    let mut n = 0;
    let (r2, w2) = run(&mut |x| {
        if n >= calls.len() || calls[n].0 != key(x) {
            raise(format!("evaluation {} of {} is of {:?} and was of other coordinates when the goal had other values in the same order", n, calls.len(), x));
        }
        n += 1;
        other(calls[n - 1].1)
    });
    ensure!(n == calls.len(), "{} evaluations instead of {} when the goal has other values in the same order", n, calls.len());
    ensure!(w1 == w2, "{} random words instead of {} when the goal has other values in the same order", w2, w1);
    let same = match (&r1, &r2) {
        (None, None) => true,
        (Some((x, v)), Some((y, w))) => key(x) == key(y) && same(other(*v), *w),
        _ => false,
    };
    ensure!(same, "the result {:?} became {:?} when the goal had other values in the same order", r1, r2);
    case.count("evaluations_compared", n as u64);
    case.count("values_replaced", values.len() as u64);
    if values.len() > 1 && iterations > 1 {
        case.nontrivial(hash_u64s(&calls.iter().map(|c| c.1.to_bits()).collect::<Vec<u64>>()) ^ hash_bytes(name.as_bytes()));
    }
    Ok(())
}
pub fn c33(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c33_t::<f64>(case)
    } else {
        c33_t::<f32>(case)
    }
}
