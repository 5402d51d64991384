//! C34: invalid arguments are rejected, valid ones are not; C35: the search has no preferred unit or direction
//! (metamorphic runs).
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::pso::*;
use crate::{ensure, fail};
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::VecMutation;
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::tools::RandomVectorCreator;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand_chacha::ctl;
use std::cell::Cell;
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;

// --------------------------------------------------------------------------------------------------- C34

/// Whether `f` panics outside the harness.
fn panics<X>(f: impl FnOnce() -> X) -> bool {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => false,
        Err(payload) => {
            if payload.downcast_ref::<Viol>().is_some() {
                panic::resume_unwind(payload)
            }
            let at = last_panic();
            if at.as_ref().map_or(true, |(loc, _)| in_harness(loc)) {
                panic::resume_unwind(payload)
            }
            true
        }
    }
}
fn judge<X>(case: &mut Case, what: String, invalid: bool, f: impl FnOnce() -> X) -> R {
    case.describe(what.clone());
    let p = panics(f);
    ensure!(p || !invalid, "not rejected: {}", what);
    ensure!(!p || invalid, "rejected although valid: {}", what);
    case.count(if invalid { "rejections" } else { "acceptances" }, 1);
    case.evals += 1;
    case.nontrivial(hash_bytes(what.as_bytes()));
    Ok(())
}
/// An interval, often not a proper one.
fn odd_interval<F: Fl>(r: &mut Rng) -> (F, F) {
    let (a, b) = interval::<F>(r);
    match r.below(12) {
        0 => (a, a),
        1 => (b, a),
        2 => (a.ulp_up(), a),
        3 => (a, a.ulp_up()),
        4 => (F::nan(), b),
        5 => (a, F::nan()),
        6 => (F::zero(), -F::zero()),
        _ => (a, b),
    }
}
fn some_intervals<F: Fl>(r: &mut Rng, least: usize) -> (Vec<(F, F)>, bool) {
    let n = r.range(least, 4);
    let good = r.chance(0.4);
    let iv: Vec<(F, F)> = (0..n).map(|_| if good { interval(r) } else { odd_interval(r) }).collect();
    let bad = iv.iter().any(|(a, b)| !(a < b));
    (iv, bad)
}
fn around<F: Fl>(r: &mut Rng, x: f64) -> F {
    let y = F::of(x);
    match r.below(6) {
        0 => y.ulp_up(),
        1 => y.ulp_down(),
        2 => F::nan(),
        3 => F::of(x + r.f(0.0, 1.0)),
        4 => F::of(x - r.f(0.0, 1.0)),
        _ => y,
    }
}
struct Start<F>(Vec<Vec<F>>);
impl<F: Clone> CoordinatesInitializer<F> for Start<F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        self.0.clone()
    }
}
impl<F: Clone> VelocityInitializer<F> for Start<F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        self.0.clone()
    }
}
struct Call<G>(G);
impl<F, G: FnMut(&Vec<F>) -> f64> Goal<Vec<F>> for Call<G> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        (self.0)(x)
    }
}
struct Until(usize);
impl<T> StopChecker<T> for Until {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        s.get_iteration() >= self.0
    }
}
fn points<F: Fl>(r: &mut Rng, n: usize, dim: usize, wrong: usize) -> Vec<Vec<F>> {
    (0..n).map(|i| (0..if i + 1 == wrong { dim + r.range(1, 3) } else { dim }).map(|_| F::of(r.f(-3.0, 3.0))).collect()).collect()
}
fn c34_t<F: Fl>(case: &mut Case) -> R {
    let (_, seed) = case.any_stream();
    let mut r = Rng(seed);
    let r = &mut r;
    match r.below(11) {
        0 => {
            let (iv, bad) = some_intervals::<F>(r, 0);
            let n = *r.pick(&[0, 1, 1, 2, 5]);
            judge(case, format!("genetic creator of {} individuals in {:?} ({})", n, iv, F::NAME), n == 0 || iv.is_empty() || bad, || RandomCreator::new(n, iv))?;
            // integer intervals
            let iv: Vec<(i32, i32)> = (0..r.range(1, 3)).map(|_| (r.range(0, 4) as i32 - 2, r.range(0, 4) as i32)).collect();
            let bad = iv.iter().any(|(a, b)| a >= b);
            judge(case, format!("genetic creator in {:?}", iv), bad, || RandomCreator::new(2, iv).create())
        }
        1 => {
            let (iv, bad) = some_intervals::<F>(r, 0);
            judge(case, format!("random vector in {:?} ({})", iv, F::NAME), bad, || RandomVectorCreator::new().create_vec(&iv))
        }
        2 => {
            let (iv, bad) = some_intervals::<F>(r, 1);
            let n = r.range(1, 3);
            judge(case, format!("{} start positions in {:?} ({})", n, iv, F::NAME), bad, || RandomCoordinatesInitializer::new(iv.clone(), n).get_coordinates())?;
            judge(case, format!("{} start velocities in {:?} ({})", n, iv, F::NAME), bad, || RandomVelocityInitializer::new(iv, n).get_velocity())
        }
        3 => {
            let personal = F::of(r.f(-1.0, 5.0));
            let four = around::<F>(r, 4.0);
            let global = if r.chance(0.5) { four - personal } else { F::of(r.f(0.0, 5.0)) };
            let alpha = if r.chance(0.6) { F::of(r.f(0.01, 0.99)) } else { let x = *r.pick(&[0.0, 1.0]); around::<F>(r, x) };
            let bad = !(personal + global > F::of(4.0)) || !(alpha > F::zero()) || !(alpha < F::one());
            judge(case, format!("canonical rule of {:?} {:?} {:?} ({})", personal, global, alpha, F::NAME), bad, || CanonicalVelocityCalculator::new(personal, global, alpha))
        }
        4 => {
            let x = *r.pick(&[0.0, 0.0, 1.0, 0.5]);
            let p = around::<f32>(r, x);
            let bad = !(p >= 0.0) || !(p <= 1.0);
            judge(case, format!("teleport with probability {:?} ({})", p, F::NAME), bad, || RandomTeleport::<F>::new(intervals(r, 2), p))
        }
        5 => {
            let n = r.below(3);
            let members = || (0..n).map(|i| Box::new(MaxIterations::new(i)) as Box<dyn StopChecker<Vec<F>>>).collect::<Vec<_>>();
            judge(case, format!("any of {} criteria", n), n == 0, || CompositeAny::new(members()))?;
            judge(case, format!("all of {} criteria", n), n == 0, || CompositeAll::new(members()))
        }
        6 => {
            let (n, m) = (r.below(4), r.below(4));
            judge(case, format!("success predicate of {} values and {} deltas", n, m), n != m, || {
                let _ = get_predicate_success_vec_solution(vec![F::zero(); n], vec![F::one(); m]);
            })
        }
        7 => {
            // points of another dimension
            let (dim, of) = (r.range(1, 4), r.range(1, 4));
            let iv = intervals::<F>(r, dim);
            let x: Vec<F> = (0..of).map(|_| F::of(r.f(-3.0, 3.0))).collect();
            let bad = dim != of;
            judge(case, format!("boundary correction of {} intervals for {:?}", dim, x), bad, || MoveToBoundary::new(iv.clone()).post_move(&mut x.clone()))?;
            let p = *r.pick(&[0.0, 0.5, 1.0]);
            judge(case, format!("teleport ({}) of {} intervals for {:?}", p, dim, x), bad, || RandomTeleport::new(iv.clone(), p).post_move(&mut x.clone()))?;
            judge(case, format!("velocity limits of {} dimensions for {:?}", dim, x), bad, || MaxVelocityDimensions::new(vec![F::one(); dim]).correct_velocity(x.clone()))
        }
        8 => {
            let (n, dim) = (r.range(0, 5), r.range(1, 3));
            let wrong = if r.chance(0.6) { r.below(n + 1) } else { 0 };
            let xs = points::<F>(r, n, dim, wrong);
            let iv = intervals::<F>(r, dim);
            let what = format!("interval check in {:?} of {:?}", iv, xs);
            judge(case, format!("pre-birth {}", what), wrong > 0, || {
                let mut out = xs.clone();
                with_population(vec![], |p| pre_birth::vec_float::CheckChromoInterval::new(iv.clone()).pre_birth(p, &mut out));
            })?;
            judge(case, format!("selection {}", what), wrong > 0, || with_population(xs.clone(), |p| selection::vec_float::CheckChromoInterval::new(iv.clone()).kill(p)))
        }
        9 => {
            let n = r.below(5);
            let g: Vec<F> = (0..n).map(|_| F::of(r.f(0.1, 9.0))).collect();
            let refs: Vec<&F> = g.iter().collect();
            let mut ops = vec![("mean", F::cross_mean(), n < 2), ("geometric mean", F::cross_geo(), n < 2), ("bitwise", F::cross_bitwise(), n != 2), ("exponent", F::cross_exp(), n != 2)];
            for (name, op, bad) in ops.iter_mut() {
                judge(case, format!("{} crossing of {:?} ({})", name, g, F::NAME), *bad, || op.cross(&refs))?;
            }
            let v: Vec<Vec<F>> = g.iter().map(|x| vec![*x; 2]).collect();
            let refs: Vec<&Vec<F>> = v.iter().collect();
            judge(case, format!("vector crossing of {:?} ({})", v, F::NAME), n != 2, || VecCrossAllGenes::new(F::cross_mean()).cross(&refs))
        }
        _ => {
            // a swarm with another number of velocities: nothing must be evaluated
            let (n, m) = (r.below(4), r.below(4));
            let calls = Rc::new(Cell::new(0));
            let c = calls.clone();
            let (x, v) = (points::<F>(r, n, 2, 0), points::<F>(r, m, 2, 0));
            judge(case, format!("a swarm of {} positions and {} velocities", n, m), n != m, || {
                ParticleSwarmOptimizer::new(
                    Box::new(Call(move |_: &Vec<F>| {
                        c.set(c.get() + 1);
                        1.0
                    })),
                    Box::new(Until(0)),
                    Box::new(Start(x)),
                    Box::new(Start(v)),
                    Box::new(ClassicVelocityCalculator::new(F::one(), F::one())),
                )
                .find_min()
            })?;
            ensure!(n == m || calls.get() == 0, "{} evaluations by a swarm of {} positions and {} velocities", calls.get(), n, m);
            // solutions of different dimensions have no mean
            let k = r.range(1, 4);
            let wrong = if k > 1 { r.below(k + 1) } else { 0 };
            let mut runs: Vec<Option<(Vec<F>, f64)>> = points::<F>(r, k, 2, wrong).into_iter().map(|x| Some((x, 1.0))).collect();
            for _ in 0..r.below(3) {
                let at = r.below(runs.len() + 1);
                runs.insert(at, None);
            }
            judge(case, format!("mean of the solutions {:?}", runs), wrong > 0, || runs.get_average())?;
            judge(case, format!("deviation of the solutions {:?}", runs), wrong > 0, || runs.get_standard_deviation())
        }
    }
}
/// A population of the given points in the hands of `f`.
fn with_population<F: Fl>(points: Vec<Vec<F>>, f: impl FnMut(&mut Population<Vec<F>>)) {
    struct C<F>(Vec<Vec<F>>);
    impl<F: Clone> Creator<Vec<F>> for C<F> {
        fn create(&mut self) -> Vec<Vec<F>> {
            self.0.clone()
        }
    }
    struct Nobody;
    impl<T> Pairing<T> for Nobody {
        fn get_pairs(&mut self, _: &Population<T>) -> Vec<Vec<usize>> {
            vec![]
        }
    }
    impl<T> Cross<T> for Nobody {
        fn cross(&mut self, _: &[&T]) -> Vec<T> {
            vec![]
        }
    }
    impl<T: Clone> Mutation<T> for Nobody {
        fn mutation(&mut self, x: &T) -> T {
            x.clone()
        }
    }
    struct S<G>(G);
    impl<T, G: FnMut(&mut Population<T>)> Selection<T> for S<G> {
        fn kill(&mut self, p: &mut Population<T>) {
            (self.0)(p)
        }
    }
    GeneticOptimizer::new(Box::new(Call(|_: &Vec<F>| 1.0)), Box::new(Until(1)), Box::new(C(points)), Box::new(Nobody), Box::new(Nobody), Box::new(Nobody), vec![Box::new(S(f))], vec![]).find_min();
}
pub fn c34(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c34_t::<f64>(case)
    } else {
        c34_t::<f32>(case)
    }
}

// --------------------------------------------------------------------------------------------------- C35

/// A run as the evaluated points, the values, the result and the number of random words.
struct Trace<F> {
    calls: Vec<(Vec<F>, f64)>,
    result: Option<(Vec<F>, f64)>,
    words: u64,
}
/// Runs with a goal that takes its values from `values` (by number of the call), else from `kind`.
fn trace<F: Fl>(mode: ctl::Mode, seed: u64, kind: &GoalKind, values: Option<&[f64]>, run: impl FnOnce(&mut dyn FnMut(&Vec<F>) -> f64) -> Option<(Vec<F>, f64)>) -> R<Trace<F>> {
    let mut calls: Vec<(Vec<F>, f64)> = vec![];
    restart(mode, seed);
    let result = guarded(|| {
        run(&mut |x| {
            let n = calls.len();
            let v = match values {
                Some(v) => v.get(n).copied().unwrap_or(f64::NAN),
                None => {
                    let f: Vec<f64> = x.iter().map(|x| x.f()).collect();
                    kind.eval(&key_of(x), &f, n as u64)
                }
            };
            calls.push((x.clone(), v));
            v
        })
    })?;
    Ok(Trace { calls, result, words: ctl::words() })
}
/// Far enough from overflow and underflow that factors of 2^±10 (2^±150 in double precision) are exact everywhere in the formulas.
fn tame<F: Fl>(x: &F) -> bool {
    let a = x.f().abs();
    let (lo, hi) = if F::BITS == 32 { (-30, 60) } else { (-200, 200) };
    a == 0.0 || (a.is_finite() && a > 2f64.powi(lo) && a < 2f64.powi(hi))
}
/// Compares the first run, transformed by `map`, with the second one, as far as the first one is tame.
fn compare<F: Fl>(case: &mut Case, what: &str, a: &Trace<F>, b: &Trace<F>, map: impl Fn(&[F]) -> Vec<F>) -> R {
    let n = a.calls.iter().position(|c| !c.0.iter().all(tame)).unwrap_or(a.calls.len());
    let eq = |x: &[F], y: &[F]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()));
    for i in 0..n {
        let want = map(&a.calls[i].0);
        match b.calls.get(i) {
            None => fail!("{}: only {} evaluations instead of {}", what, b.calls.len(), a.calls.len()),
            Some((x, _)) => ensure!(eq(x, &want), "{}: evaluation {} is of {:?} instead of {:?} (original {:?})", what, i, x, want, a.calls[i].0),
        }
    }
    case.count("evaluations_compared", n as u64);
    if n < a.calls.len() {
        case.count("left_the_exact_range", 1);
        return Ok(());
    }
    ensure!(b.calls.len() == n, "{}: {} evaluations instead of {}", what, b.calls.len(), n);
    ensure!(a.words == b.words, "{}: {} random words instead of {}", what, b.words, a.words);
    let same = match (&a.result, &b.result) {
        (None, None) => true,
        (Some((x, v)), Some((y, w))) => eq(y, &map(x)) && (v == w || (v.is_nan() && w.is_nan())),
        _ => false,
    };
    ensure!(same, "{}: the result is {:?}, of the original {:?}", what, b.result, a.result);
    case.count("results_compared", 1);
    if n > 3 {
        case.nontrivial(hash_u64s(&a.calls.iter().flat_map(|c| key(&c.0)).collect::<Vec<u64>>()) ^ hash_bytes(what.as_bytes()));
    }
    Ok(())
}
fn swarm_run<F: Fl>(cfg: &PsoCfg<F>, start: Option<(Vec<Vec<F>>, Vec<Vec<F>>)>, iterations: usize, goal: &mut dyn FnMut(&Vec<F>) -> f64) -> Option<(Vec<F>, f64)> {
    let (x, v): (Box<dyn CoordinatesInitializer<F>>, Box<dyn VelocityInitializer<F>>) = match start {
        None => (cfg.coords(), cfg.vels()),
        Some((x, v)) => (Box::new(Start(x)), Box::new(Start(v))),
    };
    let mut o = ParticleSwarmOptimizer::new(Box::new(Call(goal)), Box::new(Until(iterations)), x, v, cfg.vel.build());
    o.set_post_velocity_calc(cfg.bare_post_vels());
    o.set_post_moves(cfg.bare_post_moves());
    o.find_min()
}
fn usual_goal(r: &mut Rng) -> GoalKind {
    loop {
        let k = GoalKind::any(r);
        if !matches!(k, GoalKind::Const(_) | GoalKind::AllNan) || r.chance(0.1) {
            return k;
        }
    }
}
/// Another unit of length: 2 to this power.
fn scale<F: Fl>(r: &mut Rng) -> i32 {
    if F::BITS == 64 && r.chance(0.2) {
        return *r.pick(&[-150, -120, -60, 60, 120, 150]);
    }
    *r.pick(&[-10, -3, -1, 1, 2, 7, 10])
}
fn c35_units_t<F: Fl>(case: &mut Case) -> R {
    let cfg = PsoCfg::<F>::random(&mut case.rng, 1);
    let kind = usual_goal(&mut case.rng);
    let iterations = case.rng.range(1, 25);
    let exp = scale::<F>(&mut case.rng);
    let s = 2f64.powi(exp);
    let (mode, seed) = case.any_stream();
    case.describe(format!("all lengths times 2^{}, {} iterations, goal {:?}, stream {:?} {}; {}", exp, iterations, kind, mode, seed, cfg.show()));
    let mut other = cfg.clone();
    other.iv.iter_mut().for_each(|(a, b)| {
        *a = *a * F::of(s);
        *b = *b * F::of(s);
    });
    other.vel0 = cfg.vel0.map(|v| v * s);
    if let VelK::Custom(_, w) = &mut other.vel {
        *w *= s;
    }
    for p in &mut other.pvs {
        match p {
            PvK::Dims(v) => v.iter_mut().for_each(|x| *x *= s),
            PvK::Abs(x) => *x *= s,
            PvK::Scale(_) => {}
        }
    }
    for p in &mut other.pms {
        if let PmK::Shift(x) = p {
            *x *= s;
        }
    }
    let a = trace::<F>(mode, seed, &kind, None, |g| swarm_run(&cfg, None, iterations, g))?;
    let values: Vec<f64> = a.calls.iter().map(|c| c.1).collect();
    let b = trace::<F>(mode, seed, &kind, Some(&values), |g| swarm_run(&other, None, iterations, g))?;
    compare(case, &format!("all lengths of a swarm times 2^{}", exp), &a, &b, |x| x.iter().map(|v| *v * F::of(s)).collect())
}
fn c35_axes_t<F: Fl>(case: &mut Case) -> R {
    let r = &mut case.rng;
    let mut cfg = PsoCfg::<F>::random(r, 1);
    if let VelK::Custom(..) = cfg.vel {
        cfg.vel = VelK::Classic(r.f(0.0, 3.0), r.f(0.0, 3.0));
    }
    // only corrections that treat all directions alike
    cfg.pms.retain(|p| matches!(p, PmK::Boundary));
    let dim = cfg.iv.len();
    let reorder = r.chance(0.5);
    let mut order: Vec<usize> = (0..dim).collect();
    if reorder {
        r.shuffle(&mut order);
        cfg.pvs.retain(|p| !matches!(p, PvK::Abs(_)));
    }
    let sign: Vec<F> = (0..dim).map(|_| if r.chance(0.5) { -F::one() } else { F::one() }).collect();
    let kind = usual_goal(r);
    let iterations = r.range(1, 25);
    let start: Vec<Vec<F>> = (0..cfg.n).map(|_| cfg.iv.iter().map(|(a, b)| F::of(r.f(a.f(), b.f())).max(*a).min(*b)).collect()).collect();
    let w = cfg.vel0.unwrap_or(0.0);
    let vel: Vec<Vec<F>> = (0..cfg.n).map(|_| (0..dim).map(|_| F::of(r.f(-w, w))).collect()).collect();
    let (mode, seed) = if reorder { (ctl::Mode::Const(r.u64() as u32), 1) } else { (any_mode(r), r.u64()) };
    // component i of the new point is component order[i], mirrored by sign[i]
    let map = |x: &[F]| -> Vec<F> { (0..x.len()).map(|i| x[order[i]] * sign[i]).collect() };
    let mut other = cfg.clone();
    other.iv = (0..dim)
        .map(|i| {
            let (a, b) = cfg.iv[order[i]];
            if sign[i] < F::zero() {
                (-b, -a)
            } else {
                (a, b)
            }
        })
        .collect();
    for p in &mut other.pvs {
        if let PvK::Dims(v) = p {
            *v = order.iter().map(|j| v[*j]).collect();
        }
    }
    case.describe(format!("axes {:?} {:?}, {} iterations, goal {:?}, stream {:?} {}; start {:?} {:?} {}", order, sign, iterations, kind, mode, seed, start, vel, cfg.show()));
    let moved = (start.iter().map(|x| map(x)).collect(), vel.iter().map(|x| map(x)).collect());
    let a = trace::<F>(mode, seed, &kind, None, |g| swarm_run(&cfg, Some((start, vel)), iterations, g))?;
    ensure!(!ctl::escaped(), "a constant random stream is rejected for ever");
    let values: Vec<f64> = a.calls.iter().map(|c| c.1).collect();
    let b = trace::<F>(mode, seed, &kind, Some(&values), |g| swarm_run(&other, Some(moved), iterations, g))?;
    compare(case, if reorder { "a swarm with reordered axes" } else { "a swarm with mirrored axes" }, &a, &b, map)
}
/// Multiplies by a number: looks the same in every unit.
struct Stretch(f64, u64);
impl<F: Fl> Mutation<F> for Stretch {
    fn mutation(&mut self, x: &F) -> F {
        self.1 += 1;
        *x * F::of(self.0 * [1.0, -1.0, 1.5, 0.75][(mix(self.1) & 3) as usize])
    }
}
fn c35_genetic_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = VecCfg::<F>::random(&mut case.rng, 1);
    cfg.cross = CrossK::Mean;
    let kind = usual_goal(&mut case.rng);
    let iterations = case.rng.range(1, 12);
    let exp = scale::<F>(&mut case.rng);
    let s = F::of(2f64.powi(exp));
    let stretch = case.rng.f(0.6, 1.7);
    let (mode, seed) = case.any_stream();
    case.describe(format!("all lengths times 2^{}, {} iterations, goal {:?}, stretch {} stream {:?} {}; {}", exp, iterations, kind, stretch, mode, seed, cfg.show()));
    let mut other = cfg.clone();
    other.iv.iter_mut().for_each(|(a, b)| {
        *a = *a * s;
        *b = *b * s;
    });
    let run = |c: &VecCfg<F>, goal: &mut dyn FnMut(&Vec<F>) -> f64| {
        GeneticOptimizer::new(
            Box::new(Call(goal)),
            Box::new(Until(iterations)),
            Box::new(RandomCreator::new(c.pop, c.iv.clone())),
            c.pairing(),
            c.crossing(),
            Box::new(VecMutation::new(c.mut_prob, Box::new(Stretch(stretch, seed)))),
            c.selections(),
            c.pre_births(),
        )
        .find_min()
    };
    let a = trace::<F>(mode, seed, &kind, None, |g| run(&cfg, g))?;
    let values: Vec<f64> = a.calls.iter().map(|c| c.1).collect();
    let b = trace::<F>(mode, seed, &kind, Some(&values), |g| run(&other, g))?;
    compare(case, &format!("all lengths of a genetic search times 2^{}", exp), &a, &b, |x| x.iter().map(|v| *v * s).collect())
}

// --------------------------------------------------------------------------------------------------- C36

/// Answers always the same.
struct Always(bool);
impl<T> StopChecker<T> for Always {
    fn can_stop(&mut self, _: &dyn AlgorithmState<T>) -> bool {
        self.0
    }
}
/// Passes everything on.
struct Pass;
impl<F: Fl> PostMove<F> for Pass {
    fn post_move(&mut self, _: &mut Vec<F>) {}
}
impl<F: Fl> PostVelocityCalc<F> for Pass {
    fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
        v
    }
}
/// Shows only numbers to the limit: what it makes of NaN is its own affair.
struct Numbers<F>(Box<dyn PostVelocityCalc<F>>);
impl<F: Fl> PostVelocityCalc<F> for Numbers<F> {
    fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
        if v.iter().any(|x| x.is_nan()) {
            v
        } else {
            self.0.correct_velocity(v)
        }
    }
}
impl<F: Fl> Selection<Vec<F>> for Pass {
    fn kill(&mut self, p: &mut Population<Vec<F>>) {
        // looks at everything
        for i in p.iter_mut() {
            i.get_goal();
        }
        p.get_agents();
    }
}
impl<F: Fl> PreBirth<Vec<F>> for Pass {
    fn pre_birth(&mut self, p: &Population<Vec<F>>, c: &mut Vec<Vec<F>>) {
        let all: Vec<Vec<F>> = c.drain(..).collect();
        p.get_best_solution();
        c.extend(all);
    }
}
/// A logger that asks for everything.
struct Curious(u64);
impl<T> Logger<T> for Curious {
    fn start(&mut self, s: &dyn AlgorithmState<T>) {
        self.next_iteration(s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) {
        self.0 += s.get_iteration() as u64 + s.get_best_solution().is_some() as u64;
    }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) {
        self.next_iteration(s)
    }
}
fn same_stop<T: 'static>(r: &mut Rng, inner: Box<dyn StopChecker<T>>, what: &mut Vec<String>) -> Box<dyn StopChecker<T>> {
    let mut c = inner;
    for _ in 0..r.below(3) {
        let k = r.below(4);
        what.push(format!("stop criterion {}", ["in any, alone", "in all, alone", "in any with one that never stops", "in all with one that always stops"][k]));
        let front = r.chance(0.5);
        let mut v: Vec<Box<dyn StopChecker<T>>> = vec![c];
        if k >= 2 {
            v.insert(front as usize, Box::new(Always(k == 3)));
        }
        c = if k % 2 == 0 { Box::new(CompositeAny::new(v)) } else { Box::new(CompositeAll::new(v)) };
    }
    c
}
struct Sinks<F> {
    text: Vec<Vec<u8>>,
    stat: Statistics<Vec<F>>,
    prec: usize,
}
impl<F: Fl + std::fmt::Display + std::fmt::Debug> Sinks<F> {
    fn loggers<'a>(&'a mut self, r: &mut Rng, what: &mut Vec<String>) -> Vec<Box<dyn Logger<Vec<F>> + 'a>> {
        let prec = self.prec;
        let mut v: Vec<Box<dyn Logger<Vec<F>> + 'a>> = vec![];
        for w in self.text.iter_mut() {
            let k = r.below(4);
            what.push(format!("{} logger", ["verbose", "result", "time", "curious"][k]));
            v.push(match k {
                0 => Box::new(VerboseLogger::new(w, prec)),
                1 => Box::new(ResultOnlyLogger::new(w, prec)),
                2 => Box::new(TimeLogger::new(w)),
                _ => Box::new(Curious(0)),
            });
        }
        if r.chance(0.5) {
            what.push("statistics logger".to_string());
            let at = r.below(v.len() + 1);
            v.insert(at, Box::new(StatisticsLogger::new(&mut self.stat)));
        }
        v
    }
}
fn sinks<F: Fl + std::fmt::Display + std::fmt::Debug>(r: &mut Rng) -> Sinks<F> {
    Sinks { text: vec![vec![]; r.below(4)], stat: Statistics::new(), prec: r.below(6) }
}
fn neutral_compare<F: Fl>(case: &mut Case, a: &Trace<F>, b: &Trace<F>, what: &[String]) -> R {
    let eq = |x: &[F], y: &[F]| key_of(x) == key_of(y);
    for i in 0..a.calls.len() {
        match b.calls.get(i) {
            None => fail!("with {:?}: {} evaluations instead of {}", what, b.calls.len(), a.calls.len()),
            Some((x, _)) => ensure!(eq(x, &a.calls[i].0), "with {:?}: evaluation {} is of {:?} instead of {:?}", what, i, x, a.calls[i].0),
        }
    }
    ensure!(b.calls.len() == a.calls.len(), "with {:?}: {} evaluations instead of {}", what, b.calls.len(), a.calls.len());
    ensure!(a.words == b.words, "with {:?}: {} random words instead of {}", what, b.words, a.words);
    let same = match (&a.result, &b.result) {
        (None, None) => true,
        (Some((x, v)), Some((y, w))) => eq(x, y) && v.to_bits() == w.to_bits(),
        _ => false,
    };
    ensure!(same, "with {:?}: the result is {:?} instead of {:?}", what, b.result, a.result);
    case.count("evaluations_compared", a.calls.len() as u64);
    case.count("neutral_parts", what.len() as u64);
    if a.calls.len() > 3 && !what.is_empty() {
        case.nontrivial(hash_u64s(&a.calls.iter().flat_map(|c| key_of(&c.0)).collect::<Vec<u64>>()) ^ hash_bytes(format!("{:?}", what).as_bytes()));
    }
    Ok(())
}
fn key_of<F: Fl>(x: &[F]) -> Vec<u64> {
    // (the sign of NaN is nothing the library cares about)
    key(&x.iter().map(|v| if v.is_nan() { F::nan() } else { *v }).collect::<Vec<F>>())
}
/// Copies of `of` are sprinkled over `v`.
fn sprinkle<X>(r: &mut Rng, v: &mut Vec<X>, what: &mut Vec<String>, name: &str, mut of: impl FnMut() -> X) {
    for _ in 0..r.below(3) {
        what.push(name.to_string());
        let at = r.below(v.len() + 1);
        v.insert(at, of());
    }
}
fn c36_swarm_t<F: Fl + std::fmt::Display + std::fmt::Debug>(case: &mut Case) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 20);
    cfg.diverge(&mut case.rng, 0.05);
    let kind = cfg.goal.clone();
    let pauses = case.rng.chance(0.3);
    let first = case.rng.below(6);
    let (mode, seed) = case.any_stream();
    case.describe(format!("neutral parts, stream {:?} {}, first segment {:?}; {}", mode, seed, if pauses { Some(first) } else { None }, cfg.show()));
    let finish = |o: &mut ParticleSwarmOptimizer<'_, F>, last: Box<dyn StopChecker<Vec<F>>>| {
        let r = o.find_min();
        if !pauses {
            return r;
        }
        o.set_stop_checker(last);
        o.next_iterations()
    };
    let begin = |usual: Box<dyn StopChecker<Vec<F>>>| if pauses { Box::new(Until(first)) as Box<dyn StopChecker<Vec<F>>> } else { usual };
    let a = trace::<F>(mode, seed, &kind, None, |g| {
        let mut o = ParticleSwarmOptimizer::new(Box::new(Call(g)), begin(cfg.stop.build()), cfg.coords(), cfg.vels(), cfg.vel.build());
        o.set_post_velocity_calc(cfg.bare_post_vels());
        o.set_post_moves(cfg.bare_post_moves());
        finish(&mut o, cfg.stop.build())
    })?;
    let mut what = vec![];
    let r = &mut case.rng;
    let mut vels = cfg.bare_post_vels();
    if cfg.pvs.iter().all(|p| matches!(p, PvK::Dims(_))) && r.chance(0.4) {
        what.push("velocity limits twice".to_string());
        // limits one after the other, then all of them once more
        vels.extend(cfg.bare_post_vels().into_iter().map(|v| Box::new(Numbers(v)) as Box<dyn PostVelocityCalc<F>>));
    }
    let dim = cfg.iv.len();
    sprinkle(r, &mut vels, &mut what, "pass velocity", || Box::new(Pass));
    sprinkle(r, &mut vels, &mut what, "unlimited velocity", || Box::new(Numbers(Box::new(MaxVelocityDimensions::new(vec![F::infinity(); dim])))));
    let mut moves: Vec<Box<dyn PostMove<F>>> = vec![];
    for k in &cfg.pms {
        let mut one = cfg.clone();
        one.pms = vec![k.clone()];
        moves.extend(one.bare_post_moves());
        if matches!(k, PmK::Boundary) && r.chance(0.5) {
            what.push("boundary twice".to_string());
            moves.extend(one.bare_post_moves());
        }
    }
    sprinkle(r, &mut moves, &mut what, "pass position", || Box::new(Pass));
    let stop = same_stop(r, cfg.stop.build(), &mut what);
    let mut s = sinks::<F>(r);
    let loggers = s.loggers(r, &mut what);
    let b = trace::<F>(mode, seed, &kind, None, |g| {
        let mut stop = Some(stop);
        let mut o = ParticleSwarmOptimizer::new(Box::new(Call(g)), begin(if pauses { cfg.stop.build() } else { stop.take().unwrap() }), cfg.coords(), cfg.vels(), cfg.vel.build());
        o.set_post_velocity_calc(vels);
        o.set_post_moves(moves);
        o.set_loggers(loggers);
        finish(&mut o, stop.unwrap_or_else(|| cfg.stop.build()))
    })?;
    neutral_compare(case, &a, &b, &what)
}
fn c36_genetic_t<F: Fl + std::fmt::Display + std::fmt::Debug>(case: &mut Case) -> R {
    let cfg = VecCfg::<F>::random(&mut case.rng, 12);
    let kind = cfg.goal.clone();
    let pauses = case.rng.chance(0.3);
    let first = case.rng.below(6);
    let (mode, seed) = case.any_stream();
    case.describe(format!("neutral parts, stream {:?} {}, first segment {:?}; {}", mode, seed, if pauses { Some(first) } else { None }, cfg.show()));
    let finish = |o: &mut GeneticOptimizer<'_, Vec<F>>, last: Box<dyn StopChecker<Vec<F>>>| {
        let r = o.find_min();
        if !pauses {
            return r;
        }
        o.set_stop_checker(last);
        o.next_iterations()
    };
    let begin = |usual: Box<dyn StopChecker<Vec<F>>>| if pauses { Box::new(Until(first)) as Box<dyn StopChecker<Vec<F>>> } else { usual };
    let a = trace::<F>(mode, seed, &kind, None, |g| {
        let mut o = GeneticOptimizer::new(Box::new(Call(g)), begin(cfg.stop.build()), Box::new(RandomCreator::new(cfg.pop, cfg.iv.clone())), cfg.pairing(), cfg.crossing(), cfg.mutation(), cfg.selections(), cfg.pre_births());
        finish(&mut o, cfg.stop.build())
    })?;
    let mut what = vec![];
    let r = &mut case.rng;
    let mut sels: Vec<Box<dyn Selection<Vec<F>>>> = vec![];
    for k in &cfg.sels {
        let mut one = cfg.clone();
        one.sels = vec![k.clone()];
        for n in 0..r.range(1, 2) {
            if n > 0 {
                what.push(format!("selection {:?} twice", k));
            }
            sels.extend(one.selections());
        }
    }
    sprinkle(r, &mut sels, &mut what, "pass selection", || Box::new(Pass));
    sprinkle(r, &mut sels, &mut what, "wide limit", || Box::new(selection::LimitPopulation::new(usize::MAX)));
    let mut pres = cfg.pre_births();
    if r.chance(0.4) {
        what.push("pre-birth checks twice".to_string());
        pres.extend(cfg.pre_births());
    }
    sprinkle(r, &mut pres, &mut what, "pass pre-birth", || Box::new(Pass));
    let stop = same_stop(r, cfg.stop.build(), &mut what);
    let mut s = sinks::<F>(r);
    let loggers = s.loggers(r, &mut what);
    let b = trace::<F>(mode, seed, &kind, None, |g| {
        let mut stop = Some(stop);
        let mut o = GeneticOptimizer::new(Box::new(Call(g)), begin(if pauses { cfg.stop.build() } else { stop.take().unwrap() }), Box::new(RandomCreator::new(cfg.pop, cfg.iv.clone())), cfg.pairing(), cfg.crossing(), cfg.mutation(), sels, pres);
        o.set_loggers(loggers);
        finish(&mut o, stop.unwrap_or_else(|| cfg.stop.build()))
    })?;
    neutral_compare(case, &a, &b, &what)
}
macro_rules! both {
    ($name:ident, $gen:ident) => {
        pub fn $name(case: &mut Case) -> R {
            if case.index % 2 == 0 {
                $gen::<f64>(case)
            } else {
                $gen::<f32>(case)
            }
        }
    };
}
both!(c35_units, c35_units_t);
both!(c35_axes, c35_axes_t);
both!(c35_genetic, c35_genetic_t);
both!(c36_swarm, c36_swarm_t);
both!(c36_genetic, c36_genetic_t);
