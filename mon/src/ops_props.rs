//! Properties of the single operators: C05-C12, C16, C17. Each operator is called directly (inside a real
//! population where it needs one) with hostile inputs and on honest as well as extreme random streams.
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::{ensure, fail};
use num::NumCast;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::pairing::*;
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::RandomVectorCreator;
use rand_chacha::ctl;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;

macro_rules! both {
    ($name:ident, $f:ident) => {
        pub fn $name(case: &mut Case) -> R {
            if case.index % 2 == 0 {
                $f::<f64>(case)
            } else {
                $f::<f32>(case)
            }
        }
    };
}

/// Use a population of the given points, values and life flags, and get what the closure returns.
pub fn in_population<T: Cand, X: 'static>(
    points: Vec<T>,
    values: Vec<f64>,
    alive: Vec<bool>,
    f: impl FnOnce(&mut Population<T>) -> X + 'static,
) -> X {
    let out: Rc<RefCell<Option<X>>> = Rc::new(RefCell::new(None));
    let o2 = out.clone();
    let mut f = Some(f);
    with_population(points, values, move |p| {
        if p.len() != alive.len() {
            raise(format!("{} start points made a population of {}", alive.len(), p.len()));
        }
        for (i, a) in alive.iter().enumerate() {
            if !*a {
                p[i].kill();
            }
        }
        if let Some(f) = f.take() {
            *o2.borrow_mut() = Some(f(p));
        }
    });
    let x = out.borrow_mut().take();
    x.expect("the closure ran")
}
fn tags(n: usize) -> Vec<Tag> {
    (0..n as u64).map(Tag).collect()
}
pub fn hostile_value(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => any_float::<f64>(r),
        _ => r.below(7) as f64 - 3.0,
    }
}
fn show(p: &Pop) -> String {
    let v: Vec<String> = p.ind.iter().map(|i| format!("{}{}", if i.alive { "" } else { "+" }, i.val)).collect();
    format!("[{}]", v.join(" "))
}

// --------------------------------------------------------------------------------------------------- C05

fn badness(x: f64) -> f64 {
    if x.is_nan() {
        f64::INFINITY
    } else {
        x
    }
}
/// What removing `count` individuals must have done.
fn removed_ok(what: &str, before: &Pop, after: &Pop, count: usize) -> R {
    if let Some(b) = &after.bad {
        fail!("{}: {}", what, b);
    }
    ensure!(before.ind.len() == after.ind.len(), "{}: {} individuals became {}", what, before.ind.len(), after.ind.len());
    let mut killed = vec![];
    let mut left = vec![];
    for (i, (b, a)) in before.ind.iter().zip(&after.ind).enumerate() {
        ensure!(b.key == a.key && same(b.val, a.val), "{}: individual {} changed", what, i);
        ensure!(b.alive || !a.alive, "{}: dead individual {} was revived", what, i);
        if b.alive {
            if a.alive {
                left.push(b.val)
            } else {
                killed.push(b.val)
            }
        }
    }
    let alive = killed.len() + left.len();
    ensure!(killed.len() == count.min(alive), "{}: {} of {} live individuals were killed instead of {}; before {} after {}", what, killed.len(), alive, count.min(alive), show(before), show(after));
    for k in &killed {
        for l in &left {
            ensure!(badness(*k) >= badness(*l), "{}: one with value {} was killed, one with {} left alive; before {} after {}", what, k, l, show(before), show(after));
        }
    }
    Ok(())
}
/// A LimitPopulation that is used for one population after another.
type Limiter = Rc<RefCell<selection::LimitPopulation>>;
fn remove_case(vals: Vec<f64>, alive: Vec<bool>, limit: Option<(usize, Option<usize>, Option<Limiter>)>, count: usize) -> R {
    let op = match &limit {
        Some((l, set, used)) => format!("LimitPopulation({}, set_limit {:?}, {})", l, set, if used.is_some() { "used before" } else { "new" }),
        None => format!("kill_worst({})", count),
    };
    let op = format!("{} on {:?} alive {:?}", op, vals, alive);
    let surplus_of = limit.as_ref().map(|(l, set, _)| set.unwrap_or(*l));
    let (before, after) = guarded(|| {
        in_population(tags(vals.len()), vals, alive, move |p| {
            let before = snapshot(p, false);
            match limit {
                Some((l, set, used)) => {
                    let s = used.unwrap_or_else(|| Rc::new(RefCell::new(selection::LimitPopulation::new(l))));
                    if let Some(l) = set {
                        s.borrow_mut().set_limit(l);
                    }
                    s.borrow_mut().kill(p);
                }
                None => selection::kill_worst(p, count),
            }
            (before, snapshot(p, false))
        })
    })
    .map_err(|v| Viol { msg: format!("{}: {}", op, v.msg), ..v })?;
    let live = before.ind.iter().filter(|i| i.alive).count();
    let surplus = match surplus_of {
        Some(l) => live.saturating_sub(l),
        None => count,
    };
    removed_ok(&op, &before, &after, surplus)
}
pub fn c05_random(case: &mut Case) -> R {
    let mut used: Option<(usize, Limiter)> = None;
    for _ in 0..60 {
        let r = &mut case.rng;
        let n = match r.below(400) {
            0..=3 => r.range(200, 900),
            4 => r.range(900, 3000),
            _ => *r.pick(&[0, 1, 2, 3, 4, 5, 8, 13, 30, 60]),
        };
        let kind = r.below(5);
        let vals: Vec<f64> = (0..n)
            .map(|_| match kind {
                0 => r.f(-1.0, 1.0),
                1 => r.below(3) as f64,
                2 => any_float::<f64>(r),
                _ => hostile_value(r),
            })
            .collect();
        let dead = *r.pick(&[0.0, 0.0, 0.2, 0.7, 1.0]);
        let mut alive: Vec<bool> = (0..n).map(|_| !r.chance(dead)).collect();
        if n > 0 && r.chance(0.3) {
            alive[0] = false;
        }
        let count = r.range(0, n + 2);
        let limit = if r.chance(0.5) {
            let l = r.range(0, n + 2);
            match &mut used {
                // the same operator once more, with its limit or a new one
                Some((old, u)) if r.chance(0.7) => {
                    let set = if r.chance(0.5) { Some(l) } else { None };
                    *old = set.unwrap_or(*old);
                    Some((*old, set, Some(u.clone())))
                }
                _ => {
                    let set = if r.chance(0.3) { Some(r.range(0, n + 2)) } else { None };
                    let u = Rc::new(RefCell::new(selection::LimitPopulation::new(l)));
                    used = Some((set.unwrap_or(l), u.clone()));
                    Some((l, set, Some(u)))
                }
            }
        } else {
            None
        };
        let fp = hash_u64s(&[n as u64, count as u64, limit.as_ref().map_or(99, |l| l.0 as u64), hash_u64s(&vals.iter().map(|v| v.to_bits()).collect::<Vec<_>>()), alive.iter().fold(1u64, |a, b| a.wrapping_mul(3) + *b as u64)]);
        let interesting = n > 1 && alive.iter().any(|a| *a);
        let d = format!("values {:?} alive {:?} count {} limit {:?}", vals, alive, count, limit.as_ref().map(|l| (l.0, l.1)));
        case.describe(d);
        if vals.iter().zip(&alive).any(|(v, a)| *a && v.is_nan()) {
            case.count("with_live_nan", 1);
        }
        if alive.iter().any(|a| !a) {
            case.count("with_dead", 1);
        }
        remove_case(vals, alive, limit, count)?;
        case.evals += 1;
        if interesting {
            case.nontrivial(fp);
        }
    }
    case.count("removals", 60);
    Ok(())
}
/// Every population of up to 4 individuals with values from {1, 2, inf, NaN}, every life pattern and every count.
pub fn c05_small(case: &mut Case) -> R {
    let vs = [1.0, 2.0, f64::INFINITY, f64::NAN];
    let mut k = 0u64;
    for n in 0..=4usize {
        for a in 0..(1usize << (2 * n)) {
            for m in 0..(1usize << n) {
                k += 1;
                if k % 16 != case.index % 16 {
                    continue;
                }
                let vals: Vec<f64> = (0..n).map(|i| vs[(a >> (2 * i)) & 3]).collect();
                let alive: Vec<bool> = (0..n).map(|i| (m >> i) & 1 == 1).collect();
                for count in 0..=n + 1 {
                    remove_case(vals.clone(), alive.clone(), None, count)?;
                    remove_case(vals.clone(), alive.clone(), Some((count, None, None)), 0)?;
                    case.evals += 2;
                    case.nontrivial(hash_u64s(&[n as u64, a as u64, m as u64, count as u64]));
                }
            }
        }
    }
    case.describe("all populations of up to 4 individuals over {1, 2, inf, NaN}".to_string());
    let e = case.evals;
    case.count("removals", e);
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C06

/// A gene near, on, inside or outside of an interval.
fn gene_near<F: Fl>(r: &mut Rng, iv: (F, F)) -> F {
    match r.below(10) {
        0 => iv.0,
        1 => iv.1,
        2 => iv.0.ulp_down(),
        3 => iv.1.ulp_up(),
        4 => iv.0.ulp_up(),
        5 => iv.1.ulp_down(),
        6 => any_float(r),
        _ => F::of(r.f(iv.0.f(), iv.1.f())),
    }
}
fn c06_t<F: Fl>(case: &mut Case) -> R {
    let mut used: Option<(usize, Vec<(F, F)>, Rc<RefCell<dyn Selection<Vec<F>>>>)> = None;
    for _ in 0..40 {
        let r = &mut case.rng;
        let n = if r.chance(0.01) { r.range(60, 300) } else { *r.pick(&[0, 1, 2, 3, 8, 25]) };
        if used.is_none() || r.chance(0.35) {
            // otherwise the operator of the population before once more
            let dim = match r.below(200) {
                0..=8 => r.range(7, 30),
                9 => r.range(60, 300),
                _ => *r.pick(&[1, 1, 2, 3, 6]),
            };
            let iv = intervals::<F>(r, dim);
            let which = r.below(2);
            let op: Rc<RefCell<dyn Selection<Vec<F>>>> = if which == 0 {
                Rc::new(RefCell::new(selection::KillFitnessNaN::new()))
            } else {
                Rc::new(RefCell::new(selection::vec_float::CheckChromoInterval::new(iv.clone())))
            };
            used = Some((which, iv, op));
        }
        let (which, iv, op) = used.clone().unwrap();
        let points: Vec<Vec<F>> = (0..n).map(|_| {
            let spare = r.chance(0.5);
            iv.iter().map(|i| if spare && r.chance(0.7) { F::of(i.0.f() + (i.1.f() - i.0.f()) * 0.5) } else { gene_near(r, *i) }).collect()
        }).collect();
        let vals: Vec<f64> = (0..n).map(|_| hostile_value(r)).collect();
        let dead = *r.pick(&[0.0, 0.2, 0.6]);
        let alive: Vec<bool> = (0..n).map(|_| !r.chance(dead)).collect();
        let d = format!("{} {} points {:?} values {:?} alive {:?} box {:?}", F::NAME, ["KillFitnessNaN", "CheckChromoInterval"][which], points, vals, alive, iv);
        case.describe(d.clone());
        let (before, after) = in_population(points.clone(), vals, alive, move |p| {
            let before = snapshot(p, false);
            op.borrow_mut().kill(p);
            (before, snapshot(p, false))
        });
        ensure!(before.ind.len() == after.ind.len() && after.bad.is_none(), "the population changed its size or is inconsistent: {:?}", after.bad);
        for (i, (b, a)) in before.ind.iter().zip(&after.ind).enumerate() {
            ensure!(b.key == a.key && same(b.val, a.val), "individual {} changed", i);
            let valid = if which == 0 { b.val.is_finite() } else { inside(&points[i], &iv) };
            let want = b.alive && valid;
            ensure!(a.alive == want, "individual {} with value {} at {:?} was {} and is {} ({})", i, b.val, points[i], if b.alive { "alive" } else { "dead" }, if a.alive { "alive" } else { "dead" }, d);
            case.count(if valid { "valid" } else { "invalid" }, 1);
        }
        case.evals += 1;
        if n > 0 {
            case.nontrivial(hash_u64s(&before.ind.iter().map(|i| hash_u64s(&i.key) ^ i.val.to_bits()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
both!(c06, c06_t);

// --------------------------------------------------------------------------------------------------- C07

fn c07_unit_t<F: Fl>(case: &mut Case) -> R {
    let mut used: Option<(Vec<(F, F)>, Rc<RefCell<pre_birth::vec_float::CheckChromoInterval<F>>>)> = None;
    for _ in 0..40 {
        let r = &mut case.rng;
        if used.is_none() || r.chance(0.35) {
            // otherwise the operator of the candidates before once more
            let dim = match r.below(200) {
                0..=8 => r.range(7, 30),
                9 => r.range(60, 300),
                _ => *r.pick(&[1, 1, 2, 3, 6]),
            };
            let iv = intervals::<F>(r, dim);
            let op = Rc::new(RefCell::new(pre_birth::vec_float::CheckChromoInterval::new(iv.clone())));
            used = Some((iv, op));
        }
        let (iv, op) = used.clone().unwrap();
        let dim = iv.len();
        let n = if r.chance(0.01) { r.range(60, 300) } else { *r.pick(&[0, 1, 2, 5, 20]) };
        let points: Vec<Vec<F>> = (0..n).map(|_| {
            let spare = r.chance(0.5);
            iv.iter().map(|i| if spare && r.chance(0.8) { F::of(i.0.f() + (i.1.f() - i.0.f()) * 0.5) } else { gene_near(r, *i) }).collect()
        }).collect();
        let d = format!("{} candidates {:?} box {:?}", F::NAME, points, iv);
        case.describe(d.clone());
        let mut want: Vec<Key> = vec![];
        for p in &points {
            if inside(p, &iv) {
                want.push(key(p));
                case.count("kept", 1);
            } else {
                case.count("dropped", 1);
            }
        }
        let p2 = points.clone();
        let got = in_population(vec![vec![F::zero(); dim]; 2], vec![0.0, 1.0], vec![true, true], move |p| {
            let mut c = p2;
            op.borrow_mut().pre_birth(p, &mut c);
            c
        });
        let got: Vec<Key> = got.iter().map(|c| key(c)).collect();
        ensure!(got == want, "kept {:x?} instead of {:x?} ({})", got, want, d);
        case.evals += 1;
        if n > 0 {
            case.nontrivial(hash_u64s(&points.iter().map(|p| hash_u64s(&key(p))).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
both!(c07_unit, c07_unit_t);

// --------------------------------------------------------------------------------------------------- C08

/// A pairing that is used for one population after another.
type Pairer = Rc<RefCell<dyn Pairing<Tag>>>;
fn pairer(t: Option<(usize, usize, usize, usize)>) -> Pairer {
    match t {
        None => Rc::new(RefCell::new(RandomPairing::new())),
        Some((f, m, k, how)) => {
            let t = Tournament::new(f);
            // the builders in either order
            let t = match how {
                0 => t.partners_count(m).rounds_count(k),
                1 => t.rounds_count(k).partners_count(m),
                2 => t.partners_count(m + 1).rounds_count(k).partners_count(m),
                _ => t.rounds_count(k + 2).partners_count(m).rounds_count(k),
            };
            Rc::new(RefCell::new(t))
        }
    }
}
pub fn c08_structure(case: &mut Case) -> R {
    let mut used: Option<(Option<(usize, usize, usize, usize)>, Pairer)> = None;
    for _ in 0..30 {
        let r = &mut case.rng;
        let n = if r.chance(0.01) { r.range(300, 3000) } else { *r.pick(&[0, 0, 1, 2, 3, 4, 7, 20, 101]) };
        let vals: Vec<f64> = (0..n).map(|_| hostile_value(r)).collect();
        if used.is_none() || r.chance(0.4) {
            // otherwise the operator of the population before once more
            let t = if r.chance(0.4) {
                None
            } else if r.chance(0.03) {
                Some((r.range(50, 400), r.range(0, 12), r.range(6, 30), r.below(4)))
            } else {
                Some((r.below(12), r.range(0, 5), r.below(6), r.below(4)))
            };
            used = Some((t, pairer(t)));
        }
        let (t, op) = used.clone().unwrap();
        let mode = *r.pick(&[ctl::Mode::Honest, ctl::Mode::Mixed { per_256: 64 }, ctl::Mode::Mixed { per_256: 200 }]);
        let seed = r.u64();
        case.describe(format!("{} individuals {:?}, {:?}", n, vals, t));
        restart(mode, seed);
        let v2 = vals.clone();
        let pairs = in_population(tags(n), vals, vec![true; n], move |p| op.borrow_mut().get_pairs(p));
        let (families, members) = match t {
            _ if n == 0 => (0, 0),
            None => (n / 2, 2),
            Some((f, m, _, _)) => (f, m),
        };
        ensure!(pairs.len() == families, "{} families instead of {} from {} individuals ({:?})", pairs.len(), families, n, t);
        for f in &pairs {
            ensure!(f.len() == members, "a family of {} instead of {} members ({:?})", f.len(), members, t);
            for i in f {
                ensure!(*i < n, "member {} of a population of {}", i, n);
            }
        }
        case.evals += 1;
        case.count("families", pairs.len() as u64);
        if n == 0 {
            case.count("empty_populations", 1);
        }
        if !pairs.is_empty() {
            case.nontrivial(hash_u64s(&[n as u64, hash_u64s(&pairs.concat().iter().map(|x| *x as u64).collect::<Vec<_>>()), v2.len() as u64]));
        }
    }
    Ok(())
}
pub fn c08_default(case: &mut Case) -> R {
    // Documented defaults: 2 partners; the number of rounds is seen in c08_tournament.
    case.honest();
    let n = case.rng.range(2, 20);
    let f = case.rng.range(1, 50);
    let pairs = in_population(tags(n), vec![1.0; n], vec![true; n], move |p| Tournament::new(f).get_pairs(p));
    ensure!(pairs.len() == f && pairs.iter().all(|p| p.len() == 2), "Tournament::new({}) gives {:?}", f, pairs);
    case.nontrivial(hash_u64s(&[n as u64, f as u64]));
    Ok(())
}
/// Distribution of the random pairing: members uniform, the two members of a pair and consecutive pairs independent.
pub fn c08_uniform(case: &mut Case) -> R {
    case.honest();
    let n = *case.rng.pick(&[2usize, 3, 4, 5, 7, 12, 33]);
    let calls = (if case.thorough() { 200_000 } else { 20_000 }) / (n / 2);
    // sometimes the operator has paired a population of another size before
    let first = if case.rng.chance(0.4) { Some(case.rng.range(1, 20)) } else { None };
    case.describe(format!("{} individuals, {} calls of RandomPairing, before that a population of {:?}", n, calls, first));
    let s = Rc::new(RefCell::new(RandomPairing::new()));
    if let Some(m) = first {
        let s = s.clone();
        in_population(tags(m), vec![0.0; m], vec![true; m], move |p| s.borrow_mut().get_pairs(p));
    }
    let all = in_population(tags(n), (0..n).map(|i| i as f64).collect(), vec![true; n], move |p| {
        let mut s = s.borrow_mut();
        (0..calls).map(|_| s.get_pairs(p)).collect::<Vec<_>>()
    });
    let mut joint = vec![0u64; n * n];
    let mut next = vec![0u64; n * n];
    let mut total = 0u64;
    let mut last = None;
    for p in all.iter().flatten() {
        ensure!(p.len() == 2 && p[0] < n && p[1] < n, "pair {:?} of {}", p, n);
        joint[p[0] * n + p[1]] += 1;
        total += 1;
        if let Some(l) = last {
            next[l * n + p[0]] += 1;
        }
        last = Some(p[1]);
    }
    for (what, c, m) in [("pairs", &joint, total), ("neighbouring members of consecutive pairs", &next, total - 1)] {
        let e = vec![m as f64 / (n * n) as f64; n * n];
        let x = chi2(c, &e);
        ensure!(x < chi2_bound(n * n - 1), "{} of {} individuals are not uniform: chi-square {:.1} with {} degrees of freedom, counts {:?}", what, n, x, n * n - 1, c);
    }
    case.evals = total;
    case.count("pairs_drawn", total);
    case.nontrivial(hash_u64s(&joint));
    Ok(())
}
/// Populations of hundreds and thousands: everybody takes part, in the right proportion.
pub fn c08_large(case: &mut Case) -> R {
    case.honest();
    let n = if case.index % 25 == 7 { 66_000 + case.rng.below(5000) } else { *case.rng.pick(&[64usize, 127, 128, 129, 255, 256, 257, 300, 513, 1000, 1025, 5000, 9000]) };
    let mut rank: Vec<usize> = (0..n).collect();
    case.rng.shuffle(&mut rank);
    let vals: Vec<f64> = rank.iter().map(|r| *r as f64 - 17.0).collect();
    let rounds = if case.index % 2 == 0 { None } else { Some(*case.rng.pick(&[0usize, 1, 2, 5, 20])) };
    let wanted = if case.thorough() { 400_000 } else { 40_000 };
    case.describe(format!("{} individuals, rounds {:?}", n, rounds));
    let families = in_population(tags(n), vals, vec![true; n], move |p| match rounds {
        None => {
            let mut s = RandomPairing::new();
            let mut v = vec![];
            while v.len() < wanted / 2 {
                v.extend(s.get_pairs(p));
            }
            v
        }
        Some(k) => Tournament::new(wanted / 4).partners_count(4).rounds_count(k).get_pairs(p),
    });
    // quantiles of the index (random pairing) or of the rank (tournament), and the lowest bits of the index
    let b = 32;
    let m = rounds.unwrap_or(0) as i32 + 1;
    let bin = |i: usize| if rounds.is_some() { rank[i] * b / n } else { i * b / n };
    let mut sizes = vec![0usize; b];
    for i in 0..n {
        sizes[i * b / n] += 1;
    }
    let mut at = 0;
    let p: Vec<f64> = sizes
        .iter()
        .map(|s| {
            let from = ((n - at) as f64 / n as f64).powi(m);
            at += s;
            from - ((n - at) as f64 / n as f64).powi(m)
        })
        .collect();
    let mut hist = vec![0u64; b];
    let mut low = vec![0u64; 4];
    let mut total = 0u64;
    for f in &families {
        for i in f {
            ensure!(*i < n, "index {} of {} individuals", i, n);
            hist[bin(*i)] += 1;
            low[i % 4] += 1;
            total += 1;
        }
    }
    for (i, c) in hist.iter().enumerate() {
        let d = binom_dev(total, p[i]);
        ensure!((*c as f64 - total as f64 * p[i]).abs() <= d, "individuals of the {}. of {} {} ({} individuals) were chosen {} times of {}, expected {:.1} +- {:.1}", i + 1, b, if rounds.is_some() { "rank classes" } else { "index ranges" }, n, c, total, total as f64 * p[i], d);
    }
    for (i, c) in low.iter().enumerate() {
        let q = (0..n).filter(|k| k % 4 == i).map(|k| if rounds.is_some() { ((n - rank[k]) as f64 / n as f64).powi(m) - ((n - rank[k] - 1) as f64 / n as f64).powi(m) } else { 1.0 / n as f64 }).sum::<f64>();
        let d = binom_dev(total, q);
        ensure!((*c as f64 - total as f64 * q).abs() <= d, "individuals with index {} modulo 4 of {} were chosen {} times of {}, expected {:.1} +- {:.1}", i, n, c, total, total as f64 * q, d);
    }
    case.evals = families.len() as u64;
    case.count("members_drawn_in_large_populations", total);
    case.nontrivial(hash_u64s(&hist));
    Ok(())
}
/// Distribution of tournament winners: the best of (rounds + 1) uniform draws, NaN being worst.
pub fn c08_tournament(case: &mut Case) -> R {
    case.honest();
    let n = *case.rng.pick(&[1usize, 2, 3, 4, 6, 10, 25]);
    let many = case.rng.chance(0.04);
    let n = if many { *case.rng.pick(&[150usize, 400, 1000]) } else { n };
    let rounds = if many { case.rng.range(n / 10, n) } else { *case.rng.pick(&[0usize, 1, 1, 2, 3, 5, 12]) };
    let default_rounds = rounds == 1 && case.rng.chance(0.5);
    let kind = case.rng.below(4);
    let mut vals: Vec<f64> = (0..n).map(|i| match kind {
        0 => i as f64,
        1 => (i / 2) as f64,
        2 => if i % 2 == 0 { f64::NAN } else { i as f64 },
        _ => *case.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, 3.0]),
    }).collect();
    case.rng.shuffle(&mut vals);
    let draws = if case.thorough() { 200_000 } else { 20_000 };
    // sometimes the operator has paired a population of another size before
    let first = if case.rng.chance(0.4) { Some(case.rng.range(1, 20)) } else { None };
    case.describe(format!("values {:?}, {} rounds, {} draws, before that a population of {:?}", vals, rounds, draws, first));
    let v2 = vals.clone();
    let t = Tournament::new(draws / 4).partners_count(4);
    let t = Rc::new(RefCell::new(if default_rounds { t } else { t.rounds_count(rounds) }));
    if let Some(m) = first {
        let t = t.clone();
        in_population(tags(m), (0..m).map(|i| i as f64).collect(), vec![true; m], move |p| t.borrow_mut().get_pairs(p));
    }
    let all = in_population(tags(n), v2, vec![true; n], move |p| t.borrow_mut().get_pairs(p));
    // classes of equal value, best first, NaN last
    let rank = |v: f64| if v.is_nan() { f64::INFINITY } else { v.atan() };
    let mut classes: Vec<Vec<usize>> = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| rank(vals[*a]).partial_cmp(&rank(vals[*b])).unwrap());
    for i in order {
        match classes.last_mut() {
            Some(c) if rank(vals[c[0]]) == rank(vals[i]) => c.push(i),
            _ => classes.push(vec![i]),
        }
    }
    let m = (rounds + 1) as i32;
    let mut p = vec![];
    let mut worse_or_equal = n as f64;
    let mut class_of = vec![0; n];
    for (ci, c) in classes.iter().enumerate() {
        let rest = worse_or_equal - c.len() as f64;
        p.push(((worse_or_equal / n as f64).powi(m)) - (rest / n as f64).powi(m));
        worse_or_equal = rest;
        for i in c {
            class_of[*i] = ci;
        }
    }
    let k = classes.len();
    let mut first = vec![0u64; k];
    let mut joint = vec![0u64; k * k];
    let mut ind = vec![0u64; n];
    let mut total = 0u64;
    for f in &all {
        ensure!(f.len() == 4 && f.iter().all(|i| *i < n), "family {:?}", f);
        for i in f {
            first[class_of[*i]] += 1;
            ind[*i] += 1;
            total += 1;
        }
        joint[class_of[f[0]] * k + class_of[f[1]]] += 1;
        joint[class_of[f[2]] * k + class_of[f[3]]] += 1;
    }
    for (ci, c) in first.iter().enumerate() {
        let dev = binom_dev(total, p[ci]);
        ensure!((*c as f64 - total as f64 * p[ci]).abs() <= dev, "with {} rounds, individuals with value {} were chosen {} times of {}, expected {:.1} +- {:.1} (values {:?})", rounds, vals[classes[ci][0]], c, total, total as f64 * p[ci], dev, vals);
    }
    for a in 0..k {
        for b in 0..k {
            let (q, m) = (p[a] * p[b], total / 2);
            ensure!((joint[a * k + b] as f64 - m as f64 * q).abs() <= binom_dev(m, q), "two members of a family are not independent: values {} and {} together {} times of {}, expected {:.1} (values {:?}, {} rounds)", vals[classes[a][0]], vals[classes[b][0]], joint[a * k + b], m, m as f64 * q, vals, rounds);
        }
    }
    // everybody can be chosen
    for i in 0..n {
        let expected = total as f64 * p[class_of[i]] / classes[class_of[i]].len() as f64;
        if expected > 200.0 {
            ensure!(ind[i] > 0, "individual {} of {} is never chosen (expected about {:.0} times), values {:?}, {} rounds", i, n, expected, vals, rounds);
        }
    }
    if vals.iter().any(|v| v.is_nan()) && vals.iter().any(|v| !v.is_nan()) {
        case.count("tournaments_with_nan", 1);
    }
    case.evals = total;
    case.count("members_drawn", total);
    case.nontrivial(hash_u64s(&ind));
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C09

macro_rules! cross_int {
    ($name:ident, $f:ident, $t:ty, $u:ty, $w:expr) => {
        fn $name(r: &mut Rng, full: bool) -> R<u64> {
            let mut n = 0u64;
            let mut one = |a: $u, b: $u, p: usize| -> R {
                let mask: $u = ((1 as $u) << p) - 1;
                let want = (a & !mask) | (b & mask);
                let got = guarded(|| $f(a as $t, b as $t, p)).map_err(|v| Viol { msg: format!("{}({}, {}, {}): {}", stringify!($f), a, b, p, v.msg), ..v })?;
                n += 1;
                ensure!(got as $u == want, "{}({:#x}, {:#x}, {}) = {:#x} instead of {:#x}", stringify!($f), a, b, p, got, want);
                Ok(())
            };
            if full {
                for a in 0..=255 as $u {
                    for b in 0..=255 as $u {
                        for p in 1..$w {
                            one(a, b, p)?;
                        }
                    }
                }
            } else {
                for p in 1..$w {
                    one(0, !0, p)?;
                    one(!0, 0, p)?;
                    for _ in 0..20 {
                        one(r.u64() as $u, r.u64() as $u, p)?;
                    }
                    one((1 as $u) << ($w - 1), 1, p)?;
                    one(1, (1 as $u) << ($w - 1), p)?;
                }
            }
            Ok(n)
        }
    };
}
cross_int!(x_u8, cross_u8, u8, u8, 8);
cross_int!(x_i8, cross_i8, i8, u8, 8);
cross_int!(x_u16, cross_u16, u16, u16, 16);
cross_int!(x_i16, cross_i16, i16, u16, 16);
cross_int!(x_u32, cross_u32, u32, u32, 32);
cross_int!(x_u64, cross_u64, u64, u64, 64);
fn bits_cross<F: Fl>(a: F, b: F, p: usize) -> u64 {
    let mask = (1u64 << p) - 1;
    (a.bits() & !mask) | (b.bits() & mask)
}
pub fn c09_functions(case: &mut Case) -> R {
    let full = case.index == 0;
    case.describe(format!("single-point crossings, {}", if full { "8 bit exhaustively" } else { "random operands, every position" }));
    let r = &mut case.rng;
    let mut n = 0;
    n += x_u8(r, full)?;
    n += x_i8(r, full)?;
    n += x_u16(r, full && false)?;
    n += x_i16(r, false)?;
    n += x_u32(r, false)?;
    n += x_u64(r, false)?;
    for p in 1..64 {
        for _ in 0..20 {
            let (a, b) = (any_float::<f64>(r), any_float::<f64>(r));
            let got = guarded(|| cross_f64(a, b, p))?;
            ensure!(got.to_bits() == bits_cross(a, b, p), "cross_f64({:?}, {:?}, {}) = {:?}", a, b, p, got);
            n += 1;
            if p < 32 {
                let (a, b) = (any_float::<f32>(r), any_float::<f32>(r));
                let got = guarded(|| cross_f32(a, b, p))?;
                ensure!((got.to_bits() as u64) == bits_cross(a, b, p), "cross_f32({:?}, {:?}, {}) = {:?}", a, b, p, got);
                n += 1;
            }
        }
    }
    let fp = case.rng.u64();
    case.evals = n;
    case.count("crossings", n);
    case.nontrivial(fp);
    Ok(())
}
fn c09_bitwise_t<F: Fl>(case: &mut Case) -> R {
    let (mode, seed) = case.any_stream();
    let mut x = F::cross_bitwise();
    let w = F::BITS;
    case.describe(format!("{} CrossBitwise, stream {:?} {}", F::NAME, mode, seed));
    let n = if case.thorough() { 40_000 } else { 6000 };
    let mut pos = vec![0u64; w - 1];
    let (zero, ones) = (F::of_bits(0), F::of_bits(if w == 64 { !0 } else { 0xffff_ffff }));
    for k in 0..n {
        let (a, b) = match k % 4 {
            0 | 1 => (zero, ones),
            2 => (ones, zero),
            _ => (any_float::<F>(&mut case.rng), any_float::<F>(&mut case.rng)),
        };
        let c = x.cross(&[&a, &b]);
        ensure!(c.len() == 1, "{} children", c.len());
        let p = (1..w).find(|p| bits_cross(a, b, *p) == c[0].bits());
        ensure!(p.is_some(), "CrossBitwise of {:?} ({:#x}) and {:?} ({:#x}) gives {:?} ({:#x}), which no position explains", a, a.bits(), b, b.bits(), c[0], c[0].bits());
        if k % 4 < 3 {
            pos[p.unwrap() - 1] += 1;
        }
    }
    if mode == ctl::Mode::Honest {
        let total: u64 = pos.iter().sum();
        let e = vec![total as f64 / (w - 1) as f64; w - 1];
        let s = chi2(&pos, &e);
        ensure!(s < chi2_bound(w - 2), "positions are not drawn uniformly from 1..{}: counts {:?}, chi-square {:.0}", w, pos, s);
        ensure!(pos.iter().all(|c| *c > 0), "some position is never used: {:?}", pos);
        case.count("positions_drawn", total);
    }
    case.evals = n;
    case.count("crossings", n);
    case.nontrivial(hash_u64s(&pos));
    Ok(())
}
both!(c09_bitwise, c09_bitwise_t);

/// Mantissa, exponent and sign such that x = sign * mantissa * 2^exponent.
fn decode<F: Fl>(x: F) -> (u64, i16, f64) {
    let b = x.bits();
    let (ebits, mbits, bias) = if F::BITS == 64 { (11, 52, 1075) } else { (8, 23, 150) };
    let sign = if b >> (F::BITS - 1) == 0 { 1.0 } else { -1.0 };
    let e = ((b >> mbits) & ((1 << ebits) - 1)) as i16;
    let m = b & ((1u64 << mbits) - 1);
    let m = if e == 0 { m << 1 } else { m | (1u64 << mbits) };
    (m, e - bias, sign)
}
/// m * 2^e in F (with the intermediate overflow the crossing documents none of: infinite or NaN results are lenient).
fn c09_exp_t<F: Fl>(case: &mut Case) -> R {
    let (mode, seed) = case.any_stream();
    case.describe(format!("{} FloatCrossExp, stream {:?} {}", F::NAME, mode, seed));
    let mut x = F::cross_exp();
    let n = if case.thorough() { 1200 } else { 150 };
    for _ in 0..n {
        let r = &mut case.rng;
        let (a, b): (F, F) = match r.below(3) {
            0 => (finite_float(r), finite_float(r)),
            _ => (F::of(r.f(-100.0, 100.0)), F::of(r.f(-100.0, 100.0))),
        };
        let c = x.cross(&[&a, &b]);
        ensure!(c.len() == 1, "{} children", c.len());
        let c = c[0];
        let ((m1, e1, s1), (m2, e2, s2)) = (decode(a), decode(b));
        let mut ok = false;
        let tiny = |v: F| v.abs() < F::min_positive_value() * F::of(4.0);
        'search: for q in 1..16u32 {
            let mask = (1u16 << q) - 1;
            let e = ((e1 as u16 & !mask) | (e2 as u16 & mask)) as i16;
            let pow = F::of(2.0).powf(F::of(e as f64));
            for p in 1..64u32 {
                let mask = (1u64 << p) - 1;
                let m = (m1 & !mask) | (m2 & mask);
                let v = <F as NumCast>::from(m).unwrap() * pow;
                for s in [s1, s2] {
                    let v = v * F::of(s);
                    let near = (v - c).abs() <= v.abs() * F::of(4.0 * F::eps()) && v.is_finite();
                    if near || v == c || v.is_nan() || (v.is_infinite() && !c.is_finite()) || (tiny(v) && tiny(c)) {
                        ok = true;
                        break 'search;
                    }
                }
            }
        }
        ensure!(ok, "FloatCrossExp of {:?} (mantissa {:#x} exponent {}) and {:?} (mantissa {:#x} exponent {}) gives {:?}, which no pair of positions explains", a, m1, e1, b, m2, e2, c);
        case.count("crossings", 1);
    }
    case.evals = n;
    let fp = case.rng.u64();
    case.nontrivial(fp);
    Ok(())
}
both!(c09_exp, c09_exp_t);
/// Every position and both signs of the exponent/mantissa crossing really occur.
fn c09_exp_reach_t<F: Fl>(case: &mut Case) -> R {
    case.honest();
    case.describe(format!("{} FloatCrossExp: which mantissa and exponent positions and signs occur", F::NAME));
    let mut x = F::cross_exp();
    let (ebits, mbits, bias) = if F::BITS == 64 { (11usize, 52usize, 1075i64) } else { (8, 23, 150) };
    let _ = ebits;
    // decoded exponents 0 (parent 1) and -1 (parent 2), all-ones mantissa against the hidden bit only
    let full = |e: i64, m: u64| F::of_bits((((e + bias) as u64) << mbits) | m);
    let ones = (1u64 << mbits) - 1;
    let n = if case.thorough() { 120_000 } else { 15_000 };
    // exponents of the child: 2^q - 1 for a crossing at q
    let max_q = if F::BITS == 64 { 9 } else { 6 };
    let mut mpos = vec![0u64; mbits + 1];
    let mut epos = vec![0u64; max_q + 2];
    let mut sign = [0u64; 2];
    for _ in 0..n {
        let a = full(0, ones);
        let b = -full(-1, 0);
        let c = x.cross(&[&a, &b]);
        ensure!(c.len() == 1, "{} children", c.len());
        let c = c[0];
        ensure!(!c.is_nan(), "FloatCrossExp of {:?} and {:?} gives {:?}", a, b, c);
        sign[(c < F::zero()) as usize] += 1;
        if !c.is_finite() {
            epos[max_q + 1] += 1;
            continue;
        }
        let (m, e, _) = decode(c);
        let q = (1..=max_q).find(|q| e as i64 == (1i64 << q) - 1);
        match q {
            Some(q) => epos[q] += 1,
            None => epos[0] += 1,
        }
        ensure!(epos[0] == 0, "FloatCrossExp of {:?} and {:?} gives {:?}, whose exponent {} is no crossing of 0 and -1", a, b, c, e);
        // p low bits are zero, the bits above are ones (the hidden bit is always set)
        let z = m.trailing_zeros() as usize;
        ensure!(z <= mbits && m >> z == (1u64 << (mbits + 1 - z)) - 1 && z >= 1, "FloatCrossExp of {:?} and {:?} gives {:?}, whose mantissa {:#x} is no crossing", a, b, c, m);
        mpos[z] += 1;
    }
    ensure!(sign[0] > 0 && sign[1] > 0, "the child never has the sign of parent {}: {:?}", if sign[0] == 0 { 1 } else { 2 }, sign);
    // positions: 63 for the mantissa (those from mbits on look alike), 15 for the exponent
    let finite: u64 = mpos.iter().sum();
    for z in 1..=mbits {
        let p = if z == mbits { (64 - mbits) as f64 / 63.0 } else { 1.0 / 63.0 };
        ensure!((mpos[z] as f64 - finite as f64 * p).abs() < binom_dev(finite, p), "mantissa position {}{} was drawn {} times of {}, expected {:.0}: {:?}", z, if z == mbits { " or higher" } else { "" }, mpos[z], finite, finite as f64 * p, mpos);
        ensure!(mpos[z] > 0, "mantissa position {} never occurs", z);
    }
    for q in 1..=max_q + 1 {
        let p = if q == max_q + 1 { (15 - max_q) as f64 / 15.0 } else { 1.0 / 15.0 };
        ensure!((epos[q] as f64 - n as f64 * p).abs() < binom_dev(n, p), "exponent position {}{} was drawn {} times of {}, expected {:.0}: {:?}", q, if q > max_q { " or higher" } else { "" }, epos[q], n, n as f64 * p, epos);
        ensure!(epos[q] > 0, "exponent position {} never occurs", q);
    }
    case.evals = n;
    case.count("exponent_crossings", n);
    case.nontrivial(hash_u64s(&mpos));
    Ok(())
}
both!(c09_exp_reach, c09_exp_reach_t);

// --------------------------------------------------------------------------------------------------- C10

fn c10_means_t<F: Fl>(case: &mut Case) -> R {
    // the operators are used for one family after another
    let mut mean = F::cross_mean();
    let mut geo = F::cross_geo();
    for _ in 0..200 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let k = if r.chance(0.03) { r.range(8, 40) } else { *r.pick(&[2usize, 2, 2, 3, 4, 5, 6, 7]) };
        let scale = *r.pick(&[1.0, 1e-6, 1e5, 100.0]);
        let x: Vec<F> = (0..k).map(|_| match r.below(6) {
            0 => F::zero(),
            1 => F::of(scale),
            2 => F::of((r.below(9) as f64 - 4.0) * scale),
            _ => F::of(r.f(-scale, scale)),
        }).collect();
        let refs: Vec<&F> = x.iter().collect();
        case.describe(format!("{} parents {:?}", F::NAME, x));
        let c = mean.cross(&refs);
        ensure!(c.len() == 1, "the mean crossing of {:?} has {} children", x, c.len());
        let sum: f64 = x.iter().map(|v| v.f()).sum();
        let size = x.iter().map(|v| v.f().abs()).fold(0.0, f64::max);
        let tol = size * F::eps() * (2 * k) as f64;
        let (lo, hi) = (x.iter().map(|v| v.f()).fold(f64::INFINITY, f64::min), x.iter().map(|v| v.f()).fold(f64::NEG_INFINITY, f64::max));
        ensure!((c[0].f() - sum / k as f64).abs() <= tol, "the mean of {:?} is {} but the child is {:?}", x, sum / k as f64, c[0]);
        ensure!(c[0].f() >= lo - tol && c[0].f() <= hi + tol, "the child {:?} of {:?} is not between them", c[0], x);
        // geometric mean: the product must stay in range whatever the order of multiplication
        let top = if F::BITS == 64 { 650.0 } else { 75.0 } / k as f64;
        let top = if r.chance(0.5) { top } else { top.min(5.0) };
        let y: Vec<F> = (0..k).map(|_| match r.below(8) {
            0 => F::one(),
            1 => F::of(4.0),
            _ => F::of(r.f(-top, top).exp()),
        }).collect();
        let mut y = y;
        if r.chance(0.03) {
            let i = r.below(k);
            y[i] = F::zero();
        }
        let refs: Vec<&F> = y.iter().collect();
        let c = geo.cross(&refs);
        if y.iter().any(|v| *v == F::zero()) {
            ensure!(c.len() == 1 && c[0] == F::zero(), "the geometric mean of {:?} is 0 but the children are {:?}", y, c);
            continue;
        }
        ensure!(c.len() == 1, "the geometric mean crossing of {:?} has {} children", y, c.len());
        let lsum: f64 = y.iter().map(|v| v.f().ln()).sum();
        let lsize: f64 = y.iter().map(|v| v.f().ln().abs()).sum();
        let want = (lsum / k as f64).exp();
        let tol = want * F::eps() * (16.0 + 4.0 * lsize + 2.0 * k as f64);
        ensure!((c[0].f() - want).abs() <= tol, "the geometric mean of {:?} is {} but the child is {:?}", y, want, c[0]);
        let (lo, hi) = (y.iter().map(|v| v.f()).fold(f64::INFINITY, f64::min), y.iter().map(|v| v.f()).fold(0.0, f64::max));
        ensure!(c[0].f() >= lo - tol && c[0].f() <= hi + tol, "the child {:?} of {:?} is not between them", c[0], y);
        case.evals += 2;
        case.count("means", 2);
        case.nontrivial(hash_u64s(&key(&x)));
    }
    Ok(())
}
both!(c10_means, c10_means_t);
/// Mean crossing of integers (documented for any number type); the sum is representable.
fn int_means<I: num::PrimInt + std::fmt::Debug>(case: &mut Case, lo: i128, hi: i128) -> R {
    let mut mean = CrossMean::new();
    for _ in 0..50 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let k = if r.chance(0.05) { r.range(6, 40) } else { r.range(2, 5) };
        // numbers of a random magnitude whose sum stays in range
        let top = hi / k as i128;
        let m = (top >> r.below(128 - top.leading_zeros() as usize)).max(1);
        let x: Vec<i128> = (0..k).map(|_| {
            let v = (r.u64() as i128 & i64::max_value() as i128) % (m + 1);
            if lo < 0 && r.chance(0.5) { -v } else { v }
        }).collect();
        let y: Vec<I> = x.iter().map(|v| I::from(*v).unwrap()).collect();
        let refs: Vec<&I> = y.iter().collect();
        let c = mean.cross(&refs);
        let sum = x.iter().sum::<i128>();
        ensure!(c.len() == 1, "the mean crossing of {:?} has {} children", x, c.len());
        let got = c[0].to_i128().unwrap();
        ensure!((got * k as i128 - sum).abs() < k as i128, "the mean of {:?} is {}/{} but the child is {:?}", x, sum, k, c);
        case.evals += 1;
        case.nontrivial(hash_u64s(&x.iter().map(|v| *v as u64).collect::<Vec<_>>()));
    }
    case.count("means", 50);
    Ok(())
}
pub fn c10_ints(case: &mut Case) -> R {
    int_means::<i64>(case, -1, i64::max_value().into())?;
    int_means::<i64>(case, -1, 1000)?;
    int_means::<u64>(case, 0, u64::max_value() as i128 / 2)?;
    int_means::<i32>(case, -1, i32::max_value().into())?;
    int_means::<i16>(case, -1, i16::max_value().into())?;
    int_means::<u32>(case, 0, u32::max_value().into())
}
/// Per-gene crossing over labelled genes.
pub fn c10_vec(case: &mut Case) -> R {
    struct Rec(Rc<RefCell<Vec<(Vec<u64>, u64)>>>, u64);
    impl Cross<u64> for Rec {
        fn cross(&mut self, p: &[&u64]) -> Vec<u64> {
            self.1 += 1;
            let v = 1_000_000 + self.1;
            self.0.borrow_mut().push((p.iter().map(|x| **x).collect(), v));
            vec![v]
        }
    }
    for _ in 0..100 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let log = Rc::new(RefCell::new(vec![]));
        let mut x = VecCrossAllGenes::new(Box::new(Rec(log.clone(), 0)));
        for round in 0..3u64 {
            let n = if r.chance(0.02) { r.range(31, 300) } else { *r.pick(&[0usize, 1, 1, 2, 3, 7, 30]) };
            log.borrow_mut().clear();
            // genes are labels: different in every place, or partly equal
            let dup = r.chance(0.3);
            let a: Vec<u64> = (0..n as u64).map(|i| if dup { i % 2 } else { i + 1000 * round }).collect();
            let b: Vec<u64> = (0..n as u64).map(|i| if dup { i % 2 } else { 500 + i + 1000 * round }).collect();
            let c = x.cross(&[&a, &b]);
            ensure!(c.len() == 1, "the per-gene crossing has {} children", c.len());
            ensure!(c[0].len() == n, "the child of parents with {} genes has {}", n, c[0].len());
            let log = log.borrow();
            for (i, g) in c[0].iter().enumerate() {
                let hit = log.iter().find(|l| l.1 == *g);
                ensure!(hit.map_or(false, |h| h.0 == vec![a[i], b[i]]), "gene {} of the child of {:?} and {:?} is the crossing {:?}", i, a, b, hit);
            }
            let distinct: HashSet<u64> = c[0].iter().copied().collect();
            ensure!(distinct.len() == n, "two genes of the child come from one crossing: {:?}", c[0]);
            case.evals += 1;
            case.count("genes", n as u64);
            case.nontrivial(hash_u64s(&a) ^ n as u64);
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C11

fn c11_bits_t<F: Fl>(case: &mut Case) -> R {
    let (mode, seed) = case.any_stream();
    let k = match case.index / 2 % 6 {
        0 => 1,
        1 => 0,
        2 => 2,
        3 => 3,
        _ => case.rng.range(4, 70),
    };
    case.describe(format!("{} BitwiseMutation({}), stream {:?} {}", F::NAME, k, mode, seed));
    let mut m = F::mutation_bitwise(k);
    let n = if case.thorough() { 50_000 } else { 8000 } as u64;
    let mut hits = vec![0u64; F::BITS];
    for _ in 0..n {
        let g = any_float::<F>(&mut case.rng);
        let c = m.mutation(&g);
        let d = g.bits() ^ c.bits();
        let ones = d.count_ones() as usize;
        ensure!(ones <= k && ones % 2 == k % 2, "BitwiseMutation({}) of {:?} ({:#x}) gives {:?} ({:#x}): {} bits differ", k, g, g.bits(), c, c.bits(), ones);
        for b in 0..F::BITS {
            hits[b] += (d >> b) & 1;
        }
    }
    if mode == ctl::Mode::Honest && k > 0 {
        if k == 1 {
            let e = vec![n as f64 / F::BITS as f64; F::BITS];
            let s = chi2(&hits, &e);
            ensure!(s < chi2_bound(F::BITS - 1), "the flipped bit is not uniform: {:?}, chi-square {:.0}", hits, s);
        }
        let p = hits.iter().sum::<u64>() as f64 / (n * F::BITS as u64) as f64;
        for (b, h) in hits.iter().enumerate() {
            ensure!((*h as f64 - n as f64 * p).abs() < binom_dev(n, p) + 1.0, "bit {} differed {} times of {}, the average bit {:.0} times, with {} flips: {:?}", b, h, n, n as f64 * p, k, hits);
            ensure!(*h > 0, "bit {} never changes with {} flips", b, k);
        }
        case.count("honest_bit_flips", hits.iter().sum());
    }
    case.evals = n;
    case.count("mutations", n);
    case.nontrivial(hash_u64s(&hits) ^ k as u64);
    Ok(())
}
both!(c11_bits, c11_bits_t);
pub fn c11_vec(case: &mut Case) -> R {
    struct Rec(Rc<RefCell<Vec<(u64, u64)>>>, u64);
    impl Mutation<u64> for Rec {
        fn mutation(&mut self, g: &u64) -> u64 {
            self.1 += 1;
            let v = (1 << 40) + self.1;
            self.0.borrow_mut().push((*g, v));
            v
        }
    }
    let prob = *case.rng.pick(&[0.0, 0.0, 100.0, 100.0, 1.0, 5.0, 15.0, 50.0, 80.0, 99.0, 0.4, 2.5, 12.6, 33.3, 87.5, 99.6]);
    let n = if case.rng.chance(0.1) { *case.rng.pick(&[40, 100, 140, 300]) } else if case.rng.chance(0.4) { case.rng.range(4, 36) } else { *case.rng.pick(&[0usize, 1, 2, 3, 6, 12]) };
    let extreme = prob == 0.0 || prob == 100.0;
    let (mode, seed) = if extreme { case.any_stream() } else { (ctl::Mode::Honest, case.honest()) };
    case.describe(format!("VecMutation({}%) of {} genes, stream {:?} {}", prob, n, mode, seed));
    let log = Rc::new(RefCell::new(vec![]));
    let mut m = VecMutation::new(prob, Box::new(Rec(log.clone(), 0)));
    let calls = if case.thorough() { 60_000 } else { 8000 } as u64;
    let mut hit = vec![0u64; n];
    let mut both = vec![0u64; n];
    // the first gene together with each other one, and genes at the distances of powers of two
    let mut with_first = vec![0u64; n];
    let strides: Vec<usize> = (1..9).map(|k| 1 << k).filter(|d| *d < n).collect();
    let mut apart = vec![0u64; strides.len()];
    let mut label = 0;
    let (mut carry, mut follow) = (0u64, 0u64);
    let mut last = None;
    for call in 0..calls {
        log.borrow_mut().clear();
        if call % 97 == 0 {
            // a chromosome of another length in between
            let g: Vec<u64> = (0..case.rng.below(9)).map(|_| { label += 1; label }).collect();
            let c = m.mutation(&g);
            ensure!(c.len() == g.len(), "{} genes became {}", g.len(), c.len());
            for i in 0..g.len() {
                ensure!(c[i] == g[i] || log.borrow().iter().any(|h| *h == (g[i], c[i])), "gene {} ({}) became {}, which is not its mutation", i, g[i], c[i]);
                ensure!(prob > 0.0 || c[i] == g[i], "a gene mutated at 0 percent");
                ensure!(prob < 100.0 || c[i] != g[i], "a gene did not mutate at 100 percent");
            }
            log.borrow_mut().clear();
            last = None;
        }
        let g: Vec<u64> = (0..n).map(|_| { label += 1; label }).collect();
        let before = g.clone();
        let c = m.mutation(&g);
        ensure!(g == before, "the original chromosome changed");
        ensure!(c.len() == n, "{} genes became {}", n, c.len());
        let mut mutated = vec![false; n];
        for i in 0..n {
            if c[i] != g[i] {
                let l = log.borrow();
                let h = l.iter().find(|h| h.1 == c[i]);
                ensure!(h.map_or(false, |h| h.0 == g[i]), "gene {} ({}) became {}, which is not its mutation: {:?}", i, g[i], c[i], l);
                mutated[i] = true;
                hit[i] += 1;
            }
        }
        ensure!(prob > 0.0 || !mutated.contains(&true), "a gene mutated at 0 percent");
        ensure!(prob < 100.0 || !mutated.contains(&false), "a gene did not mutate at 100 percent");
        for i in 0..n {
            // together with the next gene (the last one with the first one of the next call)
            if i + 1 < n {
                both[i] += (mutated[i] && mutated[i + 1]) as u64;
            }
        }
        for i in 1..n {
            with_first[i] += (mutated[0] && mutated[i]) as u64;
        }
        for (k, d) in strides.iter().enumerate() {
            apart[k] += (mutated[n / 2 - d / 2] && mutated[n / 2 - d / 2 + d]) as u64;
        }
        if n > 0 {
            if let Some(l) = last {
                follow += 1;
                carry += (l && mutated[0]) as u64;
            }
            last = Some(mutated[n - 1]);
        }
    }
    if mode == ctl::Mode::Honest {
        let p = prob / 100.0;
        for i in 0..n {
            ensure!((hit[i] as f64 - calls as f64 * p).abs() <= binom_dev(calls, p), "gene {} mutated {} times of {} at {} percent: {:?}", i, hit[i], calls, prob, hit);
            if i + 1 < n {
                ensure!((both[i] as f64 - calls as f64 * p * p).abs() <= binom_dev(calls, p * p), "genes {} and {} mutated together {} times of {} at {} percent", i, i + 1, both[i], calls, prob);
            }
        }
        for i in 1..n {
            ensure!((with_first[i] as f64 - calls as f64 * p * p).abs() <= binom_dev(calls, p * p), "genes 0 and {} mutated together {} times of {} at {} percent", i, with_first[i], calls, prob);
        }
        for (k, d) in strides.iter().enumerate() {
            ensure!((apart[k] as f64 - calls as f64 * p * p).abs() <= binom_dev(calls, p * p), "genes {} and {} mutated together {} times of {} at {} percent", n / 2 - d / 2, n / 2 - d / 2 + d, apart[k], calls, prob);
        }
        if n > 0 {
            ensure!((carry as f64 - follow as f64 * p * p).abs() <= binom_dev(follow, p * p), "mutations of consecutive chromosomes are not independent: {} of {} at {} percent", carry, follow, prob);
        }
        case.count("honest_genes", calls * n as u64);
    }
    case.evals = calls;
    case.count("genes", calls * n as u64);
    case.nontrivial(hash_u64s(&hit) ^ prob.to_bits());
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug)]
enum Source {
    Creator,
    Vector,
    Coordinates,
    Velocity,
}
const SOURCES: [Source; 4] = [Source::Creator, Source::Vector, Source::Coordinates, Source::Velocity];
type Maker<G> = Box<dyn FnMut() -> Vec<Vec<G>>>;
fn maker<G: NumCast + PartialOrd + Clone + 'static>(s: Source, n: usize, iv: Vec<(G, G)>) -> Maker<G> {
    match s {
        Source::Creator => {
            let mut c = RandomCreator::new(n, iv);
            Box::new(move || c.create())
        }
        Source::Vector => {
            let mut c = RandomVectorCreator::new();
            // now and then the same creator serves another box: the first component only, or the box backwards
            let mut call = 0usize;
            let back: Vec<(G, G)> = iv.iter().rev().cloned().collect();
            Box::new(move || {
                (0..n)
                    .map(|_| {
                        call += 1;
                        if call % 5 == 1 {
                            let other = if call % 2 == 0 { &iv[..1] } else { &back[..] };
                            let x = c.create_vec(&other.to_vec());
                            let ok = x.len() == other.len() && x.iter().zip(other).all(|(v, i)| *v >= i.0 && *v <= i.1);
                            if !ok {
                                raise("a vector created for another box is not inside of it".to_string());
                            }
                        }
                        c.create_vec(&iv)
                    })
                    .collect()
            })
        }
        Source::Coordinates => {
            let mut c = RandomCoordinatesInitializer::new(iv, n);
            Box::new(move || c.get_coordinates())
        }
        Source::Velocity => {
            let mut c = RandomVelocityInitializer::new(iv, n);
            Box::new(move || c.get_velocity())
        }
    }
}
fn c12_float_t<F: Fl>(case: &mut Case) -> R {
    let (mode, seed) = case.any_stream();
    let src = SOURCES[(case.index / 2 % 4) as usize];
    let dim = match case.rng.below(100) {
        0..=5 => 20,
        6 => *case.rng.pick(&[70, 130, 260]),
        _ => *case.rng.pick(&[1usize, 1, 2, 3, 6]),
    };
    let iv = intervals::<F>(&mut case.rng, dim);
    let total = if dim > 60 {
        3000
    } else if case.thorough() {
        60_000
    } else {
        8000
    };
    let n = *case.rng.pick(&[1usize, 2, 7, 50, 1000, 1700]);
    let calls = (total / n).max(2);
    case.describe(format!("{} {:?} {} points per call, {} calls, box {:?}, stream {:?} {}", F::NAME, src, n, calls, iv, mode, seed));
    let mut make = maker(src, n, iv.clone());
    let bins = 16usize;
    let mut hist = vec![vec![0u64; bins]; dim];
    let mut joint = vec![vec![0u64; 16]; dim];
    let mut serial = vec![vec![0u64; 16]; dim];
    let mut last: Option<Vec<usize>> = None;
    let mut seen = HashSet::new();
    let mut points = 0u64;
    for _ in 0..calls {
        let x = make();
        ensure!(x.len() == n, "{} points instead of {}", x.len(), n);
        for p in &x {
            ensure!(p.len() == dim, "{} components instead of {}", p.len(), dim);
            ensure!(inside(p, &iv), "the point {:?} is outside the box {:?}", p, iv);
            points += 1;
            seen.insert(key(p));
            let u: Vec<f64> = p.iter().zip(&iv).map(|(v, (a, b))| (v.f() - a.f()) / (b.f() - a.f())).collect();
            let q: Vec<usize> = u.iter().map(|u| ((u * 4.0) as usize).min(3)).collect();
            for i in 0..dim {
                hist[i][((u[i] * bins as f64) as usize).min(bins - 1)] += 1;
                let j = (i + 1) % dim;
                joint[i][q[i] * 4 + q[j]] += 1;
                if let Some(l) = &last {
                    serial[i][l[i] * 4 + q[i]] += 1;
                }
            }
            last = Some(q);
        }
    }
    if mode == ctl::Mode::Honest {
        // How many different values a component can have at least.
        let values: Vec<f64> = iv
            .iter()
            .map(|(a, b)| {
                let top = a.abs().max(b.abs());
                (b.f() - a.f()) / (top.ulp_up().f() - top.f())
            })
            .collect();
        for i in 0..dim {
            // A narrow f32 interval holds few values, which do not fill the bins evenly.
            if values[i] < 4000.0 || values[(i + 1) % dim] < 4000.0 {
                continue;
            }
            let e = vec![points as f64 / bins as f64; bins];
            let s = chi2(&hist[i], &e);
            ensure!(s < chi2_bound(bins - 1), "component {} is not uniform over {:?}: {:?}, chi-square {:.0}", i, iv[i], hist[i], s);
            if dim > 1 {
                let e = vec![points as f64 / 16.0; 16];
                let s = chi2(&joint[i], &e);
                ensure!(s < chi2_bound(15), "components {} and {} are not independent: {:?}", i, (i + 1) % dim, joint[i]);
            }
            let e = vec![(points - 1) as f64 / 16.0; 16];
            let s = chi2(&serial[i], &e);
            ensure!(s < chi2_bound(15), "consecutive points are not independent in component {}: {:?}", i, serial[i]);
        }
        let collisions = points - seen.len() as u64;
        let expected = (points as f64) * (points as f64) / 2.0 / values.iter().product::<f64>();
        let few = (expected * 1.5 + 8.0 * expected.sqrt() + 3.0) as u64;
        ensure!(collisions <= few, "{} of {} points were repeated", collisions, points);
        case.count("honest_points", points);
    }
    case.evals = points;
    case.count("points", points);
    case.nontrivial(hash_u64s(&hist.concat()));
    Ok(())
}
both!(c12_float, c12_float_t);

macro_rules! ints {
    ($name:ident, $t:ty) => {
        fn $name(case: &mut Case) -> R {
            let src = SOURCES[(case.index / 4 % 4) as usize];
            let dim = case.rng.range(1, 3);
            let iv: Vec<($t, $t)> = (0..dim)
                .map(|_| {
                    let w = case.rng.range(1, 9) as i128;
                    let (min, max) = (<$t>::MIN as i128, <$t>::MAX as i128);
                    let lo = match case.rng.below(6) {
                        0 => min,
                        1 => max - w,
                        // far out, where not every integer is a float
                        2 => (max >> case.rng.below(10)) - 20 - case.rng.below(10) as i128,
                        3 => (min >> case.rng.below(10)) + case.rng.below(10) as i128,
                        _ => case.rng.below(90) as i128 - if min == 0 { 0 } else { 60 },
                    };
                    let lo = lo.max(min).min(max - w);
                    (lo as $t, (lo + w) as $t)
                })
                .collect();
            let (mode, seed) = case.any_stream();
            case.describe(format!("{} {:?} box {:?}, stream {:?} {}", stringify!($t), src, iv, mode, seed));
            let mut make = maker::<$t>(src, 50, iv.clone());
            let mut seen: Vec<Vec<u64>> = iv.iter().map(|(a, b)| vec![0; (*b as i128 - *a as i128) as usize + 1]).collect();
            for _ in 0..80 {
                let x = make();
                ensure!(x.len() == 50, "{} points instead of 50", x.len());
                for p in &x {
                    ensure!(p.len() == dim, "{} components instead of {}", p.len(), dim);
                    for i in 0..dim {
                        ensure!(p[i] >= iv[i].0 && p[i] <= iv[i].1, "{:?} of type {} is outside {:?}", p, stringify!($t), iv);
                        seen[i][(p[i] as i128 - iv[i].0 as i128) as usize] += 1;
                    }
                }
            }
            if mode == ctl::Mode::Honest {
                for i in 0..dim {
                    for (k, n) in seen[i].iter().enumerate() {
                        ensure!(*n > 0, "{:?} over {:?} (type {}) never gives {} in 4000 points", src, iv[i], stringify!($t), iv[i].0 as i128 + k as i128);
                    }
                    let c = chi2(&seen[i], &vec![4000.0 / seen[i].len() as f64; seen[i].len()]);
                    ensure!(c < chi2_bound(seen[i].len() - 1), "{:?} over {:?} (type {}) is not uniform: {:?}", src, iv[i], stringify!($t), seen[i]);
                }
                case.count("honest_integer_points", 4000);
            }
            case.evals = 4000;
            case.count("points", 4000);
            case.nontrivial(hash_u64s(&iv.iter().map(|x| (x.0 as u64).wrapping_mul(1000).wrapping_add(x.1 as u64)).collect::<Vec<_>>()) ^ case.index % 16);
            Ok(())
        }
    };
}
ints!(int_i32, i32);
ints!(int_u8, u8);
ints!(int_i64, i64);
ints!(int_i8, i8);
ints!(int_u64, u64);
ints!(int_usize, usize);
ints!(int_u16, u16);
/// Intervals as wide as the type or nearly so.
fn wide_ints(case: &mut Case) -> R {
    let src = SOURCES[(case.index / 4 % 4) as usize];
    let r = &mut case.rng;
    let iv: Vec<(i64, i64)> = (0..r.range(1, 3))
        .map(|_| match r.below(4) {
            0 => (i64::MIN, i64::MAX),
            1 => (i64::MIN + r.below(5) as i64, r.u64() as i64 >> 3),
            2 => (r.u64() as i64 >> 3, i64::MAX - r.below(5) as i64),
            _ => (-(1 << 60) - r.below(9) as i64, (1 << 60) + r.below(9) as i64),
        })
        .collect();
    let (mode, seed) = case.any_stream();
    case.describe(format!("i64 {:?} box {:?}, stream {:?} {}", src, iv, mode, seed));
    let mut make = maker::<i64>(src, 400, iv.clone());
    let x = make();
    let mut hits = vec![vec![0u64; 8]; iv.len()];
    let mut low = vec![vec![0u64; 8]; iv.len()];
    for p in &x {
        ensure!(p.len() == iv.len(), "{} components instead of {}", p.len(), iv.len());
        for i in 0..p.len() {
            ensure!(p[i] >= iv[i].0 && p[i] <= iv[i].1, "{:?} is outside {:?}", p, iv);
            let (lo, hi) = (iv[i].0 as i128, iv[i].1 as i128);
            hits[i][((p[i] as i128 - lo) * 8 / (hi - lo + 1)) as usize] += 1;
            low[i][(p[i] & 7) as usize] += 1;
        }
    }
    if mode == ctl::Mode::Honest {
        for i in 0..iv.len() {
            ensure!(!hits[i].contains(&0), "400 points leave an eighth of {:?} empty: {:?}", iv[i], hits[i]);
            ensure!(!low[i].contains(&0), "the lowest bits of 400 points in {:?} are not random: {:?}", iv[i], low[i]);
        }
    }
    case.evals = x.len() as u64;
    case.count("points", x.len() as u64);
    case.nontrivial(hash_u64s(&x.iter().map(|p| p[0] as u64).collect::<Vec<_>>()));
    Ok(())
}
pub fn c12_ints(case: &mut Case) -> R {
    match case.index % 8 {
        4 => return int_u64(case),
        5 => return int_usize(case),
        6 => return int_u16(case),
        7 => return wide_ints(case),
        _ => {}
    }
    match case.index % 4 {
        0 => int_i32(case),
        1 => int_u8(case),
        2 => int_i64(case),
        _ => int_i8(case),
    }
}
fn c12_rest_t<F: Fl>(case: &mut Case) -> R {
    let (n, dim) = (case.rng.below(20), case.rng.below(7));
    let z: Vec<Vec<F>> = ZeroVelocityInitializer::new(dim, n).get_velocity();
    ensure!(z.len() == n && z.iter().all(|v| v.len() == dim && v.iter().all(|x| *x == F::zero())), "ZeroVelocityInitializer::new({}, {}) gives {:?}", dim, n, z);
    let zi: Vec<Vec<i32>> = ZeroVelocityInitializer::new(dim, n).get_velocity();
    ensure!(zi == vec![vec![0; dim]; n], "ZeroVelocityInitializer::new({}, {}) gives {:?}", dim, n, zi);
    // swarm initialisers with no particles at all
    let x = RandomCoordinatesInitializer::new(vec![(F::zero(), F::one())], 0).get_coordinates();
    ensure!(x.is_empty(), "no particles requested, {} given", x.len());
    // empty and inverted intervals
    case.honest();
    let d = case.rng.range(1, 4);
    let mut iv = intervals::<F>(&mut case.rng, d);
    let i = case.rng.below(d);
    let (a, b) = iv[i];
    iv[i] = if case.rng.chance(0.5) { (b, a) } else { (a, a) };
    case.describe(format!("{} zero velocities {} x {}; rejected box {:?}", F::NAME, n, dim, iv));
    for s in SOURCES {
        let iv2 = iv.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || maker(s, 3, iv2)()));
        let _ = last_panic();
        ensure!(r.is_err(), "{:?} accepts the interval {:?} and gives {:?}", s, iv[i], r.unwrap());
    }
    case.evals = 7;
    case.count("rejections", 4);
    case.nontrivial(hash_u64s(&[n as u64, dim as u64, iv[i].0.bits()]));
    Ok(())
}
both!(c12_rest, c12_rest_t);

// --------------------------------------------------------------------------------------------------- C16

fn c16_boundary_t<F: Fl>(case: &mut Case) -> R {
    let mut used: Option<(Vec<(F, F)>, MoveToBoundary<F>)> = None;
    for _ in 0..300 {
        let r = &mut case.rng;
        if used.is_none() || r.chance(0.35) {
            // otherwise the operator of the particle before once more
            let dim = match r.below(400) {
                0..=7 => r.range(7, 40),
                8 => r.range(60, 300),
                _ => *r.pick(&[1usize, 1, 2, 3, 6]),
            };
            let iv = intervals::<F>(r, dim);
            used = Some((iv.clone(), MoveToBoundary::new(iv)));
        }
        let (iv, op) = used.as_mut().unwrap();
        let dim = iv.len();
        let x: Vec<F> = iv.iter().map(|i| gene_near(r, *i)).collect();
        case.describe(format!("{} {:?} in {:?}", F::NAME, x, iv));
        let mut y = x.clone();
        op.post_move(&mut y);
        ensure!(y.len() == dim, "{} components became {}", dim, y.len());
        for i in 0..dim {
            let (lo, hi) = iv[i];
            let ok = if !x[i].is_finite() {
                y[i] >= lo && y[i] <= hi
            } else if x[i] < lo {
                y[i] == lo
            } else if x[i] > hi {
                y[i] == hi
            } else {
                y[i].bits() == x[i].bits()
            };
            ensure!(ok, "component {} of {:?} in {:?} became {:?}", i, x, iv[i], y[i]);
            case.count(if y[i].bits() == x[i].bits() { "kept" } else { "corrected" }, 1);
        }
        case.evals += 1;
        case.nontrivial(hash_u64s(&key(&x)));
    }
    Ok(())
}
both!(c16_boundary, c16_boundary_t);
fn c16_teleport_t<F: Fl>(case: &mut Case) -> R {
    let dim = match case.rng.below(100) {
        0..=5 => 20,
        6 => *case.rng.pick(&[70, 130, 260]),
        _ => *case.rng.pick(&[1usize, 1, 2, 3, 6]),
    };
    let iv = intervals::<F>(&mut case.rng, dim);
    let p = *case.rng.pick(&[0.0f32, 0.0, 1.0, 1.0, 0.1, 0.25, 0.5, 0.9, 0.01, 0.004, 0.035, 0.996]);
    let extreme = p == 0.0 || p == 1.0;
    let (mode, seed) = if extreme { case.any_stream() } else { (ctl::Mode::Honest, case.honest()) };
    // rare events need more points
    let rare = !extreme && (p < 0.05 || p > 0.95);
    let n = if case.thorough() || rare { 60_000 } else { 8000 } as u64;
    case.describe(format!("{} RandomTeleport({}) in {:?}, stream {:?} {}", F::NAME, p, iv, mode, seed));
    let mut t = RandomTeleport::new(iv.clone(), p);
    // A stream of extreme numbers may lead to the corner itself.
    let places: f64 = iv.iter().map(|(a, b)| ((b.f() - a.f()) / (F::eps() * a.f().abs().max(b.f().abs()))).max(1.0).min(0.25 / F::eps()).log10()).sum();
    let roomy = mode == ctl::Mode::Honest && places > 12.0;
    let mut moved = 0u64;
    let mut twice = 0u64;
    let mut last = false;
    let bins = 16;
    let mut hist = vec![vec![0u64; bins]; dim];
    let mut joint = vec![vec![0u64; 16]; dim];
    for _ in 0..n {
        // Outside the box in every component, so that a replaced component can be told.
        let x: Vec<F> = iv.iter().map(|(a, b)| {
            match case.rng.below(5) {
                0 => F::nan(),
                1 => F::infinity(),
                2 => a.ulp_down(),
                3 => b.ulp_up(),
                _ => *b + (*b - *a),
            }
        }).collect();
        // Now and then at the origin or where the box has its corner, if a new place can be told from that.
        let x: Vec<F> = match case.rng.below(30) {
            0 if roomy => vec![F::zero(); dim],
            1 if roomy => iv.iter().map(|i| i.0).collect(),
            _ => x,
        };
        let mut y = x.clone();
        t.post_move(&mut y);
        ensure!(y.len() == dim, "{} components became {}", dim, y.len());
        if key(&x) == key(&y) {
            last = false;
            continue;
        }
        ensure!(inside(&y, &iv), "{:?} was moved to {:?}, which is neither the same nor inside {:?}", x, y, iv);
        moved += 1;
        twice += last as u64;
        last = true;
        let u: Vec<f64> = y.iter().zip(&iv).map(|(v, (a, b))| (v.f() - a.f()) / (b.f() - a.f())).collect();
        for i in 0..dim {
            hist[i][((u[i] * bins as f64) as usize).min(bins - 1)] += 1;
            let j = (i + 1) % dim;
            joint[i][((u[i] * 4.0) as usize).min(3) * 4 + ((u[j] * 4.0) as usize).min(3)] += 1;
        }
    }
    ensure!(p > 0.0 || moved == 0, "{} of {} points were teleported with probability 0", moved, n);
    ensure!(p < 1.0 || moved == n, "only {} of {} points were teleported with probability 1", moved, n);
    if mode == ctl::Mode::Honest {
        let q = p as f64;
        ensure!((moved as f64 - n as f64 * q).abs() <= binom_dev(n, q), "{} of {} points were teleported with probability {}", moved, n, p);
        ensure!((twice as f64 - (n - 1) as f64 * q * q).abs() <= binom_dev(n - 1, q * q), "consecutive teleports are not independent: {} of {} with probability {}", twice, n, p);
        if moved > 1000 {
            for i in 0..dim {
                // too few floats in the interval for even bins
                let many = |i: usize| (iv[i].1.f() - iv[i].0.f()) / (F::eps() * iv[i].0.f().abs().max(iv[i].1.f().abs())) > 4000.0;
                let j = (i + 1) % dim;
                if !many(i) || !many(j) {
                    continue;
                }
                let s = chi2(&hist[i], &vec![moved as f64 / bins as f64; bins]);
                ensure!(s < chi2_bound(bins - 1), "teleported component {} is not uniform in {:?}: {:?}", i, iv[i], hist[i]);
                if dim > 1 {
                    let s = chi2(&joint[i], &vec![moved as f64 / 16.0; 16]);
                    ensure!(s < chi2_bound(15), "teleported components {} and {} are not independent: {:?}", i, (i + 1) % dim, joint[i]);
                }
            }
        }
    }
    case.evals = n;
    case.count("teleported", moved);
    case.count("kept", n - moved);
    case.nontrivial(hash_u64s(&hist.concat()) ^ mix(p.to_bits() as u64));
    Ok(())
}
both!(c16_teleport, c16_teleport_t);

// --------------------------------------------------------------------------------------------------- C17

fn any_speed<F: Fl>(r: &mut Rng) -> F {
    match r.below(10) {
        0 => F::max_value() * F::of(r.unit()),
        1 => F::min_value() * F::of(r.unit()),
        2 => F::zero(),
        3 => F::of_bits(r.below(1000) as u64),
        4 => F::max_value(),
        5 => -F::zero(),
        6 => finite_float(r),
        _ => F::of(r.f(-100.0, 100.0)),
    }
}
fn any_limit<F: Fl>(r: &mut Rng, v: F) -> F {
    match r.below(8) {
        0 => F::zero(),
        1 => v.abs(),
        2 => v.abs().ulp_up().min(F::max_value()),
        3 => if v == F::zero() { F::zero() } else { v.abs().ulp_down() },
        4 => F::of(r.f(0.0, 10.0)),
        5 => F::max_value(),
        6 => F::min_positive_value(),
        _ => F::of(r.f(0.0, 200.0)),
    }
}
fn c17_dims_t<F: Fl>(case: &mut Case) -> R {
    let mut used: Option<(Vec<F>, MaxVelocityDimensions<F>)> = None;
    for _ in 0..400 {
        let r = &mut case.rng;
        let again = used.is_some() && r.chance(0.5);
        let dim = match &used {
            Some((m, _)) if again => m.len(),
            _ if r.chance(0.02) => r.range(9, 60),
            _ if r.chance(0.003) => r.range(60, 300),
            _ => *r.pick(&[1usize, 1, 2, 3, 8]),
        };
        let v: Vec<F> = (0..dim).map(|_| any_speed(r)).collect();
        if !again {
            let max: Vec<F> = v.iter().map(|v| any_limit(r, *v)).collect();
            used = Some((max.clone(), MaxVelocityDimensions::new(max)));
        }
        let (max, op) = used.as_mut().unwrap();
        case.describe(format!("{} MaxVelocityDimensions({:?}) of {:?}", F::NAME, max, v));
        let w = op.correct_velocity(v.clone());
        ensure!(w.len() == dim, "{} components became {}", dim, w.len());
        for i in 0..dim {
            let want = if v[i].abs() <= max[i] {
                v[i]
            } else if v[i] < F::zero() {
                -max[i]
            } else {
                max[i]
            };
            ensure!(w[i] == want && (v[i].abs() > max[i] || w[i].bits() == v[i].bits()), "component {:?} with limit {:?} became {:?}", v[i], max[i], w[i]);
            case.count(if v[i].abs() > max[i] { "limited" } else { "free" }, 1);
        }
        case.evals += 1;
        case.nontrivial(hash_u64s(&key(&v)));
    }
    Ok(())
}
both!(c17_dims, c17_dims_t);
fn c17_abs_t<F: Fl>(case: &mut Case) -> R {
    let mut used: Option<(F, MaxVelocityAbs<F>)> = None;
    for _ in 0..400 {
        let r = &mut case.rng;
        let dim = match r.below(400) {
            0..=7 => r.range(9, 60),
            8 => r.range(60, 300),
            _ => *r.pick(&[0usize, 1, 1, 2, 3, 8]),
        };
        let kind = r.below(3);
        let mut v: Vec<F> = (0..dim).map(|_| if kind == 0 { any_speed(r) } else { F::of(r.f(-10.0, 10.0)) }).collect();
        if dim > 1 && r.chance(0.05) {
            // the motion is along one axis
            let axis = r.below(dim);
            (0..dim).filter(|i| *i != axis).for_each(|i| v[i] = F::zero());
        }
        // Length relative to the largest component, in f64 arithmetic that cannot overflow.
        let s = v.iter().map(|x| x.f().abs()).fold(0.0, f64::max);
        let rel = if s > 0.0 { v.iter().map(|x| (x.f() / s) * (x.f() / s)).sum::<f64>().sqrt() } else { 0.0 };
        let len = F::of((s * rel).min(F::max_value().f()));
        let max: F = if r.chance(0.3) { any_limit(r, len) } else if r.chance(0.5) { F::of(s * r.f(0.0, 3.0)).min(F::max_value()) } else { any_limit(r, F::zero()) };
        if used.is_none() || r.chance(0.7) {
            // otherwise the operator of the velocity before once more
            used = Some((max, MaxVelocityAbs::new(max)));
        }
        let (max, op) = used.as_mut().unwrap();
        let max = *max;
        let m = max.f();
        case.describe(format!("{} MaxVelocityAbs({:?}) of {:?}", F::NAME, max, v));
        let w = op.correct_velocity(v.clone());
        ensure!(w.len() == dim, "{} components became {}", dim, w.len());
        ensure!(w.iter().all(|x| x.is_finite()), "MaxVelocityAbs({:?}) of {:?} gives {:?}", max, v, w);
        // length / limit, without overflow
        let eps = F::eps() * (16 + 2 * dim) as f64;
        let tiny = F::min_positive_value().f() * F::eps() * 4.0;
        let over = if m / s == 0.0 || s == 0.0 { s > 0.0 } else { rel > m / s };
        let clearly_over = over && (m == 0.0 || s * (rel * (1.0 - eps)) > m + tiny || (s * rel).is_infinite() && rel * (1.0 - eps) > m / s);
        let clearly_within = !over && (s == 0.0 || rel * (1.0 + eps) < m / s);
        let same_v = key(&v) == key(&w);
        if clearly_within {
            ensure!(same_v, "the speed of {:?} is within {:?} but it became {:?}", v, max, w);
            case.count("free", 1);
        } else {
            let ok = v.iter().zip(&w).all(|(x, y)| {
                let want = (x.f() / s) * (m / rel);
                // an error that is small for the vector: tiny components may vanish
                (y.f() - want).abs() <= m * eps + tiny
            });
            if clearly_over {
                ensure!(ok, "the speed of {:?} is above {:?} but it became {:?}", v, max, w);
                case.count("limited", 1);
            } else {
                ensure!(ok || same_v, "the speed of {:?} is about {:?} but it became {:?}", v, max, w);
                case.count("on_the_limit", 1);
            }
        }
        case.evals += 1;
        case.nontrivial(hash_u64s(&key(&v)) ^ max.bits());
    }
    Ok(())
}
both!(c17_abs, c17_abs_t);
