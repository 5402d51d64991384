//! Properties of the genetic optimizer as a whole: C01-C04, C07 and the GA halves of C18-C21, C28.
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::ga_check::*;
use crate::tagpipe::*;
use crate::{ensure, fail};
use optlib::tools::stopchecker::*;
use optlib::AlgorithmState;
use rand_chacha::ctl;
use std::cell::Cell;
use std::rc::Rc;

fn ev_hash(ev: &[Ev]) -> u64 {
    let mut h = 7u64;
    for e in ev {
        if let Ev::Goal(k, v) = e {
            h = mix(h ^ hash_u64s(k) ^ v.to_bits());
        }
    }
    h
}
fn limits(r: &mut Rng, max: usize) -> Vec<usize> {
    if lengthy() {
        let n = long_span(r);
        let mut v: Vec<usize> = (0..r.below(3)).map(|_| r.below(n + 1)).collect();
        v.push(n);
        v.sort();
        return v;
    }
    // now and then many segments or long ones
    let n = if r.chance(0.02) { r.range(5, 20) } else { r.range(1, 4) };
    let max = if r.chance(0.02) { max * 8 } else { max };
    let mut v: Vec<usize> = (0..n).map(|_| r.below(max + 1)).collect();
    v.sort();
    v
}
/// A history of find_min / next_iterations calls on one optimizer, monitored.
fn tag_history(case: &mut Case, cfg: &TagCfg) -> Vec<Ev> {
    let ctl = cfg.ctl();
    let cell = Rc::new(Cell::new(0usize));
    let mut o = cfg.build(&ctl, Box::new(StopAt(cell.clone())));
    let runs = case.rng.range(1, 3);
    let runs = if lengthy() { 1 } else { case.rng.rarely(runs, 4, 12) };
    for _ in 0..runs {
        for (i, l) in limits(&mut case.rng, 10).into_iter().enumerate() {
            cell.set(l);
            if i == 0 {
                find_min(&mut o, &ctl.log);
            } else {
                next_iters(&mut o, &ctl.log);
            }
        }
    }
    drop(o);
    take(&ctl.log)
}

// ------------------------------------------------------------------------------------------------ C01

pub fn c01_long(case: &mut Case) -> R {
    at_length(case, |c| if c.index % 3 == 0 { c01_vec(c) } else { c01_tags(c) })
}
pub fn c01_tags(case: &mut Case) -> R {
    let cfg = TagCfg::random(&mut case.rng);
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ev = tag_history(case, &cfg);
    let mut seen = Seen::default();
    best_honest(&ev, !cfg.sels.is_empty(), &mut seen)?;
    case.count("generations", seen.gens);
    if seen.gens > 1 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
fn vec_run<F: Fl>(case: &mut Case, tweak: impl FnOnce(&mut VecCfg<F>, &mut Rng), max_it: usize, pause: bool) -> (VecCfg<F>, Vec<Ev>) {
    let mut cfg = VecCfg::<F>::random(&mut case.rng, max_it);
    tweak(&mut cfg, &mut case.rng);
    case.describe(cfg.show());
    case.any_stream();
    let log = cfg.log();
    if pause {
        let cell = Rc::new(Cell::new(0usize));
        let mut o = cfg.build_with(&log, Box::new(StopAt(cell.clone())));
        for (i, l) in limits(&mut case.rng, max_it).into_iter().enumerate() {
            cell.set(l);
            if i == 0 {
                find_min(&mut o, &log);
            } else {
                next_iters(&mut o, &log);
            }
        }
    } else {
        let mut o = cfg.build(&log);
        find_min(&mut o, &log);
        if case.rng.chance(0.2) {
            find_min(&mut o, &log);
        }
    }
    let ev = take(&log);
    (cfg, ev)
}
fn c01_vec_t<F: Fl>(case: &mut Case) -> R {
    let pause = case.rng.chance(0.3);
    let (_, ev) = vec_run::<F>(case, |_, _| {}, 20, pause);
    let mut seen = Seen::default();
    best_honest(&ev, true, &mut seen)?;
    case.count("generations", seen.gens);
    if seen.gens > 1 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c01_vec(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c01_vec_t::<f64>(case)
    } else {
        c01_vec_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C02

/// NaN and +infinity are equally bad.
fn level(v: f64) -> f64 {
    if v.is_nan() {
        f64::INFINITY
    } else {
        v
    }
}
fn c02_t<F: Fl>(case: &mut Case) -> R {
    let long = case.rng.chance(0.1);
    let pause = case.rng.chance(0.3);
    let (cfg, ev) = vec_run::<F>(
        case,
        |c, r| {
            if r.chance(0.3) {
                c.sels.pop();
                if r.chance(0.5) && matches!(c.pair, PairK::Tournament(..)) {
                    // without a limit the population only grows by a constant per generation
                } else {
                    c.sels.push(SelK::Limit(c.pop));
                }
            }
            if let StopK::Iters(n) = c.stop {
                c.stop = StopK::Iters(n.max(2))
            }
        },
        if long { 60 } else { 20 },
        pause,
    );
    let finite = cfg.sels.contains(&SelK::Finite);
    let boxed = cfg.sels.contains(&SelK::Box);
    let accepts = |k: &Key, v: f64| (!finite || v.is_finite()) && (!boxed || inside(&k.iter().map(|b| F::of_bits(*b)).collect::<Vec<F>>(), &cfg.iv));
    let mut best: Option<f64> = None; // smallest accepted value so far in this run
    let mut last: Option<f64> = None; // last reported
    let mut gens = 0;
    let mut improved = 0;
    for (si, s) in segments(&ev).iter().enumerate() {
        if s.find_min {
            best = None;
            last = None;
            gens = 0;
        }
        let eat = |e: &Ev, best: &mut Option<f64>| {
            if let Ev::Goal(k, v) = e {
                if accepts(k, *v) && best.map_or(true, |b| min_nan(*v, b)) {
                    *best = Some(*v)
                }
            }
        };
        for e in &s.prefix {
            eat(e, &mut best);
        }
        for (gi, g) in s.gens.iter().enumerate() {
            for e in g {
                eat(e, &mut best);
            }
            gens += 1;
            for e in g {
                if let Ev::Log(_, LogKind::Iter, st) = e {
                    let now = st.best.as_ref().map(|b| b.1);
                    match (last, now) {
                        (Some(l), None) => fail!("call {} generation {}: the best solution ({}) disappeared", si, gi + 1, l),
                        (Some(l), Some(n)) => {
                            // without the validity selections NaN and +infinity are equally bad
                            ensure!(!min_nan(l, n) || l == f64::INFINITY, "call {} generation {}: best value got worse: {} after {}", si, gi + 1, n, l);
                            if min_nan(n, l) {
                                improved += 1;
                            }
                        }
                        _ => {}
                    }
                    let ok = match (best, now) {
                        (None, None) => true,
                        (Some(b), Some(n)) => b == n || (level(b) == f64::INFINITY && level(n) == f64::INFINITY),
                        _ => false,
                    };
                    ensure!(ok, "call {} generation {}: reported best {:?}, smallest accepted value evaluated so far {:?}", si, gi + 1, now, best);
                    last = now;
                }
            }
        }
        if gens > 0 {
            if let Some(r) = s.ret {
                let now = r.as_ref().map(|b| b.1);
                let ok = match (best, now) {
                    (None, None) => true,
                    (Some(b), Some(n)) => b == n || (level(b) == f64::INFINITY && level(n) == f64::INFINITY),
                    _ => false,
                };
                ensure!(ok, "call {}: result {:?}, smallest accepted value evaluated {:?}", si, now, best);
            }
        }
        case.count("generations", s.gens.len() as u64);
    }
    case.count("improvements", improved);
    if improved > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c02(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c02_t::<f64>(case)
    } else {
        c02_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------- C03, C04

pub fn c03_long(case: &mut Case) -> R {
    at_length(case, |c| if c.index % 3 == 0 { c03_vec(c) } else { c03_tags(c) })
}
pub fn c03_tags(case: &mut Case) -> R {
    let cfg = TagCfg::random(&mut case.rng);
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ev = tag_history(case, &cfg);
    let mut seen = Seen::default();
    let tags: Vec<u32> = (0..cfg.pres.len() as u32).collect();
    stages(&ev, &tags, &mut seen)?;
    newborns(&ev)?;
    case.count("generations", seen.gens);
    case.count("families", seen.families);
    case.count("born", seen.born);
    case.count("pre_birth_changes", seen.pre_changed);
    if seen.born > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
/// Every evaluated candidate joins the population with the value it got (seen by the first selection).
fn newborns(ev: &[Ev]) -> R {
    for (si, s) in segments(ev).iter().enumerate() {
        for (gi, g) in s.gens.iter().enumerate() {
            let born: Vec<(&Key, f64)> = g.iter().filter_map(|e| if let Ev::Goal(k, v) = e { Some((k, *v)) } else { None }).collect();
            if let Some(Ev::Sel(_, b, _)) = g.iter().find(|e| matches!(e, Ev::Sel(..))) {
                for (k, v) in &born {
                    ensure!(
                        b.ind.iter().any(|i| &i.key == *k && same(i.val, *v) && i.alive),
                        "call {} generation {}: newborn {:x?} with value {} is not in the population offered to selection",
                        si, gi + 1, k, v
                    );
                }
            }
        }
    }
    Ok(())
}
fn c03_vec_t<F: Fl>(case: &mut Case) -> R {
    let pause = case.rng.chance(0.5);
    let (cfg, ev) = vec_run::<F>(case, |_, _| {}, 12, pause);
    let mut seen = Seen::default();
    let tags: Vec<u32> = if cfg.pre { vec![0] } else { vec![] };
    stages(&ev, &tags, &mut seen)?;
    newborns(&ev)?;
    case.count("generations", seen.gens);
    case.count("families", seen.families);
    case.count("born", seen.born);
    if seen.born > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c03_vec(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c03_vec_t::<f64>(case)
    } else {
        c03_vec_t::<f32>(case)
    }
}
pub fn c04_long(case: &mut Case) -> R {
    at_length(case, |c| if c.index % 3 == 0 { c04_vec(c) } else { c04_tags(c) })
}
pub fn c04_tags(case: &mut Case) -> R {
    let cfg = TagCfg::random(&mut case.rng);
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ev = tag_history(case, &cfg);
    let mut seen = Seen::default();
    let tags: Vec<u32> = (0..cfg.sels.len() as u32).collect();
    conservation(&ev, &tags, true, &mut seen)?;
    case.count("generations", seen.gens);
    case.count("born", seen.born);
    case.count("killed", seen.killed);
    case.count("extinct_generations", seen.empty_gens);
    if seen.killed > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
fn c04_vec_t<F: Fl>(case: &mut Case) -> R {
    let pause = case.rng.chance(0.5);
    let (cfg, ev) = vec_run::<F>(case, |_, _| {}, 15, pause);
    let mut seen = Seen::default();
    let tags: Vec<u32> = (0..cfg.sels.len() as u32).collect();
    conservation(&ev, &tags, true, &mut seen)?;
    case.count("generations", seen.gens);
    case.count("born", seen.born);
    case.count("killed", seen.killed);
    case.count("extinct_generations", seen.empty_gens);
    if seen.killed > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c04_vec(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c04_vec_t::<f64>(case)
    } else {
        c04_vec_t::<f32>(case)
    }
}
/// No selection at all: the population only grows.
pub fn c04_nosel(case: &mut Case) -> R {
    let mut cfg = TagCfg::random(&mut case.rng);
    cfg.sels.clear();
    cfg.kids = 1;
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ctl = cfg.ctl();
    let n = case.rng.range(1, 6);
    let mut o = cfg.build(&ctl, Box::new(MaxIterations::new(n)));
    find_min(&mut o, &ctl.log);
    let ev = take(&ctl.log);
    let mut seen = Seen::default();
    conservation(&ev, &[], true, &mut seen)?;
    best_honest(&ev, false, &mut seen)?;
    case.count("generations", seen.gens);
    case.count("born", seen.born);
    if seen.born > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C07

fn c07_run_t<F: Fl>(case: &mut Case) -> R {
    let pause = case.rng.chance(0.3);
    let (cfg, ev) = vec_run::<F>(
        case,
        |c, r| {
            c.pre = true;
            if r.chance(0.5) {
                c.cross = CrossK::Exp;
                c.mut_prob = 50.0;
                c.mut_bits = 2;
            }
            if r.chance(0.3) {
                // tie-prone goals keep many children alive
                c.goal = GoalKind::FewValues(1, 2);
            }
        },
        25,
        pause,
    );
    let mut rejected = 0;
    let mut evaluated = 0;
    for e in &ev {
        match e {
            Ev::Goal(k, v) => {
                evaluated += 1;
                let x: Vec<F> = k.iter().map(|b| F::of_bits(*b)).collect();
                ensure!(inside(&x, &cfg.iv), "goal evaluated at {:?} (value {}) outside the box {:?}", x, v, cfg.iv);
            }
            Ev::Ret(Some((k, _))) => {
                let x: Vec<F> = k.iter().map(|b| F::of_bits(*b)).collect();
                ensure!(inside(&x, &cfg.iv), "result {:?} outside the box {:?}", x, cfg.iv);
            }
            Ev::Pre(_, _, b, a) => {
                let want: Vec<Key> =
                    b.iter().filter(|k| inside(&k.iter().map(|b| F::of_bits(*b)).collect::<Vec<F>>(), &cfg.iv)).cloned().collect();
                ensure!(*a == want, "pre-birth check kept {} of {} candidates, {} are inside", a.len(), b.len(), want.len());
                rejected += (b.len() - a.len()) as u64;
            }
            _ => {}
        }
    }
    case.count("evaluated", evaluated);
    case.count("rejected_before_birth", rejected);
    if rejected > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c07_run(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c07_run_t::<f64>(case)
    } else {
        c07_run_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C18 (GA)

fn c18_ga_t<F: Fl>(case: &mut Case) -> R {
    let max = 25;
    let mut cfg = VecCfg::<F>::random(&mut case.rng, max);
    if case.rng.chance(0.5) {
        cfg.goal = case.rng.pick(&[GoalKind::Sphere, GoalKind::Plateau(1.0), GoalKind::FewValues(3, 8), GoalKind::Const(2.0), GoalKind::Improving, GoalKind::Worsening]).clone();
    }
    case.describe(cfg.show());
    case.any_stream();
    let log = cfg.log();
    let mut o = cfg.build(&log);
    let n = case.rng.range(1, 3);
    for i in 0..n {
        if i == 0 || case.rng.chance(0.6) {
            find_min(&mut o, &log);
        } else {
            next_iters(&mut o, &log);
        }
    }
    drop(o);
    let ev = take(&log);
    let odd = ev.iter().any(|e| matches!(e, Ev::Stop(_, st, _) if st.best.as_ref().map_or(false, |b| b.1 == f64::MAX)));
    let mut polls = 0;
    stop_exact(&ev, if odd { None } else { Some(&cfg.stop) }, &mut polls)?;
    if let StopK::Iters(n) = cfg.stop {
        for (si, s) in segments(&ev).iter().enumerate() {
            if s.find_min {
                ensure!(s.gens.len() == n, "call {}: {} iterations with a limit of {}", si, s.gens.len(), n);
            } else {
                ensure!(s.gens.is_empty(), "call {}: resumed after the limit {} and still ran {} iterations", si, n, s.gens.len());
            }
        }
    }
    case.count("stop_checks", polls);
    if polls > 2 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c18_ga(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c18_ga_t::<f64>(case)
    } else {
        c18_ga_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C19 (GA)

/// What must not depend on pauses.
pub fn unpaused(ev: &[Ev]) -> Vec<String> {
    ev.iter()
        .filter(|e| match e {
            Ev::FindMin | Ev::Next | Ev::Mark(_) | Ev::Stop(..) | Ev::Ret(_) => false,
            Ev::Log(_, k, _) => *k == LogKind::Iter,
            _ => true,
        })
        .map(|e| format!("{:x?}", e))
        .collect()
}
pub fn first_diff(a: &[String], b: &[String]) -> Option<String> {
    let n = a.len().max(b.len());
    for i in 0..n {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let cut = |s: Option<&String>| s.map(|s| s.chars().take(400).collect::<String>()).unwrap_or("(nothing)".into());
            return Some(format!("event {}: {}  <>  {}", i, cut(x), cut(y)));
        }
    }
    None
}
fn c19_ga_t<F: Fl>(case: &mut Case) -> R {
    let cfg = VecCfg::<F>::random(&mut case.rng, 5);
    let mut ls = limits(&mut case.rng, 12);
    if case.rng.chance(0.3) {
        let x = ls[0];
        ls.insert(0, x);
    }
    let total = *ls.last().unwrap();
    let setter = case.rng.chance(0.4);
    case.describe(format!("pauses at {:?} (setter {}) {}", ls, setter, cfg.show()));
    let (mode, seed) = case.any_stream();
    let run = |ls: &[usize]| -> (Vec<Ev>, Vec<Sol>, u64) {
        restart(mode, seed);
        let log = cfg.log();
        let cell = Rc::new(Cell::new(ls[0]));
        let mut o = cfg.build_with(&log, Box::new(StopAt(cell.clone())));
        let mut rets = vec![find_min(&mut o, &log)];
        for l in &ls[1..] {
            if setter {
                o.set_stop_checker(MStop::new(&log, 0, Box::new(MaxIterations::new(*l))));
            } else {
                cell.set(*l);
            }
            rets.push(next_iters(&mut o, &log));
        }
        (take(&log), rets, ctl::words())
    };
    let (ea, ra, wa) = run(&[total]);
    let (eb, rb, wb) = run(&ls);
    if let Some(d) = first_diff(&unpaused(&ea), &unpaused(&eb)) {
        fail!("run without and with pauses at {:?} of {}: {}", ls, total, d);
    }
    ensure!(same_sol(&ra[0], rb.last().unwrap()), "results differ: {:x?} without, {:x?} with pauses at {:?}", ra[0], rb.last(), ls);
    ensure!(wa == wb, "a run with pauses at {:?} drew {} random words instead of {}", ls, wb, wa);
    // Intermediate results are the states of the unpaused run at that iteration.
    let states: Vec<&St> = ea.iter().filter_map(|e| if let Ev::Stop(_, st, _) = e { Some(st) } else { None }).collect();
    for (l, r) in ls.iter().zip(&rb) {
        ensure!(states.len() > *l && same_sol(&states[*l].best, r), "result at the pause after {} iterations is {:x?}, the unpaused run had {:x?}", l, r, states.get(*l).map(|s| &s.best));
    }
    case.count("pauses", ls.len() as u64 - 1);
    case.count("iterations", total as u64);
    if ls.len() > 1 && total > 1 {
        case.nontrivial(ev_hash(&ea) ^ hash_u64s(&ls.iter().map(|l| *l as u64).collect::<Vec<_>>()));
    }
    Ok(())
}
pub fn c19_ga(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c19_ga_t::<f64>(case)
    } else {
        c19_ga_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C20 (GA)

/// Stops when the inner (shipped) criterion says so or an outside limit is reached; always asks the inner one.
pub struct Both<T> {
    pub cell: Rc<Cell<usize>>,
    pub inner: Box<dyn StopChecker<T>>,
}
impl<T> StopChecker<T> for Both<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        let a = self.inner.can_stop(s);
        a || s.get_iteration() >= self.cell.get()
    }
}
/// Somewhere in the first generations of a run.
pub fn case_events(agents: usize) -> usize {
    10 + agents * 12
}
fn c20_ga_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = VecCfg::<F>::random(&mut case.rng, 12);
    cfg.goal = GoalKind::any_pure(&mut case.rng);
    let steps: Vec<(bool, usize)> = (0..case.rng.few(1, 4, 15)).map(|i| (i == 0 || case.rng.chance(0.4), case.rng.below(14))).collect();
    case.describe(format!("history {:?} {}", steps, cfg.show()));
    let (mode, seed) = case.any_stream();
    let seed2 = case.rng.u64();
    let log = cfg.log();
    let cell = Rc::new(Cell::new(usize::MAX));
    let mk = |log: &Log| cfg.build_with(log, Box::new(Both { cell: cell.clone(), inner: cfg.stop.build() }));
    let mut used = mk(&log);
    let mut aborted = false;
    // The runs may have different numbers of agents, none too.
    let agents = Agents;
    let varied = case.rng.chance(0.25);
    let some = |r: &mut Rng| if varied && r.chance(0.6) { Some(*r.pick(&[0, 0, 1, 2, 5, 12, cfg.pop + 1, cfg.pop / 2])) } else { None };
    for (fresh, l) in &steps {
        cell.set(*l);
        if *fresh || aborted {
            agents.set(some(&mut case.rng));
        }
        let fuse = if case.rng.chance(0.2) { Some(case.rng.below(case_events(cfg.pop))) } else { None };
        let mut step = || {
            // After an aborted run only a new one makes sense.
            if *fresh || aborted {
                find_min(&mut used, &log);
            } else {
                next_iters(&mut used, &log);
            }
        };
        match fuse {
            None => {
                step();
                aborted = false;
            }
            Some(n) => {
                aborted = with_fault(&log, n as u64, step);
                case.count("runs_aborted_before", aborted as u64);
            }
        }
    }
    let before = take(&log);
    cell.set(usize::MAX);
    agents.set(some(&mut case.rng));
    case.count("runs_of_varied_size", varied as u64);
    restart(mode, seed2);
    let r1 = find_min(&mut used, &log);
    let w1 = ctl::words();
    let e1 = take(&log);
    restart(mode, seed2);
    let mut fresh = mk(&log);
    let r2 = find_min(&mut fresh, &log);
    let w2 = ctl::words();
    let e2 = take(&log);
    let _ = seed;
    let txt = |e: &[Ev]| e.iter().map(|e| format!("{:x?}", e)).collect::<Vec<_>>();
    if let Some(d) = first_diff(&txt(&e2), &txt(&e1)) {
        fail!("fresh <> used optimizer (history {:?}): {}", steps, d);
    }
    ensure!(same_sol(&r1, &r2), "results differ: used {:x?}, fresh {:x?}", r1, r2);
    ensure!(w1 == w2, "used optimizer drew {} random words, a fresh one {}", w1, w2);
    case.count("runs_before", steps.len() as u64);
    case.count("events_compared", e1.len() as u64);
    if before.len() > 20 {
        case.nontrivial(ev_hash(&e1) ^ ev_hash(&before));
    }
    Ok(())
}
pub fn c20_ga(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c20_ga_t::<f64>(case)
    } else {
        c20_ga_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C21 (GA)

pub fn c21_ga(case: &mut Case) -> R {
    let cfg = TagCfg::random(&mut case.rng);
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ev = tag_history(case, &cfg);
    let mut calls = 0;
    let tags: Vec<u32> = (0..cfg.loggers).collect();
    logger_protocol(&ev, &tags, &mut calls)?;
    case.count("logger_calls", calls);
    if calls > 10 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
fn c21_vec_t<F: Fl>(case: &mut Case) -> R {
    let pause = case.rng.chance(0.4);
    let (cfg, ev) = vec_run::<F>(case, |_, _| {}, 15, pause);
    let mut calls = 0;
    let tags: Vec<u32> = (0..cfg.loggers).collect();
    logger_protocol(&ev, &tags, &mut calls)?;
    case.count("logger_calls", calls);
    if calls > 10 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c21_vec(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c21_vec_t::<f64>(case)
    } else {
        c21_vec_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C28 (GA)

/// Replace random operators between segments; every later call must come from the new ones.
pub fn c28_ga(case: &mut Case) -> R {
    let cfg = TagCfg::random(&mut case.rng);
    case.describe(format!("{:?}", cfg));
    case.any_stream();
    let ctl = cfg.ctl();
    let cell = Rc::new(Cell::new(case.rng.below(6)));
    let mut o = cfg.build(&ctl, Box::new(StopAt(cell.clone())));
    // expected tags: pairing, cross, mutation, stop, pres, sels, loggers
    let mut single = [0u32; 4];
    let mut pres: Vec<u32> = (0..cfg.pres.len() as u32).collect();
    let mut sels: Vec<u32> = (0..cfg.sels.len() as u32).collect();
    let mut logs: Vec<u32> = (0..cfg.loggers).collect();
    let mut all: Vec<Ev> = vec![];
    let mut replaced = 0u64;
    find_min(&mut o, &ctl.log);
    let mut expect: Vec<([u32; 4], Vec<u32>, Vec<u32>, Vec<u32>)> = vec![(single, pres.clone(), sels.clone(), logs.clone())];
    for round in 1..=case.rng.few(1, 3, 10) as u32 {
        let tag = round * 1000;
        let mut other = TagCfg::random(&mut case.rng);
        other.seed = case.rng.u64();
        other.n0 = cfg.n0;
        for what in 0..7 {
            if !case.rng.chance(0.4) {
                continue;
            }
            replaced += 1;
            match what {
                0 => {
                    o.set_pairing(other.pairing(&ctl, tag));
                    single[0] = tag
                }
                1 => {
                    o.set_cross(other.crossing(&ctl, tag));
                    single[1] = tag
                }
                2 => {
                    o.set_mutation(other.mutation(&ctl, tag));
                    single[2] = tag
                }
                3 => {
                    o.set_stop_checker(MStop::new(&ctl.log, tag, Box::new(StopAt(cell.clone()))));
                    single[3] = tag
                }
                4 => {
                    pres = (0..other.pres.len() as u32).map(|i| tag + i).collect();
                    o.set_pre_birth(other.pre_births(&ctl, tag));
                }
                5 => {
                    sels = (0..other.sels.len() as u32).map(|i| tag + i).collect();
                    o.set_selection(other.selections(&ctl, tag));
                }
                _ => {
                    let n = case.rng.range(0, 3) as u32;
                    logs = (0..n).map(|i| tag + i).collect();
                    o.set_loggers(other.loggers(&ctl, tag, n));
                }
            }
        }
        expect.push((single, pres.clone(), sels.clone(), logs.clone()));
        if case.rng.chance(0.25) {
            cell.set(case.rng.below(6));
            find_min(&mut o, &ctl.log);
        } else {
            cell.set(cell.get() + case.rng.range(1, 4));
            next_iters(&mut o, &ctl.log);
        }
    }
    drop(o);
    all.extend(take(&ctl.log));
    // Tags: per segment every event comes from the operators configured for it.
    let segs = segments(&all);
    ensure!(segs.len() == expect.len(), "{} segments", segs.len());
    let mut iter = 0usize;
    let mut later = 0u64;
    for (si, (s, (one, pt, st_, lt))) in segs.iter().zip(&expect).enumerate() {
        if s.find_min {
            iter = 0
        }
        for (k, (st, _)) in s.stops.iter().enumerate() {
            ensure!(st.iter == iter + k, "call {}: stop check {} sees iteration {} instead of {}", si, k, st.iter, iter + k);
        }
        iter += s.gens.len();
        let every: Vec<&Ev> = s.prefix.iter().chain(s.gens.iter().flatten()).chain(s.suffix.iter()).copied().collect();
        for e in &every {
            let (got, want) = match e {
                Ev::Pairs(t, ..) => (*t, one[0]),
                Ev::Cross(t, ..) => (*t, one[1]),
                Ev::Mut(t, ..) => (*t, one[2]),
                _ => continue,
            };
            ensure!(got == want, "call {}: operator {} used where {} is configured: {:?}", si, got, want, e);
        }
        for (gi, g) in s.gens.iter().enumerate() {
            if si > 0 {
                later += 1;
            }
            let p: Vec<u32> = g.iter().filter_map(|e| if let Ev::Pre(t, ..) = e { Some(*t) } else { None }).collect();
            let k: Vec<u32> = g.iter().filter_map(|e| if let Ev::Sel(t, ..) = e { Some(*t) } else { None }).collect();
            let l: Vec<u32> = g.iter().filter_map(|e| if let Ev::Log(t, ..) = e { Some(*t) } else { None }).collect();
            let empty = g.iter().all(|e| !matches!(e, Ev::Goal(..)));
            ensure!(p == *pt || (p.is_empty() && empty), "call {} generation {}: pre-birth stages {:?} instead of {:?}", si, gi + 1, p, pt);
            ensure!(k == *st_ || (k.is_empty() && empty), "call {} generation {}: selections {:?} instead of {:?}", si, gi + 1, k, st_);
            ensure!(l == *lt, "call {} generation {}: loggers {:?} instead of {:?}", si, gi + 1, l, lt);
        }
        let f: Vec<u32> = s.suffix.iter().filter_map(|e| if let Ev::Log(t, LogKind::Finish, _) = e { Some(*t) } else { None }).collect();
        ensure!(f == *lt, "call {}: finish to loggers {:?} instead of {:?}", si, f, lt);
        if !s.find_min {
            ensure!(!s.prefix.iter().any(|e| matches!(e, Ev::Goal(..) | Ev::Created(..))), "call {}: re-evaluation on resume", si);
        }
    }
    // Stop tags are not in Seg: check them on the flat list.
    let mut si = 0usize;
    let mut started = false;
    for e in &all {
        match e {
            Ev::FindMin | Ev::Next => {
                if started {
                    si += 1
                }
                started = true;
            }
            Ev::Stop(t, ..) => ensure!(*t == expect[si].0[3], "call {}: stop checker {} asked instead of {}", si, t, expect[si].0[3]),
            _ => {}
        }
    }
    // The agents stay as they were: conservation over the whole history with the selections of each segment.
    let mut from = 0;
    let mut idx = 0;
    let mut cur: Option<Vec<(Key, u64)>> = None;
    for (i, e) in all.iter().enumerate() {
        if matches!(e, Ev::FindMin) {
            cur = None;
        }
        if matches!(e, Ev::Next) {
            from = i;
            idx += 1;
        }
        if let Ev::Sel(_, _, a) = e {
            let mut v: Vec<(Key, u64)> = a.ind.iter().filter(|i| i.alive).map(|i| (i.key.clone(), i.val.to_bits())).collect();
            v.sort();
            cur = Some(v);
        }
        if let Ev::Goal(..) = e {
            if all[from..i].iter().any(|e| matches!(e, Ev::Sel(..))) && expect.iter().any(|x| x.2.is_empty()) {
                cur = None;
            }
        }
        if let (Ev::Pairs(_, p, _), Some(c)) = (e, &cur) {
            if expect.iter().all(|x| !x.2.is_empty()) {
                let mut v: Vec<(Key, u64)> = p.ind.iter().map(|i| (i.key.clone(), i.val.to_bits())).collect();
                v.sort();
                ensure!(v == *c, "after replacing operators (segment {}) the population changed between generations", idx);
            }
        }
    }
    case.count("operators_replaced", replaced);
    case.count("iterations_after_replacement", later);
    if replaced > 0 && later > 0 {
        case.nontrivial(ev_hash(&all));
    }
    Ok(())
}
