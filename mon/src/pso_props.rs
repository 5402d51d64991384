//! Properties of the particle swarm as a whole: C13-C16 (swarm level) and the PSO halves of C18-C21, C28.
use crate::fl::*;
use crate::fw::*;
use crate::ga::{same, same_sol, segments, Ev, Key, LogKind, Sol, St, StopK};
use crate::ga_check::*;
use crate::ga_props::{first_diff, Both};
use crate::ga::StopAt;
use crate::pso::*;
use crate::{ensure, fail};
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::*;
use rand::distributions::{Distribution, Uniform};
use rand_chacha::ctl;
use std::cell::Cell;
use std::collections::HashSet;
use std::rc::Rc;

fn ev_hash(ev: &[PEv]) -> u64 {
    let mut h = 7u64;
    for e in ev {
        if let PEv::Goal(k, v) = e {
            h = mix(h ^ hash_u64s(k) ^ v.to_bits());
        }
    }
    h
}
fn limits(r: &mut Rng, max: usize) -> Vec<usize> {
    if lengthy() {
        let n = long_span(r);
        let mut v: Vec<usize> = (0..r.below(3)).map(|_| r.below(n + 1)).collect();
        v.push(n);
        v.sort();
        return v;
    }
    // now and then many segments or long ones
    let n = if r.chance(0.02) { r.range(5, 20) } else { r.range(1, 4) };
    let max = if r.chance(0.02) { max * 8 } else { max };
    let mut v: Vec<usize> = (0..n).map(|_| r.below(max + 1)).collect();
    v.sort();
    v
}
fn run_cfg<F: Fl>(case: &mut Case, tweak: impl FnOnce(&mut PsoCfg<F>, &mut Rng), max_it: usize) -> (PsoCfg<F>, Vec<PEv>) {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, max_it);
    cfg.diverge(&mut case.rng, 0.06);
    tweak(&mut cfg, &mut case.rng);
    case.describe(cfg.show());
    case.any_stream();
    let l = cfg.logs();
    if case.rng.chance(0.4) && cfg.n < 256 {
        let cell = Rc::new(Cell::new(0usize));
        let mut o = cfg.build_with(&l, Box::new(StopAt(cell.clone())));
        let runs = if lengthy() { 1 } else { case.rng.few(1, 2, 10) };
        for _ in 0..runs {
            for (i, m) in limits(&mut case.rng, max_it).into_iter().enumerate() {
                cell.set(m);
                if i == 0 {
                    pfind(&mut o, &l);
                } else {
                    pnext(&mut o, &l);
                }
            }
        }
    } else {
        let mut o = cfg.build(&l);
        pfind(&mut o, &l);
        if case.rng.chance(0.2) {
            pfind(&mut o, &l);
        }
    }
    let ev = l.take();
    (cfg, ev)
}

// ------------------------------------------------------------------------------------------------ C13

/// a is better than b for the swarm: finite before non-finite, then smaller.
fn better(a: f64, b: f64) -> bool {
    (a.is_finite() && !b.is_finite()) || (a.is_finite() && b.is_finite() && a < b)
}
fn check_best(ev: &[Ev], iters: &mut u64) -> R {
    let mut evaluated: HashSet<(Key, u64)> = HashSet::new();
    let nb = |v: f64| if v.is_nan() { u64::MAX } else { v.to_bits() };
    let mut best: Option<f64> = None;
    for (si, s) in segments(ev).iter().enumerate() {
        if s.find_min {
            evaluated.clear();
            best = None;
        }
        let check = |st: &Sol, best: Option<f64>, evaluated: &HashSet<(Key, u64)>, at: &str| -> R {
            match (st, best) {
                (None, None) => Ok(()),
                (None, Some(b)) => fail!("call {} {}: no solution reported, but {} was evaluated", si, at, b),
                (Some((k, v)), b) => {
                    ensure!(evaluated.contains(&(k.clone(), nb(*v))), "call {} {}: reported {:x?} with value {} was never evaluated with that value in this run", si, at, k, v);
                    if let Some(b) = b {
                        ensure!(*v == b || (!v.is_finite() && !b.is_finite()), "call {} {}: reported best value {}, best evaluated so far is {}", si, at, v, b);
                    }
                    Ok(())
                }
            }
        };
        let eat = |e: &Ev, best: &mut Option<f64>, evaluated: &mut HashSet<(Key, u64)>| {
            if let Ev::Goal(k, v) = e {
                evaluated.insert((k.clone(), nb(*v)));
                if best.map_or(true, |b| better(*v, b)) {
                    *best = Some(*v)
                }
            }
        };
        for e in &s.prefix {
            eat(e, &mut best, &mut evaluated);
            if let Ev::Log(_, k, st) = e {
                check(&st.best, best, &evaluated, &format!("{:?}", k))?;
            }
        }
        let mut last: Option<Sol> = None;
        for (k, (st, _)) in s.stops.iter().enumerate() {
            check(&st.best, best, &evaluated, &format!("stop check {}", k))?;
            if let Some(g) = s.gens.get(k) {
                for e in g {
                    eat(e, &mut best, &mut evaluated);
                }
                for e in g {
                    if let Ev::Log(_, _, st) = e {
                        check(&st.best, best, &evaluated, &format!("iteration {}", k + 1))?;
                        last = Some(st.best.clone());
                    }
                }
                *iters += 1;
            }
        }
        for e in &s.suffix {
            if let Ev::Log(_, _, st) = e {
                check(&st.best, best, &evaluated, "finish")?;
                last = Some(st.best.clone());
            }
        }
        if let Some(r) = s.ret {
            check(r, best, &evaluated, "result")?;
            if let Some(l) = &last {
                ensure!(same_sol(r, l), "call {}: result {:x?} differs from the last reported {:x?}", si, r, l);
            }
        }
    }
    Ok(())
}
fn c13_t<F: Fl>(case: &mut Case) -> R {
    let (_, ev) = run_cfg::<F>(case, |_, _| {}, 25);
    let mut iters = 0;
    check_best(&common(&ev), &mut iters)?;
    for e in &ev {
        if let PEv::Calc(_, v, _) = e {
            if let Some((k, x)) = &v.best {
                ensure!(
                    ev.iter().any(|e| matches!(e, PEv::Goal(l, y) if l == k && same(*x, *y))),
                    "the swarm shows a best {:x?} ({}) that was never evaluated", k, x
                );
            }
            break;
        }
    }
    case.count("iterations", iters);
    if iters > 2 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c13_long(case: &mut Case) -> R {
    at_length(case, c13)
}
pub fn c13(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c13_t::<f64>(case)
    } else {
        c13_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------ C14 tracking

pub struct Step {
    pub p: usize,
    pub view: View,
    /// Velocity before the step (as stored in the particle).
    pub v_old: Key,
    /// As the calculator returned it.
    pub v_new: Key,
    pub x_new: Key,
    pub val: f64,
}
pub struct Run {
    pub pos: Vec<Key>,
    pub val: Vec<f64>,
    pub iters: Vec<Vec<Step>>,
}
fn canon<F: Fl>(k: &[u64]) -> Key {
    k.iter().map(|b| if F::of_bits(*b).is_nan() { F::nan().bits() } else { *b }).collect()
}
fn add<F: Fl>(a: &[u64], b: &[u64]) -> Key {
    canon::<F>(&a.iter().zip(b).map(|(x, y)| (F::of_bits(*x) + F::of_bits(*y)).bits()).collect::<Vec<_>>())
}
fn fl<F: Fl>(k: &[u64]) -> Vec<F> {
    k.iter().map(|b| F::of_bits(*b)).collect()
}
#[derive(Clone)]
struct Mv {
    idx: Option<usize>, // index into steps
    pv: usize,
    pm: usize,
    vel: Key,
    cur: Option<Key>,
    done: bool,
    order: usize,
}

/// Follow every particle through the events (C14). `pv`, `pm`: numbers of velocity and position corrections.
pub fn track<F: Fl>(ev: &[PEv], n: usize, pv: usize, pm: usize, corrections: &mut u64) -> R<Vec<Run>> {
    let mut runs: Vec<Run> = vec![];
    let mut pos: Vec<Key> = vec![];
    let mut val: Vec<f64> = vec![];
    let mut vel: Vec<Key> = vec![];
    // split into calls
    let mut i = 0;
    while i < ev.len() {
        let find = match &ev[i] {
            PEv::FindMin => true,
            PEv::Next => false,
            _ => {
                i += 1;
                continue;
            }
        };
        let mut j = i + 1;
        while j < ev.len() && !matches!(ev[j], PEv::FindMin | PEv::Next) {
            j += 1;
        }
        let call = &ev[i + 1..j];
        i = j;
        let first = call.iter().position(|e| matches!(e, PEv::Stop(..))).unwrap_or(call.len());
        if find {
            let mut coords: Vec<Key> = vec![];
            let (mut nc, mut nv) = (0, 0);
            vel = vec![];
            let mut stage: Vec<(usize, Key)> = vec![];
            let mut goals: Vec<(Key, f64)> = vec![];
            for e in &call[..first] {
                match e {
                    PEv::Coords(_, k) => {
                        nc += 1;
                        coords = k.iter().map(|k| canon::<F>(k)).collect();
                        stage = coords.iter().map(|k| (0, k.clone())).collect();
                    }
                    PEv::Vels(_, k) => {
                        nv += 1;
                        vel = k.clone();
                    }
                    PEv::PostMove(t, a, b) => {
                        let a = canon::<F>(a);
                        match stage.iter().position(|(s, k)| *s == *t as usize && *k == a) {
                            Some(q) => stage[q] = (*t as usize + 1, canon::<F>(b)),
                            None => fail!("start: position correction {} received {:?}, which is no start point at that stage", t, fl::<F>(&a)),
                        }
                        *corrections += 1;
                    }
                    PEv::Goal(k, v) => goals.push((canon::<F>(k), *v)),
                    PEv::Calc(..) | PEv::PostVel(..) => fail!("start: {:?}", e),
                    _ => {}
                }
            }
            ensure!(nc == 1 && nv == 1, "start: initialisers called {} and {} times", nc, nv);
            ensure!(coords.len() == n && vel.len() == n, "start: {} positions and {} velocities for {} particles", coords.len(), vel.len(), n);
            ensure!(stage.iter().all(|s| s.0 == pm), "start: not every start point passed all {} position corrections: {:?}", pm, stage.iter().map(|s| s.0).collect::<Vec<_>>());
            pos = stage.into_iter().map(|s| s.1).collect();
            val = vec![f64::NAN; n];
            ensure!(goals.len() == n, "start: {} goal calls for {} particles", goals.len(), n);
            for p in 0..n {
                match goals.iter().position(|g| g.0 == pos[p]) {
                    Some(q) => {
                        val[p] = goals[q].1;
                        goals.remove(q);
                    }
                    None => fail!("start: start point {:?} was not evaluated", fl::<F>(&pos[p])),
                }
            }
            runs.push(Run { pos: pos.clone(), val: val.clone(), iters: vec![] });
        } else {
            for e in &call[..first] {
                ensure!(matches!(e, PEv::Log(..) | PEv::Mark(_)), "resume: {:?} before the first stop check", e);
            }
        }
        let run = match runs.last_mut() {
            Some(r) => r,
            None => fail!("next_iterations without find_min in the workload"),
        };
        // iterations
        let mut k = first;
        while k < call.len() {
            let go = matches!(&call[k], PEv::Stop(_, _, false));
            let mut m = k + 1;
            while m < call.len() && !matches!(call[m], PEv::Stop(..)) {
                m += 1;
            }
            let body = &call[k + 1..m];
            k = m;
            if !go {
                for e in body {
                    ensure!(matches!(e, PEv::Log(..) | PEv::Ret(_) | PEv::Mark(_)), "after the stop: {:?}", e);
                }
                continue;
            }
            let at = format!("iteration {}", run.iters.len() + 1);
            let old = (pos.clone(), val.clone());
            let mut mv: Vec<Mv> = (0..n).map(|_| Mv { idx: None, pv: 0, pm: 0, vel: vec![], cur: None, done: false, order: 0 }).collect();
            let mut steps: Vec<Step> = vec![];
            let mut order = 0;
            // the first started particle that satisfies the condition (usually there is only one)
            fn first_of(mv: &[Mv], f: impl Fn(usize, &Mv) -> bool) -> Option<usize> {
                (0..mv.len()).filter(|p| mv[*p].idx.is_some() && !mv[*p].done && f(*p, &mv[*p])).min_by_key(|p| mv[*p].order)
            }
            for e in body {
                match e {
                    PEv::Calc(_, v, out) => {
                        ensure!(v.len == n && v.agents.len() == n, "{}: swarm has {} particles ({} agents) instead of {}", at, v.len, v.agents.len(), n);
                        for (p, a) in v.agents.iter().enumerate() {
                            let k = canon::<F>(&a.0);
                            ensure!(
                                (k == pos[p] && same(a.1, val[p])) || (k == old.0[p] && same(a.1, old.1[p])),
                                "{}: particle {} is reported at {:?} with value {}, but it is at {:?} with value {}",
                                at, p, fl::<F>(&a.0), a.1, fl::<F>(&pos[p]), val[p]
                            );
                        }
                        let p = v.me.or_else(|| (0..n).find(|p| mv[*p].idx.is_none() && canon::<F>(&v.mine.0) == pos[*p] && same(v.mine.1, val[*p])));
                        let p = match p {
                            Some(p) => p,
                            None => fail!("{}: velocity of an unknown particle at {:?} computed", at, fl::<F>(&v.mine.0)),
                        };
                        ensure!(mv[p].idx.is_none(), "{}: velocity of particle {} computed twice", at, p);
                        ensure!(canon::<F>(&v.mine.0) == old.0[p] && same(v.mine.1, old.1[p]), "{}: velocity of particle {} computed from another state than its own", at, p);
                        order += 1;
                        mv[p] = Mv { idx: Some(steps.len()), pv: 0, pm: 0, vel: canon::<F>(out), cur: None, done: false, order };
                        steps.push(Step { p, view: v.clone(), v_old: vel[p].clone(), v_new: out.clone(), x_new: vec![], val: 0.0 });
                    }
                    PEv::PostVel(t, a, b) => {
                        let a = canon::<F>(a);
                        *corrections += 1;
                        match first_of(&mv, |_, m| m.cur.is_none() && m.pv == *t as usize && m.vel == a) {
                            Some(p) => {
                                mv[p].pv += 1;
                                mv[p].vel = canon::<F>(b);
                            }
                            None => fail!("{}: velocity correction {} received {:?}, which is no velocity at that stage", at, t, fl::<F>(&a)),
                        }
                    }
                    PEv::PostMove(t, a, b) => {
                        let a = canon::<F>(a);
                        *corrections += 1;
                        let found = first_of(&mv, |p, m| {
                            m.pv == pv && m.pm == *t as usize && if m.pm == 0 { add::<F>(&pos[p], &m.vel) == a } else { m.cur.as_ref() == Some(&a) }
                        });
                        match found {
                            Some(p) => {
                                mv[p].pm += 1;
                                mv[p].cur = Some(canon::<F>(b));
                            }
                            None => fail!("{}: position correction {} received {:?}, which is not position + corrected velocity of a particle at that stage", at, t, fl::<F>(&a)),
                        }
                    }
                    PEv::Goal(g, v) => {
                        let g = canon::<F>(g);
                        let found = first_of(&mv, |p, m| m.pv == pv && m.pm == pm && if pm == 0 { add::<F>(&pos[p], &m.vel) == g } else { m.cur.as_ref() == Some(&g) });
                        match found {
                            Some(p) => {
                                mv[p].done = true;
                                let s = mv[p].idx.unwrap();
                                steps[s].x_new = g.clone();
                                steps[s].val = *v;
                                vel[p] = mv[p].vel.clone();
                                pos[p] = g;
                                val[p] = *v;
                            }
                            None => fail!("{}: the goal is evaluated at {:?}, where no moved particle is", at, fl::<F>(&g)),
                        }
                    }
                    PEv::Coords(..) | PEv::Vels(..) => fail!("{}: initialised again", at),
                    _ => {}
                }
            }
            for p in 0..n {
                ensure!(mv[p].done, "{}: particle {} was not moved and evaluated", at, p);
            }
            run.iters.push(steps);
        }
    }
    Ok(runs)
}
fn c14_t<F: Fl>(case: &mut Case) -> R {
    // Rules that keep the velocity or scale it show from which velocity a particle's next one is computed.
    let pure = case.index % 6 < 2;
    let (cfg, ev) = run_cfg::<F>(
        case,
        |c, r| {
            if pure {
                c.vel = if r.chance(0.5) { VelK::Classic(0.0, 0.0) } else { VelK::Inertia(0.0, 0.0, InertK::Const(r.f(0.1, 1.0))) };
                if r.chance(0.2) {
                    // Moves that overflow, from places and with velocities that do not.
                    let m = F::max_value().f();
                    c.iv = c.iv.iter().map(|_| if r.chance(0.5) { (F::of(0.2 * m), F::of(0.9 * m)) } else { (F::of(-0.9 * m), F::of(-0.2 * m)) }).collect();
                    c.vel0 = Some(r.f(0.1, 0.45) * m);
                    c.pvs.clear();
                    c.pms.push(PmK::Boundary);
                }
            }
        },
        15,
    );
    let mut corr = 0;
    let runs = track::<F>(&ev, cfg.n, cfg.pvs.len(), cfg.pms.len(), &mut corr)?;
    if pure {
        let w = match &cfg.vel {
            VelK::Inertia(_, _, InertK::Const(w)) => F::of(*w).f(),
            _ => 1.0,
        };
        for (it, s) in runs.iter().flat_map(|r| r.iters.iter().enumerate()).flat_map(|(i, ss)| ss.iter().map(move |s| (i, s))) {
            let (old, new) = (fl::<F>(&s.v_old), fl::<F>(&s.v_new));
            for (a, b) in old.iter().zip(&new) {
                let (a, b) = (a.f(), b.f());
                // A place at an enormous distance makes 0 * infinity.
                if a.is_finite() && !b.is_nan() {
                    ensure!((a * w - b).abs() <= 1e-5 * (a * w).abs() + 1e-37, "iteration {}: particle {} has the velocity {:?} after the corrections, the next one is {:?} instead of {} times that", it + 1, s.p, old, new, w);
                    case.count("kept_velocities", 1);
                }
            }
        }
    }
    let iters: usize = runs.iter().map(|r| r.iters.len()).sum();
    case.count("iterations", iters as u64);
    case.count("moves", (iters * cfg.n) as u64);
    case.count("corrections", corr);
    if iters > 1 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c14_long(case: &mut Case) -> R {
    at_length(case, c14)
}
pub fn c14(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c14_t::<f64>(case)
    } else {
        c14_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C15

struct Fixed<F>(Vec<Vec<F>>);
impl<F: Fl> CoordinatesInitializer<F> for Fixed<F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        self.0.clone()
    }
}
impl<F: Fl> VelocityInitializer<F> for Fixed<F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        self.0.clone()
    }
}
/// Shadow of what a velocity rule may depend on.
struct Shadow {
    best: Vec<Extreme>,
    worst: Vec<Extreme>,
    gworst: Extreme,
}
/// Non-finite goals are all the same and worse than any finite one.
fn grade(v: f64) -> f64 {
    if v.is_finite() {
        v
    } else {
        f64::INFINITY
    }
}
/// The place of an extreme goal value, and whether another place had the very same value.
#[derive(Clone)]
struct Extreme(Key, f64, bool);
impl Extreme {
    fn of(x: &(Key, f64)) -> Extreme {
        Extreme(x.0.clone(), grade(x.1), false)
    }
    fn see(&mut self, better: fn(f64, f64) -> bool, k: &Key, v: f64) {
        let v = grade(v);
        if better(v, self.1) {
            *self = Extreme(k.clone(), v, false);
        } else if v == self.1 && *k != self.0 {
            self.2 = true;
        }
    }
    /// The place of the extreme of a list.
    fn among<'x>(all: impl Iterator<Item = &'x (Key, f64)>, better: fn(f64, f64) -> bool) -> Option<Extreme> {
        let mut e: Option<Extreme> = None;
        for x in all {
            match &mut e {
                None => e = Some(Extreme::of(x)),
                Some(e) => e.see(better, &x.0, x.1),
            }
        }
        e
    }
}
/// The formula of a rule for given random factors r (same factor for every term), per dimension; also the
/// sum of the magnitudes of the random terms, and the interval reachable with factors in [0, 1].
fn formula<F: Fl>(k: &VelK, iter: usize, v: &[f64], x: &[f64], pb: &[f64], gb: &[f64], cb: &[f64], pw: &[f64], gw: &[f64], cw: &[f64], r: f64) -> Vec<(f64, f64, f64, f64)> {
    let q = |x: f64| F::of(x).f();
    (0..x.len())
        .map(|i| {
            let (scale, base, terms): (f64, f64, Vec<f64>) = match k {
                VelK::Classic(a, b) => (1.0, v[i], vec![q(*a) * (pb[i] - x[i]), q(*b) * (gb[i] - x[i])]),
                VelK::Canonical(a, b, al) => {
                    (2.0 * q(*al) / (q(*a) + q(*b) - 2.0), v[i], vec![q(*a) * (pb[i] - x[i]), q(*b) * (gb[i] - x[i])])
                }
                VelK::Inertia(a, b, w) => (1.0, w.value(iter) * v[i], vec![q(*a) * (pb[i] - x[i]), q(*b) * (gb[i] - x[i])]),
                VelK::Negative(p) => (
                    q(p[6]),
                    v[i],
                    vec![
                        q(p[0]) * (pb[i] - x[i]),
                        q(p[1]) * (cb[i] - x[i]),
                        q(p[2]) * (gb[i] - x[i]),
                        -q(p[3]) * (pw[i] - x[i]),
                        -q(p[4]) * (cw[i] - x[i]),
                        -q(p[5]) * (gw[i] - x[i]),
                    ],
                ),
                VelK::Custom(..) => (1.0, 0.0, vec![]),
            };
            let sum: f64 = terms.iter().sum();
            let mag: f64 = base.abs() + terms.iter().map(|t| t.abs()).sum::<f64>();
            let lo = base + terms.iter().map(|t| t.min(0.0)).sum::<f64>();
            let hi = base + terms.iter().map(|t| t.max(0.0)).sum::<f64>();
            (scale * (base + r * sum), scale * mag, scale * lo, scale * hi)
        })
        .collect()
}
fn c15_t<F: Fl>(case: &mut Case, constant: bool) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 12);
    while matches!(cfg.vel, VelK::Custom(..)) {
        cfg.vel = VelK::random(&mut case.rng);
    }
    cfg.goal = GoalKind::smooth(&mut case.rng);
    if case.rng.chance(0.4) {
        cfg.goal = GoalKind::NanHoles(case.rng.u64(), *case.rng.pick(&[5, 20, 100]));
    }
    cfg.pms.retain(|p| !matches!(p, PmK::Teleport(_)));
    if !lengthy() {
        cfg.stop = StopK::Iters(case.rng.few(2, 12, 80));
    }
    let dim = cfg.iv.len();
    let start: Vec<Vec<F>> = (0..cfg.n).map(|_| cfg.iv.iter().map(|(a, b)| F::of(case.rng.f(a.f(), b.f()))).collect()).collect();
    let vels: Vec<Vec<F>> = (0..cfg.n).map(|_| (0..dim).map(|i| F::of(case.rng.f(-0.2, 0.2) * (cfg.iv[i].1 - cfg.iv[i].0).f())).collect()).collect();
    let word = *case.rng.pick(&[0u32, u32::MAX, 0x8000_0000, 0x4000_0000, 0x1234_5678, 0xE000_0000, case.index as u32]);
    case.describe(format!("constant random word {:?}; {}", if constant { Some(word) } else { None }, cfg.show()));
    let l = cfg.logs();
    let mode = if constant { ctl::Mode::Const(word) } else { ctl::Mode::Honest };
    let seed = case.rng.u64();
    restart(mode, seed);
    let r = if constant {
        match cfg.vel {
            VelK::Negative(_) => Uniform::new_inclusive(0.0f64, 1.0).sample(&mut rand::thread_rng()),
            _ => f64::from(Uniform::new_inclusive(0.0f32, 1.0).sample(&mut rand::thread_rng())),
        }
    } else {
        0.5
    };
    restart(mode, seed);
    let mut o = ParticleSwarmOptimizer::new(
        pgoal::<F>(&l, cfg.goal.clone()),
        Box::new(PStop { tag: 0, l: l.clone(), inner: cfg.stop.build() }),
        PCoords::new(&l, 0, Box::new(Fixed(start))),
        PVels::new(&l, 0, Box::new(Fixed(vels))),
        PCalc::new(&l, 0, cfg.vel.build()),
    );
    o.set_post_velocity_calc(cfg.post_vels(&l, 0));
    o.set_post_moves(cfg.post_moves(&l, 0));
    o.set_loggers(cfg.loggers(&l, 0, 1));
    pfind(&mut o, &l);
    drop(o);
    if constant && ctl::escaped() {
        return Ok(());
    }
    let ev = l.take();
    let runs = track::<F>(&ev, cfg.n, cfg.pvs.len(), cfg.pms.len(), &mut 0)?;
    let d = |k: &Key| k.iter().map(|b| F::of_bits(*b).f()).collect::<Vec<f64>>();
    let mut checked = 0u64;
    let mut ties = 0u64;
    let mut bad = 0u64;
    for run in &runs {
        let init: Vec<(Key, f64)> = run.pos.iter().cloned().zip(run.val.iter().copied()).collect();
        let gw = Extreme::among(init.iter(), |a, b| a > b);
        let own: Vec<Extreme> = init.iter().map(Extreme::of).collect();
        // The swarm's best position of the previous iteration.
        let mut gbest = init.iter().map(|x| grade(x.1)).fold(f64::INFINITY, f64::min);
        let mut sh = Shadow { best: own.clone(), worst: own.clone(), gworst: gw.unwrap_or_else(|| own[0].clone()) };
        for (it, steps) in run.iters.iter().enumerate() {
            for s in steps {
                let (gbk, gbv) = match &s.view.best {
                    Some(b) => b.clone(),
                    None => fail!("iteration {}: no swarm best", it + 1),
                };
                ensure!(grade(gbv) == gbest, "iteration {} particle {}: the rule is shown a swarm best of {}, the best of the iterations before is {}", it + 1, s.p, gbv, gbest);
                if !gbv.is_finite() || !sh.best[s.p].1.is_finite() {
                    continue;
                }
                let agents = &s.view.agents;
                let mine = Extreme::of(&s.view.mine);
                let cb = Extreme::among(agents.iter(), |a, b| a < b).unwrap_or_else(|| mine.clone());
                let cw = Extreme::among(agents.iter(), |a, b| a > b).unwrap_or_else(|| mine.clone());
                // with equal goals any of the places may be meant
                let all = matches!(cfg.vel, VelK::Negative(_));
                if sh.best[s.p].2 || all && (cb.2 || cw.2 || sh.worst[s.p].2 || sh.gworst.2) {
                    ties += 1;
                    continue;
                }
                let x = d(&s.view.mine.0);
                let v = d(&s.v_old);
                let want = formula::<F>(&cfg.vel, it, &v, &x, &d(&sh.best[s.p].0), &d(&gbk), &d(&cb.0), &d(&sh.worst[s.p].0), &d(&sh.gworst.0), &d(&cw.0), r);
                let got = d(&s.v_new);
                ensure!(got.len() == x.len(), "iteration {} particle {}: velocity has {} components, position {}", it + 1, s.p, got.len(), x.len());
                for i in 0..x.len() {
                    let (e, mag, lo, hi) = want[i];
                    let pos = x[i].abs().max(d(&gbk)[i].abs());
                    // positions enter through rounded differences
                    let tol = 64.0 * F::eps() * (mag + pos * 20.0) + 2e-6 * mag + F::min_positive_value().f() * 16.0;
                    if !(e.is_finite() && mag < F::max_value().f() * 1e-3 && got[i].is_finite()) {
                        continue;
                    }
                    if constant {
                        ensure!(
                            (got[i] - e).abs() <= tol,
                            "iteration {} particle {} dimension {}: {:?} with all random factors {} gave {}, formula {} (v={} x={} own best={} swarm best={} current best={} own worst={} swarm worst={} current worst={})",
                            it + 1, s.p, i, cfg.vel, r, got[i], e, v[i], x[i], d(&sh.best[s.p].0)[i], d(&gbk)[i], d(&cb.0)[i], d(&sh.worst[s.p].0)[i], d(&sh.gworst.0)[i], d(&cw.0)[i]
                        );
                    }
                    ensure!(
                        got[i] >= lo - tol && got[i] <= hi + tol,
                        "iteration {} particle {} dimension {}: {:?} gave {}, outside [{}, {}] reachable with factors in [0, 1]",
                        it + 1, s.p, i, cfg.vel, got[i], lo, hi
                    );
                    checked += 1;
                }
            }
            for s in steps {
                sh.best[s.p].see(|a, b| a < b, &s.x_new, s.val);
                sh.worst[s.p].see(|a, b| a > b, &s.x_new, s.val);
                sh.gworst.see(|a, b| a > b, &s.x_new, s.val);
                gbest = gbest.min(grade(s.val));
                bad += (!s.val.is_finite()) as u64;
            }
        }
    }
    case.count("velocity_components_checked", checked);
    case.count("moves_skipped_for_ties", ties);
    case.count("non_finite_places", bad);
    if checked > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c15_long(case: &mut Case) -> R {
    at_length(case, |c| if c.index % 2 == 0 { c15_const(c) } else { c15_honest(c) })
}
pub fn c15_const(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c15_t::<f64>(case, true)
    } else {
        c15_t::<f32>(case, true)
    }
}
pub fn c15_honest(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c15_t::<f64>(case, false)
    } else {
        c15_t::<f32>(case, false)
    }
}

/// A stage with known positions: the studied particle is at 1 with own best 0, own worst 3; the swarm's best
/// and current best are at -1, the worst ones at 7. Returns the velocities computed for it, per iteration.
fn stage<F: Fl>(vel: &VelK, dim: usize, iters: usize) -> Vec<Vec<f64>> {
    let l = Logs::new(1_000_000, 1_000_000);
    struct Zero;
    impl<F: Fl> PostVelocityCalc<F> for Zero {
        fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
            v.iter().map(|_| F::zero()).collect()
        }
    }
    struct Jump;
    impl<F: Fl> PostMove<F> for Jump {
        fn post_move(&mut self, c: &mut Vec<F>) {
            let to = match c[0].f() {
                // -100 is where the studied particle is created; it starts at 0
                x if x == -100.0 => 0.0,
                x if x == 0.0 => 1.0,
                x if x == 1.0 => 3.0,
                x if x == 3.0 => 1.0,
                x => x,
            };
            for v in c.iter_mut() {
                *v = F::of(to)
            }
        }
    }
    let mk = |x: f64| vec![F::of(x); dim];
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(PGoal {
            l: l.clone(),
            f: Box::new(|x: &Vec<F>, _| match x[0].f() {
                v if v == -1.0 => -1.0,
                v if v == 0.0 => 1.0,
                v if v == 1.0 => 5.0,
                v if v == 3.0 => 9.0,
                _ => 50.0,
            }),
        }),
        Box::new(MaxIterations::new(iters)),
        Box::new(Fixed(vec![mk(-1.0), mk(-100.0), mk(7.0)])),
        Box::new(Fixed(vec![mk(0.0); 3])),
        PCalc::new(&l, 0, vel.build()),
    );
    o.set_post_velocity_calc(vec![Box::new(Zero)]);
    o.set_post_moves(vec![Box::new(Jump)]);
    pfind(&mut o, &l);
    drop(o);
    let mut visited_worst = false;
    let mut out = vec![];
    for e in l.take() {
        if let PEv::Calc(_, v, k) = e {
            let x = F::of_bits(v.mine.0[0]).f();
            if x == 3.0 {
                visited_worst = true;
            }
            if x == 1.0 && visited_worst {
                out.push(k.iter().map(|b| F::of_bits(*b).f()).collect());
            }
        }
    }
    out
}
fn corr(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len() as f64;
    let (ma, mb) = (a.iter().sum::<f64>() / n, b.iter().sum::<f64>() / n);
    let c: f64 = a.iter().zip(b).map(|(x, y)| (x - ma) * (y - mb)).sum();
    let va: f64 = a.iter().map(|x| (x - ma) * (x - ma)).sum();
    let vb: f64 = b.iter().map(|x| (x - mb) * (x - mb)).sum();
    c / (va * vb).sqrt()
}
fn c15_dist_t<F: Fl>(case: &mut Case) -> R {
    case.honest();
    // (rule, contribution of each factor to the velocity)
    let kinds = 4;
    let kind = (case.index / 2) as usize % kinds;
    let nterm = if kind == 3 { 6 } else { 2 };
    // differences: own best -1, current best -2, swarm best -2, own worst 2, current worst 6, swarm worst 6
    let diffs: Vec<f64> = if kind == 3 { vec![-1.0, -2.0, -2.0, -2.0, -6.0, -6.0] } else { vec![-1.0, -2.0] };
    let build = |phi: &[f64]| -> (VelK, f64) {
        match kind {
            0 => (VelK::Classic(phi[0], phi[1]), 1.0),
            1 => (VelK::Canonical(phi[0], phi[1], 0.5), 1.0 / (phi[0] + phi[1] - 2.0)),
            2 => (VelK::Inertia(phi[0], phi[1], InertK::Const(0.7)), 1.0),
            _ => (VelK::Negative([phi[0], phi[1], phi[2], phi[3], phi[4], phi[5], 0.5]), 0.5),
        }
    };
    let iters = if case.thorough() { 8000 } else { 3000 };
    let dim = 3;
    let j = case.rng.below(nterm);
    // one factor alone
    {
        let mut phi = vec![0.0; nterm];
        phi[j] = 5.0;
        let (rule, scale) = build(&phi);
        case.describe(format!("{} factor {} of {:?}", F::NAME, j, rule));
        let vs = stage::<F>(&rule, dim, iters);
        ensure!(vs.len() > iters / 4, "only {} velocities of {} iterations", vs.len(), iters);
        let mut cols: Vec<Vec<f64>> = vec![vec![]; dim];
        let mut bins = [0u64; 16];
        for v in &vs {
            ensure!(v.len() == dim, "velocity has {} components", v.len());
            for i in 0..dim {
                let r = v[i] / (scale * 5.0 * diffs[j]);
                ensure!(r >= -1e-5 && r <= 1.0 + 1e-5, "{:?}: random factor {} is {} (outside [0, 1])", rule, j, r);
                bins[((r * 16.0) as usize).min(15)] += 1;
                cols[i].push(r);
            }
        }
        let n = (vs.len() * dim) as f64;
        let x2 = chi2(&bins, &[n / 16.0; 16]);
        ensure!(x2 < chi2_bound(15), "{:?}: random factor {} is not uniform: bins {:?} (chi2 {})", rule, j, bins, x2);
        let limit = 8.0 / (vs.len() as f64).sqrt();
        for a in 0..dim {
            for b in 0..a {
                let c = corr(&cols[a], &cols[b]);
                ensure!(c.abs() < limit, "{:?}: factor {} of dimensions {} and {} correlates: {}", rule, j, a, b, c);
            }
            let c = corr(&cols[a][1..], &cols[a][..cols[a].len() - 1]);
            ensure!(c.abs() < limit, "{:?}: factor {} of successive steps correlates: {}", rule, j, c);
        }
        case.count("random_factors_recovered", n as u64);
    }
    // two factors together: the variance of their sum tells whether they are independent
    let k = (j + 1 + case.rng.below(nterm - 1)) % nterm;
    let mut phi = vec![0.0; nterm];
    phi[j] = 12.0 / diffs[j].abs();
    phi[k] = 12.0 / diffs[k].abs();
    let (rule, scale) = build(&phi);
    let vs = stage::<F>(&rule, dim, iters);
    let s: Vec<f64> = vs.iter().flat_map(|v| v.iter().map(|x| x / (scale * 12.0)).collect::<Vec<_>>()).collect();
    let n = s.len() as f64;
    let m = s.iter().sum::<f64>() / n;
    let var = s.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n;
    // independent: 1/6; equal: 1/3 or 0
    let dev = 8.0 * (1.0f64 / 6.0) * (2.0 / n).sqrt();
    ensure!((var - 1.0 / 6.0).abs() < dev, "{:?}: factors {} and {} are not independent and uniform: variance of the sum {} instead of 0.1667", rule, j, k, var);
    // opposite or same direction of the two terms
    let sign = (diffs[j].signum() + diffs[k].signum()) / 2.0;
    ensure!((m - sign).abs() < 8.0 * (1.0f64 / 6.0 / n).sqrt(), "{:?}: mean of factors {} and {} is {} instead of {}", rule, j, k, m, sign);
    case.count("random_factors_recovered", 2 * s.len() as u64);
    case.evals = 2 * iters as u64;
    case.nontrivial(case.index);
    Ok(())
}
pub fn c15_dist(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c15_dist_t::<f64>(case)
    } else {
        c15_dist_t::<f32>(case)
    }
}
fn c15_inertia_t<F: Fl>(case: &mut Case) -> R {
    let (a, b) = (case.rng.f(-1.0, 1.0), case.rng.f(-1.0, 2.0));
    let (lo, hi) = (a.min(b), a.max(b));
    let t = *case.rng.pick(&[1usize, 2, 3, 10, 100, 1000, 12345, 1_000_000]);
    let w = case.rng.f(-2.0, 2.0);
    case.describe(format!("{} linear inertia {}..{} over {}", F::NAME, lo, hi, t));
    let mut c = ConstInertia::new(F::of(w));
    let mut li = LinearInertia::new(F::of(lo), F::of(hi), t);
    let (lo, hi) = (F::of(lo).f(), F::of(hi).f());
    let mut its: Vec<usize> = (0..200).map(|_| case.rng.below(2 * t + 2)).collect();
    its.extend(&[0, 1, t - 1, t, t + 1, 2 * t, 10 * t, t * 1000, usize::MAX]);
    let tol = 16.0 * F::eps() * (hi.abs() + lo.abs());
    for i in its {
        let g = c.get(i);
        ensure!(g.bits() == F::of(w).bits(), "constant inertia {} returns {:?} at iteration {}", w, g, i);
        let g = li.get(i).f();
        let want = hi - (hi - lo) * (i.min(t) as f64 / t as f64);
        ensure!((g - want).abs() <= tol + (hi - lo) * 4.0 * F::eps(), "linear inertia from {} to {} over {} iterations is {} at iteration {}, expected {}", hi, lo, t, g, i, want);
        case.evals += 1;
    }
    case.count("inertia_values", case.evals);
    case.nontrivial(hash_u64s(&[lo.to_bits(), hi.to_bits(), t as u64]));
    Ok(())
}
pub fn c15_inertia(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c15_inertia_t::<f64>(case)
    } else {
        c15_inertia_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------- C16 (swarm level)

fn c16_swarm_t<F: Fl>(case: &mut Case) -> R {
    let (cfg, ev) = run_cfg::<F>(
        case,
        |c, r| {
            c.pms.push(PmK::Boundary);
            c.pvs.retain(|_| r.chance(0.5));
            if r.chance(0.3) {
                // explosive velocities
                c.vel = VelK::Custom(r.u64(), *r.pick(&[1e3, 1e30, 1e300, f64::INFINITY]));
            } else if r.chance(0.3) {
                c.vel = VelK::Classic(1e30, 1e30);
            }
        },
        20,
    );
    let mut n = 0;
    let mut moved = 0;
    for e in &ev {
        match e {
            PEv::Goal(k, _) => {
                n += 1;
                let x = fl::<F>(k);
                ensure!(inside(&x, &cfg.iv), "goal evaluated at {:?} outside the box {:?}", x, cfg.iv);
            }
            PEv::PostMove(_, a, b) if a != b => moved += 1,
            PEv::Ret(Some((k, _))) => ensure!(inside(&fl::<F>(k), &cfg.iv), "result {:?} outside the box {:?}", fl::<F>(k), cfg.iv),
            _ => {}
        }
    }
    case.count("evaluated", n);
    case.count("positions_corrected", moved);
    if moved > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c16_swarm(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c16_swarm_t::<f64>(case)
    } else {
        c16_swarm_t::<f32>(case)
    }
}

// --------------------------------------------------------------------------------------- C18-C21 for swarms

fn c18_pso_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 25);
    if case.rng.chance(0.5) {
        cfg.goal = case.rng.pick(&[GoalKind::Sphere, GoalKind::Plateau(1.0), GoalKind::FewValues(3, 8), GoalKind::Const(2.0), GoalKind::Improving, GoalKind::Worsening]).clone();
    }
    case.describe(cfg.show());
    case.any_stream();
    let l = cfg.logs();
    let mut o = cfg.build(&l);
    for i in 0..case.rng.range(1, 3) {
        if i == 0 || case.rng.chance(0.6) {
            pfind(&mut o, &l);
        } else {
            pnext(&mut o, &l);
        }
    }
    drop(o);
    let pev = l.take();
    let ev = common(&pev);
    let odd = ev.iter().any(|e| matches!(e, Ev::Stop(_, st, _) if st.best.as_ref().map_or(false, |b| b.1 == f64::MAX)));
    let mut polls = 0;
    stop_exact(&ev, if odd { None } else { Some(&cfg.stop) }, &mut polls)?;
    if let StopK::Iters(n) = cfg.stop {
        for (si, s) in segments(&ev).iter().enumerate() {
            let want = if s.find_min { n } else { 0 };
            ensure!(s.gens.len() == want, "call {}: {} iterations with a limit of {}", si, s.gens.len(), n);
        }
    }
    case.count("stop_checks", polls);
    if polls > 2 {
        case.nontrivial(ev_hash(&pev));
    }
    Ok(())
}
pub fn c18_pso(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c18_pso_t::<f64>(case)
    } else {
        c18_pso_t::<f32>(case)
    }
}
fn unpaused(ev: &[PEv]) -> Vec<String> {
    ev.iter()
        .filter(|e| match e {
            PEv::FindMin | PEv::Next | PEv::Mark(_) | PEv::Stop(..) | PEv::Ret(_) => false,
            PEv::Log(_, k, _) => *k == LogKind::Iter,
            _ => true,
        })
        .map(|e| format!("{:x?}", e))
        .collect()
}
fn c19_pso_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 5);
    cfg.diverge(&mut case.rng, 0.1);
    let mut ls = limits(&mut case.rng, 12);
    if case.rng.chance(0.3) {
        let x = ls[0];
        ls.insert(0, x);
    }
    let total = *ls.last().unwrap();
    let setter = case.rng.chance(0.4);
    case.describe(format!("pauses at {:?} (setter {}) {}", ls, setter, cfg.show()));
    let (mode, seed) = case.any_stream();
    let run = |ls: &[usize]| -> (Vec<PEv>, Vec<Sol>, u64) {
        restart(mode, seed);
        let l = cfg.logs();
        let cell = Rc::new(Cell::new(ls[0]));
        let mut o = cfg.build_with(&l, Box::new(StopAt(cell.clone())));
        let mut rets = vec![pfind(&mut o, &l)];
        for m in &ls[1..] {
            if setter {
                o.set_stop_checker(Box::new(PStop { tag: 0, l: l.clone(), inner: Box::new(MaxIterations::new(*m)) }));
            } else {
                cell.set(*m);
            }
            rets.push(pnext(&mut o, &l));
        }
        (l.take(), rets, ctl::words())
    };
    let (ea, ra, wa) = run(&[total]);
    let (eb, rb, wb) = run(&ls);
    if let Some(d) = first_diff(&unpaused(&ea), &unpaused(&eb)) {
        fail!("run without and with pauses at {:?} of {}: {}", ls, total, d);
    }
    ensure!(same_sol(&ra[0], rb.last().unwrap()), "results differ: {:x?} without, {:x?} with pauses at {:?}", ra[0], rb.last(), ls);
    ensure!(wa == wb, "a run with pauses at {:?} drew {} random words instead of {}", ls, wb, wa);
    let states: Vec<&St> = ea.iter().filter_map(|e| if let PEv::Stop(_, st, _) = e { Some(st) } else { None }).collect();
    for (m, r) in ls.iter().zip(&rb) {
        ensure!(states.len() > *m && same_sol(&states[*m].best, r), "result at the pause after {} iterations is {:x?}, the unpaused run had {:x?}", m, r, states.get(*m).map(|s| &s.best));
    }
    case.count("pauses", ls.len() as u64 - 1);
    case.count("iterations", total as u64);
    if ls.len() > 1 && total > 1 {
        case.nontrivial(ev_hash(&ea) ^ hash_u64s(&ls.iter().map(|l| *l as u64).collect::<Vec<_>>()));
    }
    Ok(())
}
pub fn c19_pso(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c19_pso_t::<f64>(case)
    } else {
        c19_pso_t::<f32>(case)
    }
}
fn c20_pso_t<F: Fl>(case: &mut Case) -> R {
    let mut cfg = PsoCfg::<F>::random(&mut case.rng, 12);
    cfg.goal = GoalKind::any_pure(&mut case.rng);
    while matches!(cfg.vel, VelK::Custom(..)) {
        cfg.vel = VelK::random(&mut case.rng);
    }
    cfg.diverge(&mut case.rng, 0.1);
    let steps: Vec<(bool, usize)> = (0..case.rng.few(1, 4, 15)).map(|i| (i == 0 || case.rng.chance(0.4), case.rng.below(14))).collect();
    case.describe(format!("history {:?} {}", steps, cfg.show()));
    case.any_stream();
    let (mode, seed2) = (any_mode(&mut case.rng), case.rng.u64());
    let l = cfg.logs();
    let cell = Rc::new(Cell::new(usize::MAX));
    let mk = |l: &Logs| cfg.build_with(l, Box::new(Both { cell: cell.clone(), inner: cfg.stop.build() }));
    let mut used = mk(&l);
    let mut aborted = false;
    // The runs may have different numbers of agents, none too.
    let agents = Agents;
    let varied = case.rng.chance(0.25);
    let some = |r: &mut Rng| if varied && r.chance(0.6) { Some(*r.pick(&[0, 0, 1, 2, 5, 12, cfg.n + 1, cfg.n / 2])) } else { None };
    for (fresh, m) in &steps {
        cell.set(*m);
        if *fresh || aborted {
            agents.set(some(&mut case.rng));
        }
        let fuse = if case.rng.chance(0.2) { Some(case.rng.below(crate::ga_props::case_events(cfg.n))) } else { None };
        let mut step = || {
            if *fresh || aborted {
                pfind(&mut used, &l);
            } else {
                pnext(&mut used, &l);
            }
        };
        match fuse {
            None => {
                step();
                aborted = false;
            }
            Some(n) => {
                aborted = crate::ga::with_fault(&l.g, n as u64, step);
                case.count("runs_aborted_before", aborted as u64);
            }
        }
    }
    let before = l.take();
    cell.set(usize::MAX);
    agents.set(some(&mut case.rng));
    case.count("runs_of_varied_size", varied as u64);
    restart(mode, seed2);
    let r1 = pfind(&mut used, &l);
    let w1 = ctl::words();
    let e1 = l.take();
    restart(mode, seed2);
    let mut fresh = mk(&l);
    let r2 = pfind(&mut fresh, &l);
    let w2 = ctl::words();
    let e2 = l.take();
    let txt = |e: &[PEv]| e.iter().map(|e| format!("{:x?}", e)).collect::<Vec<_>>();
    if let Some(d) = first_diff(&txt(&e2), &txt(&e1)) {
        fail!("fresh <> used optimizer (history {:?}): {}", steps, d);
    }
    ensure!(same_sol(&r1, &r2), "results differ: used {:x?}, fresh {:x?}", r1, r2);
    ensure!(w1 == w2, "used optimizer drew {} random words, a fresh one {}", w1, w2);
    case.count("runs_before", steps.len() as u64);
    case.count("events_compared", e1.len() as u64);
    if before.len() > 20 {
        case.nontrivial(ev_hash(&e1) ^ ev_hash(&before));
    }
    Ok(())
}
pub fn c20_pso(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c20_pso_t::<f64>(case)
    } else {
        c20_pso_t::<f32>(case)
    }
}
fn c21_pso_t<F: Fl>(case: &mut Case) -> R {
    let (cfg, ev) = run_cfg::<F>(case, |_, _| {}, 15);
    let mut calls = 0;
    let tags: Vec<u32> = (0..cfg.loggers).collect();
    logger_protocol(&common(&ev), &tags, &mut calls)?;
    case.count("logger_calls", calls);
    if calls > 10 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c21_pso(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c21_pso_t::<f64>(case)
    } else {
        c21_pso_t::<f32>(case)
    }
}

// ------------------------------------------------------------------------------------------------ C28

fn c28_pso_t<F: Fl>(case: &mut Case) -> R {
    let cfg = PsoCfg::<F>::random(&mut case.rng, 5);
    case.describe(cfg.show());
    case.any_stream();
    let l = cfg.logs();
    let cell = Rc::new(Cell::new(case.rng.below(5)));
    let mut o = cfg.build_with(&l, Box::new(StopAt(cell.clone())));
    let mut stop = 0u32;
    let mut pv: Vec<u32> = (0..cfg.pvs.len() as u32).collect();
    let mut pm: Vec<u32> = (0..cfg.pms.len() as u32).collect();
    let mut lg: Vec<u32> = (0..cfg.loggers).collect();
    pfind(&mut o, &l);
    let mut expect = vec![(stop, pv.clone(), pm.clone(), lg.clone())];
    let mut replaced = 0u64;
    for round in 1..=case.rng.few(1, 3, 10) as u32 {
        let tag = round * 1000;
        let mut other = PsoCfg::<F>::random(&mut case.rng, 5);
        other.iv = cfg.iv.clone();
        other.pvs.retain(|p| !matches!(p, PvK::Dims(_)));
        if case.rng.chance(0.5) {
            other.pvs.push(PvK::Dims(vec![1.0; cfg.iv.len()]));
        }
        for what in 0..4 {
            if !case.rng.chance(0.5) {
                continue;
            }
            replaced += 1;
            match what {
                0 => {
                    o.set_stop_checker(Box::new(PStop { tag, l: l.clone(), inner: Box::new(StopAt(cell.clone())) }));
                    stop = tag
                }
                1 => {
                    o.set_post_velocity_calc(other.post_vels(&l, tag));
                    pv = (0..other.pvs.len() as u32).map(|i| tag + i).collect();
                }
                2 => {
                    o.set_post_moves(other.post_moves(&l, tag));
                    pm = (0..other.pms.len() as u32).map(|i| tag + i).collect();
                }
                _ => {
                    let n = case.rng.range(0, 3) as u32;
                    o.set_loggers(other.loggers(&l, tag, n));
                    lg = (0..n).map(|i| tag + i).collect();
                }
            }
        }
        expect.push((stop, pv.clone(), pm.clone(), lg.clone()));
        if case.rng.chance(0.25) {
            cell.set(case.rng.below(5));
            pfind(&mut o, &l);
        } else {
            cell.set(cell.get() + case.rng.range(1, 4));
            pnext(&mut o, &l);
        }
    }
    drop(o);
    let ev = l.take();
    // split into calls
    let mut calls: Vec<(bool, Vec<&PEv>)> = vec![];
    for e in &ev {
        match e {
            PEv::FindMin => calls.push((true, vec![])),
            PEv::Next => calls.push((false, vec![])),
            e => {
                if let Some(c) = calls.last_mut() {
                    c.1.push(e)
                }
            }
        }
    }
    ensure!(calls.len() == expect.len(), "{} calls", calls.len());
    let mut iter = 0;
    let mut later = 0u64;
    let mut last_positions: Option<Vec<(Key, u64)>> = None;
    for (ci, ((find, evs), (stop, pv, pm, lg))) in calls.iter().zip(&expect).enumerate() {
        if *find {
            iter = 0;
            last_positions = None;
        }
        let mut moves = 0u64;
        let mut seen_stop = false;
        let mut positions: Vec<(Key, u64)> = vec![];
        let mut i = 0;
        while i < evs.len() {
            match evs[i] {
                PEv::Stop(t, st, ans) => {
                    ensure!(t == stop, "call {}: stop checker {} asked instead of {}", ci, t, stop);
                    ensure!(st.iter == iter, "call {}: iteration {} instead of {}", ci, st.iter, iter);
                    if !ans {
                        iter += 1;
                        if ci > 0 {
                            later += 1;
                        }
                    }
                    seen_stop = true;
                    if !positions.is_empty() {
                        last_positions = Some(positions.clone());
                        positions.clear();
                    }
                }
                PEv::Log(t, k, _) => {
                    // every group of calls is exactly the configured loggers
                    let mut g = vec![];
                    let k0 = *k;
                    while i < evs.len() {
                        if let PEv::Log(t, k, _) = evs[i] {
                            if *k == k0 {
                                g.push(*t);
                                i += 1;
                                continue;
                            }
                        }
                        break;
                    }
                    ensure!(g == *lg, "call {}: {:?} to loggers {:?} instead of {:?}", ci, k0, g, lg);
                    let _ = t;
                    continue;
                }
                PEv::Goal(k, v) => {
                    ensure!(*find || seen_stop, "call {}: evaluation before the first stop check of a resumption", ci);
                    positions.push((k.clone(), v.to_bits()));
                    moves += 1;
                }
                PEv::Calc(_, v, _) => {
                    if let (Some(lp), true) = (&last_positions, positions.is_empty()) {
                        let mut a: Vec<(Key, u64)> = v.agents.iter().map(|a| (a.0.clone(), a.1.to_bits())).collect();
                        let mut b = lp.clone();
                        a.sort();
                        b.sort();
                        ensure!(a == b, "call {}: the particles are not where they were before", ci);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        if !positions.is_empty() {
            last_positions = Some(positions);
        }
        let nv: Vec<u64> = pv.iter().map(|t| evs.iter().filter(|e| matches!(e, PEv::PostVel(u, ..) if u == t)).count() as u64).collect();
        let nm: Vec<u64> = pm.iter().map(|t| evs.iter().filter(|e| matches!(e, PEv::PostMove(u, ..) if u == t)).count() as u64).collect();
        let all_v = evs.iter().filter(|e| matches!(e, PEv::PostVel(..))).count() as u64;
        let all_m = evs.iter().filter(|e| matches!(e, PEv::PostMove(..))).count() as u64;
        let v_moves = if *find { moves - (cfg.n as u64).min(moves) } else { moves };
        ensure!(nv.iter().all(|x| *x == v_moves) && all_v == v_moves * pv.len() as u64, "call {}: velocity corrections {:?} used {:?} times (all {}) for {} moves", ci, pv, nv, all_v, v_moves);
        ensure!(nm.iter().all(|x| *x == moves) && all_m == moves * pm.len() as u64, "call {}: position corrections {:?} used {:?} times (all {}) for {} positions", ci, pm, nm, all_m, moves);
        if !lg.is_empty() {
            ensure!(evs.iter().any(|e| matches!(e, PEv::Log(_, LogKind::Finish, _))), "call {}: no finish", ci);
        }
    }
    case.count("operators_replaced", replaced);
    case.count("iterations_after_replacement", later);
    if replaced > 0 && later > 0 {
        case.nontrivial(ev_hash(&ev));
    }
    Ok(())
}
pub fn c28_pso(case: &mut Case) -> R {
    if case.index % 2 == 0 {
        c28_pso_t::<f64>(case)
    } else {
        c28_pso_t::<f32>(case)
    }
}
