//! Properties of the tools: stop criteria by themselves (C18), text loggers (C22), statistics (C23-C25), test
//! functions (C29) and goal adapters (C31).
use crate::fl::*;
use crate::fw::*;
use crate::ga::*;
use crate::ga_check::StopModel;
use crate::pso::*;
use crate::{ensure, fail};
use optlib::genetic::*;
use optlib::particleswarm::ParticleSwarmOptimizer;
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::{AlgorithmState, Goal, GoalFromFunction, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::fmt::Display;
use std::rc::Rc;
use std::time::{Duration, Instant};

macro_rules! both {
    ($name:ident, $f:ident) => {
        pub fn $name(case: &mut Case) -> R {
            if case.index % 2 == 0 {
                $f::<f64>(case)
            } else {
                $f::<f32>(case)
            }
        }
    };
}

pub struct Fake<T> {
    pub iter: usize,
    pub best: Option<(T, f64)>,
}
impl<T: Clone> AlgorithmState<T> for Fake<T> {
    fn get_best_solution(&self) -> Option<(T, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.iter
    }
}

// --------------------------------------------------------------------------------------------------- C18

fn any_goal_value(r: &mut Rng, kind: usize, last: f64) -> f64 {
    match kind {
        0 => last - r.f(0.0, 1.0),
        1 => {
            if r.chance(0.7) {
                last
            } else {
                last - r.f(0.0, 3.0)
            }
        }
        2 => r.below(4) as f64,
        3 => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, 1.5]),
        4 => last + r.f(-0.3, 0.3),
        _ => any_float(r),
    }
}
fn stop_leaf(r: &mut Rng, max: usize) -> StopK {
    match r.below(3) {
        0 => StopK::Iters(r.range(0, max)),
        1 => StopK::Thresh(*r.pick(&[0.0, 1.0, -1.0, 2.0, 1e9, f64::NEG_INFINITY, f64::INFINITY])),
        _ => StopK::NoChange(
            {
                let n = r.range(0, 6);
                r.rarely(n, 7, 120)
            },
            *r.pick(&[0.0, 0.1, 0.5, 1.0, 3.0, 1e6]),
        ),
    }
}
fn stop_tree(r: &mut Rng, max: usize, depth: usize) -> StopK {
    if depth == 0 || r.chance(0.3) {
        return stop_leaf(r, max);
    }
    let v = (0..r.range(1, 4)).map(|_| stop_tree(r, max, depth - 1)).collect();
    if r.chance(0.5) {
        StopK::Any(v)
    } else {
        StopK::All(v)
    }
}
/// Shipped criteria, alone and nested, consulted with made-up histories (the checker does not stop the history, so
/// that also later answers are compared).
pub fn c18_ops(case: &mut Case) -> R {
    for _ in 0..20 {
        let r = &mut case.rng;
        let depth = r.range(0, 3);
        let k = stop_tree(r, 30, depth);
        let mut real = k.build::<u32>();
        let mut model = StopModel::new(&k);
        let kind = r.below(6);
        let mut last = *r.pick(&[0.0, 5.0, 100.0, f64::INFINITY]);
        // Sometimes the criterion is installed in an optimizer that already ran for a while.
        let late = if r.chance(0.25) { 1 + r.below(60) } else { 0 };
        let none_until = if late == 0 && r.chance(0.3) { r.below(5) } else { 0 };
        if late > 0 && r.chance(0.6) {
            last = *r.pick(&[0.0, 0.05, -0.05, 0.4, -0.0, 1e-300, 2.0]);
        }
        let mut hist = vec![];
        let mut iter = late;
        let n = r.range(1, 40);
        let n = r.rarely(n, 41, 400);
        let mut fp = 0u64;
        for i in 0..n {
            // Sometimes the same iteration is checked twice (as when a run is resumed at once).
            if i > 0 && !r.chance(0.15) {
                iter += 1;
                last = any_goal_value(r, kind, last);
                if last == f64::MAX {
                    last = 1e300;
                }
            }
            let best = if iter < none_until { None } else { Some(last) };
            hist.push((iter, best));
            let got = real.can_stop(&Fake { iter, best: best.map(|b| (7u32, b)) });
            let want = model.check(iter, best);
            ensure!(got == want, "{:?} said {} instead of {} after the history (iteration, best) {:?}", k, got, want, hist);
            fp = mix(fp ^ got as u64 ^ last.to_bits());
        }
        case.describe(format!("{:?} on {:?}", k, hist));
        case.evals += 1;
        case.count("op_checks", n as u64);
        if n > 3 {
            case.nontrivial(fp);
        }
    }
    Ok(())
}
/// A user's stop checker with a memory of its own: answers by the number of times it was asked.
struct Scripted {
    answers: u64,
    asked: Rc<Cell<u64>>,
}
impl Scripted {
    fn answer(&self, k: u64) -> bool {
        (self.answers >> (k % 64)) & 1 == 1
    }
}
impl<T> StopChecker<T> for Scripted {
    fn can_stop(&mut self, _s: &dyn AlgorithmState<T>) -> bool {
        let k = self.asked.get();
        self.asked.set(k + 1);
        self.answer(k)
    }
}
enum Tree {
    Leaf(u64),
    Any(Vec<Tree>),
    All(Vec<Tree>),
}
impl Tree {
    fn random(r: &mut Rng, depth: usize) -> Tree {
        if depth == 0 || r.chance(0.25) {
            return Tree::Leaf(match r.below(3) {
                0 => r.u64() & r.u64(),
                1 => r.u64() | r.u64(),
                _ => r.u64(),
            });
        }
        let v = (0..r.range(1, 4)).map(|_| Tree::random(r, depth - 1)).collect();
        if r.chance(0.5) {
            Tree::Any(v)
        } else {
            Tree::All(v)
        }
    }
    fn build(&self) -> Box<dyn StopChecker<u32>> {
        match self {
            Tree::Leaf(a) => Box::new(Scripted { answers: *a, asked: Rc::new(Cell::new(0)) }),
            Tree::Any(v) => Box::new(CompositeAny::new(v.iter().map(|t| t.build()).collect())),
            Tree::All(v) => Box::new(CompositeAll::new(v.iter().map(|t| t.build()).collect())),
        }
    }
    fn want(&self, k: u64) -> bool {
        match self {
            Tree::Leaf(a) => (a >> (k % 64)) & 1 == 1,
            Tree::Any(v) => v.iter().any(|t| t.want(k)),
            Tree::All(v) => v.iter().all(|t| t.want(k)),
        }
    }
    fn show(&self) -> String {
        let l = |v: &Vec<Tree>| v.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ");
        match self {
            Tree::Leaf(a) => format!("{:x}", a),
            Tree::Any(v) => format!("any({})", l(v)),
            Tree::All(v) => format!("all({})", l(v)),
        }
    }
}
pub fn c18_members(case: &mut Case) -> R {
    for _ in 0..20 {
        let depth = case.rng.range(1, 3);
        let t = Tree::random(&mut case.rng, depth);
        case.describe(t.show());
        let mut c = t.build();
        for k in 0..40u64 {
            let got = c.can_stop(&Fake { iter: k as usize, best: Some((1u32, 1.0)) });
            ensure!(got == t.want(k), "check number {} of {} said {} although its members, each consulted at every check, make it {}", k, t.show(), got, t.want(k));
        }
        case.evals += 1;
        case.count("op_checks", 40);
        case.nontrivial(hash_bytes(t.show().as_bytes()));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C22

/// Token equality: the rendered number with the configured precision.
fn tok<X: Display>(p: usize, x: X) -> String {
    format!("{:.*}", p, x)
}
fn same_tok(got: &str, want: &str) -> bool {
    // "-0.00" and "0.00" may both stand for a negative number that rounds to zero.
    got == want || (got.trim_start_matches('-') == want.trim_start_matches('-') && want.trim_start_matches('-').chars().all(|c| c == '0' || c == '.'))
}
fn is_number(s: &str) -> bool {
    s.parse::<f64>().is_ok()
}
fn check_verbose<X: Display + Clone>(out: &str, states: &[(usize, Option<(Vec<X>, f64)>)], p: usize) -> R<u64> {
    let lines: Vec<&str> = out.lines().collect();
    let want: Vec<_> = states.iter().filter_map(|(i, b)| b.as_ref().map(|b| (i, b))).collect();
    ensure!(lines.len() == want.len(), "{} lines for {} iterations with a solution:\n{}", lines.len(), want.len(), out);
    ensure!(out.is_empty() || out.ends_with('\n'), "the last line is not finished: {:?}", out);
    for (l, (i, (x, g))) in lines.iter().zip(&want) {
        let toks: Vec<&str> = l.split_whitespace().collect();
        let mut w = vec![i.to_string()];
        w.extend(x.iter().map(|x| tok(p, x)));
        w.push(tok(p, g));
        ensure!(toks.len() == w.len() && toks.iter().zip(&w).all(|(a, b)| same_tok(a, b)), "the line {:?} instead of the values {:?} (precision {})", l, w, p);
    }
    Ok(want.len() as u64)
}
fn check_result<X: Display>(out: &str, iter: usize, best: &Option<(Vec<X>, f64)>, p: usize) -> R {
    let nums: Vec<&str> = out.split(|c: char| c.is_whitespace() || c == ':').filter(|t| is_number(t)).collect();
    let mut w = vec![];
    if let Some((x, g)) = best {
        w.extend(x.iter().map(|x| tok(p, x)));
        w.push(tok(p, g));
    }
    w.push(iter.to_string());
    ensure!(nums.len() == w.len() && nums.iter().zip(&w).all(|(a, b)| same_tok(a, b)), "the result logger wrote {:?} for the values {:?} (precision {})", out, w, p);
    if best.is_none() {
        let low = out.to_lowercase();
        ensure!(low.contains("not found") || low.contains("no solution"), "the result logger wrote {:?} although there is no solution", out);
    } else {
        ensure!(!out.to_lowercase().contains("not found"), "the result logger wrote {:?} although there is a solution", out);
    }
    Ok(())
}
/// A sink that takes a few bytes at a time and is interrupted now and then, as pipes and sockets do.
struct Drip<'a> {
    out: &'a mut Vec<u8>,
    rng: Rng,
    slow: bool,
    parts: u64,
}
impl std::io::Write for Drip<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.slow {
            self.out.extend_from_slice(b);
            return Ok(b.len());
        }
        if self.rng.chance(0.1) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.rng.range(1, 4));
        self.parts += (n < b.len()) as u64;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn c22_fake_t<F: Fl>(case: &mut Case) -> R {
    for _ in 0..20 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let dim = *r.pick(&[0usize, 1, 1, 2, 5, 20]);
        let n = r.range(0, 12);
        let n = r.rarely(n, 13, 120);
        let p = *r.pick(&[0usize, 1, 2, 3, 6, 10, 15, 17, 20]);
        let start = *r.pick(&[0usize, 1, 99_999_990, 12_345_678_901]);
        let states: Vec<(usize, Option<(Vec<F>, f64)>)> = (0..n)
            .map(|i| {
                let b = if r.chance(0.2) { None } else { Some(((0..dim).map(|_| any_float::<F>(r)).collect(), any_float::<f64>(r))) };
                (start + i, b)
            })
            .collect();
        case.describe(format!("{} precision {} states {:?}", F::NAME, p, states));
        let mut out: Vec<u8> = vec![];
        let mut res: Vec<u8> = vec![];
        let slow = r.chance(0.3);
        let (mut o1, mut o2) = (Drip { out: &mut out, rng: r.fork(), slow, parts: 0 }, Drip { out: &mut res, rng: r.fork(), slow, parts: 0 });
        {
            let mut v = VerboseLogger::new(&mut o1, p);
            let mut w = ResultOnlyLogger::new(&mut o2, p);
            let mk = |s: &(usize, Option<(Vec<F>, f64)>)| Fake { iter: s.0, best: s.1.clone() };
            let first = Fake::<Vec<F>> { iter: 0, best: None };
            for l in [&mut v as &mut dyn Logger<Vec<F>>, &mut w] {
                l.start(&first);
                l.resume(&first);
                for s in &states {
                    l.next_iteration(&mk(s));
                }
                l.finish(&states.last().map_or(Fake { iter: 0, best: None }, mk));
            }
        }
        case.count("partial_writes", o1.parts + o2.parts);
        let lines = check_verbose(&String::from_utf8(out).unwrap(), &states, p)?;
        let (i, b) = states.last().cloned().unwrap_or((0, None));
        check_result(&String::from_utf8(res).unwrap(), i, &b, p)?;
        case.count("lines", lines);
        case.count(if b.is_none() { "results_without_solution" } else { "results" }, 1);
        case.evals += 1;
        if n > 0 {
            case.nontrivial(hash_bytes(format!("{:?}", states).as_bytes()));
        }
    }
    Ok(())
}
both!(c22_fake, c22_fake_t);
/// The same over integers (any Display type is allowed).
pub fn c22_ints(case: &mut Case) -> R {
    let n = case.rng.range(1, 6);
    let states: Vec<(usize, Option<(Vec<i64>, f64)>)> = (0..n).map(|i| (i + 1, Some((vec![case.rng.u64() as i64, case.rng.below(100) as i64 - 50], case.rng.f(-5.0, 5.0))))).collect();
    let p = case.rng.below(5);
    let mut out: Vec<u8> = vec![];
    {
        let mut v = VerboseLogger::new(&mut out, p);
        for s in &states {
            v.next_iteration(&Fake { iter: s.0, best: s.1.clone() });
        }
    }
    let lines = check_verbose(&String::from_utf8(out).unwrap(), &states, p)?;
    case.count("lines", lines);
    case.nontrivial(hash_bytes(format!("{:?}", states).as_bytes()));
    Ok(())
}
/// Records the states the loggers are shown.
struct Spy<F> {
    log: Rc<RefCell<Vec<(LogKind, usize, Option<(Vec<F>, f64)>)>>>,
}
impl<F: Fl> Logger<Vec<F>> for Spy<F> {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.log.borrow_mut().push((LogKind::Start, s.get_iteration(), s.get_best_solution()));
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.log.borrow_mut().push((LogKind::Resume, s.get_iteration(), s.get_best_solution()));
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.log.borrow_mut().push((LogKind::Iter, s.get_iteration(), s.get_best_solution()));
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.log.borrow_mut().push((LogKind::Finish, s.get_iteration(), s.get_best_solution()));
    }
}
/// Real runs (possibly paused) of both optimizers with the text loggers.
fn c22_real_t<F: Fl>(case: &mut Case) -> R {
    let p = *case.rng.pick(&[0usize, 2, 8, 17]);
    let spy = Rc::new(RefCell::new(vec![]));
    let mut out: Vec<u8> = vec![];
    let mut res: Vec<u8> = vec![];
    let mut time: Vec<u8> = vec![];
    let ga = case.index % 4 < 2;
    let cell = Rc::new(Cell::new(0));
    let limits: Vec<usize> = (0..case.rng.range(1, 3)).map(|i| i * 3 + case.rng.below(4)).collect();
    let mut ends = vec![];
    case.any_stream();
    {
        let loggers: Vec<Box<dyn Logger<Vec<F>>>> = vec![
            Box::new(VerboseLogger::new(&mut out, p)),
            Box::new(ResultOnlyLogger::new(&mut res, p)),
            Box::new(TimeLogger::new(&mut time)),
            Box::new(Spy { log: spy.clone() }),
        ];
        if ga {
            let cfg = VecCfg::<F>::random(&mut case.rng, 8);
            case.describe(cfg.show());
            let mut o: GeneticOptimizer<'_, Vec<F>> = cfg.build_with(&cfg.log(), Box::new(StopAt(cell.clone())));
            o.set_loggers(loggers);
            for (i, l) in limits.iter().enumerate() {
                cell.set(*l);
                ends.push(if i == 0 { o.find_min() } else { o.next_iterations() });
            }
        } else {
            let cfg = PsoCfg::<F>::random(&mut case.rng, 8);
            case.describe(cfg.show());
            let mut o: ParticleSwarmOptimizer<'_, F> = cfg.build_with(&cfg.logs(), Box::new(StopAt(cell.clone())));
            o.set_loggers(loggers);
            for (i, l) in limits.iter().enumerate() {
                cell.set(*l);
                ends.push(if i == 0 { o.find_min() } else { o.next_iterations() });
            }
        }
    }
    let spy = spy.borrow();
    let states: Vec<_> = spy.iter().filter(|s| s.0 == LogKind::Iter).map(|s| (s.1, s.2.clone())).collect();
    let lines = check_verbose(&String::from_utf8(out).unwrap(), &states, p)?;
    // one result block per call; the values of the last one are the returned result
    let text = String::from_utf8(res).unwrap();
    let fin: Vec<_> = spy.iter().filter(|s| s.0 == LogKind::Finish).collect();
    let mut want: Vec<String> = vec![];
    for f in &fin {
        if let Some((x, g)) = &f.2 {
            want.extend(x.iter().map(|x| tok(p, x)));
            want.push(tok(p, g));
        }
        want.push(f.1.to_string());
    }
    let nums: Vec<&str> = text.split(|c: char| c.is_whitespace() || c == ':').filter(|t| is_number(t)).collect();
    ensure!(nums.len() == want.len() && nums.iter().zip(&want).all(|(a, b)| same_tok(a, b)), "the result logger wrote {:?} for the values {:?}", text, want);
    let times = String::from_utf8(time).unwrap();
    let t: Vec<&str> = times.split_whitespace().filter(|t| t.parse::<u64>().is_ok()).collect();
    ensure!(t.len() == ends.len(), "the time logger wrote {:?} for {} run segments", times, ends.len());
    case.count("lines", lines);
    case.count("results", fin.len() as u64);
    case.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}
both!(c22_real, c22_real_t);
pub fn c22_time(case: &mut Case) -> R {
    let segments = case.rng.range(1, 3);
    let mut out: Vec<u8> = vec![];
    let mut bounds = vec![];
    let mut fork = case.rng.fork();
    let r = &mut fork;
    {
        let mut t = TimeLogger::new(&mut out);
        let s = Fake::<Vec<f64>> { iter: 0, best: None };
        for i in 0..segments {
            let l: &mut dyn Logger<Vec<f64>> = &mut t;
            let t0 = Instant::now();
            if i == 0 {
                l.start(&s);
            }
            l.resume(&s);
            let t1 = Instant::now();
            for _ in 0..r.below(4) {
                l.next_iteration(&s);
                std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
            }
            // some segments take more than one second, in the thorough tier one takes more than a minute
            let (from, to) = match case.index % 12 {
                0 if i == 0 => (1001, 1400),
                1 if i == 0 => (2001, 2400),
                2 if i == 0 && case.thorough() && case.index == 2 => (60_100, 61_900),
                _ => (0, 40),
            };
            if from > 0 {
                case.count("segments_over_a_second", 1);
            }
            std::thread::sleep(Duration::from_millis((from + r.below(to - from)) as u64));
            let t2 = Instant::now();
            l.finish(&s);
            let t3 = Instant::now();
            bounds.push((t2 - t1, t3 - t0));
            // time between segments must not be counted
            std::thread::sleep(Duration::from_millis(r.below(30) as u64));
        }
    }
    let text = String::from_utf8(out).unwrap();
    case.describe(format!("{:?} within {:?}", text, bounds));
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == segments, "the time logger wrote {:?} for {} run segments", text, segments);
    for (l, (lo, hi)) in lines.iter().zip(&bounds) {
        let n: Vec<u64> = l.split_whitespace().filter_map(|t| t.parse().ok()).collect();
        ensure!(n.len() == 1, "the time logger wrote {:?}", l);
        let ms = n[0] as f64;
        ensure!(ms <= hi.as_secs_f64() * 1000.0 + 0.001 && ms + 1.0 >= lo.as_secs_f64() * 1000.0 - 0.001, "the time logger wrote {:?} for a segment that took between {:?} and {:?}", l, lo, hi);
        case.count("timed_segments", 1);
    }
    case.nontrivial(hash_bytes(text.as_bytes()));
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C23

/// Real runs of one optimizer with a statistics logger; the statistics must match what a recording logger saw.
fn c23_real_t<F: Fl>(case: &mut Case) -> R {
    let ga = case.index % 4 < 2;
    let spy = Rc::new(RefCell::new(vec![]));
    let mut stat: Statistics<Vec<F>> = Statistics::new();
    let cell = Rc::new(Cell::new(0));
    // (find_min?, iteration limit); with a late logger, it is attached before the second call, a resumption
    let late = case.rng.chance(0.25);
    let runs = case.rng.range(1, 3);
    let runs = case.rng.rarely(runs, 4, 90);
    let mut plan: Vec<(bool, usize)> = vec![];
    for run in 0..runs {
        let mut l = 0;
        for i in 0..case.rng.range(1, 4) {
            l += case.rng.below(5);
            plan.push((i == 0, l));
        }
        if run == 0 && late && plan.len() == 1 {
            plan.push((false, l + case.rng.below(4)));
        }
    }
    let mut rets: Vec<(bool, Option<(Vec<F>, f64)>)> = vec![];
    let what = format!("calls (find_min?, limit) {:?}, logger attached late: {}", plan, late);
    case.any_stream();
    {
        let mut pending: Option<Vec<Box<dyn Logger<Vec<F>> + '_>>> = Some(vec![Box::new(StatisticsLogger::new(&mut stat)), Box::new(Spy { log: spy.clone() })]);
        if ga {
            let cfg = VecCfg::<F>::random(&mut case.rng, 8);
            case.describe(format!("{} {}", what, cfg.show()));
            let log = cfg.log();
            let mut o: GeneticOptimizer<'_, Vec<F>> = cfg.build_with(&log, Box::new(StopAt(cell.clone())));
            for (i, (fresh, l)) in plan.iter().enumerate() {
                if i == late as usize {
                    o.set_loggers(pending.take().unwrap());
                }
                cell.set(*l);
                new_call(&log);
                let r = if *fresh { o.find_min() } else { o.next_iterations() };
                rets.push((*fresh, r));
            }
        } else {
            let cfg = PsoCfg::<F>::random(&mut case.rng, 8);
            case.describe(format!("{} {}", what, cfg.show()));
            let logs = cfg.logs();
            let mut o: ParticleSwarmOptimizer<'_, F> = cfg.build_with(&logs, Box::new(StopAt(cell.clone())));
            for (i, (fresh, l)) in plan.iter().enumerate() {
                if i == late as usize {
                    o.set_loggers(pending.take().unwrap());
                }
                cell.set(*l);
                new_call(&logs.g);
                let r = if *fresh { o.find_min() } else { o.next_iterations() };
                rets.push((*fresh, r));
            }
        }
    }
    // what should have been recorded
    let mut want_res: Vec<Option<(Vec<F>, f64)>> = vec![];
    for (i, (fresh, r)) in rets.iter().enumerate() {
        if *fresh || want_res.is_empty() {
            if i >= late as usize {
                want_res.push(r.clone())
            }
        } else {
            *want_res.last_mut().unwrap() = r.clone();
        }
    }
    let mut want_conv: Vec<Vec<Option<(Vec<F>, f64)>>> = vec![];
    if late {
        want_conv.push(vec![]);
    }
    for (k, _, b) in spy.borrow().iter() {
        match k {
            LogKind::Start => want_conv.push(vec![]),
            LogKind::Iter => want_conv.last_mut().unwrap().push(b.clone()),
            _ => {}
        }
    }
    let ks = |v: &[Option<(Vec<F>, f64)>]| v.iter().map(|b| b.as_ref().map(|(x, g)| (key(x), g.to_bits()))).collect::<Vec<_>>();
    let res = stat.get_results();
    let conv = stat.get_convergence();
    ensure!(stat.get_run_count() == want_res.len() && res.len() == want_res.len(), "{} results recorded ({} runs counted) for {} runs; {}", res.len(), stat.get_run_count(), want_res.len(), what);
    ensure!(conv.len() == want_conv.len(), "{} convergence rows recorded for {} runs; {}", conv.len(), want_conv.len(), what);
    ensure!(ks(res) == ks(&want_res), "recorded results {:?} instead of {:?}; {}", res, want_res, what);
    for (r, (c, w)) in conv.iter().zip(&want_conv).enumerate() {
        ensure!(ks(c) == ks(w), "run {}: {} convergence entries recorded instead of {}, or other ones; {}", r, c.len(), w.len(), what);
        case.count("iterations_recorded", c.len() as u64);
    }
    case.count("runs_recorded", res.len() as u64);
    if plan.iter().any(|p| !p.0) {
        case.count("histories_with_resumption", 1);
    }
    if late {
        case.count("late_attachments", 1);
    }
    case.nontrivial(hash_bytes(format!("{:?} {:?}", plan, ks(res)).as_bytes()));
    Ok(())
}
both!(c23_real, c23_real_t);

struct ListGoal {
    log: Rc<RefCell<Vec<u64>>>,
    vals: Vec<f64>,
}
impl Goal<u64> for ListGoal {
    fn get(&mut self, x: &u64) -> f64 {
        self.log.borrow_mut().push(*x);
        self.vals[*x as usize % self.vals.len()]
    }
}
/// Goal-call statistics as used in the examples: one counter per run, or one counter over several runs.
pub fn c23_calls(case: &mut Case) -> R {
    for _ in 0..30 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let log = Rc::new(RefCell::new(vec![]));
        let len = r.range(1, 20);
        let vals: Vec<f64> = (0..r.rarely(len, 21, 400)).map(|_| any_float(r)).collect();
        let mut goal = ListGoal { log: log.clone(), vals: vals.clone() };
        let mut data = CallCountData::new();
        let mut model: Vec<usize> = vec![];
        let mut ops = vec![];
        let mut want_log = vec![];
        let len = r.range(1, 12);
        for _ in 0..r.rarely(len, 13, 60) {
            match r.below(5) {
                0 | 1 => {
                    data.next_run();
                    model.push(0);
                    ops.push("next_run".to_string());
                }
                2 => {
                    let n = r.below(7);
                    data.add(n);
                    if model.is_empty() {
                        model.push(0)
                    }
                    *model.last_mut().unwrap() += n;
                    ops.push(format!("add {}", n));
                }
                3 => {
                    data.increment();
                    if model.is_empty() {
                        model.push(0)
                    }
                    *model.last_mut().unwrap() += 1;
                    ops.push("increment".to_string());
                }
                _ => {
                    let n = r.below(9);
                    let mut g = GoalCalcStatistics::new(&mut goal, &mut data);
                    for _ in 0..n {
                        let x = r.u64() % 1000;
                        let v = g.get(&x);
                        want_log.push(x);
                        ensure!(same(v, vals[x as usize % vals.len()]), "the counted goal returned {} instead of {}", v, vals[x as usize % vals.len()]);
                        if model.is_empty() {
                            model.push(0)
                        }
                        *model.last_mut().unwrap() += 1;
                    }
                    case.count("goal_calls", n as u64);
                    ops.push(format!("{} goal calls", n));
                }
            }
            ensure!(data.get_call_count() == model, "after {:?} the counts are {:?} instead of {:?}", ops, data.get_call_count(), model);
        }
        ensure!(*log.borrow() == want_log, "the wrapped goal was called with {:?} instead of {:?}", log.borrow(), want_log);
        case.describe(ops.join(", "));
        case.evals += 1;
        case.nontrivial(hash_bytes(ops.join(",").as_bytes()));
    }
    Ok(())
}
/// Call counting around a real run.
fn c23_calls_real_t<F: Fl>(case: &mut Case) -> R {
    let cfg = VecCfg::<F>::random(&mut case.rng, 10);
    case.describe(cfg.show());
    case.any_stream();
    let mut data = CallCountData::new();
    let mut want = vec![];
    for _ in 0..case.rng.range(1, 3) {
        data.next_run();
        let log = cfg.log();
        {
            let mut inner = float_goal::<F>(&log, cfg.goal.clone());
            let goal = GoalCalcStatistics::new(&mut *inner, &mut data);
            let mut o = GeneticOptimizer::new(
                Box::new(goal),
                cfg.stop.build(),
                Box::new(creation::vec_float::RandomCreator::new(cfg.pop, cfg.iv.clone())),
                cfg.pairing(),
                cfg.crossing(),
                cfg.mutation(),
                cfg.selections(),
                cfg.pre_births(),
            );
            o.find_min();
        }
        want.push(take(&log).len());
    }
    ensure!(data.get_call_count() == want, "the counts are {:?} but the goal was called {:?} times", data.get_call_count(), want);
    case.count("goal_calls", want.iter().sum::<usize>() as u64);
    case.nontrivial(hash_u64s(&want.iter().map(|w| *w as u64).collect::<Vec<_>>()));
    Ok(())
}
both!(c23_calls_real, c23_calls_real_t);

// --------------------------------------------------------------------------------------------------- C24

type Sols<F> = Vec<Option<(Vec<F>, f64)>>;
fn any_results<F: Fl>(r: &mut Rng) -> Sols<F> {
    let n = *r.pick(&[0usize, 1, 2, 2, 3, 5, 20]);
    let n = r.rarely(n, 21, 300);
    let dim = *r.pick(&[0usize, 1, 2, 4]);
    let dim = r.rarely(dim, 5, 20);
    let dim = if r.chance(0.004) { r.range(60, 200) } else { dim };
    let fail = *r.pick(&[0.0, 0.0, 0.3, 0.8, 1.0]);
    let kind = r.below(4);
    let base = r.f(-100.0, 100.0);
    let v = |r: &mut Rng| match kind {
        0 => base,
        1 => base + r.f(-1.0, 1.0),
        2 => r.below(5) as f64 - 2.0,
        _ => r.f(-1000.0, 1000.0),
    };
    (0..n).map(|_| if r.chance(fail) { None } else { Some(((0..dim).map(|_| F::of(v(r))).collect(), v(r))) }).collect()
}
/// Fill statistics by running the logger over fake runs.
fn fill<F: Fl>(stat: &mut Statistics<Vec<F>>, runs: &[(Vec<Option<(Vec<F>, f64)>>, Option<(Vec<F>, f64)>)]) {
    let mut l = StatisticsLogger::new(stat);
    for (conv, res) in runs {
        let first = Fake { iter: 0, best: None };
        l.start(&first);
        l.resume(&first);
        for (i, c) in conv.iter().enumerate() {
            l.next_iteration(&Fake { iter: i + 1, best: c.clone() });
        }
        l.finish(&Fake { iter: conv.len(), best: res.clone() });
    }
}
fn mean(v: &[f64]) -> f64 {
    let m0 = v.iter().sum::<f64>() / v.len() as f64;
    m0 + v.iter().map(|x| x - m0).sum::<f64>() / v.len() as f64
}
fn std_dev(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() - 1) as f64).sqrt()
}
fn near(what: &str, got: f64, want: f64, size: f64, eps: f64, all: &dyn std::fmt::Debug) -> R {
    let tol = 200.0 * eps * (size + want.abs());
    ensure!((got - want).abs() <= tol, "{} is {} instead of {} for {:?}", what, got, want, all);
    Ok(())
}
fn c24_t<F: Fl>(case: &mut Case) -> R {
    for _ in 0..40 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let res = any_results::<F>(r);
        case.describe(format!("{} {:?}", F::NAME, res));
        let mut stat = Statistics::new();
        fill(&mut stat, &res.iter().map(|x| (vec![], x.clone())).collect::<Vec<_>>());
        let res2 = stat.get_results();
        let ok: Vec<&(Vec<F>, f64)> = res.iter().flatten().collect();
        let goals: Vec<f64> = ok.iter().map(|s| s.1).collect();
        let size = goals.iter().fold(0.0f64, |a, g| a.max(g.abs()));
        for (src, v) in [("the recorded results", res2), ("a plain vector", &res)] {
            match (v.get_average_goal(), goals.is_empty()) {
                (None, true) => {}
                (Some(x), false) => near(&format!("the average goal of {}", src), x, mean(&goals), size, f64::EPSILON, &res)?,
                (x, _) => fail!("the average goal of {:?} is {:?}", res, x),
            }
            match (v.get_standard_deviation_goal(), goals.len() < 2) {
                (None, true) => {}
                (Some(x), false) => near(&format!("the goal deviation of {}", src), x, std_dev(&goals), size, f64::EPSILON, &res)?,
                (x, _) => fail!("the goal deviation of {:?} is {:?}", res, x),
            }
            let (a, d) = (v.get_average(), v.get_standard_deviation());
            ensure!(a.is_some() == !ok.is_empty(), "the average of {:?} is {:?}", res, a);
            ensure!(d.is_some() == (ok.len() >= 2), "the deviation of {:?} is {:?}", res, d);
            if let Some((x, g)) = a {
                near("the average goal", g, mean(&goals), size, f64::EPSILON, &res)?;
                ensure!(x.len() == ok[0].0.len(), "the average of {:?} has {} components", res, x.len());
                for i in 0..x.len() {
                    let c: Vec<f64> = ok.iter().map(|s| s.0[i].f()).collect();
                    let s = c.iter().fold(0.0f64, |a, g| a.max(g.abs()));
                    near(&format!("average component {}", i), x[i].f(), mean(&c), s, F::eps(), &res)?;
                    case.count("components", 1);
                }
            }
            if let Some((x, g)) = d {
                near("the goal deviation", g, std_dev(&goals), size, f64::EPSILON, &res)?;
                ensure!(x.len() == ok[0].0.len(), "the deviation of {:?} has {} components", res, x.len());
                for i in 0..x.len() {
                    let c: Vec<f64> = ok.iter().map(|s| s.0[i].f()).collect();
                    let s = c.iter().fold(0.0f64, |a, g| a.max(g.abs()));
                    near(&format!("deviation component {}", i), x[i].f(), std_dev(&c), s, F::eps(), &res)?;
                }
            }
            // success rate with an arbitrary predicate and with the shipped ones
            let lim = r.f(-100.0, 100.0);
            let hits = |p: &dyn Fn(&(Vec<F>, f64)) -> bool| ok.iter().filter(|s| p(s)).count();
            let rate = v.get_success_rate(|s: &(Vec<F>, f64)| s.1 < lim);
            let want = |h: usize| if res.is_empty() { None } else { Some(h as f64 / res.len() as f64) };
            let close = |a: Option<f64>, b: Option<f64>| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => (a - b).abs() < 1e-12,
                _ => false,
            };
            ensure!(close(rate, want(hits(&|s| s.1 < lim))), "the success rate of {:?} for goals below {} is {:?} instead of {:?}", res, lim, rate, want(hits(&|s| s.1 < lim)));
            let (e, d) = (goals.first().copied().unwrap_or(0.0) + r.f(-1.0, 1.0), *r.pick(&[0.5, 1.0, 50.0]));
            let rate = v.get_success_rate(get_predicate_success_goal(e, d));
            ensure!(close(rate, want(hits(&|s| (s.1 - e).abs() < d))), "the success rate of {:?} for goals within {} of {} is {:?}", res, d, e, rate);
            if let Some(s0) = ok.first() {
                let e: Vec<F> = s0.0.iter().map(|x| *x + F::of(r.f(-1.0, 1.0))).collect();
                let d: Vec<F> = s0.0.iter().map(|_| F::of(*r.pick(&[0.5, 1.0, 2.0, 500.0]))).collect();
                let rate = v.get_success_rate(get_predicate_success_vec_solution(e.clone(), d.clone()));
                let h = hits(&|s| s.0.iter().zip(&e).zip(&d).all(|((x, e), d)| (*x - *e).abs() <= *d));
                ensure!(close(rate, want(h)), "the success rate of {:?} for solutions within {:?} of {:?} is {:?} instead of {:?}", res, d, e, rate, want(h));
            }
        }
        case.count("aggregates", 6);
        case.evals += 1;
        if ok.len() > 1 {
            case.nontrivial(hash_u64s(&goals.iter().map(|g| g.to_bits()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
both!(c24, c24_t);
fn c24_convergence_t<F: Fl>(case: &mut Case) -> R {
    for _ in 0..30 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let runs = *r.pick(&[0usize, 1, 2, 3, 8]);
        let runs = r.rarely(runs, 9, 60);
        let longest = if r.chance(0.02) { 200 } else { 9 };
        let none = *r.pick(&[0.0, 0.2, 0.9]);
        // Usually the shortest run is very short, sometimes none is.
        let least = match r.below(300) {
            0 => r.range(150, 900),
            1..=15 => r.range(1, 100),
            _ => 0,
        };
        let lengths: Vec<usize> = (0..runs).map(|_| least + *r.pick(&[0usize, 1, 3, 5, longest])).collect();
        let conv: Vec<Sols<F>> = lengths
            .iter()
            .map(|n| {
                (0..*n)
                    .map(|_| {
                        let goal = if r.chance(0.1) { r.below(3) as f64 - 1.0 } else { r.f(-50.0, 50.0) };
                        if r.chance(none) { None } else { Some((vec![F::of(r.f(0.0, 1.0))], goal)) }
                    })
                    .collect()
            })
            .collect();
        case.describe(format!("{} {:?}", F::NAME, conv));
        let mut stat = Statistics::new();
        fill(&mut stat, &conv.iter().map(|c| (c.clone(), None)).collect::<Vec<_>>());
        let short = conv.iter().map(|c| c.len()).min().unwrap_or(0);
        for (src, c) in [("recorded", stat.get_convergence()), ("plain", &conv)] {
            ensure!(c.get_min_iterations() == short, "{} convergence: the shortest run has {} iterations, reported {}", src, short, c.get_min_iterations());
            let a = c.get_average_convergence();
            ensure!(a.len() == short, "{} convergence: {} averages for {} common iterations", src, a.len(), short);
            for i in 0..short {
                let g: Vec<f64> = conv.iter().filter_map(|c| c[i].as_ref().map(|s| s.1)).collect();
                match a[i] {
                    None => ensure!(g.is_empty(), "{} convergence: no average at iteration {} of {:?}", src, i, conv),
                    Some(x) => {
                        ensure!(!g.is_empty(), "{} convergence: average {} at iteration {} without solutions", src, x, i);
                        near(&format!("average convergence at iteration {}", i), x, mean(&g), 50.0, f64::EPSILON, &conv)?
                    }
                }
                case.count("iterations_averaged", 1);
            }
        }
        case.evals += 1;
        if short > 1 && runs > 1 {
            case.nontrivial(hash_bytes(format!("{:?}", conv).as_bytes()));
        }
    }
    Ok(())
}
both!(c24_convergence, c24_convergence_t);
fn c24_predicates_t<F: Fl>(case: &mut Case) -> R {
    for _ in 0..200 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let dim = *r.pick(&[1usize, 1, 2, 4]);
        let dim = r.rarely(dim, 5, 30);
        let dim = if r.chance(0.004) { r.range(60, 200) } else { dim };
        let e: Vec<F> = (0..dim).map(|_| finite_float::<F>(r)).map(|x| if x.abs() > F::of(1e30) { F::one() } else { x }).collect();
        let d: Vec<F> = (0..dim).map(|_| F::of(*r.pick(&[0.0, 0.5, 1.0, 2.0, 100.0]))).collect();
        let x: Vec<F> = (0..dim)
            .map(|i| match r.below(10) {
                0 => F::nan(),
                1 => any_float(r),
                2 => e[i] + d[i],
                3 => e[i] - d[i],
                4 => (e[i] + d[i]).ulp_up(),
                5 => (e[i] - d[i]).ulp_down(),
                _ => e[i] + d[i] * F::of(r.f(-1.0, 1.0)),
            })
            .collect();
        let want = x.iter().zip(&e).zip(&d).all(|((x, e), d)| (*x - *e).abs() <= *d);
        let got = get_predicate_success_vec_solution(e.clone(), d.clone())(&(x.clone(), r.f(-1.0, 1.0)));
        case.describe(format!("{:?} within {:?} of {:?}", x, d, e));
        ensure!(got == want, "the solution {:?} within {:?} of {:?}: {} instead of {}", x, d, e, got, want);
        let (e, d) = (any_goal_value(r, 3, 0.0), *r.pick(&[0.0, 0.5, 1.0, 1e-9]));
        let g = match r.below(5) {
            0 => e + d,
            1 => e - d,
            2 => (e + d).ulp_down(),
            3 => any_float(r),
            _ => e + r.f(-1.5, 1.5),
        };
        let got = get_predicate_success_goal::<Vec<F>>(e, d)(&(vec![], g));
        ensure!(got == ((g - e).abs() < d), "the goal {} closer than {} to {}: {}", g, d, e, got);
        case.count(if want { "accepted" } else { "rejected" }, 1);
        if x.iter().any(|x| x.is_nan()) {
            case.count("nan_solutions", 1);
        }
        case.evals += 1;
        case.nontrivial(hash_u64s(&key(&x)));
    }
    Ok(())
}
both!(c24_predicates, c24_predicates_t);
pub fn c24_calls(case: &mut Case) -> R {
    for _ in 0..50 {
        let r = &mut case.rng;
        let runs: Vec<usize> = (0..r.few(0, 7, 300)).map(|_| r.below(1000)).collect();
        let mut d = CallCountData::new();
        for n in &runs {
            d.next_run();
            d.add(*n);
        }
        let want = if runs.is_empty() { None } else { Some(runs.iter().sum::<usize>() as f64 / runs.len() as f64) };
        ensure!(d.get_average_call_count() == want, "the average of {:?} is {:?}", runs, d.get_average_call_count());
        case.evals += 1;
        case.count("aggregates", 1);
        case.nontrivial(hash_u64s(&runs.iter().map(|n| *n as u64).collect::<Vec<_>>()));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C25

type Run = (Vec<Option<(Vec<f64>, f64)>>, Option<(Vec<f64>, f64)>);
fn labelled_run(r: &mut Rng, label: &mut f64) -> Run {
    let mut next = |r: &mut Rng| {
        *label += 1.0;
        if r.chance(0.2) {
            None
        } else {
            Some((vec![*label, -*label], *label * 0.5))
        }
    };
    ((0..r.few(0, 3, 60)).map(|_| next(r)).collect(), next(r))
}
fn stat_is(s: &Statistics<Vec<f64>>, runs: &[Run], how: &str) -> R {
    ensure!(s.get_run_count() == runs.len(), "{}: {} runs instead of {}", how, s.get_run_count(), runs.len());
    let res: Vec<_> = runs.iter().map(|r| r.1.clone()).collect();
    let conv: Vec<_> = runs.iter().map(|r| r.0.clone()).collect();
    ensure!(s.get_results() == &res, "{}: results {:?} instead of {:?}", how, s.get_results(), res);
    ensure!(s.get_convergence() == &conv, "{}: convergence {:?} instead of {:?}", how, s.get_convergence(), conv);
    Ok(())
}
/// Random unions and recordings, compared with lists of runs.
pub fn c25_ops(case: &mut Case) -> R {
    for _ in 0..20 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let mut label = 0.0;
        let mut pool: Vec<(Statistics<Vec<f64>>, Vec<Run>)> = (0..r.range(2, 6)).map(|_| (Statistics::new(), vec![])).collect();
        let mut counts: Vec<(CallCountData, Vec<usize>)> = pool.iter().map(|_| (CallCountData::new(), vec![])).collect();
        let mut ops = vec![];
        let len = r.range(3, 25);
        for _ in 0..r.rarely(len, 26, 120) {
            let i = r.below(pool.len());
            match r.below(6) {
                0 | 1 => {
                    let runs: Vec<Run> = (0..r.few(0, 2, 40)).map(|_| labelled_run(r, &mut label)).collect();
                    fill(&mut pool[i].0, &runs);
                    ops.push(format!("{} records {} runs", i, runs.len()));
                    pool[i].1.extend(runs);
                }
                2 | 3 => {
                    let j = r.below(pool.len());
                    let (s, m) = (pool[j].0.clone(), pool[j].1.clone());
                    ops.push(format!("{} unites a copy of {}", i, j));
                    pool[i].0.unite(s);
                    pool[i].1.extend(m);
                    let (s, m) = (counts[j].0.clone(), counts[j].1.clone());
                    counts[i].0.unite(s);
                    counts[i].1.extend(m);
                    case.count("unions", 1);
                    if pool[i].1.len() > 200 {
                        pool[i] = (Statistics::new(), vec![]);
                        counts[i] = (CallCountData::new(), vec![]);
                    }
                }
                4 => {
                    counts[i].0.next_run();
                    counts[i].1.push(0);
                    ops.push(format!("{} next run", i));
                }
                _ => {
                    let n = r.below(5);
                    for _ in 0..n {
                        counts[i].0.increment();
                    }
                    counts[i].0.add(2);
                    if counts[i].1.is_empty() {
                        counts[i].1.push(0);
                    }
                    *counts[i].1.last_mut().unwrap() += n + 2;
                    ops.push(format!("{} counts {}", i, n + 2));
                }
            }
            for (k, (s, m)) in pool.iter().enumerate() {
                stat_is(s, m, &format!("statistics {} after {:?}", k, ops))?;
            }
            for (k, (s, m)) in counts.iter().enumerate() {
                ensure!(&s.get_call_count() == m, "call count {} is {:?} instead of {:?} after {:?}", k, s.get_call_count(), m, ops);
            }
        }
        case.describe(ops.join("; "));
        case.evals += 1;
        case.nontrivial(hash_bytes(ops.join(";").as_bytes()));
    }
    Ok(())
}
/// Thousands of runs.
pub fn c25_many(case: &mut Case) -> R {
    let r = &mut case.rng.fork();
    let n = if r.chance(0.03) { r.range(65_000, 70_000) } else { *r.pick(&[256, 500, 512, 1000, 1024, 2000, 4096, 5000]) + r.below(20) };
    let mut label = 0.0;
    let mut all: Vec<Run> = vec![];
    let mut full = Statistics::new();
    let mut calls = CallCountData::new();
    let mut want_calls = vec![];
    let mut parts = vec![];
    while all.len() < n {
        let left = n - all.len();
        let part = match r.below(4) {
            0 => 1,
            1 => r.range(1, 30),
            2 => r.range(1, 400),
            _ => r.below(n),
        }.min(left);
        let runs: Vec<Run> = (0..part).map(|_| {
            let mut run = labelled_run(r, &mut label);
            run.0.truncate(2);
            run
        }).collect();
        let mut cc = CallCountData::new();
        for _ in 0..part {
            cc.next_run();
            cc.add(want_calls.len() % 97);
            want_calls.push(want_calls.len() % 97);
        }
        if r.chance(0.2) {
            fill(&mut full, &runs);
        } else {
            let mut s = Statistics::new();
            fill(&mut s, &runs);
            full.unite(s);
        }
        calls.unite(cc);
        all.extend(runs);
        parts.push(part);
        case.count("unions", 1);
    }
    case.describe(format!("{} runs in parts of {:?}", n, parts));
    ensure!(full.get_run_count() == n && full.get_results().len() == n && full.get_convergence().len() == n, "{} runs became {} ({} results, {} convergences)", n, full.get_run_count(), full.get_results().len(), full.get_convergence().len());
    for (i, run) in all.iter().enumerate() {
        ensure!(full.get_results()[i] == run.1 && full.get_convergence()[i] == run.0, "run {} of {}: {:?} with the result {:?} instead of {:?}", i, n, full.get_convergence()[i], full.get_results()[i], run);
    }
    ensure!(calls.get_call_count() == want_calls, "the call counts of {} runs were changed", n);
    case.count("united_runs_of_many", n as u64);
    case.nontrivial(hash_u64s(&parts.iter().map(|x| *x as u64).collect::<Vec<_>>()));
    Ok(())
}
/// Workers in threads, each with real runs; gathered in arrival order with injected delays.
pub fn c25_workers(case: &mut Case) -> R {
    let workers = case.rng.range(2, 6);
    let (tx, rx) = std::sync::mpsc::channel();
    let seeds: Vec<(u64, usize)> = (0..workers).map(|_| (case.rng.u64(), case.rng.below(4))).collect();
    case.describe(format!("{} workers with (seed, runs) {:?}", workers, seeds));
    let mut full = Statistics::new();
    let mut full_calls = CallCountData::new();
    let mut arrived: Vec<(usize, Statistics<Vec<f64>>, Vec<usize>)> = vec![];
    let mut broken: Option<Viol> = None;
    std::thread::scope(|s| {
        for (w, (seed, runs)) in seeds.iter().copied().enumerate() {
            let tx = tx.clone();
            s.spawn(move || {
                let mut r = Rng(seed);
                let mut local = Statistics::new();
                let mut calls = CallCountData::new();
                let mut expect = vec![];
                for _ in 0..runs {
                    let mut one = Statistics::new();
                    let mut cc = CallCountData::new();
                    let cfg = VecCfg::<f64>::random(&mut r, 4);
                    let log = cfg.log();
                    let done = guarded(|| {
                        let mut inner = float_goal::<f64>(&log, cfg.goal.clone());
                        let mut o = GeneticOptimizer::new(
                            Box::new(GoalCalcStatistics::new(&mut *inner, &mut cc)),
                            cfg.stop.build(),
                            Box::new(creation::vec_float::RandomCreator::new(cfg.pop, cfg.iv.clone())),
                            cfg.pairing(),
                            cfg.crossing(),
                            cfg.mutation(),
                            cfg.selections(),
                            cfg.pre_births(),
                        );
                        o.set_loggers(vec![Box::new(StatisticsLogger::new(&mut one))]);
                        o.find_min();
                    });
                    expect.push(take(&log).len());
                    let done = done.and_then(|_| {
                        guarded(|| {
                            local.unite(one);
                            calls.unite(cc);
                        })
                    });
                    if let Err(v) = done {
                        let _ = tx.send(Err(v));
                        return;
                    }
                    std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                }
                std::thread::sleep(Duration::from_micros(r.below(500) as u64));
                let _ = tx.send(Ok((w, local, calls, expect)));
            });
        }
        drop(tx);
        for got in rx.iter() {
            match got {
                Ok((w, stat, calls, expect)) => {
                    arrived.push((w, stat.clone(), expect));
                    if let Err(v) = guarded(|| {
                        full.unite(stat);
                        full_calls.unite(calls);
                    }) {
                        broken = Some(v);
                    }
                }
                Err(v) => broken = Some(v),
            }
        }
    });
    if let Some(v) = broken {
        return Err(v);
    }
    ensure!(arrived.len() == workers, "{} of {} workers delivered", arrived.len(), workers);
    let mut want_res = vec![];
    let mut want_conv = vec![];
    let mut want_calls = vec![];
    for (w, s, e) in &arrived {
        ensure!(s.get_run_count() == seeds[*w].1, "worker {} delivered {} runs instead of {}", w, s.get_run_count(), seeds[*w].1);
        want_res.extend(s.get_results().iter().map(|b| b.as_ref().map(|(x, g)| (key(x), g.to_bits()))));
        want_conv.extend(s.get_convergence().iter().map(|c| c.iter().map(|b| b.as_ref().map(|(x, g)| (key(x), g.to_bits()))).collect::<Vec<_>>()));
        want_calls.extend(e.iter().copied());
    }
    let got: Vec<_> = full.get_results().iter().map(|b| b.as_ref().map(|(x, g)| (key(x), g.to_bits()))).collect();
    ensure!(got == want_res, "gathered results {:x?} instead of {:x?}", got, want_res);
    let got: Vec<_> = full.get_convergence().iter().map(|c| c.iter().map(|b| b.as_ref().map(|(x, g)| (key(x), g.to_bits()))).collect::<Vec<_>>()).collect();
    ensure!(got == want_conv, "gathered convergence {:x?} instead of {:x?}", got, want_conv);
    ensure!(full_calls.get_call_count() == want_calls, "gathered call counts {:?} instead of {:?}", full_calls.get_call_count(), want_calls);
    let order: Vec<u64> = arrived.iter().map(|a| a.0 as u64).collect();
    case.count("unions", workers as u64);
    case.count("gathered_runs", want_calls.len() as u64);
    case.nontrivial(hash_u64s(&order) ^ hash_u64s(&want_calls.iter().map(|x| *x as u64).collect::<Vec<_>>()));
    Ok(())
}

// --------------------------------------------------------------------------------------------------- C29

fn point<F: Fl>(r: &mut Rng, lo: f64, hi: f64, special: &[f64]) -> Vec<F> {
    let n = *r.pick(&[1usize, 1, 2, 3, 5, 30]);
    let n = r.rarely(n, 31, 200);
    let n = r.rarely(n, 201, 1100);
    (0..n)
        .map(|_| match r.below(6) {
            0 => F::of(*r.pick(special)),
            1 => F::of(r.f(-1.0, 1.0)),
            2 => F::of(r.range(0, 20) as f64 - 10.0).max(F::of(lo)).min(F::of(hi)),
            _ => F::of(r.f(lo, hi)),
        })
        .collect()
}
fn c29_t<F: Fl>(case: &mut Case) -> R {
    let eps = F::eps();
    let check = |name: &str, x: &Vec<F>, got: f64, want: f64, size: f64, extra: f64| -> R {
        let tol = eps * 32.0 * (size + want.abs()) * (1.0 + x.len() as f64 / 4.0) + extra;
        ensure!((got - want).abs() <= tol, "{}({:?}) is {} instead of {} (tolerance {:e})", name, x, got, want, tol);
        Ok(())
    };
    for _ in 0..200 {
        let mut fork = case.rng.fork();
        let r = &mut fork;
        let wide = r.chance(0.3);
        // paraboloid
        let x = point::<F>(r, if wide { -1e5 } else { -100.0 }, if wide { 1e5 } else { 100.0 }, &[0.0, 1.0, 2.0, 3.0]);
        let t: Vec<f64> = x.iter().enumerate().map(|(i, x)| (x.f() - (i as f64 + 1.0)).powi(2)).collect();
        let v = optlib_testfunc::paraboloid(&x);
        // squared rounding error of the difference
        let size: f64 = t.iter().sum::<f64>() + x.iter().enumerate().map(|(i, x)| (x.f().abs() + i as f64 + 1.0) * (x.f() - (i as f64 + 1.0)).abs()).sum::<f64>();
        check("paraboloid", &x, v, t.iter().sum(), size, 0.0)?;
        ensure!(v >= 0.0, "paraboloid({:?}) is {}", x, v);
        // schwefel (418.9829 is the published constant rounded to 4 decimals)
        // a formula has values outside the usual search area as well
        let edge = if wide { 5000.0 } else { 500.0 };
        let x = point::<F>(r, -edge, edge, &[420.9687, 420.968746, -302.525, 500.0, -500.0, 0.0]);
        let n = x.len() as f64;
        let s: f64 = x.iter().map(|x| x.f() * x.f().abs().sqrt().sin()).sum();
        let size: f64 = 419.0 * n + x.iter().map(|x| x.f().abs() * (2.0 + x.f().abs().sqrt())).sum::<f64>();
        let v = optlib_testfunc::schwefel(&x);
        check("schwefel", &x, v, 418.9829 * n - s, size, 2e-5 * n)?;
        ensure!(wide || v >= -(eps * 32.0 * size * (1.0 + n / 4.0) + 2e-5 * n), "schwefel({:?}) is {}", x, v);
        // rastrigin
        let x = point::<F>(r, if wide { -100.0 } else { -5.12 }, if wide { 100.0 } else { 5.12 }, &[0.0, 1.0, -1.0, 0.5, 5.12, -5.12]);
        let tau = 2.0 * std::f64::consts::PI;
        let want: f64 = x.iter().map(|x| x.f() * x.f() - 10.0 * (tau * x.f()).cos() + 10.0).sum();
        let size: f64 = x.iter().map(|x| x.f() * x.f() + 20.0 + 10.0 * tau * x.f().abs()).sum();
        let v = optlib_testfunc::rastrigin(&x);
        check("rastrigin", &x, v, want, size, 0.0)?;
        ensure!(v >= -(eps * 32.0 * size), "rastrigin({:?}) is {}", x, v);
        // rosenbrock
        let x = point::<F>(r, if wide { -50.0 } else { -2.0 }, if wide { 50.0 } else { 2.0 }, &[1.0, 0.0, -1.0, 2.0]);
        let mut want = 0.0;
        let mut size = 0.0;
        for i in 0..x.len() - 1 {
            let (a, b) = (x[i].f(), x[i + 1].f());
            let d = b - a * a;
            want += 100.0 * d * d + (1.0 - a) * (1.0 - a);
            size += 100.0 * d.abs() * (b.abs() + a * a) + (1.0 - a).abs() * (1.0 + a.abs()) + 100.0 * eps * (b.abs() + a * a).powi(2);
        }
        let v = optlib_testfunc::rosenbrock(&x);
        check("rosenbrock", &x, v, want, size, 0.0)?;
        ensure!(v >= 0.0, "rosenbrock({:?}) is {}", x, v);
        case.evals += 4;
        case.count("points", 4);
        case.nontrivial(hash_u64s(&key(&x)));
        case.describe(format!("{} {:?}", F::NAME, x));
    }
    Ok(())
}
both!(c29, c29_t);
fn c29_minima_t<F: Fl>(case: &mut Case) -> R {
    let n = match (case.index / 2 % 48) as usize {
        i if i < 40 => i + 1,
        i => [64, 128, 255, 256, 257, 300, 1000, 66_000][i - 40],
    };
    let d = n as f64;
    let near = |name: &str, v: f64, tol: f64| -> R {
        ensure!(v.abs() <= tol, "{} of dimension {} is {} at its minimum point", name, n, v);
        Ok(())
    };
    near("paraboloid", optlib_testfunc::paraboloid(&(0..n).map(|i| F::of(i as f64 + 1.0)).collect::<Vec<F>>()), 0.0)?;
    near("rastrigin", optlib_testfunc::rastrigin(&vec![F::zero(); n]), 1e-7)?;
    near("rosenbrock", optlib_testfunc::rosenbrock(&vec![F::one(); n]), 1e-7)?;
    // rounding of sums of terms of size 420, and of the documented point and constant
    near("schwefel", optlib_testfunc::schwefel(&vec![F::of(420.9687); n]), 4e-5 * d + F::eps() * 419.0 * d * (16.0 + d))?;
    // and nothing else in the neighbourhood is much smaller
    for _ in 0..30 {
        let s = case.rng.f(0.0, 2.0);
        let mut r = case.rng.fork();
        let mut at = |c: f64| (0..n).map(|_| F::of(c + r.f(-s, s))).collect::<Vec<F>>();
        let v = [optlib_testfunc::rastrigin(&at(0.0)), optlib_testfunc::rosenbrock(&at(1.0)), optlib_testfunc::schwefel(&at(420.9687))];
        let tol = 4e-5 * d + F::eps() * 419.0 * d * (16.0 + d);
        ensure!(v.iter().all(|v| *v >= -tol), "below zero near the minimum: {:?} in dimension {}", v, n);
        case.evals += 3;
    }
    case.count("minima", 4);
    case.nontrivial(hash_u64s(&[n as u64, F::BITS as u64]));
    Ok(())
}
both!(c29_minima, c29_minima_t);

// --------------------------------------------------------------------------------------------------- C31

thread_local! {
    static SEEN: RefCell<Vec<(Key, u64)>> = RefCell::new(vec![]);
    static KIND: RefCell<GoalKind> = RefCell::new(GoalKind::Sphere);
}
fn plain<F: Fl>(x: &Vec<F>) -> f64 {
    let c: Vec<f64> = x.iter().map(|v| v.f()).collect();
    let n = SEEN.with(|s| s.borrow().len() as u64);
    if n > 200_000 {
        raise("more than 200000 goal calls".to_string());
    }
    let v = KIND.with(|k| k.borrow().eval(&key(x), &c, n));
    SEEN.with(|s| s.borrow_mut().push((key(x), v.to_bits())));
    v
}
fn run_ga<F: Fl>(cfg: &VecCfg<F>, goal: Box<dyn Goal<Vec<F>> + '_>) -> Sol {
    let mut o = GeneticOptimizer::new(
        goal,
        cfg.stop.build(),
        Box::new(creation::vec_float::RandomCreator::new(cfg.pop, cfg.iv.clone())),
        cfg.pairing(),
        cfg.crossing(),
        cfg.mutation(),
        cfg.selections(),
        cfg.pre_births(),
    );
    o.find_min().map(|(x, v)| (key(&x), v))
}
fn run_pso<F: Fl>(cfg: &PsoCfg<F>, goal: Box<dyn Goal<Vec<F>> + '_>) -> Sol {
    let l = cfg.logs();
    let mut o = ParticleSwarmOptimizer::new(goal, cfg.stop.build(), cfg.coords(), cfg.vels(), cfg.vel.build());
    o.set_post_velocity_calc(cfg.post_vels(&l, 0));
    o.set_post_moves(cfg.post_moves(&l, 0));
    o.find_min().map(|(x, v)| (key(&x), v))
}
thread_local! { static POINTS: std::cell::RefCell<(Vec<String>, Rng)> = std::cell::RefCell::new((vec![], Rng(1))); }
fn shown<T: std::fmt::Debug>(x: &T) -> f64 {
    POINTS.with(|p| {
        let (seen, r) = &mut *p.borrow_mut();
        seen.push(format!("{:?}", x));
        crate::ops_props::hostile_value(r)
    })
}
fn one_type<T: std::fmt::Debug>(case: &mut Case, name: &str, mut make: impl FnMut(&mut Rng) -> T) -> R<u64> {
    let n = *case.rng.pick(&[1usize, 2, 7, 40]);
    let points: Vec<T> = (0..n).map(|_| make(&mut case.rng)).collect();
    let seed = case.rng.u64();
    case.describe(format!("points of type {}: {:?}", name, points));
    let mut r = Rng(seed);
    let want: Vec<u64> = points.iter().map(|_| crate::ops_props::hostile_value(&mut r).to_bits()).collect();
    let mut counts = CallCountData::new();
    for counted in [false, true].iter() {
        POINTS.with(|p| *p.borrow_mut() = (vec![], Rng(seed)));
        let mut f = GoalFromFunction::new(shown::<T>);
        let got: Vec<u64> = if *counted {
            let mut g = GoalCalcStatistics::new(&mut f, &mut counts);
            points.iter().map(|x| g.get(x).to_bits()).collect()
        } else {
            points.iter().map(|x| f.get(x).to_bits()).collect()
        };
        let seen = POINTS.with(|p| std::mem::take(&mut p.borrow_mut().0));
        let asked: Vec<String> = points.iter().map(|x| format!("{:?}", x)).collect();
        ensure!(seen == asked, "the function of {} (counted: {}) was asked for {:?} instead of {:?}", name, counted, seen, asked);
        ensure!(got == want, "the goal of {} (counted: {}) answers {:x?} instead of {:x?} for {:?}", name, counted, got, want, points);
    }
    ensure!(counts.get_call_count() == vec![n], "{} calls counted as {:?}", n, counts.get_call_count());
    Ok(n as u64)
}
/// The adapters with points of all kinds of types.
pub fn c31_types(case: &mut Case) -> R {
    let mut n = one_type(case, "()", |_| ())?;
    n += one_type(case, "bool", |r| r.chance(0.5))?;
    n += one_type(case, "[u8; 0]", |_| [0u8; 0])?;
    n += one_type(case, "i8", |r| r.u64() as i8)?;
    n += one_type(case, "u128", |r| (r.u64() as u128) << r.below(64))?;
    n += one_type(case, "f32", |r| any_float::<f32>(r))?;
    n += one_type(case, "[f64; 20]", |r| [any_float::<f64>(r); 20])?;
    n += one_type(case, "String", |r| "x".repeat(r.below(40)))?;
    n += one_type(case, "Vec<Vec<i32>>", |r| (0..r.below(4)).map(|i| vec![r.u64() as i32; i]).collect::<Vec<_>>())?;
    n += one_type(case, "Option<(u64, Box<f64>)>", |r| if r.chance(0.3) { None } else { Some((r.u64(), Box::new(any_float::<f64>(r)))) })?;
    case.evals = n;
    case.count("calls_with_points_of_other_types", n);
    case.nontrivial(case.index);
    Ok(())
}
/// A direct goal, the plain function adapter, and nested call counters: the same run each time.
fn c31_t<F: Fl>(case: &mut Case) -> R {
    let ga = case.index % 4 < 2;
    let mut gc = VecCfg::<F>::random(&mut case.rng, 6);
    let mut pc = PsoCfg::<F>::random(&mut case.rng, 6);
    // the custom velocity rule has a generator of its own and is rebuilt with every run
    let kind = GoalKind::any(&mut case.rng);
    gc.goal = kind.clone();
    pc.goal = kind.clone();
    case.describe(if ga { gc.show() } else { pc.show() });
    let (mode, seed) = case.any_stream();
    KIND.with(|k| *k.borrow_mut() = kind.clone());
    let run = |goal: Box<dyn Goal<Vec<F>> + '_>| -> Sol {
        restart(mode, seed);
        if ga {
            run_ga(&gc, goal)
        } else {
            run_pso(&pc, goal)
        }
    };
    // direct
    let log = new_log(200_000, 0);
    let base = run(float_goal::<F>(&log, kind));
    let base_ev: Vec<(Key, u64)> = take(&log).into_iter().filter_map(|e| if let Ev::Goal(k, v) = e { Some((k, v.to_bits())) } else { None }).collect();
    let grab = || SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    grab();
    let same_run = |what: &str, got: &Sol, ev: &[(Key, u64)]| -> R {
        ensure!(ev.len() == base_ev.len(), "{}: {} evaluations instead of {}", what, ev.len(), base_ev.len());
        if let Some(i) = (0..ev.len()).find(|i| ev[*i] != base_ev[*i]) {
            fail!("{}: evaluation {} is {:x?} instead of {:x?}", what, i, ev[i], base_ev[i]);
        }
        ensure!(same_sol(got, &base), "{}: the result is {:x?} instead of {:x?}", what, got, base);
        Ok(())
    };
    let got = run(Box::new(GoalFromFunction::new(plain::<F>)));
    same_run("function adapter", &got, &grab())?;
    // counters nested up to three deep
    let depth = case.rng.range(1, 3);
    let (mut c1, mut c2, mut c3) = (CallCountData::new(), CallCountData::new(), CallCountData::new());
    let got = {
        let mut f = GoalFromFunction::new(plain::<F>);
        let mut g1 = GoalCalcStatistics::new(&mut f, &mut c1);
        if depth == 1 {
            run(Box::new(g1))
        } else {
            let mut g2 = GoalCalcStatistics::new(&mut g1, &mut c2);
            if depth == 2 {
                run(Box::new(g2))
            } else {
                run(Box::new(GoalCalcStatistics::new(&mut g2, &mut c3)))
            }
        }
    };
    same_run(&format!("function adapter under {} call counters", depth), &got, &grab())?;
    for (i, c) in [&c1, &c2, &c3].iter().enumerate() {
        let want = if i < depth && !base_ev.is_empty() { vec![base_ev.len()] } else { vec![] };
        ensure!(c.get_call_count() == want, "call counter {} of {} counted {:?} for {} evaluations", i + 1, depth, c.get_call_count(), base_ev.len());
    }
    // a custom goal under a counter
    let log = new_log(200_000, 0);
    let mut c = CallCountData::new();
    let mut inner = float_goal::<F>(&log, if ga { gc.goal.clone() } else { pc.goal.clone() });
    let got = run(Box::new(GoalCalcStatistics::new(&mut *inner, &mut c)));
    let ev: Vec<(Key, u64)> = take(&log).into_iter().filter_map(|e| if let Ev::Goal(k, v) = e { Some((k, v.to_bits())) } else { None }).collect();
    same_run("custom goal under a call counter", &got, &ev)?;
    case.count("evaluations_compared", 3 * base_ev.len() as u64);
    if base_ev.len() > 3 {
        case.nontrivial(hash_u64s(&base_ev.iter().map(|e| e.1 ^ hash_u64s(&e.0)).collect::<Vec<_>>()));
    }
    Ok(())
}
both!(c31, c31_t);
