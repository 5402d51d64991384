//! Monitors around the genetic optimizer: every operator, goal, stop checker and logger is wrapped so that each
//! call is recorded with what went in and what came out. The oracles work on the recorded events only.
use crate::fl::*;
use crate::fw::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::VecCrossAllGenes;
use optlib::genetic::mutation::VecMutation;
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::*;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub type Key = Vec<u64>;
pub type Sol = Option<(Key, f64)>;

pub trait Cand: Clone + 'static {
    fn key(&self) -> Key;
}
impl<F: Fl> Cand for Vec<F> {
    fn key(&self) -> Key {
        crate::fl::key(self)
    }
}
/// A candidate that is nothing but an identity.
#[derive(Clone, Debug)]
pub struct Tag(pub u64);
impl Cand for Tag {
    fn key(&self) -> Key {
        vec![self.0]
    }
}

#[derive(Clone, Debug)]
pub struct Ind {
    pub key: Key,
    pub val: f64,
    pub alive: bool,
}
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same_sol(a: &Sol, b: &Sol) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((k, v)), Some((l, w))) => k == l && same(*v, *w),
        _ => false,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Pop {
    pub ind: Vec<Ind>,
    pub iter: usize,
    pub best: Sol,
    pub worst: Sol,
    /// First disagreement between the different views of the population.
    pub bad: Option<String>,
}
#[derive(Clone, Debug)]
pub struct St {
    pub iter: usize,
    pub best: Sol,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LogKind {
    Start,
    Resume,
    Iter,
    Finish,
}
#[derive(Clone, Debug)]
pub enum Ev {
    FindMin,
    Next,
    Mark(u32),
    Created(u32, Vec<Key>),
    Goal(Key, f64),
    Pairs(u32, Pop, Vec<Vec<usize>>),
    Cross(u32, Vec<Key>, Vec<Key>),
    Mut(u32, Key, Key),
    Pre(u32, Pop, Vec<Key>, Vec<Key>),
    Sel(u32, Pop, Pop),
    Stop(u32, St, bool),
    Log(u32, LogKind, St),
    Ret(Sol),
}

pub struct LogInner {
    pub ev: Vec<Ev>,
    pub goals: u64,
    pub polls: u64,
    pub goal_cap: u64,
    pub poll_cap: u64,
    /// Do not record population snapshots.
    pub lite: bool,
    /// After so many events the user code that is running then fails.
    pub fuse: Option<u64>,
    before: (u64, u64),
}
/// The panic of failing user code.
pub struct UserFault;
impl LogInner {
    pub fn burn(&mut self) -> bool {
        match &mut self.fuse {
            Some(0) => {
                self.fuse = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
}
/// Run `f` in which user code fails after `n` events; true if it did.
pub fn with_fault(log: &Log, n: u64, f: impl FnOnce()) -> bool {
    log.borrow_mut().fuse = Some(n);
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    log.borrow_mut().fuse = None;
    match x {
        Ok(()) => false,
        Err(e) if e.is::<UserFault>() => true,
        Err(e) => std::panic::resume_unwind(e),
    }
}
pub type Log = Rc<RefCell<LogInner>>;
pub fn new_log(goal_cap: u64, poll_cap: u64) -> Log {
    Rc::new(RefCell::new(LogInner { ev: vec![], goals: 0, polls: 0, goal_cap, poll_cap, lite: false, fuse: None, before: (0, 0) }))
}
pub fn push(log: &Log, e: Ev) {
    let mut l = log.borrow_mut();
    l.ev.push(e);
    if l.burn() {
        drop(l);
        std::panic::resume_unwind(Box::new(UserFault))
    }
}
pub fn take(log: &Log) -> Vec<Ev> {
    let mut l = log.borrow_mut();
    l.goals = 0;
    l.polls = 0;
    l.before = (0, 0);
    std::mem::take(&mut l.ev)
}
/// The caps are for one call of the optimizer each.
pub fn new_call(log: &Log) {
    let mut l = log.borrow_mut();
    l.before = (l.goals, l.polls);
}
pub fn count_goal(log: &Log) -> u64 {
    let mut l = log.borrow_mut();
    l.goals += 1;
    if l.goals - l.before.0 > l.goal_cap {
        let c = l.goal_cap;
        drop(l);
        raise(format!("more than {} goal calls: the run evaluates or continues without end", c));
    }
    l.goals - 1
}
pub fn count_poll(log: &Log) {
    let mut l = log.borrow_mut();
    l.polls += 1;
    if l.polls - l.before.1 > l.poll_cap {
        let c = l.poll_cap;
        drop(l);
        raise(format!("the stop criterion was checked more than {} times and the run still goes on", c));
    }
}

fn ind_sol<T: Cand>(i: &Option<Individual<T>>) -> Sol {
    i.as_ref().map(|i| (i.get_chromosomes().key(), i.get_fitness()))
}
pub fn snapshot<T: Cand>(p: &Population<T>, lite: bool) -> Pop {
    let mut out = Pop { iter: Population::get_iteration(p), best: ind_sol(p.get_best()), worst: ind_sol(p.get_worst()), ..Pop::default() };
    if lite {
        return out;
    }
    for i in p.iter() {
        out.ind.push(Ind { key: i.get_chromosomes().key(), val: i.get_fitness(), alive: i.is_alive() });
    }
    let mut bad = |m: String| {
        if out.bad.is_none() {
            out.bad = Some(m)
        }
    };
    let n = out.ind.len();
    if p.len() != n {
        bad(format!("len() = {} but iteration yields {}", p.len(), n));
    } else {
        for (k, i) in out.ind.iter().enumerate() {
            let x = &p[k];
            if x.get_chromosomes().key() != i.key || !same(x.get_fitness(), i.val) || x.is_alive() != i.alive {
                bad(format!("indexing and iterating disagree at {}", k));
            }
            if !same(x.get_goal(), i.val) || x.get_parameter().key() != i.key {
                bad(format!("agent view and individual view disagree at {}", k));
            }
        }
    }
    let alive = out.ind.iter().filter(|i| i.alive).count();
    if p.len_alive() != alive {
        bad(format!("len_alive() = {} but {} individuals are alive", p.len_alive(), alive));
    }
    let agents: Vec<(Key, f64)> = p.get_agents().iter().map(|a| (a.get_parameter().key(), a.get_goal())).collect();
    if agents.len() != n || agents.iter().zip(&out.ind).any(|(a, i)| a.0 != i.key || !same(a.1, i.val)) {
        bad("get_agents() disagrees with iteration".to_string());
    }
    if AlgorithmState::get_iteration(p) != out.iter {
        bad("the two iteration numbers disagree".to_string());
    }
    let s = AlgorithmState::get_best_solution(p).map(|(k, v)| (k.key(), v));
    if !same_sol(&s, &out.best) {
        bad("get_best() and get_best_solution() disagree".to_string());
    }
    out
}
fn st<T: Cand>(s: &dyn AlgorithmState<T>) -> St {
    St { iter: s.get_iteration(), best: s.get_best_solution().map(|(k, v)| (k.key(), v)) }
}

// ------------------------------------------------------------------------------------------------- monitors

pub struct MGoal<T> {
    pub log: Log,
    pub f: Box<dyn FnMut(&T, u64) -> f64>,
}
impl<T: Cand> Goal<T> for MGoal<T> {
    fn get(&mut self, x: &T) -> f64 {
        let n = count_goal(&self.log);
        let v = (self.f)(x, n);
        push(&self.log, Ev::Goal(x.key(), v));
        v
    }
}
pub fn float_goal<F: Fl>(log: &Log, kind: GoalKind) -> Box<MGoal<Vec<F>>> {
    Box::new(MGoal {
        log: log.clone(),
        f: Box::new(move |x: &Vec<F>, n| {
            let c: Vec<f64> = x.iter().map(|v| v.f()).collect();
            kind.eval(&key(x), &c, n)
        }),
    })
}
macro_rules! monitor {
    ($name:ident, $tr:ident) => {
        pub struct $name<T> {
            pub tag: u32,
            pub log: Log,
            pub inner: Box<dyn $tr<T>>,
        }
        impl<T> $name<T> {
            pub fn new(log: &Log, tag: u32, inner: Box<dyn $tr<T>>) -> Box<Self> {
                Box::new(Self { tag, log: log.clone(), inner })
            }
        }
    };
}
monitor!(MCreator, Creator);
monitor!(MPairing, Pairing);
monitor!(MCross, Cross);
monitor!(MMut, Mutation);
monitor!(MPre, PreBirth);
monitor!(MSel, Selection);
monitor!(MStop, StopChecker);
pub struct MLogger {
    pub tag: u32,
    pub log: Log,
}
fn keys<T: Cand>(x: &[T]) -> Vec<Key> {
    x.iter().map(|c| c.key()).collect()
}
impl<T: Cand> Creator<T> for MCreator<T> {
    fn create(&mut self) -> Vec<T> {
        let x = resized(self.inner.create());
        push(&self.log, Ev::Created(self.tag, keys(&x)));
        x
    }
}
impl<T: Cand> Pairing<T> for MPairing<T> {
    fn get_pairs(&mut self, p: &Population<T>) -> Vec<Vec<usize>> {
        let lite = self.log.borrow().lite;
        let snap = snapshot(p, lite);
        let x = self.inner.get_pairs(p);
        push(&self.log, Ev::Pairs(self.tag, snap, x.clone()));
        x
    }
}
impl<T: Cand> Cross<T> for MCross<T> {
    fn cross(&mut self, parents: &[&T]) -> Vec<T> {
        let ins = parents.iter().map(|c| c.key()).collect();
        let x = self.inner.cross(parents);
        push(&self.log, Ev::Cross(self.tag, ins, keys(&x)));
        x
    }
}
impl<T: Cand> Mutation<T> for MMut<T> {
    fn mutation(&mut self, c: &T) -> T {
        let x = self.inner.mutation(c);
        push(&self.log, Ev::Mut(self.tag, c.key(), x.key()));
        x
    }
}
impl<T: Cand> PreBirth<T> for MPre<T> {
    fn pre_birth(&mut self, p: &Population<T>, c: &mut Vec<T>) {
        let lite = self.log.borrow().lite;
        let before = keys(c);
        self.inner.pre_birth(p, c);
        push(&self.log, Ev::Pre(self.tag, snapshot(p, lite), before, keys(c)));
    }
}
impl<T: Cand> Selection<T> for MSel<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        let lite = self.log.borrow().lite;
        let before = snapshot(p, lite);
        self.inner.kill(p);
        let after = snapshot(p, lite);
        push(&self.log, Ev::Sel(self.tag, before, after));
    }
}
impl<T: Cand> StopChecker<T> for MStop<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        count_poll(&self.log);
        let state = st(s);
        let x = self.inner.can_stop(s);
        push(&self.log, Ev::Stop(self.tag, state, x));
        x
    }
}
impl<T: Cand> Logger<T> for MLogger {
    fn start(&mut self, s: &dyn AlgorithmState<T>) {
        push(&self.log, Ev::Log(self.tag, LogKind::Start, st(s)));
    }
    fn resume(&mut self, s: &dyn AlgorithmState<T>) {
        push(&self.log, Ev::Log(self.tag, LogKind::Resume, st(s)));
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<T>) {
        push(&self.log, Ev::Log(self.tag, LogKind::Iter, st(s)));
    }
    fn finish(&mut self, s: &dyn AlgorithmState<T>) {
        push(&self.log, Ev::Log(self.tag, LogKind::Finish, st(s)));
    }
}

/// Stops at a number of iterations that can be changed from outside.
pub struct StopAt(pub Rc<Cell<usize>>);
impl<T> StopChecker<T> for StopAt {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        s.get_iteration() >= self.0.get()
    }
}

// ------------------------------------------------------------------------- configurations over vectors of floats

#[derive(Clone, Debug)]
pub enum PairK {
    Random,
    Tournament(usize, usize),
}
#[derive(Clone, Debug)]
pub enum CrossK {
    Bitwise,
    Exp,
    Mean,
    Geo,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SelK {
    Finite,
    Box,
    Limit(usize),
}
/// Stop criteria as data, so that equal ones can be built several times.
#[derive(Clone, Debug)]
pub enum StopK {
    Iters(usize),
    Thresh(f64),
    NoChange(usize, f64),
    Any(Vec<StopK>),
    All(Vec<StopK>),
}
impl StopK {
    pub fn build<T: 'static>(&self) -> Box<dyn StopChecker<T>> {
        match self {
            StopK::Iters(n) => Box::new(MaxIterations::new(*n)),
            StopK::Thresh(t) => Box::new(Threshold::new(*t)),
            StopK::NoChange(n, d) => Box::new(GoalNotChange::new(*n, *d)),
            StopK::Any(v) => Box::new(CompositeAny::new(v.iter().map(|s| s.build()).collect())),
            StopK::All(v) => Box::new(CompositeAll::new(v.iter().map(|s| s.build()).collect())),
        }
    }
    /// A criterion that certainly stops after at most `max` iterations.
    pub fn random(r: &mut Rng, max: usize) -> StopK {
        if r.chance(0.4) {
            return StopK::Iters(r.range(0, max));
        }
        let mut v = vec![StopK::Iters(r.range(0, max))];
        for _ in 0..r.range(1, 2) {
            v.push(Self::leaf_or_all(r, max, 2));
        }
        r.shuffle(&mut v);
        StopK::Any(v)
    }
    fn leaf_or_all(r: &mut Rng, max: usize, depth: usize) -> StopK {
        let n = if r.chance(0.01) { r.range(17, 40) } else { r.range(1, 3) };
        match r.below(if depth == 0 { 3 } else { 5 }) {
            0 => StopK::Iters(r.range(0, max)),
            1 => StopK::Thresh(*r.pick(&[-1e9, -100.0, -0.5, 0.0, 0.1, 1.0, 10.0])),
            2 => StopK::NoChange(r.range(0, max / 2 + 1), *r.pick(&[0.0, 1e-9, 0.1, 1.0, 100.0])),
            3 => StopK::All((0..n).map(|_| Self::leaf_or_all(r, max, depth - 1)).collect()),
            _ => StopK::Any((0..n).map(|_| Self::leaf_or_all(r, max, depth - 1)).collect()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct VecCfg<F> {
    pub iv: Vec<(F, F)>,
    pub pop: usize,
    pub pair: PairK,
    pub cross: CrossK,
    pub mut_prob: f64,
    pub mut_bits: usize,
    pub sels: Vec<SelK>,
    pub pre: bool,
    pub goal: GoalKind,
    pub stop: StopK,
    pub loggers: u32,
}
impl<F: Fl> VecCfg<F> {
    /// A valid configuration of shipped operators; `max_it` bounds the number of generations.
    pub fn random(r: &mut Rng, max_it: usize) -> Self {
        // Now and then something much larger than usual.
        let max_it = if r.chance(0.01) { max_it * 8 } else { max_it };
        let dim = if r.chance(0.03) { r.range(6, 20) } else { *r.pick(&[1, 1, 2, 3, 5]) };
        let wide = r.chance(0.004);
        let dim = if wide { r.range(60, 300) } else { dim };
        let pop = match r.below(6) {
            _ if wide => r.range(2, 6),
            0 => 1,
            1 => 2,
            2 => 3,
            _ if r.chance(0.02) => r.range(41, 300),
            _ => r.range(2, 40),
        };
        let pair = if r.chance(0.4) {
            PairK::Random
        } else {
            PairK::Tournament(*r.pick(&[0, 1, 2, pop / 2 + 1, pop, pop * 2 + 1]), *r.pick(&[0, 1, 1, 2, 5, 13]))
        };
        let cross = match r.below(4) {
            0 => CrossK::Bitwise,
            1 => CrossK::Exp,
            2 => CrossK::Mean,
            _ => CrossK::Geo,
        };
        let mut sels = vec![];
        if r.chance(0.8) {
            sels.push(SelK::Finite);
        }
        if r.chance(0.5) {
            sels.push(SelK::Box);
        }
        // Validity first, the limit last: the documented arrangement.
        sels.push(SelK::Limit(*r.pick(&[1, 2, pop, pop, pop + pop / 2, pop / 2 + 1])));
        let (mut pop, mut pair, mut dim, mut stop, mut goal) = (pop, pair, dim, None, None);
        if lengthy() {
            pop = r.range(2, 8);
            dim = dim.min(3);
            pair = if r.chance(0.5) { PairK::Random } else { PairK::Tournament(r.below(3), r.range(0, 2)) };
            sels.retain(|s| *s != SelK::Box || r.chance(0.2));
            sels.pop();
            sels.push(SelK::Limit(pop + r.below(2)));
            stop = Some(StopK::Iters(long_span(r)));
            goal = match r.below(4) {
                0 => None,
                1 => Some(GoalKind::Const(1.0)),
                2 => Some(GoalKind::FewValues(r.u64(), 2)),
                _ => Some(GoalKind::Plateau(100.0)),
            };
        }
        let iv = intervals(r, dim);
        VecCfg {
            iv,
            pop,
            pair,
            cross,
            mut_prob: *r.pick(&[0.0, 5.0, 15.0, 50.0, 100.0]),
            mut_bits: *r.pick(&[0, 1, 1, 2, 3, 7]),
            sels,
            pre: r.chance(0.5),
            goal: goal.unwrap_or_else(|| GoalKind::any(r)),
            stop: stop.unwrap_or_else(|| StopK::random(r, max_it)),
            loggers: r.range(1, 2) as u32,
        }
    }
    pub fn show(&self) -> String {
        format!("{} {:?}", F::NAME, self)
    }
    pub fn pairing(&self) -> Box<dyn Pairing<Vec<F>>> {
        match self.pair {
            PairK::Random => Box::new(RandomPairing::new()),
            PairK::Tournament(f, n) => Box::new(Tournament::new(f).partners_count(2).rounds_count(n)),
        }
    }
    pub fn crossing(&self) -> Box<dyn Cross<Vec<F>>> {
        Box::new(VecCrossAllGenes::new(match self.cross {
            CrossK::Bitwise => F::cross_bitwise(),
            CrossK::Exp => F::cross_exp(),
            CrossK::Mean => F::cross_mean(),
            CrossK::Geo => F::cross_geo(),
        }))
    }
    pub fn mutation(&self) -> Box<dyn Mutation<Vec<F>>> {
        Box::new(VecMutation::new(self.mut_prob, F::mutation_bitwise(self.mut_bits)))
    }
    pub fn selections(&self) -> Vec<Box<dyn Selection<Vec<F>>>> {
        self.sels
            .iter()
            .map(|s| -> Box<dyn Selection<Vec<F>>> {
                match s {
                    SelK::Finite => Box::new(selection::KillFitnessNaN::new()),
                    SelK::Box => Box::new(selection::vec_float::CheckChromoInterval::new(self.iv.clone())),
                    SelK::Limit(n) => Box::new(selection::LimitPopulation::new(*n)),
                }
            })
            .collect()
    }
    pub fn pre_births(&self) -> Vec<Box<dyn PreBirth<Vec<F>>>> {
        if self.pre {
            vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(self.iv.clone()))]
        } else {
            vec![]
        }
    }
    /// The optimizer with monitors around everything.
    pub fn build(&self, log: &Log) -> GeneticOptimizer<'static, Vec<F>> {
        self.build_with(log, self.stop.build())
    }
    pub fn build_with(&self, log: &Log, stop: Box<dyn StopChecker<Vec<F>>>) -> GeneticOptimizer<'static, Vec<F>> {
        let mut o = GeneticOptimizer::new(
            float_goal::<F>(log, self.goal.clone()),
            MStop::new(log, 0, stop),
            MCreator::new(log, 0, Box::new(RandomCreator::new(self.pop, self.iv.clone()))),
            MPairing::new(log, 0, self.pairing()),
            MCross::new(log, 0, self.crossing()),
            MMut::new(log, 0, self.mutation()),
            self.selections().into_iter().enumerate().map(|(i, s)| MSel::new(log, i as u32, s) as Box<dyn Selection<Vec<F>>>).collect(),
            self.pre_births().into_iter().enumerate().map(|(i, s)| MPre::new(log, i as u32, s) as Box<dyn PreBirth<Vec<F>>>).collect(),
        );
        o.set_loggers((0..self.loggers).map(|i| Box::new(MLogger { tag: i, log: log.clone() }) as Box<dyn Logger<Vec<F>>>).collect());
        o
    }
    pub fn log(&self) -> Log {
        let children = match self.pair {
            PairK::Random => self.pop * 2,
            PairK::Tournament(f, _) => f,
        };
        new_log(((self.pop + children) * if lengthy() { 6000 } else { 400 } + 10_000) as u64, if lengthy() { 10_000 } else { 2000 })
    }
}

pub fn find_min<T: Cand>(o: &mut GeneticOptimizer<'_, T>, log: &Log) -> Sol {
    new_call(log);
    push(log, Ev::FindMin);
    let s = o.find_min().map(|(k, v)| (k.key(), v));
    push(log, Ev::Ret(s.clone()));
    s
}
pub fn next_iters<T: Cand>(o: &mut GeneticOptimizer<'_, T>, log: &Log) -> Sol {
    new_call(log);
    push(log, Ev::Next);
    let s = o.next_iterations().map(|(k, v)| (k.key(), v));
    push(log, Ev::Ret(s.clone()));
    s
}

// --------------------------------------------------------------------------------- arbitrary populations

struct FixedCreator<T>(Vec<T>);
impl<T: Clone> Creator<T> for FixedCreator<T> {
    fn create(&mut self) -> Vec<T> {
        self.0.clone()
    }
}
struct NoPairs;
impl<T> Pairing<T> for NoPairs {
    fn get_pairs(&mut self, _p: &Population<T>) -> Vec<Vec<usize>> {
        vec![]
    }
}
struct NoCross;
impl<T> Cross<T> for NoCross {
    fn cross(&mut self, _p: &[&T]) -> Vec<T> {
        vec![]
    }
}
struct IdMut;
impl<T: Clone> Mutation<T> for IdMut {
    fn mutation(&mut self, c: &T) -> T {
        c.clone()
    }
}
struct FnSel<T>(Rc<RefCell<dyn FnMut(&mut Population<T>)>>);
impl<T> Selection<T> for FnSel<T> {
    fn kill(&mut self, p: &mut Population<T>) {
        (self.0.borrow_mut())(p)
    }
}
struct SeqGoal(Vec<f64>, usize);
impl<T> Goal<T> for SeqGoal {
    fn get(&mut self, _x: &T) -> f64 {
        let v = self.0[self.1 % self.0.len().max(1)];
        self.1 += 1;
        v
    }
}
/// Let `f` work on a population of the given points and goal values inside a real optimizer.
pub fn with_population<T: Cand>(points: Vec<T>, values: Vec<f64>, f: impl FnMut(&mut Population<T>) + 'static) {
    let f: Rc<RefCell<dyn FnMut(&mut Population<T>)>> = Rc::new(RefCell::new(f));
    let mut o = GeneticOptimizer::new(
        Box::new(SeqGoal(values, 0)),
        Box::new(MaxIterations::new(1)),
        Box::new(FixedCreator(points)),
        Box::new(NoPairs),
        Box::new(NoCross),
        Box::new(IdMut),
        vec![Box::new(FnSel(f))],
        vec![],
    );
    o.find_min();
}

// ------------------------------------------------------------------------------------- reading the event log

/// One find_min or next_iterations call.
pub struct Seg<'e> {
    pub find_min: bool,
    /// Events before the first stop check.
    pub prefix: Vec<&'e Ev>,
    /// Generations: events after a stop check that said "go on" up to the next check.
    pub gens: Vec<Vec<&'e Ev>>,
    /// Stop checks in order.
    pub stops: Vec<(&'e St, bool)>,
    /// Events after the stop check that said "stop".
    pub suffix: Vec<&'e Ev>,
    pub ret: Option<&'e Sol>,
}
pub fn segments(ev: &[Ev]) -> Vec<Seg<'_>> {
    let mut out: Vec<Seg> = vec![];
    let mut stopped = false;
    for e in ev {
        match e {
            Ev::FindMin | Ev::Next => {
                stopped = false;
                out.push(Seg { find_min: matches!(e, Ev::FindMin), prefix: vec![], gens: vec![], stops: vec![], suffix: vec![], ret: None })
            }
            _ => {
                let s = match out.last_mut() {
                    Some(s) => s,
                    None => continue,
                };
                match e {
                    Ev::Stop(_, st, ans) => {
                        s.stops.push((st, *ans));
                        if *ans {
                            stopped = true
                        } else {
                            stopped = false;
                            s.gens.push(vec![])
                        }
                    }
                    Ev::Ret(r) => s.ret = Some(r),
                    e => {
                        if stopped {
                            s.suffix.push(e)
                        } else if let Some(g) = s.gens.last_mut() {
                            g.push(e)
                        } else {
                            s.prefix.push(e)
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn min_nan(a: f64, b: f64) -> bool {
    // a is better than b
    !a.is_nan() && (b.is_nan() || a < b)
}
/// The multiset difference of two lists of keys, as text (None if equal).
pub fn diff(a: &[Key], b: &[Key]) -> Option<String> {
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x.sort();
    y.sort();
    if x == y {
        None
    } else {
        let only = |p: &[Key], q: &[Key]| {
            let mut q = q.to_vec();
            p.iter()
                .filter(|k| match q.iter().position(|z| z == *k) {
                    Some(i) => {
                        q.swap_remove(i);
                        false
                    }
                    None => true,
                })
                .take(3)
                .cloned()
                .collect::<Vec<_>>()
        };
        Some(format!("{} vs {} items, only first: {:x?}, only second: {:x?}", a.len(), b.len(), only(a, b), only(b, a)))
    }
}
