//! Monitors around the particle swarm optimizer.
use crate::fl::*;
use crate::fw::*;
use crate::ga::{count_goal, count_poll, Key, LogKind, MLogger, Sol, St, StopK};
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use rand::distributions::uniform::SampleUniform;

/// The swarm as a velocity calculator sees it.
#[derive(Clone, Debug)]
pub struct View {
    pub agents: Vec<(Key, f64)>,
    pub iter: usize,
    pub best: Sol,
    pub len: usize,
    /// Which agent is moved (by identity), if it can be told.
    pub me: Option<usize>,
    pub mine: (Key, f64),
}
#[derive(Clone, Debug)]
pub enum PEv {
    FindMin,
    Next,
    Mark(u32),
    Coords(u32, Vec<Key>),
    Vels(u32, Vec<Key>),
    Calc(u32, View, Key),
    PostVel(u32, Key, Key),
    PostMove(u32, Key, Key),
    Goal(Key, f64),
    Stop(u32, St, bool),
    Log(u32, LogKind, St),
    Ret(Sol),
}
/// Events of the swarm, in the shared log of the stop checker and logger monitors.
pub type PLog = std::rc::Rc<std::cell::RefCell<Vec<PEv>>>;

#[derive(Clone)]
pub struct Logs {
    pub p: PLog,
    /// Goal and stop counting (shared with the GA monitors).
    pub g: crate::ga::Log,
}
impl Logs {
    pub fn new(goal_cap: u64, poll_cap: u64) -> Logs {
        Logs { p: Default::default(), g: crate::ga::new_log(goal_cap, poll_cap) }
    }
    pub fn push(&self, e: PEv) {
        self.p.borrow_mut().push(e);
        let burnt = self.g.borrow_mut().burn();
        if burnt {
            std::panic::resume_unwind(Box::new(crate::ga::UserFault))
        }
    }
    pub fn take(&self) -> Vec<PEv> {
        crate::ga::take(&self.g);
        std::mem::take(&mut *self.p.borrow_mut())
    }
}

pub struct PGoal<F> {
    pub l: Logs,
    pub f: Box<dyn FnMut(&Vec<F>, u64) -> f64>,
}
impl<F: Fl> Goal<Vec<F>> for PGoal<F> {
    fn get(&mut self, x: &Vec<F>) -> f64 {
        let n = count_goal(&self.l.g);
        let v = (self.f)(x, n);
        self.l.push(PEv::Goal(key(x), v));
        v
    }
}
pub fn pgoal<F: Fl>(l: &Logs, kind: GoalKind) -> Box<PGoal<F>> {
    Box::new(PGoal {
        l: l.clone(),
        f: Box::new(move |x: &Vec<F>, n| {
            let c: Vec<f64> = x.iter().map(|v| v.f()).collect();
            kind.eval(&key(x), &c, n)
        }),
    })
}
macro_rules! monitor {
    ($name:ident, $tr:ident) => {
        pub struct $name<F> {
            pub tag: u32,
            pub l: Logs,
            pub inner: Box<dyn $tr<F>>,
        }
        impl<F> $name<F> {
            pub fn new(l: &Logs, tag: u32, inner: Box<dyn $tr<F>>) -> Box<Self> {
                Box::new(Self { tag, l: l.clone(), inner })
            }
        }
    };
}
monitor!(PCoords, CoordinatesInitializer);
monitor!(PVels, VelocityInitializer);
monitor!(PCalc, VelocityCalculator);
monitor!(PPostVel, PostVelocityCalc);
monitor!(PPostMove, PostMove);
pub struct PStop<F> {
    pub tag: u32,
    pub l: Logs,
    pub inner: Box<dyn StopChecker<Vec<F>>>,
}
pub struct PLogger {
    pub tag: u32,
    pub l: Logs,
}
impl<F: Fl> CoordinatesInitializer<F> for PCoords<F> {
    fn get_coordinates(&mut self) -> Vec<Vec<F>> {
        let x = resized(self.inner.get_coordinates());
        self.l.push(PEv::Coords(self.tag, x.iter().map(|c| key(c)).collect()));
        x
    }
}
impl<F: Fl> VelocityInitializer<F> for PVels<F> {
    fn get_velocity(&mut self) -> Vec<Vec<F>> {
        let x = resized(self.inner.get_velocity());
        self.l.push(PEv::Vels(self.tag, x.iter().map(|c| key(c)).collect()));
        x
    }
}
pub fn view<F: Fl>(swarm: &Swarm<F>, particle: &Particle<F>) -> View {
    let agents = swarm.get_agents();
    let me = agents.iter().position(|a| std::ptr::eq(*a, particle));
    View {
        agents: agents.iter().map(|a| (key(a.get_parameter()), a.get_goal())).collect(),
        iter: AlgorithmState::get_iteration(swarm),
        best: AlgorithmState::get_best_solution(swarm).map(|(k, v)| (key(&k), v)),
        len: swarm.len(),
        me,
        mine: (key(particle.get_parameter()), particle.get_goal()),
    }
}
impl<F: Fl> VelocityCalculator<F> for PCalc<F> {
    fn calc_new_velocity(&mut self, swarm: &Swarm<F>, particle: &Particle<F>) -> Vec<F> {
        let v = view(swarm, particle);
        let x = self.inner.calc_new_velocity(swarm, particle);
        self.l.push(PEv::Calc(self.tag, v, key(&x)));
        x
    }
}
impl<F: Fl> PostVelocityCalc<F> for PPostVel<F> {
    fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
        let k = key(&v);
        let x = self.inner.correct_velocity(v);
        self.l.push(PEv::PostVel(self.tag, k, key(&x)));
        x
    }
}
impl<F: Fl> PostMove<F> for PPostMove<F> {
    fn post_move(&mut self, c: &mut Vec<F>) {
        let k = key(c);
        self.inner.post_move(c);
        self.l.push(PEv::PostMove(self.tag, k, key(c)));
    }
}
fn st<F: Fl>(s: &dyn AlgorithmState<Vec<F>>) -> St {
    St { iter: s.get_iteration(), best: s.get_best_solution().map(|(k, v)| (key(&k), v)) }
}
impl<F: Fl> StopChecker<Vec<F>> for PStop<F> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<F>>) -> bool {
        count_poll(&self.l.g);
        let state = st(s);
        let x = self.inner.can_stop(s);
        self.l.push(PEv::Stop(self.tag, state, x));
        x
    }
}
impl<F: Fl> Logger<Vec<F>> for PLogger {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.l.push(PEv::Log(self.tag, LogKind::Start, st(s)));
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.l.push(PEv::Log(self.tag, LogKind::Resume, st(s)));
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.l.push(PEv::Log(self.tag, LogKind::Iter, st(s)));
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<F>>) {
        self.l.push(PEv::Log(self.tag, LogKind::Finish, st(s)));
    }
}
#[allow(dead_code)]
fn _unused(_: MLogger) {}

// ------------------------------------------------------------------------------------------- configurations

#[derive(Clone, Debug)]
pub enum InertK {
    Const(f64),
    Linear(f64, f64, usize),
}
#[derive(Clone, Debug)]
pub enum VelK {
    Classic(f64, f64),
    Canonical(f64, f64, f64),
    Inertia(f64, f64, InertK),
    Negative([f64; 7]),
    /// Custom: the velocity is a pseudo-random vector.
    Custom(u64, f64),
}
#[derive(Clone, Debug)]
pub enum PvK {
    Dims(Vec<f64>),
    Abs(f64),
    /// Custom: negates and scales.
    Scale(f64),
}
#[derive(Clone, Debug)]
pub enum PmK {
    Boundary,
    Teleport(f32),
    /// Custom: adds a vector.
    Shift(f64),
}
#[derive(Clone, Debug)]
pub struct PsoCfg<F> {
    pub iv: Vec<(F, F)>,
    pub n: usize,
    pub vel0: Option<f64>,
    pub vel: VelK,
    pub pvs: Vec<PvK>,
    pub pms: Vec<PmK>,
    pub goal: GoalKind,
    pub stop: StopK,
    pub loggers: u32,
}

struct CustomVel(Rng, f64);
impl<F: Fl> VelocityCalculator<F> for CustomVel {
    fn calc_new_velocity(&mut self, _s: &Swarm<F>, p: &Particle<F>) -> Vec<F> {
        let s = self.1;
        p.get_parameter().iter().map(|_| F::of(self.0.f(-s, s))).collect()
    }
}
struct Scale(f64);
impl<F: Fl> PostVelocityCalc<F> for Scale {
    fn correct_velocity(&mut self, v: Vec<F>) -> Vec<F> {
        v.into_iter().map(|x| -x * F::of(self.0)).collect()
    }
}
struct Shift(f64);
impl<F: Fl> PostMove<F> for Shift {
    fn post_move(&mut self, c: &mut Vec<F>) {
        for (i, x) in c.iter_mut().enumerate() {
            *x = *x + F::of(self.0 * (i as f64 + 1.0));
        }
    }
}

impl InertK {
    pub fn build<F: Fl>(&self) -> Box<dyn Inertia<F>> {
        match self {
            InertK::Const(w) => Box::new(ConstInertia::new(F::of(*w))),
            InertK::Linear(a, b, t) => Box::new(LinearInertia::new(F::of(*a), F::of(*b), *t)),
        }
    }
    pub fn value(&self, iter: usize) -> f64 {
        match self {
            InertK::Const(w) => *w,
            InertK::Linear(lo, hi, t) => hi - (hi - lo) * (iter.min(*t) as f64) / (*t as f64),
        }
    }
}
impl VelK {
    pub fn random(r: &mut Rng) -> VelK {
        if r.chance(0.08) {
            // Unusual parameters that do not let the swarm explode.
            let tiny = |r: &mut Rng| 10f64.powf(r.f(-6.0, 0.0));
            return match r.below(4) {
                0 => VelK::Canonical(r.f(0.0, 3.0), 4.01 + 10f64.powf(r.f(-2.0, 2.7)), r.f(0.0, 1.0).powi(4).max(1e-6).min(0.999)),
                1 => VelK::Classic(tiny(r), tiny(r)),
                2 => VelK::Inertia(r.f(0.0, 2.0), tiny(r), if r.chance(0.5) { InertK::Const(*r.pick(&[0.0, 1.0, 1e-5, -0.5, 1.01])) } else { InertK::Linear(r.f(0.5, 1.0), r.f(-0.2, 0.4), r.range(1, 200)) }),
                _ => VelK::Negative([tiny(r), r.f(0.0, 4.0), tiny(r), r.f(0.0, 1.0), tiny(r), r.f(0.0, 3.0), tiny(r)]),
            };
        }
        match r.below(9) {
            0 | 1 => VelK::Classic(r.f(0.0, 3.0), r.f(0.0, 3.0)),
            2 | 3 => VelK::Canonical(r.f(1.0, 4.0), r.f(3.5, 6.0), r.f(0.05, 0.95)),
            4 => VelK::Inertia(r.f(0.0, 3.0), r.f(0.0, 3.0), InertK::Const(r.f(0.0, 1.0))),
            5 => VelK::Inertia(r.f(0.0, 3.0), r.f(0.0, 3.0), InertK::Linear(r.f(0.1, 0.4), r.f(0.5, 1.0), if r.chance(0.1) { r.range(31, 400) } else { r.range(1, 30) })),
            6 | 7 => VelK::Negative([r.f(0.0, 4.0), r.f(0.0, 4.0), r.f(0.0, 4.0), r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.0, 1.0), r.f(0.1, 1.0)]),
            _ => VelK::Custom(r.u64(), 10.0),
        }
    }
    pub fn build<F: Fl>(&self) -> Box<dyn VelocityCalculator<F>> {
        let f = F::of;
        match self {
            VelK::Classic(a, b) => Box::new(ClassicVelocityCalculator::new(f(*a), f(*b))),
            VelK::Canonical(a, b, c) => Box::new(CanonicalVelocityCalculator::new(f(*a), f(*b), f(*c))),
            VelK::Inertia(a, b, i) => Box::new(InertiaVelocityCalculator::new(f(*a), f(*b), i.build())),
            VelK::Negative(p) => Box::new(NegativeReinforcement::new(f(p[0]), f(p[1]), f(p[2]), f(p[3]), f(p[4]), f(p[5]), f(p[6]))),
            VelK::Custom(s, w) => Box::new(CustomVel(Rng(*s), *w)),
        }
    }
}
impl<F: Fl> PsoCfg<F> {
    pub fn random(r: &mut Rng, max_it: usize) -> Self {
        // Now and then something much larger than usual.
        let max_it = if r.chance(0.01) { max_it * 8 } else { max_it };
        let dim = if r.chance(0.03) { r.range(6, 20) } else { *r.pick(&[1, 1, 2, 3, 5]) };
        let n = if r.chance(0.02) { r.range(21, 150) } else { *r.pick(&[1, 2, 3, 5, 10, 20]) };
        let (dim, n) = match r.below(2000) {
            0..=4 => (r.range(60, 300), n.min(3)),
            5 => (1, r.range(260, 600)),
            _ => (dim, n),
        };
        let crowd = n > 256;
        let many = |r: &mut Rng| if r.chance(0.005) { r.range(5, 30) } else { 0 };
        let (dim, n) = if lengthy() { (dim.min(3), r.range(1, 9)) } else { (dim, n) };
        let stop = if crowd && !lengthy() { Some(StopK::Iters(r.below(2))) } else if lengthy() { Some(StopK::Iters(long_span(r))) } else { None };
        let iv = intervals::<F>(r, dim);
        let width = iv.iter().map(|(a, b)| (*b - *a).f()).fold(f64::INFINITY, f64::min);
        let mut pvs = vec![];
        for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
            pvs.push(match r.below(5) {
                0 | 1 => PvK::Dims((0..dim).map(|_| r.f(0.0, width)).collect()),
                2 | 3 => PvK::Abs(r.f(0.01, 1.0) * width),
                _ => PvK::Scale(r.f(0.1, 1.0)),
            });
        }
        let mut pms = vec![];
        for _ in 0..*r.pick(&[0, 1, 1, 2]) {
            pms.push(match r.below(5) {
                0 | 1 | 2 => PmK::Boundary,
                3 => PmK::Teleport(*r.pick(&[0.0, 0.05, 0.5, 1.0])),
                _ => PmK::Shift(r.f(-1.0, 1.0)),
            });
        }
        for _ in 0..many(r) {
            pvs.push(if r.chance(0.2) { PvK::Abs(r.f(0.5, 1.0) * width) } else { PvK::Scale(r.f(0.8, 1.2)) });
        }
        for _ in 0..many(r) {
            pms.push(if r.chance(0.2) { PmK::Boundary } else { PmK::Shift(r.f(-0.1, 0.1)) });
        }
        PsoCfg {
            iv,
            n,
            vel0: if r.chance(0.3) { None } else { Some(r.f(0.01, 2.0)) },
            vel: VelK::random(r),
            pvs,
            pms,
            goal: GoalKind::any(r),
            stop: stop.unwrap_or_else(|| StopK::random(r, max_it)),
            loggers: r.range(1, 2) as u32,
        }
    }
    /// Now and then velocities so great that positions or velocities overflow.
    pub fn diverge(&mut self, r: &mut Rng, chance: f64) {
        if !r.chance(chance) {
            return;
        }
        let big = if F::BITS == 32 { 10f64.powi(r.range(15, 37) as i32) } else { 10f64.powi(r.range(100, 300) as i32) };
        if r.chance(0.5) {
            self.vel0 = Some(big);
        }
        match &mut self.vel {
            VelK::Classic(a, b) | VelK::Inertia(a, b, _) => *(if r.chance(0.5) { a } else { b }) *= big,
            VelK::Canonical(a, ..) => *a *= big,
            VelK::Negative(p) => p[r.below(7)] *= big,
            VelK::Custom(_, w) => *w = big,
        }
        if r.chance(0.5) {
            self.pvs.clear();
        }
    }
    pub fn show(&self) -> String {
        format!("{} {:?}", F::NAME, self)
    }
    pub fn coords(&self) -> Box<dyn CoordinatesInitializer<F>> {
        Box::new(RandomCoordinatesInitializer::new(self.iv.clone(), self.n))
    }
    pub fn vels(&self) -> Box<dyn VelocityInitializer<F>> {
        match self.vel0 {
            None => Box::new(ZeroVelocityInitializer::new(self.iv.len(), self.n)),
            Some(w) => Box::new(RandomVelocityInitializer::new(vec![(F::of(-w), F::of(w)); self.iv.len()], self.n)),
        }
    }
    pub fn bare_post_vels(&self) -> Vec<Box<dyn PostVelocityCalc<F>>> {
        self.pvs
            .iter()
            .map(|k| -> Box<dyn PostVelocityCalc<F>> {
                match k {
                    PvK::Dims(v) => Box::new(MaxVelocityDimensions::new(v.iter().map(|x| F::of(*x)).collect())),
                    PvK::Abs(x) => Box::new(MaxVelocityAbs::new(F::of(*x))),
                    PvK::Scale(x) => Box::new(Scale(*x)),
                }
            })
            .collect()
    }
    pub fn post_vels(&self, l: &Logs, tag: u32) -> Vec<Box<dyn PostVelocityCalc<F>>> {
        self.bare_post_vels()
            .into_iter()
            .enumerate()
            .map(|(i, inner)| {
                PPostVel::new(l, tag + i as u32, inner) as Box<dyn PostVelocityCalc<F>>
            })
            .collect()
    }
    pub fn bare_post_moves(&self) -> Vec<Box<dyn PostMove<F>>>
    where
        F: SampleUniform,
    {
        self.pms
            .iter()
            .map(|k| -> Box<dyn PostMove<F>> {
                match k {
                    PmK::Boundary => Box::new(MoveToBoundary::new(self.iv.clone())),
                    PmK::Teleport(p) => Box::new(RandomTeleport::new(self.iv.clone(), *p)),
                    PmK::Shift(x) => Box::new(Shift(*x)),
                }
            })
            .collect()
    }
    pub fn post_moves(&self, l: &Logs, tag: u32) -> Vec<Box<dyn PostMove<F>>>
    where
        F: SampleUniform,
    {
        self.bare_post_moves()
            .into_iter()
            .enumerate()
            .map(|(i, inner)| {
                PPostMove::new(l, tag + i as u32, inner) as Box<dyn PostMove<F>>
            })
            .collect()
    }
    pub fn loggers(&self, l: &Logs, tag: u32, n: u32) -> Vec<Box<dyn Logger<Vec<F>>>> {
        (0..n).map(|i| Box::new(PLogger { tag: tag + i, l: l.clone() }) as Box<dyn Logger<Vec<F>>>).collect()
    }
    pub fn build_with(&self, l: &Logs, stop: Box<dyn StopChecker<Vec<F>>>) -> ParticleSwarmOptimizer<'static, F> {
        let mut o = ParticleSwarmOptimizer::new(
            pgoal::<F>(l, self.goal.clone()),
            Box::new(PStop { tag: 0, l: l.clone(), inner: stop }),
            PCoords::new(l, 0, self.coords()),
            PVels::new(l, 0, self.vels()),
            PCalc::new(l, 0, self.vel.build()),
        );
        o.set_post_velocity_calc(self.post_vels(l, 0));
        o.set_post_moves(self.post_moves(l, 0));
        o.set_loggers(self.loggers(l, 0, self.loggers));
        o
    }
    pub fn build(&self, l: &Logs) -> ParticleSwarmOptimizer<'static, F> {
        self.build_with(l, self.stop.build())
    }
    pub fn logs(&self) -> Logs {
        Logs::new((self.n * if lengthy() { 6000 } else { 400 } + 10_000) as u64, if lengthy() { 10_000 } else { 2000 })
    }
}
pub fn pfind<F: Fl>(o: &mut ParticleSwarmOptimizer<'_, F>, l: &Logs) -> Sol {
    crate::ga::new_call(&l.g);
    l.push(PEv::FindMin);
    let s = o.find_min().map(|(k, v)| (key(&k), v));
    l.push(PEv::Ret(s.clone()));
    s
}
pub fn pnext<F: Fl>(o: &mut ParticleSwarmOptimizer<'_, F>, l: &Logs) -> Sol {
    crate::ga::new_call(&l.g);
    l.push(PEv::Next);
    let s = o.next_iterations().map(|(k, v)| (key(&k), v));
    l.push(PEv::Ret(s.clone()));
    s
}

/// The part of the events the protocol oracles for both optimizers understand.
pub fn common(ev: &[PEv]) -> Vec<crate::ga::Ev> {
    use crate::ga::Ev;
    ev.iter()
        .map(|e| match e {
            PEv::FindMin => Ev::FindMin,
            PEv::Next => Ev::Next,
            PEv::Mark(m) => Ev::Mark(*m),
            PEv::Goal(k, v) => Ev::Goal(k.clone(), *v),
            PEv::Stop(t, s, a) => Ev::Stop(*t, s.clone(), *a),
            PEv::Log(t, k, s) => Ev::Log(*t, *k, s.clone()),
            PEv::Ret(s) => Ev::Ret(s.clone()),
            PEv::Coords(t, k) | PEv::Vels(t, k) => Ev::Created(*t, k.clone()),
            PEv::Calc(t, v, k) => Ev::Mut(*t, v.mine.0.clone(), k.clone()),
            PEv::PostVel(t, a, b) | PEv::PostMove(t, a, b) => Ev::Mut(*t, a.clone(), b.clone()),
        })
        .collect()
}
