//! A genetic optimizer over unique identities with random operators: whatever happens to a candidate is visible.
use crate::fw::*;
use crate::ga::*;
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum PairT {
    Custom,
    /// The same family several times, families with repeated members.
    Repeats,
    None,
    Random,
    Tournament(usize, usize, usize),
}
#[derive(Clone, Debug)]
pub enum PreT {
    Keep,
    Drop,
    Add,
    Replace,
    Clear,
    Shuffle,
    Dup,
}
#[derive(Clone, Debug)]
pub enum SelT {
    None,
    Some(f64),
    All,
    Rarely,
    Old,
    Finite,
    Limit(usize),
}
#[derive(Clone, Debug)]
pub struct TagCfg {
    pub n0: usize,
    pub pair: PairT,
    pub kids: usize,
    pub pres: Vec<PreT>,
    pub sels: Vec<SelT>,
    pub seed: u64,
    pub special: f64,
    pub loggers: u32,
}
pub struct Ctl {
    pub next: Rc<Cell<u64>>,
    pub log: Log,
}
impl Ctl {
    fn fresh(&self) -> Tag {
        self.next.set(self.next.get() + 1);
        Tag(self.next.get())
    }
}
struct Op {
    c: Ctl,
    r: Rng,
    cfg: TagCfg,
}
struct OpPre(Op, PreT);
struct OpSel(Op, SelT);
impl Creator<Tag> for Op {
    fn create(&mut self) -> Vec<Tag> {
        (0..self.cfg.n0).map(|_| self.c.fresh()).collect()
    }
}
impl Pairing<Tag> for Op {
    fn get_pairs(&mut self, p: &Population<Tag>) -> Vec<Vec<usize>> {
        let n = p.len();
        if n == 0 {
            return vec![];
        }
        let mut out: Vec<Vec<usize>> = vec![];
        let count = self.r.below(5);
        for _ in 0..self.r.rarely(count, 5, 40) {
            let size = self.r.below(5);
            let size = self.r.rarely(size, 5, 30);
            let f: Vec<usize> = (0..size).map(|_| self.r.below(n)).collect();
            out.push(f.clone());
            if matches!(self.cfg.pair, PairT::Repeats) {
                let x = self.r.below(n);
                out.push(vec![x, x]);
                out.push(f);
            }
        }
        if matches!(self.cfg.pair, PairT::None) {
            out.clear();
        }
        out
    }
}
impl Cross<Tag> for Op {
    fn cross(&mut self, _p: &[&Tag]) -> Vec<Tag> {
        (0..self.r.below(self.cfg.kids + 1)).map(|_| self.c.fresh()).collect()
    }
}
impl Mutation<Tag> for Op {
    fn mutation(&mut self, _c: &Tag) -> Tag {
        self.c.fresh()
    }
}
impl PreBirth<Tag> for OpPre {
    fn pre_birth(&mut self, _p: &Population<Tag>, v: &mut Vec<Tag>) {
        let o = &mut self.0;
        match self.1 {
            PreT::Keep => {}
            PreT::Drop => {
                let r = &mut o.r;
                v.retain(|_| r.chance(0.6))
            }
            PreT::Add => {
                for _ in 0..o.r.below(3) {
                    let t = o.c.fresh();
                    v.push(t)
                }
            }
            PreT::Replace => {
                for t in v.iter_mut() {
                    if o.r.chance(0.5) {
                        *t = o.c.fresh()
                    }
                }
            }
            PreT::Clear => {
                if o.r.chance(0.5) {
                    v.clear()
                }
            }
            PreT::Shuffle => o.r.shuffle(v),
            PreT::Dup => {
                if !v.is_empty() {
                    let i = o.r.below(v.len());
                    let t = v[i].clone();
                    v.push(t)
                }
            }
        }
    }
}
impl Selection<Tag> for OpSel {
    fn kill(&mut self, p: &mut Population<Tag>) {
        let o = &mut self.0;
        let n = p.len();
        match self.1 {
            SelT::Some(q) => {
                for i in 0..n {
                    if o.r.chance(q) {
                        p[i].kill()
                    }
                }
            }
            SelT::All => {
                for i in p.iter_mut() {
                    i.kill()
                }
            }
            SelT::Rarely => {
                if o.r.chance(0.15) {
                    for i in p.iter_mut() {
                        i.kill()
                    }
                }
            }
            SelT::Old => {
                for i in p.iter_mut().take(n / 2) {
                    i.kill()
                }
            }
            _ => {}
        }
    }
}

impl TagCfg {
    pub fn random(r: &mut Rng) -> TagCfg {
        let big = r.chance(0.03);
        let huge = big && !lengthy() && r.chance(0.04);
        let n0 = if huge { r.range(1001, 2200) } else if big { r.range(14, 250) } else { *r.pick(&[0, 1, 1, 2, 3, 5, 8, 13]) };
        let pair = match r.below(8) {
            0 => PairT::None,
            1 => PairT::Repeats,
            2 => PairT::Random,
            3 => PairT::Tournament(if big { r.below(60) } else { r.below(5) }, r.range(1, 4), r.below(4)),
            _ => PairT::Custom,
        };
        let mut pres = vec![];
        for _ in 0..*r.pick(&[0, 0, 1, 2, 3]) {
            pres.push(r.pick(&[PreT::Keep, PreT::Drop, PreT::Add, PreT::Replace, PreT::Clear, PreT::Shuffle, PreT::Dup]).clone());
        }
        let mut sels = vec![];
        for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
            sels.push(match r.below(9) {
                0 => SelT::None,
                1 => SelT::All,
                2 => SelT::Rarely,
                3 => SelT::Old,
                4 => SelT::Finite,
                5 => SelT::Limit(r.below(12)),
                6 => SelT::Some(0.05),
                _ => SelT::Some(0.4),
            });
        }
        // Now and then a great number of operators.
        let many = |r: &mut Rng| if r.chance(0.007) { r.range(5, 40) } else { 0 };
        for _ in 0..many(r) {
            pres.push(r.pick(&[PreT::Keep, PreT::Keep, PreT::Shuffle, PreT::Replace, PreT::Add]).clone());
        }
        for _ in 0..many(r) {
            sels.push(r.pick(&[SelT::None, SelT::Some(0.02), SelT::Some(0.02), SelT::Finite]).clone());
        }
        let loggers = many(r);
        // The killing of everything too often would leave nothing to see.
        if r.chance(0.6) {
            sels.retain(|s| !matches!(s, SelT::All));
        }
        // Keep the population bounded.
        sels.push(SelT::Limit(if huge { n0 } else if big { r.range(20, 300) } else { r.range(3, 20) }));
        if lengthy() {
            sels.retain(|s| !matches!(s, SelT::All | SelT::Rarely | SelT::Old | SelT::Some(_)) || r.chance(0.2));
            sels.push(SelT::Limit(r.range(2, 8)));
            pres.retain(|p| !matches!(p, PreT::Clear) || r.chance(0.2));
            let pair = match r.below(4) {
                0 => PairT::None,
                1 => PairT::Random,
                2 => PairT::Tournament(r.below(3), r.range(1, 2), r.below(3)),
                _ => PairT::Custom,
            };
            return TagCfg { n0: r.range(2, 8), pair, kids: r.range(1, 2), pres, sels, seed: r.u64(), special: *r.pick(&[0.0, 0.1, 2.0, 2.0]), loggers: r.range(1, 2) as u32 };
        }
        TagCfg { n0, pair, kids: if r.chance(0.03) { r.range(4, 20) } else { r.range(1, 3) }, pres, sels, seed: r.u64(), special: *r.pick(&[0.0, 0.1, 0.5, 1.0]), loggers: if loggers > 0 { loggers } else { r.range(1, 3) } as u32 }
    }
    fn op(&self, c: &Ctl, salt: u64) -> Op {
        Op { c: Ctl { next: c.next.clone(), log: c.log.clone() }, r: Rng(mix(self.seed ^ salt)), cfg: self.clone() }
    }
    pub fn pairing(&self, c: &Ctl, tag: u32) -> Box<dyn Pairing<Tag>> {
        let inner: Box<dyn Pairing<Tag>> = match self.pair {
            PairT::Random => Box::new(RandomPairing::new()),
            PairT::Tournament(f, p, n) => Box::new(Tournament::new(f).partners_count(p).rounds_count(n)),
            _ => Box::new(self.op(c, u64::from(tag) * 16 + 1)),
        };
        MPairing::new(&c.log, tag, inner)
    }
    pub fn creator(&self, c: &Ctl, tag: u32) -> Box<dyn Creator<Tag>> {
        MCreator::new(&c.log, tag, Box::new(self.op(c, u64::from(tag) * 16 + 2)))
    }
    pub fn crossing(&self, c: &Ctl, tag: u32) -> Box<dyn Cross<Tag>> {
        MCross::new(&c.log, tag, Box::new(self.op(c, u64::from(tag) * 16 + 3)))
    }
    pub fn mutation(&self, c: &Ctl, tag: u32) -> Box<dyn Mutation<Tag>> {
        MMut::new(&c.log, tag, Box::new(self.op(c, u64::from(tag) * 16 + 4)))
    }
    pub fn pre_births(&self, c: &Ctl, tag: u32) -> Vec<Box<dyn PreBirth<Tag>>> {
        self.pres
            .iter()
            .enumerate()
            .map(|(i, k)| MPre::new(&c.log, tag + i as u32, Box::new(OpPre(self.op(c, u64::from(tag) * 16 + 100 + i as u64), k.clone()))) as Box<dyn PreBirth<Tag>>)
            .collect()
    }
    pub fn selections(&self, c: &Ctl, tag: u32) -> Vec<Box<dyn Selection<Tag>>> {
        self.sels
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let inner: Box<dyn Selection<Tag>> = match k {
                    SelT::Finite => Box::new(selection::KillFitnessNaN::new()),
                    SelT::Limit(n) => Box::new(selection::LimitPopulation::new(*n)),
                    _ => Box::new(OpSel(self.op(c, u64::from(tag) * 16 + 200 + i as u64), k.clone())),
                };
                MSel::new(&c.log, tag + i as u32, inner) as Box<dyn Selection<Tag>>
            })
            .collect()
    }
    pub fn loggers(&self, c: &Ctl, tag: u32, n: u32) -> Vec<Box<dyn Logger<Tag>>> {
        (0..n).map(|i| Box::new(MLogger { tag: tag + i, log: c.log.clone() }) as Box<dyn Logger<Tag>>).collect()
    }
    /// Goal values: unique numbers, ties and specials, by identity.
    pub fn goal(&self, c: &Ctl) -> Box<MGoal<Tag>> {
        let (seed, special) = (self.seed, self.special);
        Box::new(MGoal {
            log: c.log.clone(),
            f: Box::new(move |t: &Tag, _| {
                let mut r = Rng(mix(seed ^ mix(t.0)));
                if special > 1.0 {
                    *r.pick(&[1.0, 1.0, 2.0])
                } else if r.chance(special) {
                    *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, 1.0, f64::MAX])
                } else {
                    r.f(-10.0, 10.0)
                }
            }),
        })
    }
    pub fn build(&self, c: &Ctl, stop: Box<dyn StopChecker<Tag>>) -> GeneticOptimizer<'static, Tag> {
        let mut o = GeneticOptimizer::new(
            self.goal(c),
            MStop::new(&c.log, 0, stop),
            self.creator(c, 0),
            self.pairing(c, 0),
            self.crossing(c, 0),
            self.mutation(c, 0),
            self.selections(c, 0),
            self.pre_births(c, 0),
        );
        o.set_loggers(self.loggers(c, 0, self.loggers));
        o
    }
    pub fn ctl(&self) -> Ctl {
        Ctl { next: Rc::new(Cell::new(0)), log: new_log(200_000, 5000) }
    }
}
