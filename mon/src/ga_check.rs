//! Offline oracles over the recorded events of a genetic optimizer.
use crate::ga::*;
use crate::fw::*;
use crate::{ensure, fail};
use std::collections::{HashMap, HashSet};

fn pair_key(k: &Key, v: f64) -> Key {
    let mut x = k.clone();
    x.push(if v.is_nan() { u64::MAX } else { v.to_bits() });
    x
}
fn list_key(l: &[Key]) -> Key {
    let mut x = vec![l.len() as u64];
    for k in l {
        x.push(k.len() as u64);
        x.extend(k);
    }
    x
}
fn ind_keys(p: &Pop) -> Vec<Key> {
    p.ind
        .iter()
        .map(|i| {
            let mut k = pair_key(&i.key, i.val);
            k.push(i.alive as u64);
            k
        })
        .collect()
}
fn alive_pairs(p: &Pop) -> Vec<Key> {
    p.ind.iter().filter(|i| i.alive).map(|i| pair_key(&i.key, i.val)).collect()
}

#[derive(Default)]
pub struct Seen {
    pub gens: u64,
    pub born: u64,
    pub killed: u64,
    pub families: u64,
    pub empty_gens: u64,
    pub pre_changed: u64,
}

/// C03: every candidate passes each stage of its generation exactly once.
pub fn stages(ev: &[Ev], pre_tags: &[u32], seen: &mut Seen) -> R {
    for (si, s) in segments(ev).iter().enumerate() {
        let mut created: Vec<Key> = vec![];
        let mut goals: Vec<Key> = vec![];
        let mut creations = 0;
        for e in &s.prefix {
            match e {
                Ev::Created(_, k) => {
                    creations += 1;
                    created.extend(k.clone())
                }
                Ev::Goal(k, _) => goals.push(k.clone()),
                Ev::Pairs(..) | Ev::Cross(..) | Ev::Mut(..) | Ev::Pre(..) | Ev::Sel(..) => {
                    fail!("call {}: an operator of a generation was called before the first stop check: {:?}", si, e)
                }
                _ => {}
            }
        }
        ensure!(creations == s.find_min as usize, "call {}: creator called {} times (find_min: {})", si, creations, s.find_min);
        if let Some(d) = diff(&created, &goals) {
            fail!("call {}: created candidates and first goal calls differ: {}", si, d);
        }
        for e in &s.suffix {
            if !matches!(e, Ev::Log(..) | Ev::Mark(_)) {
                fail!("call {}: after the stop criterion said stop: {:?}", si, e);
            }
        }
        for (gi, g) in s.gens.iter().enumerate() {
            seen.gens += 1;
            let at = format!("call {} generation {}", si, gi + 1);
            let mut fams: Option<(Vec<Key>, usize)> = None;
            let mut parents: Vec<Key> = vec![];
            let mut kids: Vec<Key> = vec![];
            let mut min: Vec<Key> = vec![];
            let mut mout: Vec<Key> = vec![];
            let mut pres: Vec<(u32, &Vec<Key>, &Vec<Key>)> = vec![];
            let mut goals: Vec<Key> = vec![];
            for e in g {
                match e {
                    Ev::Created(..) => fail!("{}: creator called again", at),
                    Ev::Pairs(_, p, f) => {
                        ensure!(fams.is_none(), "{}: pairing asked twice", at);
                        let mut l = vec![];
                        for fam in f {
                            let mut members = vec![];
                            for i in fam {
                                ensure!(*i < p.ind.len(), "{}: pairing chose index {} of {} individuals", at, i, p.ind.len());
                                members.push(p.ind[*i].key.clone());
                            }
                            l.push(list_key(&members));
                        }
                        fams = Some((l, p.ind.len()));
                    }
                    Ev::Cross(_, i, o) => {
                        parents.push(list_key(i));
                        kids.extend(o.clone());
                    }
                    Ev::Mut(_, i, o) => {
                        min.push(i.clone());
                        mout.push(o.clone());
                    }
                    Ev::Pre(t, _, b, a) => pres.push((*t, b, a)),
                    Ev::Goal(k, _) => goals.push(k.clone()),
                    _ => {}
                }
            }
            let (fams, pop_len) = fams.unwrap_or((vec![], 0));
            ensure!(pop_len == 0 || g.iter().any(|e| matches!(e, Ev::Pairs(..))), "{}: pairing was not asked", at);
            seen.families += fams.len() as u64;
            if let Some(d) = diff(&fams, &parents) {
                fail!("{}: families chosen and families crossed differ: {}", at, d);
            }
            if let Some(d) = diff(&kids, &min) {
                fail!("{}: children of crossings and mutated candidates differ: {}", at, d);
            }
            let mut cur = mout;
            if pres.is_empty() && (pre_tags.is_empty() || cur.is_empty()) {
            } else {
                let tags: Vec<u32> = pres.iter().map(|p| p.0).collect();
                ensure!(tags == pre_tags, "{}: pre-birth stages called {:?}, configured {:?}", at, tags, pre_tags);
                for (t, b, a) in &pres {
                    if let Some(d) = diff(&cur, b) {
                        fail!("{}: what pre-birth stage {} received differs from what the stage before it left: {}", at, t, d);
                    }
                    if b != a {
                        seen.pre_changed += 1;
                    }
                    cur = (*a).clone();
                }
            }
            if let Some(d) = diff(&cur, &goals) {
                fail!("{}: candidates to be born and goal calls differ: {}", at, d);
            }
            seen.born += goals.len() as u64;
            if goals.is_empty() {
                seen.empty_gens += 1;
            }
        }
    }
    Ok(())
}

/// C04: conservation of individuals. Returns per run the population after each generation.
pub fn conservation(ev: &[Ev], sel_tags: &[u32], check_views: bool, seen: &mut Seen) -> R {
    let mut cur: Vec<Key> = vec![];
    for (si, s) in segments(ev).iter().enumerate() {
        if s.find_min {
            cur = s.prefix.iter().filter_map(|e| if let Ev::Goal(k, v) = e { Some(pair_key(k, *v)) } else { None }).collect();
        }
        for (gi, g) in s.gens.iter().enumerate() {
            let at = format!("call {} generation {}", si, gi + 1);
            let mut born: Vec<Key> = vec![];
            let mut sels: Vec<(u32, &Pop, &Pop)> = vec![];
            for e in g {
                match e {
                    Ev::Pairs(_, p, _) | Ev::Pre(_, p, _, _) => {
                        let who = if matches!(e, Ev::Pairs(..)) { "pairing" } else { "pre-birth" };
                        if check_views {
                            if let Some(b) = &p.bad {
                                fail!("{}: population seen by {}: {}", at, who, b);
                            }
                        }
                        ensure!(p.ind.iter().all(|i| i.alive), "{}: {} sees a dead individual", at, who);
                        if let Some(d) = diff(&cur, &alive_pairs(p)) {
                            fail!("{}: survivors of the last generation and the population seen by {} differ: {}", at, who, d);
                        }
                    }
                    Ev::Goal(k, v) => born.push(pair_key(k, *v)),
                    Ev::Sel(t, b, a) => sels.push((*t, b, a)),
                    _ => {}
                }
            }
            let mut want: Vec<Key> = cur.iter().chain(born.iter()).cloned().collect();
            if !(sels.is_empty() && (sel_tags.is_empty() || want.is_empty())) {
                let tags: Vec<u32> = sels.iter().map(|p| p.0).collect();
                ensure!(tags == sel_tags, "{}: selections called {:?}, configured {:?}", at, tags, sel_tags);
                let mut full: Vec<Key> = want
                    .iter()
                    .map(|k| {
                        let mut k = k.clone();
                        k.push(1);
                        k
                    })
                    .collect();
                for (t, b, a) in &sels {
                    if check_views {
                        for p in [b, a] {
                            if let Some(b) = &p.bad {
                                fail!("{}: population seen around selection {}: {}", at, t, b);
                            }
                        }
                    }
                    if let Some(d) = diff(&full, &ind_keys(b)) {
                        fail!("{}: selection {} was offered other individuals (key.., value, alive) than it should: {}", at, t, d);
                    }
                    let strip = |p: &Pop| p.ind.iter().map(|i| pair_key(&i.key, i.val)).collect::<Vec<_>>();
                    if let Some(d) = diff(&strip(b), &strip(a)) {
                        fail!("{}: selection {} changed points or values: {}", at, t, d);
                    }
                    let dead = |p: &Pop| {
                        let mut m: HashMap<Key, i64> = HashMap::new();
                        for i in p.ind.iter().filter(|i| !i.alive) {
                            *m.entry(pair_key(&i.key, i.val)).or_insert(0) += 1;
                        }
                        m
                    };
                    let (db, da) = (dead(b), dead(a));
                    for (k, n) in &db {
                        ensure!(da.get(k).copied().unwrap_or(0) >= *n, "{}: selection {}: a dead individual came back: {:x?}", at, t, k);
                    }
                    full = ind_keys(a);
                }
                let last = sels[sels.len() - 1].2;
                seen.killed += last.ind.iter().filter(|i| !i.alive).count() as u64;
                want = alive_pairs(last);
            }
            cur = want;
            seen.gens += 1;
            seen.born += born.len() as u64;
            if cur.is_empty() {
                seen.empty_gens += 1;
            }
        }
    }
    Ok(())
}

/// C01: honest, best of the survivors, worst, result = last report.
pub fn best_honest(ev: &[Ev], has_sel: bool, seen: &mut Seen) -> R {
    let mut evaluated: HashSet<Key> = HashSet::new();
    let mut cur: Vec<(Key, f64)> = vec![];
    let mut gens_done = 0u64;
    for (si, s) in segments(ev).iter().enumerate() {
        if s.find_min {
            evaluated.clear();
            cur.clear();
            gens_done = 0;
            for e in &s.prefix {
                if let Ev::Goal(k, v) = e {
                    cur.push((k.clone(), *v));
                }
            }
        }
        let honest = |b: &Sol, ev: &HashSet<Key>, at: &str| -> R {
            if let Some((k, v)) = b {
                ensure!(ev.contains(&pair_key(k, *v)), "{}: reported solution {:x?} with value {} was never evaluated with that value in this run", at, k, v);
            }
            Ok(())
        };
        let best_of = |b: &Sol, cur: &[(Key, f64)], at: &str| -> R {
            if cur.is_empty() {
                return Ok(());
            }
            let m = cur.iter().map(|c| c.1).fold(f64::NAN, |a, b| if min_nan(b, a) { b } else { a });
            match b {
                None => fail!("{}: no best solution although {} individuals survived", at, cur.len()),
                Some((k, v)) => {
                    ensure!(*v == m || (v.is_nan() && m.is_nan()), "{}: reported best value {} but the best survivor has {}", at, v, m);
                    ensure!(cur.iter().any(|(l, w)| l == k && same(*w, *v)), "{}: reported best {:x?} ({}) is no survivor", at, k, v);
                }
            }
            Ok(())
        };
        for e in &s.prefix {
            match e {
                Ev::Goal(k, v) => {
                    evaluated.insert(pair_key(k, *v));
                }
                Ev::Log(_, _, st) => {
                    honest(&st.best, &evaluated, &format!("call {} {:?}", si, e))?;
                    if gens_done > 0 {
                        best_of(&st.best, &cur, &format!("call {} before the first check", si))?;
                    }
                }
                _ => {}
            }
        }
        let mut last_reported: Option<Sol> = None;
        for (gi, g) in s.gens.iter().enumerate() {
            let at = format!("call {} generation {}", si, gi + 1);
            // The state at the check that opened this generation, and the views before selection.
            honest(&s.stops[gi].0.best, &evaluated, &at)?;
            if gens_done > 0 {
                best_of(&s.stops[gi].0.best, &cur, &format!("{} (stop check before it)", at))?;
            }
            let mut last_sel: Option<&Pop> = None;
            let mut born = vec![];
            for e in g {
                match e {
                    Ev::Goal(k, v) => {
                        evaluated.insert(pair_key(k, *v));
                        born.push((k.clone(), *v));
                    }
                    Ev::Pairs(_, p, _) | Ev::Pre(_, p, _, _) => {
                        honest(&p.best, &evaluated, &at)?;
                        honest(&p.worst, &evaluated, &at)?;
                        if gens_done > 0 && matches!(e, Ev::Pairs(..)) {
                            best_of(&p.best, &cur, &format!("{} (population seen by the pairing)", at))?;
                            if !cur.is_empty() {
                                let m = cur.iter().map(|c| c.1).filter(|v| !v.is_nan()).fold(f64::NEG_INFINITY, f64::max);
                                let all_nan = cur.iter().all(|c| c.1.is_nan());
                                match &p.worst {
                                    None => fail!("{}: no worst individual although {} survived", at, cur.len()),
                                    Some((k, v)) => {
                                        ensure!(
                                            if all_nan { v.is_nan() } else { *v == m },
                                            "{}: reported worst value {} but the largest of the survivors is {}",
                                            at, v, m
                                        );
                                        ensure!(cur.iter().any(|(l, w)| l == k && same(*w, *v)), "{}: the reported worst {:x?} is no survivor", at, k);
                                    }
                                }
                            }
                        }
                    }
                    Ev::Sel(_, b, a) => {
                        honest(&b.best, &evaluated, &at)?;
                        last_sel = Some(a);
                    }
                    _ => {}
                }
            }
            if has_sel {
                if let Some(p) = last_sel {
                    cur = p.ind.iter().filter(|i| i.alive).map(|i| (i.key.clone(), i.val)).collect();
                }
            } else {
                cur.extend(born);
            }
            gens_done += 1;
            seen.gens += 1;
            for e in g {
                if let Ev::Log(_, _, st) = e {
                    honest(&st.best, &evaluated, &at)?;
                    best_of(&st.best, &cur, &format!("{} (logger)", at))?;
                    last_reported = Some(st.best.clone());
                }
            }
        }
        if let Some((st, true)) = s.stops.last() {
            honest(&st.best, &evaluated, "last stop check")?;
            if gens_done > 0 {
                best_of(&st.best, &cur, &format!("call {} last stop check", si))?;
            }
        }
        for e in &s.suffix {
            if let Ev::Log(_, _, st) = e {
                honest(&st.best, &evaluated, "finish")?;
                if gens_done > 0 {
                    best_of(&st.best, &cur, &format!("call {} finish", si))?;
                }
                last_reported = Some(st.best.clone());
            }
        }
        if let Some(r) = s.ret {
            honest(r, &evaluated, "result")?;
            if let Some(l) = &last_reported {
                ensure!(same_sol(r, l), "call {}: result {:x?} differs from the last solution reported to a logger {:x?}", si, r, l);
            }
            if gens_done > 0 {
                best_of(r, &cur, &format!("call {} result", si))?;
            }
        }
    }
    Ok(())
}

/// C21: the logger protocol (both optimizers produce these events). `n` loggers with tags 0..n.
/// `evals` = number of goal calls expected before start (None: not checked).
pub fn logger_protocol(ev: &[Ev], tags: &[u32], calls: &mut u64) -> R {
    let mut last: Option<St> = None;
    for (si, s) in segments(ev).iter().enumerate() {
        let at = format!("call {}", si);
        let same_st = |a: &St, b: &St| a.iter == b.iter && same_sol(&a.best, &b.best);
        // prefix: [start x loggers], resume x loggers
        let logs: Vec<(usize, u32, LogKind, &St)> =
            s.prefix.iter().enumerate().filter_map(|(i, e)| if let Ev::Log(t, k, st) = e { Some((i, *t, *k, st)) } else { None }).collect();
        let mut want: Vec<(u32, LogKind)> = vec![];
        if s.find_min {
            want.extend(tags.iter().map(|t| (*t, LogKind::Start)));
        }
        want.extend(tags.iter().map(|t| (*t, LogKind::Resume)));
        let got: Vec<(u32, LogKind)> = logs.iter().map(|l| (l.1, l.2)).collect();
        ensure!(got == want, "{}: logger calls before the first iteration {:?}, expected {:?}", at, got, want);
        *calls += got.len() as u64;
        let last_goal = s.prefix.iter().rposition(|e| matches!(e, Ev::Goal(..)));
        for (i, t, k, st) in &logs {
            if s.find_min {
                ensure!(st.iter == 0, "{}: logger {} {:?} shows iteration {}", at, t, k, st.iter);
                if let Some(g) = last_goal {
                    ensure!(*i > g, "{}: logger {} {:?} before the initial agents were evaluated", at, t, k);
                }
            } else if let Some(l) = &last {
                ensure!(same_st(l, st), "{}: state at resume differs from the state before the pause: {:x?} vs {:x?}", at, st, l);
            }
            ensure!(same_st(logs[0].3, st), "{}: loggers see different states at the beginning", at);
        }
        let mut iter = if s.find_min { 0 } else { last.as_ref().map(|l| l.iter).unwrap_or(0) };
        if let Some(l) = logs.last() {
            last = Some(l.3.clone());
        }
        for (gi, g) in s.gens.iter().enumerate() {
            iter += 1;
            let logs: Vec<(usize, u32, LogKind, &St)> =
                g.iter().enumerate().filter_map(|(i, e)| if let Ev::Log(t, k, st) = e { Some((i, *t, *k, st)) } else { None }).collect();
            let got: Vec<(u32, LogKind)> = logs.iter().map(|l| (l.1, l.2)).collect();
            let want: Vec<(u32, LogKind)> = tags.iter().map(|t| (*t, LogKind::Iter)).collect();
            ensure!(got == want, "{} iteration {}: logger calls {:?}, expected {:?}", at, gi + 1, got, want);
            *calls += got.len() as u64;
            let last_other = g.iter().rposition(|e| !matches!(e, Ev::Log(..) | Ev::Mark(_)));
            for (i, t, _, st) in &logs {
                ensure!(st.iter == iter, "{}: logger {} shows iteration {} after iteration {}", at, t, st.iter, iter);
                ensure!(same_st(logs[0].3, st), "{} iteration {}: loggers see different states", at, iter);
                if let Some(o) = last_other {
                    ensure!(*i > o, "{} iteration {}: logger called before the iteration was complete", at, iter);
                }
            }
            if let Some(l) = logs.last() {
                last = Some(l.3.clone());
                if let Some((st, _)) = s.stops.get(gi + 1) {
                    ensure!(same_st(l.3, st), "{} iteration {}: loggers and stop criterion see different states", at, iter);
                }
            }
        }
        let logs: Vec<(u32, LogKind, &St)> = s.suffix.iter().filter_map(|e| if let Ev::Log(t, k, st) = e { Some((*t, *k, st)) } else { None }).collect();
        let got: Vec<(u32, LogKind)> = logs.iter().map(|l| (l.0, l.1)).collect();
        let want: Vec<(u32, LogKind)> = tags.iter().map(|t| (*t, LogKind::Finish)).collect();
        ensure!(got == want, "{}: logger calls after the stop {:?}, expected {:?}", at, got, want);
        *calls += got.len() as u64;
        for (t, _, st) in &logs {
            ensure!(st.iter == iter, "{}: finish of logger {} shows iteration {} after {} iterations", at, t, st.iter, iter);
            if let Some(l) = &last {
                ensure!(same_st(l, st), "{}: finish shows another state than the last call: {:x?} vs {:x?}", at, st, l);
            }
            if let Some(r) = s.ret {
                ensure!(same_sol(&st.best, r), "{}: finish shows {:x?} but the result is {:x?}", at, st.best, r);
            }
        }
        if let Some(l) = logs.last() {
            last = Some(l.2.clone());
        }
    }
    Ok(())
}

/// Reference model of the stop criteria, consulted at every check; a new run starts it afresh.
#[derive(Clone, Debug)]
pub enum StopModel {
    Iters(usize),
    Thresh(f64),
    NoChange { n: usize, d: f64, reference: Option<f64>, changed: usize },
    Any(Vec<StopModel>),
    All(Vec<StopModel>),
}
impl StopModel {
    pub fn new(k: &StopK) -> Self {
        match k {
            StopK::Iters(n) => StopModel::Iters(*n),
            StopK::Thresh(t) => StopModel::Thresh(*t),
            StopK::NoChange(n, d) => StopModel::NoChange { n: *n, d: *d, reference: None, changed: 0 },
            StopK::Any(v) => StopModel::Any(v.iter().map(Self::new).collect()),
            StopK::All(v) => StopModel::All(v.iter().map(Self::new).collect()),
        }
    }
    pub fn check(&mut self, iter: usize, best: Option<f64>) -> bool {
        match self {
            StopModel::Iters(n) => iter >= *n,
            StopModel::Thresh(t) => best.map_or(false, |b| b <= *t),
            StopModel::NoChange { n, d, reference, changed } => match best {
                None => false,
                Some(b) => {
                    let moved = match reference {
                        None => !b.is_nan(),
                        Some(r) => (b - *r).abs() > *d,
                    };
                    if moved {
                        *reference = Some(b);
                        *changed = iter;
                    }
                    iter - *changed > *n
                }
            },
            StopModel::Any(v) => v.iter_mut().fold(false, |a, m| m.check(iter, best) | a),
            StopModel::All(v) => v.iter_mut().fold(true, |a, m| m.check(iter, best) & a),
        }
    }
}

/// C18: the optimizer asks once per iteration, obeys, and the criterion answers as its model does.
pub fn stop_exact(ev: &[Ev], kind: Option<&StopK>, polls: &mut u64) -> R {
    let mut model = kind.map(StopModel::new);
    let mut iter = 0;
    for (si, s) in segments(ev).iter().enumerate() {
        if s.find_min {
            iter = 0;
            model = kind.map(StopModel::new);
        }
        for (k, (st, ans)) in s.stops.iter().enumerate() {
            *polls += 1;
            ensure!(st.iter == iter + k, "call {}: stop check number {} sees iteration {} instead of {}", si, k, st.iter, iter + k);
            if let Some(m) = &mut model {
                let want = m.check(st.iter, st.best.as_ref().map(|b| b.1));
                ensure!(*ans == want, "call {}: at iteration {} with best {:?} the criterion {:?} said {} instead of {}", si, st.iter, st.best.as_ref().map(|b| b.1), kind, ans, want);
            }
            ensure!(!ans || k + 1 == s.stops.len(), "call {}: the run went on after the stop criterion said stop", si);
        }
        if s.ret.is_some() {
            ensure!(s.stops.last().map_or(false, |x| x.1), "call {}: the run ended although the stop criterion did not say so", si);
        }
        for e in &s.suffix {
            ensure!(matches!(e, Ev::Log(..) | Ev::Mark(_)), "call {}: after the stop criterion said stop: {:?}", si, e);
        }
        for (gi, g) in s.gens.iter().enumerate() {
            // A completed iteration is one the loggers hear about or that did something.
            ensure!(!g.is_empty(), "call {}: nothing happened between stop checks {} and {}", si, gi, gi + 1);
        }
        iter += s.gens.len();
    }
    Ok(())
}
