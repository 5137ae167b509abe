//! Symbolic interpreter: forking depth-first exploration of the decoded IR.
use crate::expr::{self, Arena, Bits, Val, E, K};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec {
    B(bool),
    V(u64),
    NV(u64),
    C(u32),
    S(u32),
}

#[derive(Clone, Copy)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
    pub ret: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    Ok,
    Fail(u32),
    Panic(String),
    Limit,
    AssumeFalse,
    Abort(String),
    Engine(String),
    Unknown(String),
}

pub type Obs = Rc<Vec<(u8, E)>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub sp: u64,
    pub nb: u8,
    pub doms: Vec<Bits>,
    pub multi: Vec<E>,
    pub multi_mask: u64,
    pub model: Vec<u8>,
    pub log: Vec<Dec>,
    pub choices: Vec<u32>,
    pub obs: Vec<(u32, Obs)>,
    pub reach: u128,
    pub steps: u64,
    pub zmode: bool,
    pub forced: Option<(E, bool)>,
    pub replay: Option<Rc<Vec<Dec>>>,
    pub choice_ready: Option<u32>,
}

enum Stop {
    T(Term),
    Snap,
}

#[derive(Default, Clone)]
pub struct XStats {
    pub steps: u64,
    pub forks: u64,
    pub decisions: u64,
    pub sym_branches: u64,
    pub certified: u64,
    pub cache_hits: u64,
    pub luts: u64,
    pub concretizations: u64,
    pub max_depth: usize,
}

pub struct Exec<'m> {
    pub last: std::time::Instant,
    pub m: &'m Module,
    pub ar: Arena,
    pub z: Z3,
    pub pending: Vec<State>,
    pub st: XStats,
    pub limit: u64,
    pub touched: Vec<bool>,
    certs: HashSet<(E, bool, Bits)>,
    qcache: HashMap<(Vec<(E, bool)>, Vec<(u8, Bits)>), Option<Option<Vec<(u8, u8)>>>>,
    clock: u64,
    pub cover: Option<Vec<Vec<bool>>>,
}

fn band(a: &Bits, b: &Bits) -> Bits {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn bnot(a: &Bits) -> Bits {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn bempty(a: &Bits) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn bhas(a: &Bits, i: u8) -> bool {
    (a[(i >> 6) as usize] >> (i & 63)) & 1 == 1
}
fn bcount(a: &Bits) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
fn bpick(a: &Bits) -> u8 {
    for k in 0..256u32 {
        let i = ((k + 97) & 255) as u8;
        if bhas(a, i) {
            return i;
        }
    }
    panic!("empty domain")
}

impl State {
    pub fn new(image: &[u8]) -> State {
        State {
            frames: vec![],
            regs: vec![],
            mem: Mem::new(image),
            sp: STACK_BASE + 64,
            nb: 0,
            doms: vec![],
            multi: vec![],
            multi_mask: 0,
            model: vec![],
            log: vec![],
            choices: vec![],
            obs: vec![],
            reach: 0,
            steps: 0,
            zmode: false,
            forced: None,
            replay: None,
            choice_ready: None,
        }
    }
}

macro_rules! flt {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(Fault(a)) => return Err(Stop::T(Term::Engine(format!("memory fault at {:#x}", a)))),
        }
    };
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, limit: u64, z3_timeout: u32) -> Exec<'m> {
        Exec {
            last: std::time::Instant::now(),
            m,
            ar: Arena::new(),
            z: Z3::new(z3_timeout),
            pending: vec![],
            st: XStats::default(),
            limit,
            touched: vec![false; m.funcs.len()],
            certs: HashSet::new(),
            qcache: HashMap::new(),
            clock: 0,
            cover: None,
        }
    }
    pub fn start(&mut self, entry: &str) -> State {
        let f = *self.m.fn_ids.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let mut s = State::new(&self.m.image);
        s.regs.resize(self.m.funcs[f as usize].nregs as usize, Val::default());
        s.frames.push(Frame { f, pc: 0, base: 0, sp: s.sp, ret: u32::MAX });
        s
    }
    /// run concretely up to the first symbolic operation
    pub fn snapshot(&mut self, entry: &str) -> Result<State, Term> {
        let mut s = self.start(entry);
        match self.go(&mut s, true) {
            Stop::Snap => Ok(s),
            Stop::T(t) => Err(t),
        }
    }
    pub fn run(&mut self, s: &mut State) -> Term {
        let b = s.steps;
        let r = self.go(s, false);
        self.st.steps += s.steps - b;
        match r {
            Stop::T(t) => t,
            Stop::Snap => unreachable!(),
        }
    }
    fn go(&mut self, s: &mut State, snap: bool) -> Stop {
        match self.interp(s, snap) {
            Ok(()) => Stop::T(Term::Ok),
            Err(x) => x,
        }
    }

    // ---------- decisions ----------
    fn slice(&self, s: &State, mask: u64) -> (u64, Vec<(E, bool)>) {
        let mut m = mask;
        let mut out: Vec<(E, bool)> = vec![];
        if s.multi_mask & m == 0 {
            return (m, out);
        }
        let mut used = vec![false; s.multi.len()];
        loop {
            let mut ch = false;
            for (i, e) in s.multi.iter().enumerate() {
                if !used[i] {
                    let p = self.ar.sup(*e);
                    if p & m != 0 {
                        used[i] = true;
                        m |= p;
                        out.push((*e, true));
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (m, out)
    }
    /// Some(Some(model)) sat, Some(None) unsat, None unknown
    fn query(&mut self, s: &State, conds: &[(E, bool)]) -> Option<Option<Vec<(u8, u8)>>> {
        let mut mask = 0;
        for (e, _) in conds {
            mask |= self.ar.sup(*e);
        }
        let (mask, mut cs) = self.slice(s, mask);
        cs.extend_from_slice(conds);
        cs.sort();
        cs.dedup();
        let mut ds = vec![];
        for b in 0..64u8 {
            if (mask >> b) & 1 == 1 {
                ds.push((b, s.doms[b as usize]));
            }
        }
        let key = (cs, ds);
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let r = match self.z.check(&self.ar, &key.0, &key.1) {
            Res::Sat(m) => Some(Some(m)),
            Res::Unsat => Some(None),
            Res::Unknown => None,
        };
        self.qcache.insert(key, r.clone());
        r
    }
    fn certify(&mut self, s: &State, e: E, pol: bool, b: u8) {
        let d = s.doms[b as usize];
        if self.certs.contains(&(e, pol, d)) {
            self.st.cache_hits += 1;
            return;
        }
        match self.z.check(&self.ar, &[(e, pol)], &[(b, d)]) {
            Res::Unsat => {}
            Res::Sat(_) => panic!("engine: table and solver disagree on an infeasible branch"),
            Res::Unknown => panic!("solver gave no verdict on a single-byte query"),
        }
        self.st.certified += 1;
        self.certs.insert((e, pol, d));
    }
    /// is (e == pol) feasible given the path condition; model delta if so
    fn feasible(&mut self, s: &State, e: E, pol: bool) -> Option<Option<Vec<(u8, u8)>>> {
        if let Some(b) = self.ar.single(e) {
            let bits = self.ar.bits(e);
            let want = if pol { bits } else { bnot(&bits) };
            let d = band(&s.doms[b as usize], &want);
            if bempty(&d) {
                self.certify(s, e, pol, b);
                return Some(None);
            }
            if (s.multi_mask >> b) & 1 == 0 {
                return Some(Some(vec![(b, bpick(&d))]));
            }
        }
        self.query(s, &[(e, pol)])
    }
    fn constrain(&mut self, s: &mut State, e: E, pol: bool) {
        if let Some(b) = self.ar.single(e) {
            let bits = self.ar.bits(e);
            let want = if pol { bits } else { bnot(&bits) };
            s.doms[b as usize] = band(&s.doms[b as usize], &want);
            return;
        }
        match self.ar.k(e).clone() {
            K::Const(_) => return,
            K::Bin(Bop::And, a, b) if pol => {
                self.constrain(s, a, true);
                self.constrain(s, b, true);
                return;
            }
            K::Bin(Bop::Or, a, b) if !pol => {
                self.constrain(s, a, false);
                self.constrain(s, b, false);
                return;
            }
            K::Bin(Bop::Xor, a, b) if self.ar.is_const(b) == Some(1) => {
                self.constrain(s, a, !pol);
                return;
            }
            _ => {}
        }
        let x = if pol { e } else { self.ar.not(e) };
        if !s.multi.contains(&x) {
            s.multi.push(x);
        }
        s.multi_mask |= self.ar.sup(x);
    }
    fn apply(&mut self, s: &mut State, e: E, pol: bool, m: &[(u8, u8)]) {
        self.constrain(s, e, pol);
        for (b, v) in m {
            s.model[*b as usize] = *v;
        }
    }
    fn cur_dec(&self, s: &State) -> Option<Dec> {
        match &s.replay {
            Some(r) if s.log.len() < r.len() => Some(r[s.log.len()]),
            _ => None,
        }
    }
    fn decide(&mut self, s: &mut State, e: E) -> Result<bool, Stop> {
        if let Some((f, p)) = s.forced.take() {
            if f == e {
                return Ok(p);
            }
        }
        self.st.sym_branches += 1;
        let mv = self.ar.eval(e, &s.model) != 0;
        let other = match self.feasible(s, e, !mv) {
            None => return Err(Stop::T(Term::Unknown("solver unknown".into()))),
            Some(x) => x,
        };
        let Some(om) = other else {
            // record implied multi-constraints is unnecessary
            return Ok(mv);
        };
        self.st.decisions += 1;
        if let Some(d) = self.cur_dec(s) {
            let Dec::B(p) = d else { return Err(Stop::T(Term::Engine(format!("replay divergence {:?}", d)))) };
            s.log.push(Dec::B(p));
            if p == mv {
                self.apply(s, e, p, &[]);
            } else {
                self.apply(s, e, p, &om);
            }
            return Ok(p);
        }
        self.st.forks += 1;
        let mut o = s.clone();
        o.log.push(Dec::B(!mv));
        self.apply(&mut o, e, !mv, &om);
        o.forced = Some((e, !mv));
        self.pending.push(o);
        s.log.push(Dec::B(mv));
        self.apply(s, e, mv, &[]);
        Ok(mv)
    }
    fn assume(&mut self, s: &mut State, e: E) -> Result<(), Stop> {
        let mv = self.ar.eval(e, &s.model) != 0;
        if mv {
            self.apply(s, e, true, &[]);
            return Ok(());
        }
        match self.feasible(s, e, true) {
            None => Err(Stop::T(Term::Unknown("solver unknown".into()))),
            Some(None) => Err(Stop::T(Term::AssumeFalse)),
            Some(Some(m)) => {
                self.apply(s, e, true, &m);
                Ok(())
            }
        }
    }
    /// concretize a value, forking over its feasible values
    fn conc(&mut self, s: &mut State, v: Val) -> Result<u64, Stop> {
        if v.is_c() {
            return Ok(v.v);
        }
        let e = v.e;
        let w = self.ar.w(e);
        if w == 1 {
            return Ok(self.decide(s, e)? as u64);
        }
        if let Some(b) = self.ar.single(e) {
            let d = s.doms[b as usize];
            let mut vals: Vec<(u64, Bits)> = vec![];
            for i in 0..=255u8 {
                if bhas(&d, i) {
                    let x = self.ar.nodes[e as usize].tab.get(i);
                    match vals.iter_mut().find(|q| q.0 == x) {
                        Some(q) => q.1[(i >> 6) as usize] |= 1 << (i & 63),
                        None => {
                            let mut bb = [0u64; 4];
                            bb[(i >> 6) as usize] |= 1 << (i & 63);
                            vals.push((x, bb));
                        }
                    }
                }
            }
            if vals.len() == 1 {
                return Ok(vals[0].0);
            }
            if (s.multi_mask >> b) & 1 == 0 {
                self.st.concretizations += 1;
                self.st.decisions += 1;
                if let Some(dd) = self.cur_dec(s) {
                    let Dec::V(x) = dd else { return Err(Stop::T(Term::Engine(format!("replay divergence {:?}", dd)))) };
                    let q = vals.iter().find(|q| q.0 == x).unwrap();
                    s.log.push(dd);
                    s.doms[b as usize] = q.1;
                    s.model[b as usize] = bpick(&q.1);
                    return Ok(x);
                }
                for q in vals[1..].iter().rev() {
                    let mut o = s.clone();
                    o.log.push(Dec::V(q.0));
                    o.doms[b as usize] = q.1;
                    o.model[b as usize] = bpick(&q.1);
                    self.pending.push(o);
                    self.st.forks += 1;
                }
                let q = vals[0];
                s.log.push(Dec::V(q.0));
                s.doms[b as usize] = q.1;
                s.model[b as usize] = bpick(&q.1);
                return Ok(q.0);
            }
        }
        let x = self.ar.eval(e, &s.model);
        if let Some(dd) = self.cur_dec(s) {
            // replays resolve values explicitly
            match dd {
                Dec::V(y) => {
                    let c = self.ar.cmp(Pred::Eq, w, v, Val::c(y));
                    s.log.push(dd);
                    if !c.is_c() {
                        if let Some(Some(m)) = self.feasible(s, c.e, true) {
                            if self.ar.eval(c.e, &s.model) != 0 {
                                self.apply(s, c.e, true, &[]);
                            } else {
                                self.apply(s, c.e, true, &m);
                            }
                        } else {
                            return Err(Stop::T(Term::Engine("replay infeasible".into())));
                        }
                    }
                    return Ok(y);
                }
                Dec::NV(y) => {
                    let c = self.ar.cmp(Pred::Ne, w, v, Val::c(y));
                    s.log.push(dd);
                    if !c.is_c() {
                        if self.ar.eval(c.e, &s.model) != 0 {
                            self.apply(s, c.e, true, &[]);
                        } else if let Some(Some(m)) = self.feasible(s, c.e, true) {
                            self.apply(s, c.e, true, &m);
                        } else {
                            return Err(Stop::T(Term::Engine("replay infeasible".into())));
                        }
                    }
                    return self.conc(s, v);
                }
                _ => {
                    // value may have been unique here
                }
            }
        }
        let c = self.ar.cmp(Pred::Eq, w, v, Val::c(x));
        if c.is_c() {
            return Ok(x);
        }
        match self.feasible(s, c.e, false) {
            None => Err(Stop::T(Term::Unknown("solver unknown".into()))),
            Some(None) => Ok(x),
            Some(Some(m)) => {
                self.st.concretizations += 1;
                self.st.decisions += 1;
                self.st.forks += 1;
                let mut o = s.clone();
                o.log.push(Dec::NV(x));
                self.apply(&mut o, c.e, false, &m);
                self.pending.push(o);
                s.log.push(Dec::V(x));
                self.apply(s, c.e, true, &[]);
                Ok(x)
            }
        }
    }
    fn switch_sym(&mut self, s: &mut State, e: E, w: u32, cases: &[(u64, u32)], nedges: usize) -> Result<u32, Stop> {
        let find = |x: u64| -> u32 {
            match cases.binary_search_by(|c| c.0.cmp(&x)) {
                Ok(i) => cases[i].1,
                Err(_) => 0,
            }
        };
        self.st.sym_branches += 1;
        if let Some(b) = self.ar.single(e) {
            let d = s.doms[b as usize];
            let mut groups: Vec<(u32, Bits)> = vec![];
            for i in 0..=255u8 {
                if bhas(&d, i) {
                    let t = find(self.ar.nodes[e as usize].tab.get(i));
                    match groups.iter_mut().find(|q| q.0 == t) {
                        Some(q) => q.1[(i >> 6) as usize] |= 1 << (i & 63),
                        None => {
                            let mut bb = [0u64; 4];
                            bb[(i >> 6) as usize] |= 1 << (i & 63);
                            groups.push((t, bb));
                        }
                    }
                }
            }
            if groups.len() == 1 {
                return Ok(groups[0].0);
            }
            if (s.multi_mask >> b) & 1 == 0 {
                self.st.decisions += 1;
                if let Some(dd) = self.cur_dec(s) {
                    let Dec::S(x) = dd else { return Err(Stop::T(Term::Engine(format!("replay divergence {:?}", dd)))) };
                    let q = groups.iter().find(|q| q.0 == x).unwrap();
                    s.log.push(dd);
                    s.doms[b as usize] = q.1;
                    if !bhas(&q.1, s.model[b as usize]) {
                        s.model[b as usize] = bpick(&q.1);
                    }
                    return Ok(x);
                }
                for q in groups[1..].iter().rev() {
                    let mut o = s.clone();
                    o.log.push(Dec::S(q.0));
                    o.doms[b as usize] = q.1;
                    o.model[b as usize] = bpick(&q.1);
                    self.pending.push(o);
                    self.st.forks += 1;
                }
                let q = groups[0];
                s.log.push(Dec::S(q.0));
                s.doms[b as usize] = q.1;
                s.model[b as usize] = bpick(&q.1);
                return Ok(q.0);
            }
        }
        // general
        let v = Val::s(e);
        let mut conds: Vec<Val> = vec![Val::c(0); nedges];
        let mut none = Val::c(1);
        for (k, t) in cases {
            let c = self.ar.cmp(Pred::Eq, w, v, Val::c(*k));
            conds[*t as usize] = self.ar.bin(Bop::Or, 1, conds[*t as usize], c);
            let nc = self.ar.bin(Bop::Xor, 1, c, Val::c(1));
            none = self.ar.bin(Bop::And, 1, none, nc);
        }
        conds[0] = self.ar.bin(Bop::Or, 1, conds[0], none);
        let mut feas: Vec<(u32, Vec<(u8, u8)>)> = vec![];
        for t in 0..nedges {
            if conds[t].is_c() {
                if conds[t].v == 1 {
                    feas.push((t as u32, vec![]));
                }
                continue;
            }
            if self.ar.eval(conds[t].e, &s.model) != 0 {
                feas.insert(0, (t as u32, vec![]));
                continue;
            }
            match self.feasible(s, conds[t].e, true) {
                None => return Err(Stop::T(Term::Unknown("solver unknown".into()))),
                Some(None) => {}
                Some(Some(m)) => feas.push((t as u32, m)),
            }
        }
        if feas.len() == 1 {
            return Ok(feas[0].0);
        }
        if feas.is_empty() {
            return Err(Stop::T(Term::Engine("switch without feasible target".into())));
        }
        self.st.decisions += 1;
        if let Some(dd) = self.cur_dec(s) {
            let Dec::S(x) = dd else { return Err(Stop::T(Term::Engine(format!("replay divergence {:?}", dd)))) };
            let q = feas.iter().find(|q| q.0 == x).unwrap().clone();
            s.log.push(dd);
            self.apply(s, conds[x as usize].e, true, &q.1);
            return Ok(x);
        }
        for q in feas[1..].iter().rev() {
            let mut o = s.clone();
            o.log.push(Dec::S(q.0));
            self.apply(&mut o, conds[q.0 as usize].e, true, &q.1);
            self.pending.push(o);
            self.st.forks += 1;
        }
        let q = feas[0].clone();
        s.log.push(Dec::S(q.0));
        self.apply(s, conds[q.0 as usize].e, true, &q.1);
        Ok(q.0)
    }

    // ---------- memory ----------
    fn load_slow(&mut self, s: &State, addr: u64, w: u32) -> Result<Val, Stop> {
        let n = ((w + 7) / 8) as usize;
        let mut parts: Vec<(Val, u32)> = Vec::with_capacity(n);
        let mut sym = false;
        for i in 0..n {
            let (v, e) = flt!(s.mem.byte(addr + i as u64));
            if e != 0 {
                // value fixed by the path's domain?
                if let Some(b) = self.ar.single(e) {
                    let d = &s.doms[b as usize];
                    if bcount(d) == 1 {
                        let x = self.ar.nodes[e as usize].tab.get(bpick(d));
                        parts.push((Val::c(x), 8));
                        continue;
                    }
                }
                sym = true;
                parts.push((Val::s(e), 8));
            } else {
                parts.push((Val::c(v as u64), 8));
            }
        }
        if !sym {
            let mut r = 0;
            for (i, p) in parts.iter().enumerate() {
                r |= p.0.v << (8 * i);
            }
            return Ok(Val::c(mask(r, w)));
        }
        let r = self.ar.concat(&parts);
        Ok(self.ar.extract(r, n as u32 * 8, 0, w))
    }
    #[inline(always)]
    fn load(&mut self, s: &State, addr: u64, w: u32) -> Result<Val, Stop> {
        let n = ((w + 7) / 8) as usize;
        match flt!(s.mem.read_fast(addr, n)) {
            Some(v) => Ok(Val::c(mask(v, w))),
            None => self.load_slow(s, addr, w),
        }
    }
    fn load_sym(&mut self, s: &mut State, p: Val, off: u64, w: u32) -> Result<Val, Stop> {
        if let Some(b) = self.ar.single(p.e) {
            let d = s.doms[b as usize];
            if bcount(&d) > 1 {
                let mut t = [0u64; 256];
                let mut ok = true;
                let mut last: Option<(u64, u64)> = None;
                for i in 0..=255u8 {
                    if !bhas(&d, i) {
                        continue;
                    }
                    let a = self.ar.nodes[p.e as usize].tab.get(i).wrapping_add(off);
                    if let Some((la, lv)) = last {
                        if la == a {
                            t[i as usize] = lv;
                            continue;
                        }
                    }
                    let v = self.load(s, a, w);
                    match v {
                        Ok(v) if v.is_c() => {
                            t[i as usize] = v.v;
                            last = Some((a, v.v));
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    // outside the domain: repeat a domain value to keep the table simple
                    let f = t[bpick(&d) as usize];
                    for i in 0..=255u8 {
                        if !bhas(&d, i) {
                            t[i as usize] = f;
                        }
                    }
                    self.st.luts += 1;
                    return Ok(self.ar.lut(b, w, &t));
                }
            }
        }
        let a = self.conc(s, p)?;
        self.load(s, a.wrapping_add(off), w)
    }
    fn store(&mut self, s: &mut State, addr: u64, v: Val, w: u32) -> Result<(), Stop> {
        let n = ((w + 7) / 8) as usize;
        if v.is_c() {
            flt!(s.mem.write_conc(addr, v.v, n));
            return Ok(());
        }
        let full = n as u32 * 8;
        let v = if full != w { self.ar.zext(v, w, full) } else { v };
        for i in 0..n {
            let b = self.ar.extract(v, full, 8 * i as u32, 8);
            flt!(s.mem.set_byte(addr + i as u64, b.v as u8, b.e));
        }
        Ok(())
    }

    // ---------- interpreter ----------
    fn loc_string(&self, s: &State, p: Val) -> String {
        if !p.is_c() {
            return "?".into();
        }
        let rd = |a: u64, n: usize| s.mem.read_fast(a, n).ok().flatten().unwrap_or(0);
        let fp = rd(p.v, 8);
        let fl = rd(p.v + 8, 8);
        if fl > 4096 {
            return "?".into();
        }
        let mut f = String::new();
        for i in 0..fl {
            if let Ok((b, _)) = s.mem.byte(fp + i) {
                f.push(b as char);
            }
        }
        let f = f.trim_end_matches('\0').to_string();
        let base: Vec<&str> = f.rsplit('/').take(3).collect();
        let base: Vec<&str> = base.into_iter().rev().collect();
        format!("{}:{}:{}", base.join("/"), rd(p.v + 16, 4), rd(p.v + 20, 4))
    }

    fn interp(&mut self, s: &mut State, snap: bool) -> Result<(), Stop> {
        let m = self.m;
        let mut fr = *s.frames.last().unwrap();
        let mut func: &Func = &m.funcs[fr.f as usize];
        self.touched[fr.f as usize] = true;
        let mut pc = fr.pc as usize;
        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o >= 0 {
                    unsafe { *s.regs.get_unchecked(fr.base as usize + o as usize) }
                } else {
                    Val { v: unsafe { *func.consts.get_unchecked((-o - 1) as usize) }, e: 0 }
                }
            }};
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                unsafe {
                    *s.regs.get_unchecked_mut(fr.base as usize + $d as usize) = v;
                }
            }};
        }
        macro_rules! sync {
            () => {
                s.frames.last_mut().unwrap().pc = pc as u32
            };
        }
        macro_rules! take_edge {
            ($e:expr) => {{
                let e: &Edge = $e;
                if e.par {
                    let vals: Vec<Val> = e.copies.iter().map(|(_, o)| get!(*o)).collect();
                    for ((d, _), v) in e.copies.iter().zip(vals) {
                        set!(*d, v);
                    }
                } else {
                    for (d, o) in e.copies.iter() {
                        set!(*d, get!(*o));
                    }
                }
                pc = e.pc as usize;
                continue;
            }};
        }
        loop {
            s.steps += 1;
            if s.steps > self.limit {
                return Err(Stop::T(Term::Limit));
            }
            let inst = unsafe { func.code.get_unchecked(pc) };
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    let w = *w as u32;
                    if (x.e | y.e) == 0 {
                        match expr::bin(*op, w, x.v, y.v) {
                            Some(v) => set!(*d, Val::c(v)),
                            None => return Err(Stop::T(Term::Engine("division by zero".into()))),
                        }
                    } else {
                        let v = self.ar.bin(*op, w, x, y);
                        set!(*d, v);
                    }
                }
                Inst::ICmp { p, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    if (x.e | y.e) == 0 {
                        set!(*d, Val::c(expr::cmp(*p, *w as u32, x.v, y.v) as u64));
                    } else {
                        let v = self.ar.cmp(*p, *w as u32, x, y);
                        set!(*d, v);
                    }
                }
                Inst::Mov { d, a } => set!(*d, get!(*a)),
                Inst::Load { d, p, off, w } => {
                    let a = get!(*p);
                    let v = if a.is_c() {
                        match s.mem.read_fast(a.v.wrapping_add(*off as u64), ((*w as usize) + 7) / 8) {
                            Ok(Some(v)) => Val::c(mask(v, *w as u32)),
                            Ok(None) => {
                                sync!();
                                self.load_slow(s, a.v.wrapping_add(*off as u64), *w as u32)?
                            }
                            Err(Fault(x)) => {
                                return Err(Stop::T(Term::Engine(format!("load fault at {:#x} in {}", x, func.name))));
                            }
                        }
                    } else {
                        sync!();
                        self.load_sym(s, a, *off as u64, *w as u32)?
                    };
                    set!(*d, v);
                }
                Inst::Store { p, off, v, w } => {
                    let a = get!(*p);
                    let x = get!(*v);
                    let addr = if a.is_c() {
                        a.v
                    } else {
                        sync!();
                        self.conc(s, a)?
                    };
                    if x.is_c() {
                        flt!(s.mem.write_conc(addr.wrapping_add(*off as u64), x.v, ((*w as usize) + 7) / 8));
                    } else {
                        self.store(s, addr.wrapping_add(*off as u64), x, *w as u32)?;
                    }
                }
                Inst::Gep0 { d, base, off } => {
                    let a = get!(*base);
                    if a.is_c() {
                        set!(*d, Val::c(a.v.wrapping_add(*off as u64)));
                    } else {
                        let v = self.ar.bin(Bop::Add, 64, a, Val::c(*off as u64));
                        set!(*d, v);
                    }
                }
                Inst::Gep1 { d, base, off, i, scale, iw } => {
                    let a = get!(*base);
                    let x = get!(*i);
                    if (a.e | x.e) == 0 {
                        set!(*d, Val::c(a.v.wrapping_add(*off as u64).wrapping_add((sx(x.v, *iw as u32).wrapping_mul(*scale)) as u64)));
                    } else {
                        let x = self.ar.sext(x, *iw as u32, 64);
                        let t = self.ar.bin(Bop::Mul, 64, x, Val::c(*scale as u64));
                        let t = self.ar.bin(Bop::Add, 64, t, Val::c(*off as u64));
                        let v = self.ar.bin(Bop::Add, 64, a, t);
                        set!(*d, v);
                    }
                }
                Inst::Gep { d, base, off, terms } => {
                    let mut a = get!(*base);
                    a = if a.is_c() { Val::c(a.v.wrapping_add(*off as u64)) } else { self.ar.bin(Bop::Add, 64, a, Val::c(*off as u64)) };
                    for (o, sc, iw) in terms.iter() {
                        let x = get!(*o);
                        if (a.e | x.e) == 0 {
                            a.v = a.v.wrapping_add(sx(x.v, *iw as u32).wrapping_mul(*sc) as u64);
                        } else {
                            let x = self.ar.sext(x, *iw as u32, 64);
                            let t = self.ar.bin(Bop::Mul, 64, x, Val::c(*sc as u64));
                            a = self.ar.bin(Bop::Add, 64, a, t);
                        }
                    }
                    set!(*d, a);
                }
                Inst::Br(e) => take_edge!(e),
                Inst::CondBr { c, t, f } => {
                    let v = get!(*c);
                    let b = if v.is_c() {
                        v.v & 1 != 0
                    } else {
                        sync!();
                        self.decide(s, v.e)?
                    };
                    if b {
                        take_edge!(t)
                    } else {
                        take_edge!(f)
                    }
                }
                Inst::Switch { v, w, cases, edges, tab } => {
                    let x = get!(*v);
                    let i = if x.is_c() {
                        match tab {
                            Some((lo, t)) => {
                                let k = x.v.wrapping_sub(*lo);
                                if k < t.len() as u64 {
                                    t[k as usize]
                                } else {
                                    0
                                }
                            }
                            None => match cases.binary_search_by(|c| c.0.cmp(&x.v)) {
                                Ok(i) => cases[i].1,
                                Err(_) => 0,
                            },
                        }
                    } else {
                        sync!();
                        self.switch_sym(s, x.e, *w as u32, cases, edges.len())?
                    };
                    take_edge!(&edges[i as usize])
                }
                Inst::Zext { from, to, d, a } => {
                    let x = get!(*a);
                    if x.is_c() {
                        set!(*d, x);
                    } else {
                        let v = self.ar.zext(x, *from as u32, *to as u32);
                        set!(*d, v);
                    }
                }
                Inst::Sext { from, to, d, a } => {
                    let x = get!(*a);
                    let v = self.ar.sext(x, *from as u32, *to as u32);
                    set!(*d, v);
                }
                Inst::Trunc { to, d, a } => {
                    let x = get!(*a);
                    if x.is_c() {
                        set!(*d, Val::c(mask(x.v, *to as u32)));
                    } else {
                        let w = self.ar.w(x.e);
                        let v = self.ar.extract(x, w, 0, *to as u32);
                        set!(*d, v);
                    }
                }
                Inst::Select { d, c, a, b, w } => {
                    let x = get!(*c);
                    if x.is_c() {
                        if x.v & 1 != 0 {
                            set!(*d, get!(*a));
                        } else {
                            set!(*d, get!(*b));
                        }
                    } else {
                        let (p, q) = (get!(*a), get!(*b));
                        let v = self.ar.ite(x, p, q, *w as u32);
                        set!(*d, v);
                    }
                }
                Inst::Alloca { d, size, align, n } => {
                    let k = get!(*n);
                    let k = if k.is_c() {
                        k.v
                    } else {
                        sync!();
                        self.conc(s, k)?
                    };
                    let p = (s.sp + align - 1) / align * align;
                    s.sp = p + size * k;
                    if s.sp > STACK_BASE + STACK_SIZE - 4096 {
                        return Err(Stop::T(Term::Abort("stack overflow".into())));
                    }
                    set!(*d, Val::c(p));
                }
                Inst::Call { f, args, d } => {
                    s.frames.last_mut().unwrap().pc = pc as u32 + 1;
                    let nf = &m.funcs[*f as usize];
                    let nb = fr.base as usize + func.nregs as usize;
                    s.regs.resize(nb + nf.nregs as usize, Val::default());
                    for (i, a) in args.iter().enumerate() {
                        let v = get!(*a);
                        s.regs[nb + i] = v;
                    }
                    if s.frames.len() > 20000 {
                        return Err(Stop::T(Term::Abort("call depth".into())));
                    }
                    fr = Frame { f: *f, pc: 0, base: nb as u32, sp: s.sp, ret: *d };
                    s.frames.push(fr);
                    if s.frames.len() > self.st.max_depth {
                        self.st.max_depth = s.frames.len();
                    }
                    func = nf;
                    self.touched[*f as usize] = true;
                    pc = 0;
                    continue;
                }
                Inst::CallInd { p, args, d } => {
                    let a = get!(*p);
                    let a = if a.is_c() {
                        a.v
                    } else {
                        sync!();
                        self.conc(s, a)?
                    };
                    let id = a.wrapping_sub(FN_BASE) / 16;
                    if a < FN_BASE || id >= m.funcs.len() as u64 {
                        return Err(Stop::T(Term::Engine(format!("indirect call to {:#x}", a))));
                    }
                    let nf = &m.funcs[id as usize];
                    if !nf.defined {
                        return Err(Stop::T(Term::Engine(format!("indirect call to external {}", nf.name))));
                    }
                    s.frames.last_mut().unwrap().pc = pc as u32 + 1;
                    let nb = fr.base as usize + func.nregs as usize;
                    s.regs.resize(nb + nf.nregs as usize, Val::default());
                    for (i, a) in args.iter().enumerate() {
                        let v = get!(*a);
                        s.regs[nb + i] = v;
                    }
                    fr = Frame { f: id as u32, pc: 0, base: nb as u32, sp: s.sp, ret: *d };
                    s.frames.push(fr);
                    func = nf;
                    self.touched[id as usize] = true;
                    pc = 0;
                    continue;
                }
                Inst::Ret { vals } => {
                    let ret = fr.ret;
                    let f = s.frames.pop().unwrap();
                    s.sp = f.sp;
                    if s.frames.is_empty() {
                        return Ok(());
                    }
                    let caller = *s.frames.last().unwrap();
                    if ret != u32::MAX {
                        for (i, o) in vals.iter().enumerate() {
                            let v = get!(*o);
                            s.regs[caller.base as usize + ret as usize + i] = v;
                        }
                    }
                    fr = caller;
                    func = &m.funcs[fr.f as usize];
                    pc = fr.pc as usize;
                    continue;
                }
                Inst::Unreachable => return Err(Stop::T(Term::Engine(format!("unreachable executed in {}", func.name)))),
                Inst::Intr { k, args, d, w, name } => {
                    sync!();
                    if snap && matches!(k, Intr::VsBytes | Intr::VsChoose) {
                        return Err(Stop::Snap);
                    }
                    let mut av = [Val::default(); 8];
                    let na = args.len().min(8);
                    for i in 0..na {
                        av[i] = get!(args[i]);
                    }
                    let mut out = [Val::default(); 2];
                    if *k == Intr::Panic || *k == Intr::Unsupported || *k == Intr::Abort || *k == Intr::Trap {
                        return Err(Stop::T(match k {
                            Intr::Panic => {
                                let l = get!(args[args.len() - 1]);
                                Term::Panic(self.loc_string(s, l))
                            }
                            Intr::Abort | Intr::Trap => Term::Abort(m.strings[*name as usize].clone()),
                            _ => Term::Engine(format!("unsupported call {}", m.strings[*name as usize])),
                        }));
                    }
                    self.intrinsic(s, *k, &av[..na], *w as u32, &mut out)?;
                    if *d != u32::MAX {
                        set!(*d, out[0]);
                        if matches!(k, Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO) || (*w > 64 && !matches!(k, Intr::VsBytes)) {
                            set!(*d + 1, out[1]);
                        }
                    }
                }
                Inst::Wide { op, w, d, a, b } => {
                    sync!();
                    let mut c = [0u64; 4];
                    for (i, o) in a.iter().chain(b.iter()).enumerate() {
                        let v = get!(*o);
                        c[i] = self.conc(s, v)?;
                    }
                    let x = c[0] as u128 | (c[1] as u128) << 64;
                    let y = c[2] as u128 | (c[3] as u128) << 64;
                    let w = *w as u32;
                    let sxw = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                    let r: u128 = match op {
                        Bop::Add => x.wrapping_add(y),
                        Bop::Sub => x.wrapping_sub(y),
                        Bop::Mul => x.wrapping_mul(y),
                        Bop::And => x & y,
                        Bop::Or => x | y,
                        Bop::Xor => x ^ y,
                        Bop::Shl => {
                            if y >= w as u128 {
                                0
                            } else {
                                x << y
                            }
                        }
                        Bop::LShr => {
                            if y >= w as u128 {
                                0
                            } else {
                                x >> y
                            }
                        }
                        Bop::AShr => (sxw(x) >> y.min(127)) as u128,
                        Bop::UDiv => x / y.max(1),
                        Bop::URem => x % y.max(1),
                        Bop::SDiv => sxw(x).wrapping_div(sxw(y)) as u128,
                        Bop::SRem => sxw(x).wrapping_rem(sxw(y)) as u128,
                    };
                    let r = if w < 128 { r & ((1u128 << w) - 1) } else { r };
                    set!(*d, Val::c(r as u64));
                    set!(*d + 1, Val::c((r >> 64) as u64));
                }
                Inst::WCmp { p, w, d, a, b } => {
                    sync!();
                    let mut c = [0u64; 4];
                    for (i, o) in a.iter().chain(b.iter()).enumerate() {
                        let v = get!(*o);
                        c[i] = self.conc(s, v)?;
                    }
                    let x = c[0] as u128 | (c[1] as u128) << 64;
                    let y = c[2] as u128 | (c[3] as u128) << 64;
                    let w = *w as u32;
                    let sxw = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                    let r = match p {
                        Pred::Eq => x == y,
                        Pred::Ne => x != y,
                        Pred::Ugt => x > y,
                        Pred::Uge => x >= y,
                        Pred::Ult => x < y,
                        Pred::Ule => x <= y,
                        Pred::Sgt => sxw(x) > sxw(y),
                        Pred::Sge => sxw(x) >= sxw(y),
                        Pred::Slt => sxw(x) < sxw(y),
                        Pred::Sle => sxw(x) <= sxw(y),
                    };
                    set!(*d, Val::c(r as u64));
                }
                Inst::SextW { from, d, a } => {
                    sync!();
                    let v = get!(*a);
                    let x = self.conc(s, v)?;
                    let y = sx(x, *from as u32);
                    set!(*d, Val::c(y as u64));
                    set!(*d + 1, Val::c((y >> 63) as u64));
                }
                Inst::F { op, d, a, b, w } => {
                    sync!();
                    let (x, y) = (get!(*a), get!(*b));
                    let x = self.conc(s, x)?;
                    let y = self.conc(s, y)?;
                    let r = if *w == 64 {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        match op {
                            Fop::Add => p + q,
                            Fop::Sub => p - q,
                            Fop::Mul => p * q,
                            Fop::Div => p / q,
                            Fop::Rem => p % q,
                            Fop::Neg => -p,
                        }
                        .to_bits()
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            Fop::Add => p + q,
                            Fop::Sub => p - q,
                            Fop::Mul => p * q,
                            Fop::Div => p / q,
                            Fop::Rem => p % q,
                            Fop::Neg => -p,
                        }
                        .to_bits() as u64
                    };
                    set!(*d, Val::c(r));
                }
                Inst::FCmp { p, d, a, b, w } => {
                    sync!();
                    let (x, y) = (get!(*a), get!(*b));
                    let x = self.conc(s, x)?;
                    let y = self.conc(s, y)?;
                    let (x, y) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p {
                        FPred::Oeq => x == y,
                        FPred::Ogt => x > y,
                        FPred::Oge => x >= y,
                        FPred::Olt => x < y,
                        FPred::Ole => x <= y,
                        FPred::One => !un && x != y,
                        FPred::Ord => !un,
                        FPred::Ueq => un || x == y,
                        FPred::Ugt => un || x > y,
                        FPred::Uge => un || x >= y,
                        FPred::Ult => un || x < y,
                        FPred::Ule => un || x <= y,
                        FPred::Une => x != y,
                        FPred::Uno => un,
                        FPred::True => true,
                        FPred::False => false,
                    };
                    set!(*d, Val::c(r as u64));
                }
                Inst::FCast { k, from, to, d, a } => {
                    sync!();
                    let x = get!(*a);
                    let x = self.conc(s, x)?;
                    let out = |f: f64| if *to == 64 { f.to_bits() } else { (f as f32).to_bits() as u64 };
                    let inp = |x: u64| if *from == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                    let r = match k {
                        0 => {
                            if *to == 64 {
                                (x as f64).to_bits()
                            } else {
                                (x as f32).to_bits() as u64
                            }
                        }
                        1 => {
                            if *to == 64 {
                                (sx(x, *from as u32) as f64).to_bits()
                            } else {
                                (sx(x, *from as u32) as f32).to_bits() as u64
                            }
                        }
                        2 => mask(inp(x) as u64, *to as u32),
                        3 => mask(inp(x) as i64 as u64, *to as u32),
                        4 | 5 => out(inp(x)),
                        _ => unreachable!(),
                    };
                    set!(*d, Val::c(r));
                }
                Inst::AtomicRmw { op, d, p, v, w } => {
                    sync!();
                    let a = get!(*p);
                    let a = self.conc(s, a)?;
                    let x = get!(*v);
                    let w = *w as u32;
                    let old = self.load(s, a, w)?;
                    let n = match op {
                        0 => x,
                        1 => self.ar.bin(Bop::Add, w, old, x),
                        2 => self.ar.bin(Bop::Sub, w, old, x),
                        3 => self.ar.bin(Bop::And, w, old, x),
                        5 => self.ar.bin(Bop::Or, w, old, x),
                        6 => self.ar.bin(Bop::Xor, w, old, x),
                        _ => return Err(Stop::T(Term::Engine("atomicrmw op".into()))),
                    };
                    self.store(s, a, n, w)?;
                    set!(*d, old);
                }
                Inst::CmpXchg { d, p, e, n, w } => {
                    sync!();
                    let a = get!(*p);
                    let a = self.conc(s, a)?;
                    let w = *w as u32;
                    let old = self.load(s, a, w)?;
                    let ev = get!(*e);
                    let c = self.ar.cmp(Pred::Eq, w, old, ev);
                    let c = self.conc(s, c)?;
                    if c != 0 {
                        let nv = get!(*n);
                        self.store(s, a, nv, w)?;
                    }
                    set!(*d, old);
                    set!(*d + 1, Val::c(c));
                }
                Inst::Bad(i) => return Err(Stop::T(Term::Engine(format!("undecodable instruction: {}", m.strings[*i as usize])))),
            }
            pc += 1;
        }
    }

    fn lut1(&mut self, a: Val, w: u32, f: &dyn Fn(u64) -> u64) -> Option<Val> {
        let b = self.ar.single(a.e)?;
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = mask(f(self.ar.nodes[a.e as usize].tab.get(i as u8)), w);
        }
        Some(self.ar.lut(b, w, &t))
    }

    fn intrinsic(&mut self, s: &mut State, k: Intr, a: &[Val], w: u32, out: &mut [Val; 2]) -> Result<(), Stop> {
        match k {
            Intr::Nop => {}
            Intr::Memcpy | Intr::Memmove => {
                let d = self.conc(s, a[0])?;
                let p = self.conc(s, a[1])?;
                let n = self.conc(s, a[2])?;
                if n > 1 << 26 {
                    return Err(Stop::T(Term::Engine("huge memcpy".into())));
                }
                s.steps += n / 16;
                flt!(s.mem.copy(d, p, n));
                out[0] = Val::c(d);
            }
            Intr::Memset => {
                let d = self.conc(s, a[0])?;
                let n = self.conc(s, a[2])?;
                if n > 1 << 26 {
                    return Err(Stop::T(Term::Engine("huge memset".into())));
                }
                let v = a[1];
                let v = if v.is_c() {
                    v
                } else {
                    let w = self.ar.w(v.e);
                    self.ar.extract(v, w, 0, 8)
                };
                s.steps += n / 16;
                flt!(s.mem.fill(d, v.v as u8, v.e, n));
                out[0] = Val::c(d);
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let p = match k {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.ar.cmp(p, w, a[0], a[1]);
                out[0] = self.ar.ite(c, a[0], a[1], w);
            }
            Intr::UsubSat => {
                let c = self.ar.cmp(Pred::Ult, w, a[0], a[1]);
                let d = self.ar.bin(Bop::Sub, w, a[0], a[1]);
                out[0] = self.ar.ite(c, Val::c(0), d, w);
            }
            Intr::UaddSat => {
                let d = self.ar.bin(Bop::Add, w, a[0], a[1]);
                let c = self.ar.cmp(Pred::Ult, w, d, a[0]);
                out[0] = self.ar.ite(c, Val::c(mask(u64::MAX, w)), d, w);
            }
            Intr::SsubSat | Intr::SaddSat => {
                let x = sx(self.conc(s, a[0])?, w) as i128;
                let y = sx(self.conc(s, a[1])?, w) as i128;
                let r = if k == Intr::SaddSat { x + y } else { x - y };
                let lo = -(1i128 << (w - 1));
                let hi = (1i128 << (w - 1)) - 1;
                out[0] = Val::c(mask(r.clamp(lo, hi) as u64, w));
            }
            Intr::UaddO => {
                let d = self.ar.bin(Bop::Add, w, a[0], a[1]);
                out[1] = self.ar.cmp(Pred::Ult, w, d, a[0]);
                out[0] = d;
            }
            Intr::UsubO => {
                out[0] = self.ar.bin(Bop::Sub, w, a[0], a[1]);
                out[1] = self.ar.cmp(Pred::Ult, w, a[0], a[1]);
            }
            Intr::SaddO | Intr::SsubO => {
                let op = if k == Intr::SaddO { Bop::Add } else { Bop::Sub };
                let r = self.ar.bin(op, w, a[0], a[1]);
                let x = self.ar.bin(Bop::Xor, w, a[0], r);
                let y = if k == Intr::SaddO { self.ar.bin(Bop::Xor, w, a[1], r) } else { self.ar.bin(Bop::Xor, w, a[0], a[1]) };
                let z = self.ar.bin(Bop::And, w, x, y);
                out[1] = self.ar.cmp(Pred::Slt, w, z, Val::c(0));
                out[0] = r;
            }
            Intr::UmulO | Intr::SmulO => {
                let (mut x, mut y) = (a[0], a[1]);
                if x.is_c() {
                    std::mem::swap(&mut x, &mut y);
                }
                if !y.is_c() {
                    y = Val::c(self.conc(s, y)?);
                    if x == a[1] {
                        x = a[1];
                    }
                }
                out[0] = self.ar.bin(Bop::Mul, w, x, y);
                if k == Intr::UmulO {
                    out[1] = if y.v == 0 { Val::c(0) } else { self.ar.cmp(Pred::Ugt, w, x, Val::c(mask(u64::MAX, w) / y.v)) };
                } else {
                    let c = sx(y.v, w) as i128;
                    let lo = -(1i128 << (w - 1));
                    let hi = (1i128 << (w - 1)) - 1;
                    if c == 0 {
                        out[1] = Val::c(0);
                    } else {
                        let (mut l, mut h) = (0i128, 0i128);
                        // x*c in [lo,hi]
                        if c > 0 {
                            l = -((-lo) / c);
                            h = hi / c;
                        } else {
                            h = ((-lo) / (-c)).min(hi);
                            l = -(hi / (-c));
                        }
                        let _ = (&mut l, &mut h);
                        let p = self.ar.cmp(Pred::Slt, w, x, Val::c(mask(l as u64, w)));
                        let q = self.ar.cmp(Pred::Sgt, w, x, Val::c(mask(h as u64, w)));
                        out[1] = self.ar.bin(Bop::Or, 1, p, q);
                    }
                }
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bitrev => {
                let f = move |x: u64| -> u64 {
                    match k {
                        Intr::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.leading_zeros() as u64 - (64 - w as u64)
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Intr::Ctpop => x.count_ones() as u64,
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                if w > 64 {
                    let lo = self.conc(s, a[0])?;
                    let hi = self.conc(s, a[1])?;
                    let x = lo as u128 | (hi as u128) << 64;
                    let r = match k {
                        Intr::Ctlz => x.leading_zeros() - (128 - w),
                        Intr::Cttz => x.trailing_zeros().min(w),
                        Intr::Ctpop => x.count_ones(),
                        _ => return Err(Stop::T(Term::Engine("bitreverse i128".into()))),
                    };
                    out[0] = Val::c(r as u64);
                    out[1] = Val::c(0);
                    return Ok(());
                }
                if a[0].is_c() {
                    out[0] = Val::c(f(a[0].v));
                } else if let Some(v) = self.lut1(a[0], w, &f) {
                    out[0] = v;
                } else if k == Intr::Cttz || k == Intr::Ctlz {
                    // priority chain
                    let mut r = Val::c(w as u64);
                    for i in (0..w).rev() {
                        let i2 = if k == Intr::Cttz { i } else { w - 1 - i };
                        let b = self.ar.extract(a[0], w, i2, 1);
                        r = self.ar.ite(b, Val::c(i as u64), r, w);
                    }
                    out[0] = r;
                } else {
                    let x = self.conc(s, a[0])?;
                    out[0] = Val::c(f(x));
                }
            }
            Intr::LoadRel => {
                let ad = self.ar.bin(Bop::Add, 64, a[0], a[1]);
                let v = if ad.is_c() { self.load(s, ad.v, 32)? } else { self.load_sym(s, ad, 0, 32)? };
                let v = self.ar.sext(v, 32, 64);
                out[0] = self.ar.bin(Bop::Add, 64, a[0], v);
            }
            Intr::Bswap => {
                if a[0].is_c() {
                    out[0] = Val::c(a[0].v.swap_bytes() >> (64 - w));
                } else {
                    let n = w / 8;
                    let mut ps = vec![];
                    for i in (0..n).rev() {
                        ps.push((self.ar.extract(a[0], w, 8 * i, 8), 8));
                    }
                    out[0] = self.ar.concat(&ps);
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let c = self.conc(s, a[2])? as u32 % w;
                let c = if k == Intr::Fshl { c } else { (w - c) % w };
                if c == 0 {
                    out[0] = if k == Intr::Fshl { a[0] } else { a[1] };
                } else {
                    let x = self.ar.bin(Bop::Shl, w, a[0], Val::c(c as u64));
                    let y = self.ar.bin(Bop::LShr, w, a[1], Val::c((w - c) as u64));
                    out[0] = self.ar.bin(Bop::Or, w, x, y);
                }
            }
            Intr::Ucmp | Intr::Scmp => {
                let (lt, eq) = (if k == Intr::Ucmp { Pred::Ult } else { Pred::Slt }, Pred::Eq);
                let l = self.ar.cmp(lt, w, a[0], a[1]);
                let e = self.ar.cmp(eq, w, a[0], a[1]);
                let r = self.ar.ite(e, Val::c(0), Val::c(1), 8);
                out[0] = self.ar.ite(l, Val::c(0xff), r, 8);
            }
            Intr::Abs => {
                if w > 64 {
                    let lo = self.conc(s, a[0])?;
                    let hi = self.conc(s, a[1])?;
                    let x = ((lo as u128 | (hi as u128) << 64) as i128).wrapping_abs() as u128;
                    out[0] = Val::c(x as u64);
                    out[1] = Val::c((x >> 64) as u64);
                    return Ok(());
                }
                let c = self.ar.cmp(Pred::Slt, w, a[0], Val::c(0));
                let n = self.ar.bin(Bop::Sub, w, Val::c(0), a[0]);
                out[0] = self.ar.ite(c, n, a[0], w);
            }
            Intr::FptouiSat(t) | Intr::FptosiSat(t) => {
                let x = self.conc(s, a[0])?;
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                if matches!(k, Intr::FptouiSat(_)) {
                    let mx = mask(u64::MAX, t);
                    let r = f as u64;
                    out[0] = Val::c(r.min(mx));
                } else {
                    let hi = (1i128 << (t - 1)) - 1;
                    let lo = -(1i128 << (t - 1));
                    let r = (f as i64 as i128).clamp(lo, hi);
                    out[0] = Val::c(mask(r as u64, t));
                }
            }
            Intr::Round | Intr::Floor | Intr::Ceil | Intr::Fabs | Intr::TruncF => {
                let x = self.conc(s, a[0])?;
                let g = |f: f64| match k {
                    Intr::Round => f.round(),
                    Intr::Floor => f.floor(),
                    Intr::Ceil => f.ceil(),
                    Intr::Fabs => f.abs(),
                    _ => f.trunc(),
                };
                out[0] = Val::c(if w == 64 { g(f64::from_bits(x)).to_bits() } else { (g(f32::from_bits(x as u32) as f64) as f32).to_bits() as u64 });
            }
            Intr::Copysign => {
                let x = self.conc(s, a[0])?;
                let y = self.conc(s, a[1])?;
                let sb = 1u64 << (w - 1);
                out[0] = Val::c((x & !sb) | (y & sb));
            }
            Intr::Ident => out[0] = a[0],
            Intr::Pmulhu => {
                let x = self.ar.zext(a[0], 16, 32);
                let y = self.ar.zext(a[1], 16, 32);
                let p = self.ar.bin(Bop::Mul, 32, x, y);
                out[0] = self.ar.extract(p, 32, 16, 16);
            }
            Intr::Alloc | Intr::AllocZeroed => {
                let n = self.conc(s, a[0])?;
                let al = self.conc(s, a[1])?;
                if n > 1 << 26 {
                    return Err(Stop::T(Term::Engine(format!("huge allocation {}", n))));
                }
                out[0] = Val::c(s.mem.alloc(n, al)); // fresh memory reads as zero
            }
            Intr::Dealloc => {
                if s.zmode {
                    let p = self.conc(s, a[0])?;
                    let n = self.conc(s, a[1])?;
                    if s.mem.any_sym(p, n).is_some() {
                        return Err(Stop::T(Term::Fail(9000)));
                    }
                }
            }
            Intr::Realloc => {
                let p = self.conc(s, a[0])?;
                let o = self.conc(s, a[1])?;
                let al = self.conc(s, a[2])?;
                let n = self.conc(s, a[3])?;
                if n > 1 << 26 {
                    return Err(Stop::T(Term::Engine("huge allocation".into())));
                }
                let q = s.mem.alloc(n, al);
                flt!(s.mem.copy(q, p, o.min(n)));
                out[0] = Val::c(q);
            }
            Intr::Bcmp | Intr::Memcmp => {
                let p = self.conc(s, a[0])?;
                let q = self.conc(s, a[1])?;
                let n = self.conc(s, a[2])?;
                s.steps += n / 8;
                if k == Intr::Bcmp {
                    let mut acc = Val::c(1);
                    // concrete differences decide at once
                    for i in 0..n {
                        let x = self.load(s, p + i, 8)?;
                        let y = self.load(s, q + i, 8)?;
                        if x == y {
                            continue;
                        }
                        let c = self.ar.cmp(Pred::Eq, 8, x, y);
                        acc = self.ar.bin(Bop::And, 1, acc, c);
                        if acc.is_c() && acc.v == 0 {
                            break;
                        }
                    }
                    out[0] = self.ar.ite(acc, Val::c(0), Val::c(1), 32);
                } else {
                    let mut diffs = vec![];
                    for i in 0..n {
                        let x = self.load(s, p + i, 8)?;
                        let y = self.load(s, q + i, 8)?;
                        if x == y {
                            continue;
                        }
                        diffs.push((x, y));
                        if x.is_c() && y.is_c() {
                            break;
                        }
                    }
                    let mut r = Val::c(0);
                    for (x, y) in diffs.into_iter().rev() {
                        let l = self.ar.cmp(Pred::Ult, 8, x, y);
                        let g = self.ar.cmp(Pred::Ugt, 8, x, y);
                        let t = self.ar.ite(g, Val::c(1), r, 32);
                        r = self.ar.ite(l, Val::c(0xffff_ffff), t, 32);
                    }
                    out[0] = r;
                }
            }
            Intr::Strlen => {
                let p = self.conc(s, a[0])?;
                let mut n = 0;
                loop {
                    let (v, e) = flt!(s.mem.byte(p + n));
                    if e != 0 {
                        return Err(Stop::T(Term::Engine("strlen on symbolic".into())));
                    }
                    if v == 0 {
                        break;
                    }
                    n += 1;
                }
                out[0] = Val::c(n);
            }
            Intr::Zero => {
                for o in out.iter_mut() {
                    *o = Val::c(0);
                }
            }
            Intr::ClockGettime => {
                let p = self.conc(s, a[1])?;
                self.clock = 1_700_000_000;
                flt!(s.mem.write_conc(p, self.clock, 8));
                flt!(s.mem.write_conc(p + 8, 0, 8));
                out[0] = Val::c(0);
            }
            Intr::VsBytes => {
                let p = self.conc(s, a[0])?;
                let n = self.conc(s, a[1])?;
                for i in 0..n {
                    if s.nb >= 64 {
                        return Err(Stop::T(Term::Engine("more than 64 symbolic bytes".into())));
                    }
                    let e = self.ar.byte(s.nb);
                    s.nb += 1;
                    s.doms.push([u64::MAX; 4]);
                    s.model.push(b'a');
                    flt!(s.mem.set_byte(p + i, 0, e));
                }
            }
            Intr::VsChoose => {
                let n = self.conc(s, a[0])? as u32;
                if n == 0 {
                    return Err(Stop::T(Term::AssumeFalse));
                }
                if let Some(c) = s.choice_ready.take() {
                    s.choices.push(c);
                    out[0] = Val::c(c as u64);
                    return Ok(());
                }
                let c = if n == 1 {
                    0
                } else if let Some(dd) = self.cur_dec(s) {
                    let Dec::C(c) = dd else { return Err(Stop::T(Term::Engine("replay divergence".into()))) };
                    s.log.push(dd);
                    c
                } else {
                    for i in (1..n).rev() {
                        let mut o = s.clone();
                        o.log.push(Dec::C(i));
                        o.choice_ready = Some(i);
                        self.pending.push(o);
                        self.st.forks += 1;
                    }
                    s.log.push(Dec::C(0));
                    0
                };
                s.choices.push(c);
                out[0] = Val::c(c as u64);
            }
            Intr::VsAssume => {
                let v = a[0];
                if v.is_c() {
                    if v.v == 0 {
                        return Err(Stop::T(Term::AssumeFalse));
                    }
                } else {
                    let w = self.ar.w(v.e);
                    let c = self.ar.cmp(Pred::Ne, w, v, Val::c(0));
                    if c.is_c() {
                        if c.v == 0 {
                            return Err(Stop::T(Term::AssumeFalse));
                        }
                    } else {
                        self.assume(s, c.e)?;
                    }
                }
            }
            Intr::VsFail => {
                let c = self.conc(s, a[0])?;
                return Err(Stop::T(Term::Fail(c as u32)));
            }
            Intr::VsReach => {
                let c = self.conc(s, a[0])?;
                s.reach |= 1u128 << (c & 127);
            }
            Intr::VsObserve => {
                let t = self.conc(s, a[0])?;
                let p = self.conc(s, a[1])?;
                let n = self.conc(s, a[2])?;
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n {
                    o.push(flt!(s.mem.byte(p + i)));
                }
                s.obs.push((t as u32, Rc::new(o)));
            }
            Intr::VsMode => {
                s.zmode = self.conc(s, a[0])? != 0;
            }
            Intr::Panic | Intr::Abort | Intr::Trap | Intr::Unsupported => unreachable!(),
        }
        Ok(())
    }
}
