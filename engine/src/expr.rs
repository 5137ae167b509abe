//! Hash-consed bit-vector expressions over symbolic input bytes.
use crate::ir::{mask, sx, Bop, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type Bits = [u64; 4];

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Val {
    pub v: u64,
    pub e: E,
}
impl Val {
    #[inline(always)]
    pub fn c(v: u64) -> Val {
        Val { v, e: 0 }
    }
    #[inline(always)]
    pub fn s(e: E) -> Val {
        Val { v: 0, e }
    }
    #[inline(always)]
    pub fn is_c(&self) -> bool {
        self.e == 0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const(u64),
    Byte(u8),
    Bin(Bop, E, E),
    Cmp(Pred, E, E),
    Zext(E),
    Sext(E),
    Extract(u8, E),
    Concat(Box<[E]>),
    Ite(E, E, E),
    Lut(u8, u32), // byte, table number
}

pub enum Tab {
    None,
    Bits(Bits),
    B8(Box<[u8; 256]>),
    W(Box<[u64; 256]>),
}
impl Tab {
    #[inline]
    pub fn get(&self, i: u8) -> u64 {
        match self {
            Tab::None => panic!("no table"),
            Tab::Bits(b) => (b[(i >> 6) as usize] >> (i & 63)) & 1,
            Tab::B8(t) => t[i as usize] as u64,
            Tab::W(t) => t[i as usize],
        }
    }
}

pub struct Node {
    pub k: K,
    pub w: u8,
    pub sup: u64,
    pub tab: Tab,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u8), E>,
    tabmap: HashMap<(u8, u8, u64), Vec<E>>, // (byte, width, hash) -> candidates
    pub luts: Vec<Rc<[u64; 256]>>,
    lutmap: HashMap<u64, Vec<u32>>,
    memo: Vec<(u32, u64)>,
    epoch: u32,
}

fn hash_tab(t: &[u64; 256]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in t {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn bin(op: Bop, w: u32, a: u64, b: u64) -> Option<u64> {
    let r = match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Bop::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Bop::SDiv => {
            if b == 0 {
                return None;
            }
            sx(a, w).wrapping_div(sx(b, w)) as u64
        }
        Bop::SRem => {
            if b == 0 {
                return None;
            }
            sx(a, w).wrapping_rem(sx(b, w)) as u64
        }
        Bop::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Bop::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let s = if b >= w as u64 { 63 } else { b };
            (sx(a, w) >> s) as u64
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
    };
    Some(mask(r, w))
}
pub fn cmp(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}
fn inv(p: Pred) -> Pred {
    match p {
        Pred::Eq => Pred::Ne,
        Pred::Ne => Pred::Eq,
        Pred::Ugt => Pred::Ule,
        Pred::Uge => Pred::Ult,
        Pred::Ult => Pred::Uge,
        Pred::Ule => Pred::Ugt,
        Pred::Sgt => Pred::Sle,
        Pred::Sge => Pred::Slt,
        Pred::Slt => Pred::Sge,
        Pred::Sle => Pred::Sgt,
    }
}
fn swap(p: Pred) -> Pred {
    match p {
        Pred::Ugt => Pred::Ult,
        Pred::Uge => Pred::Ule,
        Pred::Ult => Pred::Ugt,
        Pred::Ule => Pred::Uge,
        Pred::Sgt => Pred::Slt,
        Pred::Sge => Pred::Sle,
        Pred::Slt => Pred::Sgt,
        Pred::Sle => Pred::Sge,
        x => x,
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], map: HashMap::new(), tabmap: HashMap::new(), luts: vec![], lutmap: HashMap::new(), memo: vec![], epoch: 0 };
        a.nodes.push(Node { k: K::Const(0), w: 0, sup: 0, tab: Tab::None }); // id 0 reserved
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn sup(&self, e: E) -> u64 {
        self.nodes[e as usize].sup
    }
    pub fn k(&self, e: E) -> &K {
        &self.nodes[e as usize].k
    }
    pub fn is_const(&self, e: E) -> Option<u64> {
        match self.nodes[e as usize].k {
            K::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn bits(&self, e: E) -> Bits {
        match &self.nodes[e as usize].tab {
            Tab::Bits(b) => *b,
            _ => panic!("bits"),
        }
    }
    pub fn single(&self, e: E) -> Option<u8> {
        let s = self.nodes[e as usize].sup;
        if s != 0 && s & (s - 1) == 0 {
            Some(s.trailing_zeros() as u8)
        } else {
            None
        }
    }
    /// Val -> expr id (interning constants)
    pub fn id(&mut self, v: Val, w: u32) -> E {
        if v.e != 0 {
            return v.e;
        }
        let k = K::Const(v.v);
        if let Some(x) = self.map.get(&(k.clone(), w as u8)) {
            return *x;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { k: k.clone(), w: w as u8, sup: 0, tab: Tab::None });
        self.map.insert((k, w as u8), id);
        id
    }
    pub fn val(&self, e: E) -> Val {
        match self.nodes[e as usize].k {
            K::Const(v) => Val::c(v),
            _ => Val::s(e),
        }
    }
    fn tv(&self, e: E, i: u8) -> u64 {
        match self.nodes[e as usize].k {
            K::Const(v) => v,
            _ => self.nodes[e as usize].tab.get(i),
        }
    }
    fn mk(&mut self, k: K, w: u32) -> E {
        if let Some(x) = self.map.get(&(k.clone(), w as u8)) {
            return *x;
        }
        let sup = match &k {
            K::Const(_) => 0,
            K::Byte(b) => 1u64 << *b,
            K::Bin(_, a, b) | K::Cmp(_, a, b) => self.sup(*a) | self.sup(*b),
            K::Zext(a) | K::Sext(a) | K::Extract(_, a) => self.sup(*a),
            K::Concat(p) => p.iter().fold(0, |s, x| s | self.sup(*x)),
            K::Ite(c, a, b) => self.sup(*c) | self.sup(*a) | self.sup(*b),
            K::Lut(b, _) => 1u64 << *b,
        };
        let single = sup != 0 && sup & (sup - 1) == 0;
        let mut tab = Tab::None;
        let mut tkey = None;
        if single {
            let b = sup.trailing_zeros() as u8;
            let mut t = [0u64; 256];
            for i in 0..256usize {
                let x = i as u8;
                t[i] = match &k {
                    K::Const(v) => *v,
                    K::Byte(_) => i as u64,
                    K::Bin(op, a, c) => bin(*op, w, self.tv(*a, x), self.tv(*c, x)).unwrap_or(0),
                    K::Cmp(p, a, c) => cmp(*p, self.w(*a), self.tv(*a, x), self.tv(*c, x)) as u64,
                    K::Zext(a) => self.tv(*a, x),
                    K::Sext(a) => mask(sx(self.tv(*a, x), self.w(*a)) as u64, w),
                    K::Extract(lo, a) => mask(self.tv(*a, x) >> *lo, w),
                    K::Concat(p) => {
                        let mut r = 0u64;
                        let mut s = 0;
                        for q in p.iter() {
                            r |= self.tv(*q, x) << s;
                            s += self.w(*q);
                        }
                        r
                    }
                    K::Ite(c, a, d) => {
                        if self.tv(*c, x) != 0 {
                            self.tv(*a, x)
                        } else {
                            self.tv(*d, x)
                        }
                    }
                    K::Lut(_, n) => self.luts[*n as usize][i],
                };
            }
            let is_byte = matches!(k, K::Byte(_));
            if !is_byte {
                if t.iter().all(|v| *v == t[0]) {
                    let id = self.id(Val::c(t[0]), w);
                    self.map.insert((k, w as u8), id);
                    return id;
                }
            }
            let h = hash_tab(&t);
            if let Some(c) = self.tabmap.get(&(b, w as u8, h)) {
                for id in c {
                    if (0..256).all(|i| self.nodes[*id as usize].tab.get(i as u8) == t[i]) {
                        let id = *id;
                        self.map.insert((k, w as u8), id);
                        return id;
                    }
                }
            }
            tkey = Some((b, w as u8, h));
            tab = if w == 1 {
                let mut bb = [0u64; 4];
                for i in 0..256 {
                    bb[i >> 6] |= t[i] << (i & 63);
                }
                Tab::Bits(bb)
            } else if w <= 8 {
                let mut tt = Box::new([0u8; 256]);
                for i in 0..256 {
                    tt[i] = t[i] as u8;
                }
                Tab::B8(tt)
            } else {
                Tab::W(Box::new(t))
            };
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { k: k.clone(), w: w as u8, sup, tab });
        self.map.insert((k, w as u8), id);
        if let Some(t) = tkey {
            self.tabmap.entry(t).or_default().push(id);
        }
        id
    }
    pub fn byte(&mut self, i: u8) -> E {
        self.mk(K::Byte(i), 8)
    }
    pub fn lut(&mut self, b: u8, w: u32, t: &[u64; 256]) -> Val {
        if t.iter().all(|v| *v == t[0]) {
            return Val::c(t[0]);
        }
        let h = hash_tab(t);
        let mut n = None;
        if let Some(c) = self.lutmap.get(&h) {
            for i in c {
                if &*self.luts[*i as usize] == t {
                    n = Some(*i);
                }
            }
        }
        let n = match n {
            Some(n) => n,
            None => {
                self.luts.push(Rc::new(*t));
                let n = self.luts.len() as u32 - 1;
                self.lutmap.entry(h).or_default().push(n);
                n
            }
        };
        let e = self.mk(K::Lut(b, n), w);
        self.val(e)
    }
    pub fn not(&mut self, e: E) -> E {
        if let Some(v) = self.is_const(e) {
            return self.id(Val::c(v ^ 1), 1);
        }
        if let K::Cmp(p, a, b) = self.k(e).clone() {
            return self.mk(K::Cmp(inv(p), a, b), 1);
        }
        if let K::Bin(Bop::Xor, a, b) = self.k(e).clone() {
            if self.is_const(b) == Some(1) {
                return a;
            }
        }
        let one = self.id(Val::c(1), 1);
        self.mk(K::Bin(Bop::Xor, e, one), 1)
    }
    pub fn bin(&mut self, op: Bop, w: u32, a: Val, b: Val) -> Val {
        if a.is_c() && b.is_c() {
            return Val::c(bin(op, w, a.v, b.v).unwrap_or(0));
        }
        let (mut a, mut b) = (a, b);
        // commutative: const on the right
        if a.is_c() && matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor) {
            std::mem::swap(&mut a, &mut b);
        }
        let ones = mask(u64::MAX, w);
        if b.is_c() {
            let c = b.v;
            match op {
                Bop::Add | Bop::Or | Bop::Xor | Bop::Shl | Bop::LShr | Bop::AShr | Bop::Sub if c == 0 => return a,
                Bop::And if c == 0 => return Val::c(0),
                Bop::And if c == ones => return a,
                Bop::Or if c == ones => return Val::c(ones),
                Bop::Mul if c == 0 => return Val::c(0),
                Bop::Mul | Bop::UDiv | Bop::SDiv if c == 1 => return a,
                Bop::URem if c == 1 => return Val::c(0),
                Bop::Shl | Bop::LShr if c >= w as u64 => return Val::c(0),
                Bop::Sub => return self.bin(Bop::Add, w, a, Val::c(mask(c.wrapping_neg(), w))),
                Bop::Xor if w == 1 => {
                    let n = self.not(a.e);
                    return self.val(n);
                }
                Bop::Mul if c.is_power_of_two() => return self.bin(Bop::Shl, w, a, Val::c(c.trailing_zeros() as u64)),
                Bop::LShr => {
                    let x = self.extract(a, w, c as u32, w - c as u32);
                    return self.zext(x, w - c as u32, w);
                }
                _ => {}
            }
            if op == Bop::Add {
                if let K::Bin(Bop::Add, x, y) = self.k(a.e).clone() {
                    if let Some(k) = self.is_const(y) {
                        return self.bin(Bop::Add, w, Val::s(x), Val::c(mask(k.wrapping_add(c), w)));
                    }
                }
            }
            if matches!(op, Bop::And | Bop::Or | Bop::Xor) {
                match self.k(a.e).clone() {
                    K::Zext(x) => {
                        let xw = self.w(x);
                        if op == Bop::And {
                            let r = self.bin(op, xw, Val::s(x), Val::c(mask(c, xw)));
                            return self.zext(r, xw, w);
                        } else if c >> xw == 0 {
                            let r = self.bin(op, xw, Val::s(x), Val::c(c));
                            return self.zext(r, xw, w);
                        }
                    }
                    K::Concat(ps) => {
                        let mut s = 0;
                        let mut out = vec![];
                        for p in ps.iter() {
                            let pw = self.w(*p);
                            let pv = self.val(*p);
                            let r = self.bin(op, pw, pv, Val::c(mask(c >> s, pw)));
                            out.push((r, pw));
                            s += pw;
                        }
                        return self.concat(&out);
                    }
                    K::Ite(cc, x, y) if self.is_const(x).is_some() && self.is_const(y).is_some() => {
                        let x = bin(op, w, self.is_const(x).unwrap(), c).unwrap();
                        let y = bin(op, w, self.is_const(y).unwrap(), c).unwrap();
                        return self.ite(Val::s(cc), Val::c(x), Val::c(y), w);
                    }
                    _ => {}
                }
            }
        } else if a.e == b.e {
            match op {
                Bop::Sub | Bop::Xor => return Val::c(0),
                Bop::And | Bop::Or => return a,
                _ => {}
            }
        } else if !a.is_c() && matches!(op, Bop::And | Bop::Or | Bop::Xor) && w > 1 {
            // bytewise on concat/concat of same shape
            if let (K::Concat(p), K::Concat(q)) = (self.k(a.e).clone(), self.k(b.e).clone()) {
                if p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| self.w(*x) == self.w(*y)) {
                    let mut out = vec![];
                    for (x, y) in p.iter().zip(q.iter()) {
                        let (xv, yv, pw) = (self.val(*x), self.val(*y), self.w(*x));
                        out.push((self.bin(op, pw, xv, yv), pw));
                    }
                    return self.concat(&out);
                }
            }
        }
        let (mut x, mut y) = (self.id(a, w), self.id(b, w));
        if !b.is_c() && x > y && matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor) {
            std::mem::swap(&mut x, &mut y);
        }
        let e = self.mk(K::Bin(op, x, y), w);
        self.val(e)
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if a.is_c() && b.is_c() {
            return Val::c(cmp(p, w, a.v, b.v) as u64);
        }
        if a.is_c() {
            return self.cmp(swap(p), w, b, a);
        }
        if a.e == b.e {
            return Val::c(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u64);
        }
        if b.is_c() {
            let c = b.v;
            if w == 1 {
                match (p, c) {
                    (Pred::Eq, 1) | (Pred::Ne, 0) => return a,
                    (Pred::Eq, 0) | (Pred::Ne, 1) => {
                        let n = self.not(a.e);
                        return self.val(n);
                    }
                    _ => {}
                }
            }
            match p {
                Pred::Ult if c == 0 => return Val::c(0),
                Pred::Uge if c == 0 => return Val::c(1),
                Pred::Ugt if c == mask(u64::MAX, w) => return Val::c(0),
                Pred::Ule if c == mask(u64::MAX, w) => return Val::c(1),
                _ => {}
            }
            match self.k(a.e).clone() {
                K::Zext(x) => {
                    let xw = self.w(x);
                    if c >> xw == 0 {
                        let unsig = match p {
                            Pred::Sgt => Pred::Ugt,
                            Pred::Sge => Pred::Uge,
                            Pred::Slt => Pred::Ult,
                            Pred::Sle => Pred::Ule,
                            x => x,
                        };
                        return self.cmp(unsig, xw, Val::s(x), Val::c(c));
                    }
                    let sc = sx(c, w);
                    match p {
                        Pred::Eq | Pred::Ugt | Pred::Uge => return Val::c(0),
                        Pred::Ne | Pred::Ult | Pred::Ule => return Val::c(1),
                        Pred::Sgt | Pred::Sge => return Val::c((sc < 0) as u64),
                        Pred::Slt | Pred::Sle => return Val::c((sc >= 0) as u64),
                    }
                }
                K::Bin(Bop::Add, x, y) if matches!(p, Pred::Eq | Pred::Ne) => {
                    if let Some(k) = self.is_const(y) {
                        return self.cmp(p, w, Val::s(x), Val::c(mask(c.wrapping_sub(k), w)));
                    }
                }
                K::Ite(cc, x, y) => {
                    let (kx, ky) = (self.is_const(x), self.is_const(y));
                    if kx.is_some() || ky.is_some() {
                        let (xv, yv) = (self.val(x), self.val(y));
                        let rx = self.cmp(p, w, xv, b);
                        let ry = self.cmp(p, w, yv, b);
                        return self.ite(Val::s(cc), rx, ry, 1);
                    }
                }
                K::Concat(ps) if matches!(p, Pred::Eq | Pred::Ne) => {
                    let mut s = 0;
                    let mut acc = Val::c(1);
                    for q in ps.iter() {
                        let pw = self.w(*q);
                        let pv = self.val(*q);
                        let t = self.cmp(Pred::Eq, pw, pv, Val::c(mask(c >> s, pw)));
                        acc = self.bin(Bop::And, 1, acc, t);
                        s += pw;
                    }
                    return if p == Pred::Eq { acc } else { self.bin(Bop::Xor, 1, acc, Val::c(1)) };
                }
                _ => {}
            }
        } else {
            if let (K::Zext(x), K::Zext(y)) = (self.k(a.e).clone(), self.k(b.e).clone()) {
                if self.w(x) == self.w(y) {
                    let unsig = match p {
                        Pred::Sgt => Pred::Ugt,
                        Pred::Sge => Pred::Uge,
                        Pred::Slt => Pred::Ult,
                        Pred::Sle => Pred::Ule,
                        x => x,
                    };
                    let xw = self.w(x);
                    return self.cmp(unsig, xw, Val::s(x), Val::s(y));
                }
            }
            if let (K::Concat(x), K::Concat(y)) = (self.k(a.e).clone(), self.k(b.e).clone()) {
                if matches!(p, Pred::Eq | Pred::Ne) && x.len() == y.len() && x.iter().zip(y.iter()).all(|(s, t)| self.w(*s) == self.w(*t)) {
                    let mut acc = Val::c(1);
                    for (s, t) in x.iter().zip(y.iter()) {
                        let (sv, tv, pw) = (self.val(*s), self.val(*t), self.w(*s));
                        let q = self.cmp(Pred::Eq, pw, sv, tv);
                        acc = self.bin(Bop::And, 1, acc, q);
                    }
                    return if p == Pred::Eq { acc } else { self.bin(Bop::Xor, 1, acc, Val::c(1)) };
                }
            }
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.mk(K::Cmp(p, x, y), 1);
        self.val(e)
    }
    pub fn zext(&mut self, a: Val, from: u32, to: u32) -> Val {
        if a.is_c() || from == to {
            return a;
        }
        if let K::Zext(x) = self.k(a.e).clone() {
            let e = self.mk(K::Zext(x), to);
            return self.val(e);
        }
        let e = self.mk(K::Zext(a.e), to);
        self.val(e)
    }
    pub fn sext(&mut self, a: Val, from: u32, to: u32) -> Val {
        if a.is_c() {
            return Val::c(mask(sx(a.v, from) as u64, to));
        }
        if from == to {
            return a;
        }
        if let K::Zext(x) = self.k(a.e).clone() {
            if self.w(x) < from {
                return self.zext(Val::s(x), self.w(x), to);
            }
        }
        let e = self.mk(K::Sext(a.e), to);
        self.val(e)
    }
    /// extract n bits from lo of a (width w)
    pub fn extract(&mut self, a: Val, w: u32, lo: u32, n: u32) -> Val {
        if a.is_c() {
            return Val::c(mask(if lo >= 64 { 0 } else { a.v >> lo }, n));
        }
        if lo == 0 && n == w {
            return a;
        }
        match self.k(a.e).clone() {
            K::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    return Val::c(0);
                }
                if lo + n <= xw {
                    return self.extract(Val::s(x), xw, lo, n);
                }
                let r = self.extract(Val::s(x), xw, lo, xw - lo);
                return self.zext(r, xw - lo, n);
            }
            K::Extract(l2, x) => {
                let xw = self.w(x);
                return self.extract(Val::s(x), xw, lo + l2 as u32, n);
            }
            K::Concat(ps) => {
                let mut s = 0;
                let mut out = vec![];
                for p in ps.iter() {
                    let pw = self.w(*p);
                    let pv = self.val(*p);
                    let b = lo.max(s);
                    let e = (lo + n).min(s + pw);
                    if b < e {
                        let x = self.extract(pv, pw, b - s, e - b);
                        out.push((x, e - b));
                    }
                    s += pw;
                }
                return self.concat(&out);
            }
            K::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let (xv, yv) = (self.val(x), self.val(y));
                let p = self.extract(xv, w, lo, n);
                let q = self.extract(yv, w, lo, n);
                return self.bin(op, n, p, q);
            }
            K::Bin(op @ (Bop::Add | Bop::Sub | Bop::Mul), x, y) if lo == 0 => {
                let (xv, yv) = (self.val(x), self.val(y));
                let p = self.extract(xv, w, 0, n);
                let q = self.extract(yv, w, 0, n);
                return self.bin(op, n, p, q);
            }
            K::Bin(Bop::Shl, x, y) => {
                if let Some(s) = self.is_const(y) {
                    let s = s as u32;
                    let xv = self.val(x);
                    if lo >= s {
                        return self.extract(xv, w, lo - s, n);
                    }
                    if lo + n <= s {
                        return Val::c(0);
                    }
                    let hi = self.extract(xv, w, 0, n - (s - lo));
                    return self.concat(&[(Val::c(0), s - lo), (hi, n - (s - lo))]);
                }
            }
            K::Ite(c, x, y) if self.is_const(x).is_some() && self.is_const(y).is_some() => {
                let x = mask(self.is_const(x).unwrap() >> lo, n);
                let y = mask(self.is_const(y).unwrap() >> lo, n);
                return self.ite(Val::s(c), Val::c(x), Val::c(y), n);
            }
            _ => {}
        }
        let e = self.mk(K::Extract(lo as u8, a.e), n);
        self.val(e)
    }
    /// parts LSB first
    pub fn concat(&mut self, parts: &[(Val, u32)]) -> Val {
        if parts.len() == 1 {
            return parts[0].0;
        }
        if parts.iter().all(|p| p.0.is_c()) {
            let mut r = 0;
            let mut s = 0;
            for (v, w) in parts {
                r |= v.v << s;
                s += w;
            }
            return Val::c(r);
        }
        let total: u32 = parts.iter().map(|p| p.1).sum();
        // flatten and merge adjacent
        let mut out: Vec<(Val, u32)> = vec![];
        for (v, w) in parts {
            let mut subs: Vec<(Val, u32)> = vec![];
            if !v.is_c() {
                match self.k(v.e).clone() {
                    K::Concat(ps) => {
                        for p in ps.iter() {
                            subs.push((self.val(*p), self.w(*p)));
                        }
                    }
                    K::Zext(x) => {
                        subs.push((Val::s(x), self.w(x)));
                        subs.push((Val::c(0), w - self.w(x)));
                    }
                    _ => subs.push((*v, *w)),
                }
            } else {
                subs.push((*v, *w));
            }
            for (v, w) in subs {
                if let Some((lv, lw)) = out.last().copied() {
                    if lv.is_c() && v.is_c() {
                        *out.last_mut().unwrap() = (Val::c(lv.v | (v.v << lw)), lw + w);
                        continue;
                    }
                    if !lv.is_c() && !v.is_c() {
                        if let K::Extract(l2, y) = self.k(v.e).clone() {
                            // previous is lower part of the same expr
                            let (l1, x) = match self.k(lv.e).clone() {
                                K::Extract(l1, x) => (l1 as u32, x),
                                _ => (0, lv.e),
                            };
                            if x == y && l1 + lw == l2 as u32 {
                                let xw = self.w(x);
                                let m = self.extract(Val::s(x), xw, l1, lw + w);
                                *out.last_mut().unwrap() = (m, lw + w);
                                continue;
                            }
                        }
                    }
                }
                out.push((v, w));
            }
        }
        if out.len() == 1 {
            return out[0].0;
        }
        // trailing zero high part => zext
        let (hv, hw) = *out.last().unwrap();
        if hv.is_c() && hv.v == 0 {
            out.pop();
            let lw = total - hw;
            let r = if out.len() == 1 { out[0].0 } else { self.concat(&out) };
            return self.zext(r, lw, total);
        }
        let ids: Vec<E> = out.iter().map(|(v, w)| self.id(*v, *w)).collect();
        let e = self.mk(K::Concat(ids.into_boxed_slice()), total);
        self.val(e)
    }
    pub fn ite(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        if c.is_c() {
            return if c.v & 1 != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            if a.is_c() && b.is_c() {
                return if a.v == 1 {
                    c
                } else {
                    let n = self.not(c.e);
                    self.val(n)
                };
            }
            if a.is_c() {
                if a.v == 1 {
                    return self.bin(Bop::Or, 1, c, b);
                }
                let n = self.not(c.e);
                let nv = self.val(n);
                return self.bin(Bop::And, 1, nv, b);
            }
            if b.is_c() {
                if b.v == 0 {
                    return self.bin(Bop::And, 1, c, a);
                }
                let n = self.not(c.e);
                let nv = self.val(n);
                return self.bin(Bop::Or, 1, nv, a);
            }
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let e = self.mk(K::Ite(c.e, x, y), w);
        self.val(e)
    }
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    /// evaluate under a model
    pub fn eval(&mut self, e: E, m: &[u8]) -> u64 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u64 {
        let n = &self.nodes[e as usize];
        if let K::Const(v) = n.k {
            return v;
        }
        let s = n.sup;
        if s & (s - 1) == 0 {
            return n.tab.get(m[s.trailing_zeros() as usize]);
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let w = n.w as u32;
        let k = n.k.clone();
        let r = match k {
            K::Const(v) => v,
            K::Byte(b) => m[b as usize] as u64,
            K::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                bin(op, w, x, y).unwrap_or(0)
            }
            K::Cmp(p, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                cmp(p, self.w(a), x, y) as u64
            }
            K::Zext(a) => self.ev(a, m),
            K::Sext(a) => {
                let x = self.ev(a, m);
                mask(sx(x, self.w(a)) as u64, w)
            }
            K::Extract(lo, a) => {
                let x = self.ev(a, m);
                mask(x >> lo, w)
            }
            K::Concat(ps) => {
                let mut r = 0;
                let mut s = 0;
                for p in ps.iter() {
                    r |= self.ev(*p, m) << s;
                    s += self.w(*p);
                }
                r
            }
            K::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            K::Lut(b, t) => self.luts[t as usize][m[b as usize] as usize],
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}
