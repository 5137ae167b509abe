//! LLVM IR (textual) reader and decoder into a flat register bytecode.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Array(_, t) => (i * t.size(), t),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    /// scalar slots: (byte offset, bit width, store bytes)
    pub fn slots(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(n) if *n <= 64 => out.push((base, *n)),
            Ty::Int(n) => {
                out.push((base, 64));
                out.push((base + 8, n - 64));
            }
            Ty::Ptr | Ty::F64 => out.push((base, 64)),
            Ty::F32 => out.push((base, 32)),
            Ty::Array(n, t) => {
                for i in 0..*n {
                    t.slots(base + i * t.size(), out);
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field_off(i as u64);
                    t.slots(base + o, out);
                }
            }
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) if *n <= 64 => 1,
            Ty::Int(_) => 2,
            Ty::Ptr | Ty::F64 | Ty::F32 => 1,
            Ty::Array(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

/// operand: >=0 register, <0 constant index -(i)-1
pub type Opd = i32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fop {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred {
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
    False,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    LoadRel,
    Memcpy,
    Memmove,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    FptouiSat(u32),
    FptosiSat(u32),
    Round,
    Floor,
    Ceil,
    Fabs,
    TruncF,
    Copysign,
    Pmulhu,
    Trap,
    Ident,
    // runtime
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Bcmp,
    Memcmp,
    Strlen,
    ClockGettime,
    Zero,
    Panic,
    Abort,
    VsBytes,
    VsChoose,
    VsAssume,
    VsFail,
    VsReach,
    VsObserve,
    VsMode,
    Unsupported,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, Opd)]>,
    pub par: bool,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bop, w: u8, d: u32, a: Opd, b: Opd },
    Wide { op: Bop, w: u8, d: u32, a: [Opd; 2], b: [Opd; 2] },
    ICmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    WCmp { p: Pred, w: u8, d: u32, a: [Opd; 2], b: [Opd; 2] },
    Zext { from: u8, to: u8, d: u32, a: Opd },
    Sext { from: u8, to: u8, d: u32, a: Opd },
    /// sext into wide
    SextW { from: u8, d: u32, a: Opd },
    Trunc { to: u8, d: u32, a: Opd },
    Mov { d: u32, a: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u8 },
    Load { d: u32, p: Opd, off: u32, w: u8 },
    Store { p: Opd, off: u32, v: Opd, w: u8 },
    Gep { d: u32, base: Opd, off: i64, terms: Box<[(Opd, i64, u8)]> },
    Gep0 { d: u32, base: Opd, off: i64 },
    Gep1 { d: u32, base: Opd, off: i64, i: Opd, scale: i64, iw: u8 },
    Alloca { d: u32, size: u64, align: u64, n: Opd },
    Call { f: u32, args: Box<[Opd]>, d: u32 },
    CallInd { p: Opd, args: Box<[Opd]>, d: u32 },
    Intr { k: Intr, args: Box<[Opd]>, d: u32, w: u8, name: u32 },
    Br(Box<Edge>),
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Opd, w: u8, cases: Box<[(u64, u32)]>, edges: Box<[Edge]>, tab: Option<(u64, Box<[u32]>)> },
    Ret { vals: Box<[Opd]> },
    Unreachable,
    F { op: Fop, d: u32, a: Opd, b: Opd, w: u8 },
    FCmp { p: FPred, d: u32, a: Opd, b: Opd, w: u8 },
    FCast { k: u8, from: u8, to: u8, d: u32, a: Opd },
    AtomicRmw { op: u8, d: u32, p: Opd, v: Opd, w: u8 },
    CmpXchg { d: u32, p: Opd, e: Opd, n: Opd, w: u8 },
    Bad(u32),
}

pub struct Func {
    pub name: String,
    pub params: u32,
    pub nregs: u32,
    pub consts: Vec<u64>,
    pub code: Vec<Inst>,
    pub defined: bool,
    pub intr: Intr,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_ids: HashMap<String, u32>,
    pub image: Vec<u8>, // globals, starting at GLOBAL_BASE
    pub strings: Vec<String>,
    pub n_inst: usize,
}

pub const GLOBAL_BASE: u64 = 0x1_0000;
pub const FN_BASE: u64 = 0x7000_0000_0000;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let e = (self.i + 80).min(self.s.len());
            let b = self.i.saturating_sub(200);
            panic!("expected '{}' at ...{} >>> {}", c as char, String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
        }
    }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let b = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' {
                self.i += 1
            } else {
                break;
            }
        }
        &self.s[b..self.i]
    }
    fn peek_word(&mut self) -> &'a [u8] {
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w.as_bytes() {
            true
        } else {
            self.i = k;
            false
        }
    }
    /// name after sigil
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let b = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[b..self.i]).to_string();
            self.i += 1;
            r
        } else {
            String::from_utf8_lossy(self.word()).to_string()
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_ty_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' {
            return true;
        }
        let w = self.peek_word();
        if w == b"ptr" || w == b"void" || w == b"double" || w == b"float" || w == b"label" || w == b"metadata" || w == b"half" || w == b"fp128" || w == b"token" || w == b"bfloat" {
            return true;
        }
        w.len() >= 2 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit())
    }
    fn skip_attrs(&mut self) {
        while !self.is_ty_start() {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.word();
            if w.is_empty() {
                return;
            }
            if w == b"align" {
                if self.peek().is_ascii_digit() {
                    self.word();
                    continue;
                }
            }
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn skip_param_attrs(&mut self) {
        // attributes after the type; stop at value start
        loop {
            let c = self.peek();
            if c == b'%' || c == b'@' || c == b',' || c == b')' || c == b'-' || c.is_ascii_digit() || c == b'{' || c == b'[' || c == b'<' || c == b'!' || c == 0 {
                return;
            }
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            let w = self.peek_word();
            match w {
                b"null" | b"undef" | b"poison" | b"true" | b"false" | b"zeroinitializer" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"add" | b"sub" | b"trunc" | b"c" | b"none" | b"blockaddress" | b"bitcast" | b"xor" => return,
                _ => {}
            }
            self.word();
            if w.is_empty() {
                panic!("stuck attr at {}", String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]));
            }
            if w == b"align" && self.peek().is_ascii_digit() {
                self.word();
                continue;
            }
            if self.peek() == b'(' {
                self.skip_parens();
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let c = self.peek();
        let t = match c {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(f, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = std::str::from_utf8(self.word()).unwrap().parse().unwrap();
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    // vectors: lanes as flattened slots (only element moves and
                    // int<->vector bitcasts survive the scalarizer pass)
                    Ty::Array(n, Box::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n: u64 = std::str::from_utf8(self.word()).unwrap().parse().unwrap();
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Array(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    b"void" => Ty::Void,
                    b"ptr" => Ty::Ptr,
                    b"double" => Ty::F64,
                    b"float" => Ty::F32,
                    b"label" | b"metadata" | b"half" | b"fp128" | b"token" | b"bfloat" => Ty::Other,
                    _ => {
                        if w.len() >= 2 && w[0] == b'i' {
                            Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap())
                        } else {
                            panic!("type? {} near {}", String::from_utf8_lossy(w), String::from_utf8_lossy(&self.s[self.i.saturating_sub(100)..(self.i + 60).min(self.s.len())]))
                        }
                    }
                }
            }
        };
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(b',') {
                continue;
            }
            self.expect(end);
            return f;
        }
    }
}

#[derive(Clone, Debug)]
enum V {
    Local(String),
    C(Vec<u64>), // flattened constant slots
}

struct Ctx {
    globals: HashMap<String, u64>,
    fn_ids: HashMap<String, u32>,
}

impl Ctx {
    fn addr(&self, n: &str) -> u64 {
        if let Some(a) = self.globals.get(n) {
            return *a;
        }
        if let Some(f) = self.fn_ids.get(n) {
            return FN_BASE + (*f as u64) * 16;
        }
        panic!("unknown global {}", n)
    }
    fn value(&self, p: &mut P, ty: &Ty) -> V {
        let c = p.peek();
        if c == b'%' {
            p.i += 1;
            return V::Local(p.name());
        }
        if let Ty::Other = ty {
            // metadata/label
            if c == b'!' {
                p.i += 1;
                p.word();
                if p.peek() == b'(' {
                    p.skip_parens();
                }
            }
            return V::C(vec![]);
        }
        let mut out = vec![];
        self.constant(p, ty, &mut out);
        V::C(out)
    }
    fn constant(&self, p: &mut P, ty: &Ty, out: &mut Vec<u64>) {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                out.push(self.addr(&n));
                return;
            }
            b'{' | b'<' | b'[' => {
                p.i += 1;
                let packed = c == b'<' && p.eat(b'{');
                let end = match c {
                    b'{' => b'}',
                    b'<' => {
                        if packed {
                            b'}'
                        } else {
                            b'>'
                        }
                    }
                    _ => b']',
                };
                if !p.eat(end) {
                    loop {
                        let t = p.ty();
                        self.constant(p, &t, out);
                        if p.eat(b',') {
                            continue;
                        }
                        p.expect(end);
                        break;
                    }
                }
                if packed {
                    p.expect(b'>');
                }
                return;
            }
            b'c' if p.i + 1 < p.s.len() && p.s[p.i + 1] == b'"' => {
                p.i += 2;
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' {
                        out.push(b'\\' as u64);
                        p.i += 2;
                    } else if p.s[p.i] == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        out.push(u64::from_str_radix(h, 16).unwrap());
                        p.i += 3;
                    } else {
                        out.push(p.s[p.i] as u64);
                        p.i += 1;
                    }
                }
                p.i += 1;
                return;
            }
            _ => {}
        }
        let w = p.word();
        match w {
            b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"false" => {
                for _ in 0..ty.nslots() {
                    out.push(0);
                }
            }
            b"true" => out.push(1),
            b"getelementptr" => {
                while !(p.peek() == b'(') {
                    let x = p.word();
                    if x == b"inrange" {
                        p.skip_parens();
                    }
                }
                p.expect(b'(');
                let bt = p.ty();
                p.expect(b',');
                let pt = p.ty();
                let mut b = vec![];
                self.constant(p, &pt, &mut b);
                let mut off = b[0];
                let mut first = true;
                let mut cur = bt;
                while p.eat(b',') {
                    let it = p.ty();
                    let mut iv = vec![];
                    self.constant(p, &it, &mut iv);
                    let k = sx(iv[0], it.bits());
                    if first {
                        off = off.wrapping_add((k as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, t) = cur.field_off(k as u64);
                        off = off.wrapping_add(o);
                        cur = t.clone();
                    }
                }
                p.expect(b')');
                out.push(off);
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" => {
                p.expect(b'(');
                let t = p.ty();
                let mut v = vec![];
                self.constant(p, &t, &mut v);
                assert!(p.eat_word("to"));
                let t2 = p.ty();
                p.expect(b')');
                out.push(mask(v[0], t2.bits()));
            }
            b"add" | b"sub" | b"xor" => {
                while p.peek() != b'(' {
                    p.word();
                }
                p.expect(b'(');
                let t = p.ty();
                let mut a = vec![];
                self.constant(p, &t, &mut a);
                p.expect(b',');
                let t2 = p.ty();
                let mut b = vec![];
                self.constant(p, &t2, &mut b);
                p.expect(b')');
                out.push(mask(if w == b"add" { a[0].wrapping_add(b[0]) } else if w == b"sub" { a[0].wrapping_sub(b[0]) } else { a[0] ^ b[0] }, t.bits()));
            }
            _ => {
                let s = std::str::from_utf8(w).unwrap();
                let fval = |s: &str| -> f64 {
                    match s {
                        "+inf" => f64::INFINITY,
                        "-inf" => f64::NEG_INFINITY,
                        "+qnan" => f64::from_bits(0x7ff8000000000000),
                        "-qnan" => f64::from_bits(0xfff8000000000000),
                        _ => s.parse::<f64>().unwrap_or_else(|_| panic!("float const {s}")),
                    }
                };
                let s = s.strip_prefix("f").unwrap_or(s);
                match ty {
                    Ty::F64 => {
                        if let Some(h) = s.strip_prefix("0x") {
                            out.push(u64::from_str_radix(h, 16).unwrap());
                        } else {
                            out.push(fval(s).to_bits());
                        }
                    }
                    Ty::F32 => {
                        let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { fval(s) };
                        out.push((d as f32).to_bits() as u64);
                    }
                    Ty::Int(n) if *n > 64 => {
                        let v: i128 = match s.parse::<i128>() { Ok(v)=>v, Err(_)=> s.parse::<u128>().unwrap() as i128 };
                        out.push(v as u64);
                        out.push(mask((v >> 64) as u64, n - 64));
                    }
                    Ty::Int(n) => {
                        let v: i128 = s.parse().unwrap_or_else(|_| panic!("int const {} near {}", s, String::from_utf8_lossy(&p.s[p.i.saturating_sub(100)..(p.i + 60).min(p.s.len())])));
                        out.push(mask(v as u64, *n));
                    }
                    _ => panic!("const {:?} {} near {}", ty, s, String::from_utf8_lossy(&p.s[p.i.saturating_sub(100)..(p.i + 60).min(p.s.len())])),
                }
            }
        }
    }
}

pub fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn write_const(img: &mut [u8], off: usize, ty: &Ty, vals: &mut std::slice::Iter<u64>) {
    let mut slots = vec![];
    ty.slots(0, &mut slots);
    for (o, w) in slots {
        let v = *vals.next().unwrap();
        let nb = ((w + 7) / 8) as usize;
        img[off + o as usize..off + o as usize + nb].copy_from_slice(&v.to_le_bytes()[..nb]);
    }
}

fn classify(name: &str, defined: bool) -> Option<(Intr, bool)> {
    // returns (intr, applies even if defined)
    let t = |k| Some((k, true));
    if let Some(r) = name.strip_prefix("llvm.") {
        let k = if r.starts_with("memcpy") {
            Intr::Memcpy
        } else if r.starts_with("memmove") {
            Intr::Memmove
        } else if r.starts_with("memset") {
            Intr::Memset
        } else if r.starts_with("umin") {
            Intr::Umin
        } else if r.starts_with("umax") {
            Intr::Umax
        } else if r.starts_with("smin") {
            Intr::Smin
        } else if r.starts_with("smax") {
            Intr::Smax
        } else if r.starts_with("usub.sat") {
            Intr::UsubSat
        } else if r.starts_with("uadd.sat") {
            Intr::UaddSat
        } else if r.starts_with("ssub.sat") {
            Intr::SsubSat
        } else if r.starts_with("sadd.sat") {
            Intr::SaddSat
        } else if r.starts_with("uadd.with") {
            Intr::UaddO
        } else if r.starts_with("usub.with") {
            Intr::UsubO
        } else if r.starts_with("umul.with") {
            Intr::UmulO
        } else if r.starts_with("sadd.with") {
            Intr::SaddO
        } else if r.starts_with("ssub.with") {
            Intr::SsubO
        } else if r.starts_with("smul.with") {
            Intr::SmulO
        } else if r.starts_with("ctlz") {
            Intr::Ctlz
        } else if r.starts_with("cttz") {
            Intr::Cttz
        } else if r.starts_with("ctpop") {
            Intr::Ctpop
        } else if r.starts_with("bswap") {
            Intr::Bswap
        } else if r.starts_with("bitreverse") {
            Intr::Bitrev
        } else if r.starts_with("fshl") {
            Intr::Fshl
        } else if r.starts_with("fshr") {
            Intr::Fshr
        } else if r.starts_with("ucmp") {
            Intr::Ucmp
        } else if r.starts_with("scmp") {
            Intr::Scmp
        } else if r.starts_with("abs.") {
            Intr::Abs
        } else if r.starts_with("fptoui.sat") {
            let w: u32 = r.split('.').find_map(|x| x.strip_prefix('i').and_then(|n| n.parse().ok())).unwrap();
            Intr::FptouiSat(w)
        } else if r.starts_with("fptosi.sat") {
            let w: u32 = r.split('.').find_map(|x| x.strip_prefix('i').and_then(|n| n.parse().ok())).unwrap();
            Intr::FptosiSat(w)
        } else if r.starts_with("round.") {
            Intr::Round
        } else if r.starts_with("floor.") {
            Intr::Floor
        } else if r.starts_with("ceil.") {
            Intr::Ceil
        } else if r.starts_with("trunc.") {
            Intr::TruncF
        } else if r.starts_with("fabs.") {
            Intr::Fabs
        } else if r.starts_with("copysign.") {
            Intr::Copysign
        } else if r.starts_with("load.relative") {
            Intr::LoadRel
        } else if r.starts_with("is.constant") {
            Intr::Zero
        } else if r.starts_with("trap") || r.starts_with("debugtrap") {
            Intr::Trap
        } else if r.starts_with("threadlocal.address") || r.starts_with("expect") || r.starts_with("ptrmask") || r.starts_with("launder") {
            Intr::Ident
        } else if r.starts_with("lifetime") || r.starts_with("experimental.noalias") || r.starts_with("assume") || r.starts_with("dbg.") || r.starts_with("donothing") || r.starts_with("prefetch") {
            Intr::Nop
        } else {
            Intr::Unsupported
        };
        return Some((k, true));
    }
    match name {
        "memcpy" => return t(Intr::Memcpy),
        "memmove" => return t(Intr::Memmove),
        "memset" => return t(Intr::Memset),
        "bcmp" => return t(Intr::Bcmp),
        "memcmp" => return t(Intr::Memcmp),
        "strlen" => return t(Intr::Strlen),
        "clock_gettime" => return t(Intr::ClockGettime),
        "abort" => return t(Intr::Abort),
        "vs_bytes" => return t(Intr::VsBytes),
        "vs_choose" => return t(Intr::VsChoose),
        "vs_assume" => return t(Intr::VsAssume),
        "vs_fail" => return t(Intr::VsFail),
        "vs_reach" => return t(Intr::VsReach),
        "vs_observe" => return t(Intr::VsObserve),
        "vs_mode" => return t(Intr::VsMode),
        _ => {}
    }
    if name.contains("___rust_no_alloc_shim_is_unstable") {
        return t(Intr::Nop);
    }
    if name.ends_with("___rust_alloc") {
        return t(Intr::Alloc);
    }
    if name.ends_with("___rust_alloc_zeroed") {
        return t(Intr::AllocZeroed);
    }
    if name.ends_with("___rust_dealloc") {
        return t(Intr::Dealloc);
    }
    if name.ends_with("___rust_realloc") {
        return t(Intr::Realloc);
    }
    if name.ends_with("_4core9panicking9panic_fmt") || name.ends_with("_4core9panicking18panic_nounwind_fmt") {
        return t(Intr::Panic);
    }
    if name.contains("17rust_begin_unwind") || name.contains("18handle_alloc_error") {
        return t(Intr::Abort);
    }
    if name.contains("detect_and_initialize") {
        // CPU feature detection: no optional features
        return t(Intr::Zero);
    }
    if !defined {
        return Some((Intr::Unsupported, false));
    }
    None
}

pub fn load(path: &str) -> Module {
    let text = std::fs::read(path).expect("read ll");
    let mut ctx = Ctx { globals: HashMap::new(), fn_ids: HashMap::new() };
    // pass 1
    let mut glines: Vec<(String, usize)> = vec![];
    let mut aliases: Vec<(String, usize)> = vec![];
    let mut fdefs: Vec<(String, usize, bool)> = vec![];
    let mut pos = 0;
    while pos < text.len() {
        let end = match memchr(b'\n', &text[pos..]) {
            Some(k) => pos + k,
            None => text.len(),
        };
        let line = &text[pos..end];
        if line.starts_with(b"@") {
            let mut p = P { s: &text, i: pos + 1 };
            let n = p.name();
            glines.push((n, p.i));
        } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
            let def = line.starts_with(b"define");
            let mut p = P { s: &text, i: pos };
            p.word();
            // find '@' outside of parens
            let mut d = 0;
            loop {
                let c = text[p.i];
                match c {
                    b'(' => d += 1,
                    b')' => d -= 1,
                    b'@' if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            p.i += 1;
            let n = p.name();
            let id = fdefs.len() as u32;
            ctx.fn_ids.insert(n.clone(), id);
            fdefs.push((n, pos, def));
        }
        pos = end + 1;
    }
    // global layout
    let mut img_len = 0u64;
    let mut inits: Vec<(u64, Ty, usize)> = vec![];
    for (n, i) in &glines {
        let mut p = P { s: &text, i: *i };
        p.expect(b'=');
        let mut external = false;
        loop {
            let w = p.word();
            match w {
                b"global" | b"constant" => break,
                b"alias" => {
                    break;
                }
                b"external" | b"extern_weak" => external = true,
                _ => {
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                }
            }
        }
        if &p.s[p.i - 5..p.i] == b"alias" {
            aliases.push((n.clone(), p.i));
            continue;
        }
        let ty = p.ty();
        let sz = ty.size().max(1);
        // find align
        let start = p.i;
        let eol = memchr(b'\n', &text[p.i..]).map(|k| p.i + k).unwrap_or(text.len());
        let tail = &text[start..eol];
        let mut al = ty.align();
        if let Some(k) = rfind(tail, b", align ") {
            let mut q = P { s: &text, i: start + k + 8 };
            let digits: String = text[q.i..]
                .iter()
                .take_while(|c| c.is_ascii_digit())
                .map(|c| *c as char)
                .collect();
            q.i += digits.len();
            if let Ok(a) = digits.parse() {
                al = a;
            }
        }
        img_len = (img_len + al - 1) / al * al;
        ctx.globals.insert(n.clone(), GLOBAL_BASE + img_len);
        if !external {
            inits.push((img_len, ty, start));
        }
        img_len += sz;
    }
    for (n, i) in &aliases {
        let mut p = P { s: &text, i: *i };
        let _ = p.ty();
        if p.peek() == b'(' {
            p.skip_parens();
        }
        p.expect(b',');
        let _ = p.ty();
        p.expect(b'@');
        let t = p.name();
        if let Some(f) = ctx.fn_ids.get(&t).copied() {
            ctx.fn_ids.insert(n.clone(), f);
        } else {
            let a = ctx.globals[&t];
            ctx.globals.insert(n.clone(), a);
        }
    }
    let mut image = vec![0u8; img_len as usize + 64];
    for (off, ty, i) in &inits {
        let mut p = P { s: &text, i: *i };
        let mut out = vec![];
        ctx.constant(&mut p, ty, &mut out);
        write_const(&mut image, *off as usize, ty, &mut out.iter());
    }
    // functions
    let mut m = Module { funcs: vec![], fn_ids: HashMap::new(), image, strings: vec![], n_inst: 0 };
    for (n, i, def) in &fdefs {
        let cl = classify(n, *def);
        let mut f = Func { name: n.clone(), params: 0, nregs: 0, consts: vec![], code: vec![], defined: *def, intr: Intr::Nop };
        match cl {
            Some((k, _)) => {
                f.intr = k;
                f.defined = false;
            }
            None => {
                decode_fn(&text, *i, &ctx, &fdefs, &mut m.strings, &mut f);
            }
        }
        m.n_inst += f.code.len();
        m.funcs.push(f);
    }
    m.fn_ids = ctx.fn_ids;
    m
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
fn rfind(s: &[u8], pat: &[u8]) -> Option<usize> {
    if s.len() < pat.len() {
        return None;
    }
    (0..=s.len() - pat.len()).rev().find(|i| &s[*i..*i + pat.len()] == pat)
}

struct Dec<'a> {
    ctx: &'a Ctx,
    regs: HashMap<String, (u32, u32)>, // name -> (first slot, n)
    nregs: u32,
    cmap: HashMap<u64, i32>,
    consts: Vec<u64>,
}
impl<'a> Dec<'a> {
    fn k(&mut self, v: u64) -> Opd {
        if let Some(i) = self.cmap.get(&v) {
            return *i;
        }
        let i = -(self.consts.len() as i32) - 1;
        self.consts.push(v);
        self.cmap.insert(v, i);
        i
    }
    fn tmp(&mut self) -> i32 {
        self.nregs += 1;
        self.nregs as i32 - 1
    }
    fn reg(&mut self, name: &str, n: u32) -> u32 {
        if let Some((r, m)) = self.regs.get(name) {
            assert!(*m == n, "slot mismatch for {} {} {}", name, m, n);
            return *r;
        }
        let r = self.nregs;
        self.nregs += n;
        self.regs.insert(name.to_string(), (r, n));
        r
    }
    fn opds(&mut self, v: &V, ty: &Ty) -> Vec<Opd> {
        match v {
            V::Local(n) => {
                let k = ty.nslots();
                let r = self.reg(n, k);
                (0..k).map(|i| (r + i) as i32).collect()
            }
            V::C(c) => c.iter().map(|x| self.k(*x)).collect(),
        }
    }
}

enum Term {
    Br(String),
    Cond(Opd, String, String),
    Switch(Opd, u8, String, Vec<(u64, String)>),
}

fn decode_fn(text: &[u8], start: usize, ctx: &Ctx, fdefs: &[(String, usize, bool)], strings: &mut Vec<String>, f: &mut Func) {
    let mut p = P { s: text, i: start };
    p.word(); // define
    p.skip_attrs();
    let _rt = p.ty();
    p.skip_param_attrs();
    p.expect(b'@');
    p.name();
    p.expect(b'(');
    let mut d = Dec { ctx, regs: HashMap::new(), nregs: 0, cmap: HashMap::new(), consts: vec![] };
    if !p.eat(b')') {
        loop {
            if p.peek() == b'.' {
                p.word();
                p.expect(b')');
                break;
            }
            let t = p.ty();
            p.skip_param_attrs();
            if p.eat(b'%') {
                let n = p.name();
                d.reg(&n, t.nslots());
            } else {
                d.nregs += t.nslots();
            }
            if p.eat(b',') {
                continue;
            }
            p.expect(b')');
            break;
        }
    }
    f.params = d.nregs;
    // body
    while text[p.i] != b'{' || text[p.i + 1] != b'\n' {
        p.i += 1;
    }
    p.i += 2;
    let mut code: Vec<Inst> = vec![];
    let mut block_pc: HashMap<String, u32> = HashMap::new();
    // phis: block -> list of (dst slots start, nslots, Vec<(pred label, Vec<Opd>)>)
    let mut phis: HashMap<String, Vec<(u32, Vec<(String, Vec<Opd>)>)>> = HashMap::new();
    let mut terms: Vec<(u32, String, Term)> = vec![];
    let mut cur = String::new();
    let mut first = true;
    loop {
        // start of a line
        if text[p.i] == b'\n' {
            p.i += 1;
            continue;
        }
        if text[p.i] == b'}' {
            break;
        }
        if text[p.i] == b';' {
            while text[p.i] != b'\n' {
                p.i += 1;
            }
            continue;
        }
        if text[p.i] != b' ' {
            // label
            let n = p.name();
            p.expect(b':');
            cur = n.clone();
            block_pc.insert(n, code.len() as u32);
            first = false;
            while text[p.i] != b'\n' {
                p.i += 1;
            }
            continue;
        }
        if first {
            // unnamed entry block: label is the next unnamed number = count of unnamed params; never referenced by preds except phi in loops to entry (not allowed)
            cur = "<entry>".into();
            block_pc.insert(cur.clone(), 0);
            first = false;
        }
        // end of line
        let eol = p.i + memchr(b'\n', &text[p.i..]).unwrap();
        p.ws();
        let mut dst: Option<String> = None;
        if text[p.i] == b'%' {
            p.i += 1;
            dst = Some(p.name());
            p.expect(b'=');
        }
        let mut op = p.word();
        if op == b"tail" || op == b"musttail" || op == b"notail" {
            op = p.word();
        }
        let opn = std::str::from_utf8(op).unwrap();
        macro_rules! bad {
            () => {{
                strings.push(String::from_utf8_lossy(&text[p.i.saturating_sub(10)..eol]).to_string());
                code.push(Inst::Bad(strings.len() as u32 - 1));
            }};
        }
        match opn {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                p.expect(b',');
                let b = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t);
                let b = d.opds(&b, &t);
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                let o = match opn {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    "ashr" => Bop::AShr,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    _ => Bop::Xor,
                };
                if t.nslots() == 2 {
                    code.push(Inst::Wide { op: o, w: t.bits() as u8, d: r, a: [a[0], a[1]], b: [b[0], b[1]] });
                } else if t.nslots() == 1 {
                    code.push(Inst::Bin { op: o, w: t.bits() as u8, d: r, a: a[0], b: b[0] });
                } else {
                    bad!()
                }
            }
            "icmp" => {
                let mut w = p.word();
                if w == b"samesign" {
                    w = p.word();
                }
                let pr = match w {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => panic!("icmp pred"),
                };
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                p.expect(b',');
                let b = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t);
                let b = d.opds(&b, &t);
                let r = d.reg(dst.as_ref().unwrap(), 1);
                if let Ty::Array(..) = t {
                    bad!()
                } else if t.nslots() == 2 {
                    code.push(Inst::WCmp { p: pr, w: t.bits() as u8, d: r, a: [a[0], a[1]], b: [b[0], b[1]] });
                } else {
                    code.push(Inst::ICmp { p: pr, w: t.bits() as u8, d: r, a: a[0], b: b[0] });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t);
                let t2 = if opn == "freeze" {
                    t.clone()
                } else {
                    assert!(p.eat_word("to"));
                    p.ty()
                };
                let r = d.reg(dst.as_ref().unwrap(), t2.nslots());
                let (fw, tw) = (t.bits(), t2.bits());
                match opn {
                    "zext" => {
                        if tw > 64 {
                            if fw > 64 { bad!() } else {
                            code.push(Inst::Mov { d: r, a: a[0] });
                            let z = d.k(0);
                            code.push(Inst::Mov { d: r + 1, a: z });
                            }
                        } else {
                            code.push(Inst::Zext { from: fw as u8, to: tw as u8, d: r, a: a[0] });
                        }
                    }
                    "sext" => {
                        if tw > 64 {
                            if fw > 64 { bad!() } else {
                            code.push(Inst::SextW { from: fw as u8, d: r, a: a[0] });
                            }
                        } else {
                            code.push(Inst::Sext { from: fw as u8, to: tw as u8, d: r, a: a[0] });
                        }
                    }
                    "trunc" => {
                        if tw > 64 {
                            bad!()
                        } else {
                            code.push(Inst::Trunc { to: tw as u8, d: r, a: a[0] });
                        }
                    }
                    "ptrtoint" | "inttoptr" => {
                        if tw < fw {
                            code.push(Inst::Trunc { to: tw as u8, d: r, a: a[0] });
                        } else if tw > fw {
                            code.push(Inst::Zext { from: fw as u8, to: tw as u8, d: r, a: a[0] });
                        } else {
                            code.push(Inst::Mov { d: r, a: a[0] });
                        }
                    }
                    "bitcast" if matches!(t, Ty::Array(..)) != matches!(t2, Ty::Array(..)) => {
                        // vector <-> integer repacking, lane 0 in the low bits
                        match (&t, &t2) {
                            (Ty::Array(n, e), Ty::Int(w)) if *w <= 64 => {
                                let ew = e.bits();
                                let mut acc: Option<i32> = None;
                                for k in 0..*n as u32 {
                                    let z = d.tmp() as u32;
                                    code.push(Inst::Zext { from: ew as u8, to: *w as u8, d: z, a: a[k as usize] });
                                    let sh = d.k((k * ew) as u64);
                                    let s2 = d.tmp() as u32;
                                    code.push(Inst::Bin { op: Bop::Shl, w: *w as u8, d: s2, a: z as i32, b: sh });
                                    acc = Some(match acc {
                                        None => s2 as i32,
                                        Some(p) => {
                                            let o = d.tmp() as u32;
                                            code.push(Inst::Bin { op: Bop::Or, w: *w as u8, d: o, a: p, b: s2 as i32 });
                                            o as i32
                                        }
                                    });
                                }
                                code.push(Inst::Mov { d: r, a: acc.unwrap() });
                            }
                            (Ty::Int(w), Ty::Array(n, e)) if *w <= 64 => {
                                let ew = e.bits();
                                for k in 0..*n as u32 {
                                    let sh = d.k((k * ew) as u64);
                                    let s2 = d.tmp() as u32;
                                    code.push(Inst::Bin { op: Bop::LShr, w: *w as u8, d: s2, a: a[0], b: sh });
                                    code.push(Inst::Trunc { to: ew as u8, d: r + k, a: s2 as i32 });
                                }
                            }
                            _ => bad!(),
                        }
                    }
                    "freeze" | "bitcast" | "addrspacecast" => {
                        for i in 0..t.nslots() {
                            code.push(Inst::Mov { d: r + i, a: a[i as usize] });
                        }
                    }
                    _ => {
                        if fw > 64 || tw > 64 {
                            bad!()
                        } else {
                            let k = match opn {
                                "uitofp" => 0,
                                "sitofp" => 1,
                                "fptoui" => 2,
                                "fptosi" => 3,
                                "fpext" => 4,
                                _ => 5,
                            };
                            code.push(Inst::FCast { k, from: fw as u8, to: tw as u8, d: r, a: a[0] });
                        }
                    }
                }
            }
            "insertelement" => {
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let mut v = d.opds(&v, &t);
                p.expect(b',');
                let et = p.ty();
                let e = ctx.value(&mut p, &et);
                let e = d.opds(&e, &et);
                p.expect(b',');
                p.ty();
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                if p.peek().is_ascii_digit() {
                    let i: usize = std::str::from_utf8(p.word()).unwrap().parse().unwrap();
                    v[i] = e[0];
                    for (i, x) in v.iter().enumerate() {
                        code.push(Inst::Mov { d: r + i as u32, a: *x });
                    }
                } else {
                    bad!()
                }
            }
            "extractelement" => {
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let v = d.opds(&v, &t);
                p.expect(b',');
                p.ty();
                let r = d.reg(dst.as_ref().unwrap(), 1);
                if p.peek().is_ascii_digit() {
                    let i: usize = std::str::from_utf8(p.word()).unwrap().parse().unwrap();
                    code.push(Inst::Mov { d: r, a: v[i] });
                } else {
                    bad!()
                }
            }
            "landingpad" => {
                // unwinding is never executed: a panic ends the path
                let t = p.ty();
                d.reg(dst.as_ref().unwrap(), t.nslots());
                bad!()
            }
            "select" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let ct = p.ty();
                let c = ctx.value(&mut p, &ct);
                let c = d.opds(&c, &ct)[0];
                p.expect(b',');
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                p.expect(b',');
                let _ = p.ty();
                let b = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t);
                let b = d.opds(&b, &t);
                let mut sl = vec![];
                t.slots(0, &mut sl);
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                for i in 0..sl.len() {
                    code.push(Inst::Select { d: r + i as u32, c, a: a[i], b: b[i], w: sl[i].1 as u8 });
                }
            }
            "phi" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                let mut inc = vec![];
                loop {
                    p.expect(b'[');
                    let v = ctx.value(&mut p, &t);
                    let v = d.opds(&v, &t);
                    p.expect(b',');
                    p.expect(b'%');
                    let l = p.name();
                    p.expect(b']');
                    inc.push((l, v));
                    let k = p.i;
                    if p.eat(b',') && p.peek() == b'[' {
                        continue;
                    }
                    p.i = k;
                    break;
                }
                phis.entry(cur.clone()).or_default().push((r, inc));
            }
            "load" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                p.expect(b',');
                let pt = p.ty();
                let a = ctx.value(&mut p, &pt);
                let a = d.opds(&a, &pt)[0];
                let mut sl = vec![];
                t.slots(0, &mut sl);
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                if sl.is_empty() && t == Ty::Other {
                    bad!()
                }
                for (i, (o, w)) in sl.iter().enumerate() {
                    code.push(Inst::Load { d: r + i as u32, p: a, off: *o as u32, w: *w as u8 });
                }
            }
            "store" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let v = d.opds(&v, &t);
                p.expect(b',');
                let pt = p.ty();
                let a = ctx.value(&mut p, &pt);
                let a = d.opds(&a, &pt)[0];
                let mut sl = vec![];
                t.slots(0, &mut sl);
                if t == Ty::Other {
                    bad!()
                }
                for (i, (o, w)) in sl.iter().enumerate() {
                    code.push(Inst::Store { p: a, off: *o as u32, v: v[i], w: *w as u8 });
                }
            }
            "getelementptr" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let bt = p.ty();
                p.expect(b',');
                let pt = p.ty();
                let b = ctx.value(&mut p, &pt);
                let b = d.opds(&b, &pt)[0];
                let mut off: i64 = 0;
                let mut ts: Vec<(Opd, i64, u8)> = vec![];
                let mut curt = bt;
                let mut firsti = true;
                loop {
                    let k = p.i;
                    if !(p.eat(b',') && p.is_ty_start()) {
                        p.i = k;
                        break;
                    }
                    let it = p.ty();
                    let iv = ctx.value(&mut p, &it);
                    if firsti {
                        let sc = curt.size() as i64;
                        match &iv {
                            V::C(c) => off += sx(c[0], it.bits()) * sc,
                            V::Local(_) => {
                                let o = d.opds(&iv, &it)[0];
                                ts.push((o, sc, it.bits() as u8));
                            }
                        }
                        firsti = false;
                    } else {
                        match &iv {
                            V::C(c) => {
                                let (o, t) = curt.field_off(c[0]);
                                off += o as i64;
                                curt = t.clone();
                            }
                            V::Local(_) => {
                                let o = d.opds(&iv, &it)[0];
                                let t = match &curt {
                                    Ty::Array(_, t) => (**t).clone(),
                                    _ => panic!("gep var into struct"),
                                };
                                ts.push((o, t.size() as i64, it.bits() as u8));
                                curt = t;
                            }
                        }
                    }
                }
                let r = d.reg(dst.as_ref().unwrap(), 1);
                if ts.is_empty() {
                    code.push(Inst::Gep0 { d: r, base: b, off });
                } else if ts.len() == 1 {
                    code.push(Inst::Gep1 { d: r, base: b, off, i: ts[0].0, scale: ts[0].1, iw: ts[0].2 });
                } else {
                    code.push(Inst::Gep { d: r, base: b, off, terms: ts.into_boxed_slice() });
                }
            }
            "alloca" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let mut align = t.align().max(8);
                let mut n = d.k(1);
                while p.i < eol && p.eat(b',') {
                    if p.eat_word("align") {
                        let a: u64 = std::str::from_utf8(p.word()).unwrap().parse().unwrap();
                        align = a.max(8);
                    } else if p.is_ty_start() {
                        let it = p.ty();
                        let v = ctx.value(&mut p, &it);
                        n = d.opds(&v, &it)[0];
                    } else {
                        break;
                    }
                }
                let r = d.reg(dst.as_ref().unwrap(), 1);
                code.push(Inst::Alloca { d: r, size: t.size(), align, n });
            }
            "call" | "invoke" => {
                // attrs + ret type
                p.skip_attrs();
                let rt = p.ty();
                p.ws();
                if p.peek() == b'(' {
                    p.skip_parens(); // function type
                }
                let c = p.peek();
                if p.peek_word() == b"asm" {
                    if let Some(n) = &dst {
                        let r = d.reg(n, rt.nslots());
                        // an optimisation barrier: an empty body that returns its argument
                        let line = &text[p.i..eol];
                        let has = |x: &[u8]| line.windows(x.len()).position(|w| w == x);
                        let body = has(b"\"/*${0:q}*/\", \"=&r,0,").or(has(b"\"/*${0:k}*/\", \"=&r,0,"));
                        if body.is_none() || rt.nslots() != 1 {
                            bad!()
                        }
                        p.i += has(b"}\"(").expect("asm arguments") + 3;
                        let t = p.ty();
                        p.skip_param_attrs();
                        let v = ctx.value(&mut p, &t);
                        let args = d.opds(&v, &t);
                        strings.push("asm barrier".to_string());
                        code.push(Inst::Intr { k: Intr::Ident, args: args.into_boxed_slice(), d: r, w: t.bits().min(255) as u8, name: strings.len() as u32 - 1 });
                    }
                } else {
                    let mut indirect: Option<Opd> = None;
                    let mut callee = String::new();
                    if c == b'@' {
                        p.i += 1;
                        callee = p.name();
                    } else if c == b'%' {
                        p.i += 1;
                        let n = p.name();
                        indirect = Some(d.reg(&n, 1) as i32);
                    } else {
                        panic!("callee {}", String::from_utf8_lossy(&text[p.i..eol]));
                    }
                    let fid = if indirect.is_none() { Some(*ctx.fn_ids.get(&callee).unwrap_or_else(|| panic!("callee {}", callee))) } else { None };
                    let k = if let Some(_) = fid { classify(&callee, fdefs[fid.unwrap() as usize].2).map(|x| x.0) } else { None };
                    if k == Some(Intr::Nop) {
                        // nothing
                    } else {
                        p.expect(b'(');
                        let mut args: Vec<Opd> = vec![];
                        let mut w = 0u32;
                        if !p.eat(b')') {
                            loop {
                                let t = p.ty();
                                p.skip_param_attrs();
                                let v = ctx.value(&mut p, &t);
                                if args.is_empty() {
                                    w = t.bits();
                                }
                                let o = d.opds(&v, &t);
                                args.extend(o);
                                if p.eat(b',') {
                                    continue;
                                }
                                p.expect(b')');
                                break;
                            }
                        }
                        let r = match &dst {
                            Some(n) => d.reg(n, rt.nslots()),
                            None => u32::MAX,
                        };
                        match (k, indirect) {
                            (Some(_), None) if callee == "llvm.x86.sse2.pmulhu.w" => {
                                strings.push(callee);
                                for i in 0..8 {
                                    let args = vec![args[i], args[8 + i]].into_boxed_slice();
                                    code.push(Inst::Intr { k: Intr::Pmulhu, args, d: r + i as u32, w: 16, name: strings.len() as u32 - 1 });
                                }
                            }
                            (Some(k), _) => {
                                strings.push(callee);
                                code.push(Inst::Intr { k, args: args.into_boxed_slice(), d: r, w: w.min(255) as u8, name: strings.len() as u32 - 1 });
                            }
                            (None, Some(ip)) => code.push(Inst::CallInd { p: ip, args: args.into_boxed_slice(), d: r }),
                            (None, None) => code.push(Inst::Call { f: fid.unwrap(), args: args.into_boxed_slice(), d: r }),
                        }
                    }
                }
                if opn == "invoke" {
                    let k = eol + 1;
                    let e2 = k + memchr(b'\n', &text[k..]).unwrap();
                    let line = &text[k..e2];
                    let at = line.windows(10).position(|w| w == b"to label %").expect("invoke dest");
                    p.i = k + at + 10;
                    let l = p.name();
                    terms.push((code.len() as u32, cur.clone(), Term::Br(l)));
                    code.push(Inst::Unreachable);
                    p.i = e2;
                    continue;
                }
            }
            "br" => {
                let t = p.ty();
                if t == Ty::Other {
                    p.expect(b'%');
                    let l = p.name();
                    terms.push((code.len() as u32, cur.clone(), Term::Br(l)));
                } else {
                    let c = ctx.value(&mut p, &t);
                    let c = d.opds(&c, &t)[0];
                    p.expect(b',');
                    p.ty();
                    p.expect(b'%');
                    let l1 = p.name();
                    p.expect(b',');
                    p.ty();
                    p.expect(b'%');
                    let l2 = p.name();
                    terms.push((code.len() as u32, cur.clone(), Term::Cond(c, l1, l2)));
                }
                code.push(Inst::Unreachable);
            }
            "switch" => {
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let v = d.opds(&v, &t);
                if v.len() != 1 { bad!(); }
                let v = v[0];
                p.expect(b',');
                p.ty();
                p.expect(b'%');
                let def = p.name();
                p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = p.ty();
                    let mut cv = vec![];
                    ctx.constant(&mut p, &ct, &mut cv);
                    p.expect(b',');
                    p.ty();
                    p.expect(b'%');
                    let l = p.name();
                    cases.push((cv[0], l));
                }
                terms.push((code.len() as u32, cur.clone(), Term::Switch(v, t.bits() as u8, def, cases)));
                code.push(Inst::Unreachable);
                // move to end of this line
                while text[p.i] != b'\n' {
                    p.i += 1;
                }
                continue;
            }
            "ret" => {
                let t = p.ty();
                let vals = if t == Ty::Void {
                    vec![]
                } else {
                    let v = ctx.value(&mut p, &t);
                    d.opds(&v, &t)
                };
                code.push(Inst::Ret { vals: vals.into_boxed_slice() });
            }
            "unreachable" => code.push(Inst::Unreachable),
            "extractvalue" => {
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let v = d.opds(&v, &t);
                let mut ct = &t;
                let mut so = 0u32;
                while p.i < eol && p.eat(b',') {
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    let i: usize = std::str::from_utf8(p.word()).unwrap().parse().unwrap();
                    match ct {
                        Ty::Struct(fs, _) => {
                            so += fs[..i].iter().map(|t| t.nslots()).sum::<u32>();
                            ct = &fs[i];
                        }
                        Ty::Array(_, t) => {
                            so += i as u32 * t.nslots();
                            ct = t;
                        }
                        _ => panic!(),
                    }
                }
                let n = ct.nslots();
                let r = d.reg(dst.as_ref().unwrap(), n);
                for i in 0..n {
                    code.push(Inst::Mov { d: r + i, a: v[(so + i) as usize] });
                }
            }
            "insertvalue" => {
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let mut v = d.opds(&v, &t);
                p.expect(b',');
                let et = p.ty();
                let e = ctx.value(&mut p, &et);
                let e = d.opds(&e, &et);
                let mut ct = &t;
                let mut so = 0u32;
                while p.i < eol && p.eat(b',') {
                    if !p.peek().is_ascii_digit() {
                        break;
                    }
                    let i: usize = std::str::from_utf8(p.word()).unwrap().parse().unwrap();
                    match ct {
                        Ty::Struct(fs, _) => {
                            so += fs[..i].iter().map(|t| t.nslots()).sum::<u32>();
                            ct = &fs[i];
                        }
                        Ty::Array(_, t) => {
                            so += i as u32 * t.nslots();
                            ct = t;
                        }
                        _ => panic!(),
                    }
                }
                for (i, x) in e.iter().enumerate() {
                    v[so as usize + i] = *x;
                }
                let r = d.reg(dst.as_ref().unwrap(), t.nslots());
                for (i, x) in v.iter().enumerate() {
                    code.push(Inst::Mov { d: r + i as u32, a: *x });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t)[0];
                let b = if opn == "fneg" {
                    a
                } else {
                    p.expect(b',');
                    let b = ctx.value(&mut p, &t);
                    d.opds(&b, &t)[0]
                };
                let r = d.reg(dst.as_ref().unwrap(), 1);
                let o = match opn {
                    "fadd" => Fop::Add,
                    "fsub" => Fop::Sub,
                    "fmul" => Fop::Mul,
                    "fdiv" => Fop::Div,
                    "frem" => Fop::Rem,
                    _ => Fop::Neg,
                };
                code.push(Inst::F { op: o, d: r, a, b, w: t.bits() as u8 });
            }
            "fcmp" => {
                let mut pr = None;
                while !p.is_ty_start() {
                    let w = p.word();
                    pr = match w {
                        b"oeq" => Some(FPred::Oeq),
                        b"ogt" => Some(FPred::Ogt),
                        b"oge" => Some(FPred::Oge),
                        b"olt" => Some(FPred::Olt),
                        b"ole" => Some(FPred::Ole),
                        b"one" => Some(FPred::One),
                        b"ord" => Some(FPred::Ord),
                        b"ueq" => Some(FPred::Ueq),
                        b"ugt" => Some(FPred::Ugt),
                        b"uge" => Some(FPred::Uge),
                        b"ult" => Some(FPred::Ult),
                        b"ule" => Some(FPred::Ule),
                        b"une" => Some(FPred::Une),
                        b"uno" => Some(FPred::Uno),
                        b"true" => Some(FPred::True),
                        b"false" => Some(FPred::False),
                        _ => pr,
                    };
                }
                let t = p.ty();
                let a = ctx.value(&mut p, &t);
                let a = d.opds(&a, &t)[0];
                p.expect(b',');
                let b = ctx.value(&mut p, &t);
                let b = d.opds(&b, &t)[0];
                let r = d.reg(dst.as_ref().unwrap(), 1);
                code.push(Inst::FCmp { p: pr.unwrap(), d: r, a, b, w: t.bits() as u8 });
            }
            "atomicrmw" => {
                let mut o = p.word();
                if o == b"volatile" {
                    o = p.word();
                }
                let k = match o {
                    b"xchg" => 0,
                    b"add" => 1,
                    b"sub" => 2,
                    b"and" => 3,
                    b"or" => 5,
                    b"xor" => 6,
                    b"umax" => 9,
                    b"umin" => 10,
                    _ => 255,
                };
                let pt = p.ty();
                let a = ctx.value(&mut p, &pt);
                let a = d.opds(&a, &pt)[0];
                p.expect(b',');
                let t = p.ty();
                let v = ctx.value(&mut p, &t);
                let v = d.opds(&v, &t)[0];
                let r = d.reg(dst.as_ref().unwrap(), 1);
                code.push(Inst::AtomicRmw { op: k, d: r, p: a, v, w: t.bits() as u8 });
            }
            "cmpxchg" => {
                while !p.is_ty_start() {
                    p.word();
                }
                let pt = p.ty();
                let a = ctx.value(&mut p, &pt);
                let a = d.opds(&a, &pt)[0];
                p.expect(b',');
                let t = p.ty();
                let e = ctx.value(&mut p, &t);
                let e = d.opds(&e, &t)[0];
                p.expect(b',');
                let _ = p.ty();
                let n = ctx.value(&mut p, &t);
                let n = d.opds(&n, &t)[0];
                let r = d.reg(dst.as_ref().unwrap(), 2);
                code.push(Inst::CmpXchg { d: r, p: a, e, n, w: t.bits() as u8 });
            }
            "fence" => {}
            _ => {
                if let Some(n) = &dst {
                    d.reg(n, 1);
                }
                bad!()
            }
        }
        p.i = eol;
    }
    // resolve terminators
    let mk_edge = |from: &str, to: &str| -> Edge {
        let pc = *block_pc.get(to).unwrap_or_else(|| panic!("block {} in {}", to, f.name));
        let mut copies: Vec<(u32, Opd)> = vec![];
        if let Some(ps) = phis.get(to) {
            for (r, inc) in ps {
                // entry block label may be numeric
                let v = inc.iter().find(|(l, _)| l == from).or_else(|| if from == "<entry>" { inc.iter().find(|(l, _)| !block_pc.contains_key(l)) } else { None }).unwrap_or_else(|| panic!("phi pred {} -> {} in {}", from, to, f.name));
                for (i, o) in v.1.iter().enumerate() {
                    if *o != (*r + i as u32) as i32 {
                        copies.push((*r + i as u32, *o));
                    }
                }
            }
        }
        let dsts: std::collections::HashSet<u32> = copies.iter().map(|c| c.0).collect();
        let mut par = false;
        let mut seen: std::collections::HashSet<u32> = Default::default();
        for (dd, s) in &copies {
            if *s >= 0 && seen.contains(&(*s as u32)) {
                par = true;
            }
            seen.insert(*dd);
        }
        let _ = dsts;
        Edge { pc, copies: copies.into_boxed_slice(), par }
    };
    for (pc, from, t) in terms {
        let inst = match t {
            Term::Br(l) => Inst::Br(Box::new(mk_edge(&from, &l))),
            Term::Cond(c, a, b) => Inst::CondBr { c, t: Box::new(mk_edge(&from, &a)), f: Box::new(mk_edge(&from, &b)) },
            Term::Switch(v, w, def, cases) => {
                let mut edges = vec![mk_edge(&from, &def)];
                let mut labels: HashMap<String, u32> = HashMap::new();
                labels.insert(def, 0);
                let mut cs = vec![];
                for (k, l) in cases {
                    let i = *labels.entry(l.clone()).or_insert_with(|| {
                        edges.push(mk_edge(&from, &l));
                        edges.len() as u32 - 1
                    });
                    cs.push((k, i));
                }
                cs.sort();
                let mut tab = None;
                if !cs.is_empty() {
                    let lo = cs[0].0;
                    let hi = cs[cs.len() - 1].0;
                    if hi - lo < 1024 {
                        let mut tt = vec![0u32; (hi - lo + 1) as usize];
                        for (k, i) in &cs {
                            tt[(*k - lo) as usize] = *i;
                        }
                        tab = Some((lo, tt.into_boxed_slice()));
                    }
                }
                Inst::Switch { v, w, cases: cs.into_boxed_slice(), edges: edges.into_boxed_slice(), tab }
            }
        };
        code[pc as usize] = inst;
    }
    f.code = code;
    f.nregs = d.nregs;
    f.consts = d.consts;
}
