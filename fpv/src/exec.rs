//! Symbolic execution of the IR: every floating-point value is a constant or a node of a
//! hash-consed DAG. A node carries
//!  * `lo..hi`, `nan`: an enclosure of the value the compiled code computes (IEEE-754 operations
//!    are monotone, so evaluating them at the end points is exact);
//!  * `tm`: a Taylor model of the ideal (unrounded) value as a function of the cell parameters;
//!  * `eps`: a bound of the rounding error of this one operation;
//!  * `e`: a bound of |computed - ideal|, from forward propagation or from the adjoint.
use crate::dd::DD;
use crate::ir::*;
use crate::tm::TM;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FV {
    C(f64),
    N(Id, bool),
}

impl FV {
    pub fn neg(self) -> FV {
        match self {
            FV::C(x) => FV::C(-x),
            FV::N(i, s) => FV::N(i, !s),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Input,
    Add,
    Mul,
    Div,
    Sqrt,
    Exp,
    Ln,
    Sin,
    Cos,
    Sinh,
    Cosh,
    Pow,
    Abs,
    Fma,
    Floor,
    /// sinh(a)/a, sin(a)/a, a/sin(a): a quotient of the program whose limit at 0 exists
    Shc,
    Snc,
    Rsn,
    /// a value within c of P(a, b), the regularized incomplete gamma function (contract of gammp)
    Gp,
    /// a value within BETA_EPS of I_b(a, c), the regularized incomplete beta function (contract of betai)
    Bp,
}
/// the accuracy of betai that callers may rely on
pub const BETA_EPS: f64 = 4e-9;

pub type Contract = (&'static str, &'static [(f64, f64)], f64);

#[derive(Clone, Debug)]
pub struct Node {
    pub k: K,
    pub a: FV,
    pub b: FV,
    pub c: FV,
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub tm: Option<Rc<TM>>,
    pub e: f64,
    pub eps: f64,
    /// every value is a multiple of this power of two (0: unknown)
    pub g: f64,
}

/// biased exponent field of |node| plus an offset
#[derive(Clone, Copy, Debug)]
pub struct SymI {
    pub id: Id,
    pub lo: i64,
    pub hi: i64,
    pub off: i64,
}

#[derive(Clone, Debug)]
pub enum V<'m> {
    F(FV),
    I(u64),
    S(SymI),
    Bits(FV),
    /// exponent field in place: the bits masked with 0x7ff << 52
    Cmp(u8, FV, FV),
    /// the mantissa bits (and, if asked for, the sign) of a double whose biased exponent is known
    Mant(FV, i64),
    /// an integer equal to this (integer-valued) float
    SI(FV),
    /// the truncation of this non-negative float, not yet evaluated
    LI(FV),
    P(Base<'m>, i64),
    A(Rc<Vec<V<'m>>>),
    U,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base<'m> {
    Null,
    Obj(usize),
    Glob(&'m str),
}

#[derive(Clone, Debug, Default)]
pub struct Obj<'m> {
    pub size: usize,
    pub cells: BTreeMap<usize, (usize, V<'m>)>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// choose among n alternatives and re-run the instruction
    Fork(usize),
    /// split the cell at this value of input `dim`
    Split(usize, f64),
    /// the cell is too wide for a decision
    Wide(String),
    Unsupported(String),
    Budget,
}

#[derive(Clone)]
struct Frame<'m> {
    body: &'m Body,
    name: &'m str,
    regs: Vec<V<'m>>,
    bb: usize,
    pc: usize,
    prev: usize,
    dst: Option<usize>,
}

#[derive(Clone)]
pub struct CallSpec {
    pub func: String,
    pub n: u64,
    pub args: Vec<FV>,
    pub nout: usize,
}

#[derive(Clone, Debug)]
pub enum Out {
    Vals(Vec<FV>),
    Panic(String),
}

#[derive(Clone)]
pub struct Input {
    pub id: Id,
    /// the argument is the cell parameter itself (identity), so the cell can be split at a value
    pub ident: Option<usize>,
}

/// a fast hash for the small keys below
#[derive(Default, Clone, Copy)]
pub struct Mix(u64);
impl std::hash::Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        let m = (self.0.rotate_left(26) ^ x) as u128 * 0x9e3779b97f4a7c15u128;
        self.0 = (m >> 64) as u64 ^ m as u64;
    }
}
type Map<A, B> = HashMap<A, B, std::hash::BuildHasherDefault<Mix>>;
type Memo = Rc<std::cell::RefCell<Map<(K, (u64, u8), (u64, u8), (u64, u8)), (Rc<TM>, [Option<Rc<TM>>; 3])>>>;

#[derive(Clone)]
pub struct State<'m> {
    pub m: &'m Module,
    pub nodes: Vec<Node>,
    cons: Map<(K, u64, u64, u64), Id>,
    mem: Vec<Rc<Obj<'m>>>,
    stack: Vec<Frame<'m>>,
    pub inputs: Vec<Input>,
    forced: Option<usize>,
    pub dead: bool,
    facts: Map<(u8, u64, u64), bool>,
    pub steps: u64,
    /// only whether a panic is reached matters: stop where none is reachable any more
    pub only_panics: bool,
    pub returns: bool,
    pub forks: u32,
    pub deg: u8,
    refine_fail: u32,
    pub refines: u32,
    pub calls: std::collections::BTreeSet<&'m str>,
    /// number of times a convergence test was left undecided per node kind
    pub ivonly: bool,
    /// the truncation of a wide value may become a fresh parameter
    pub floor_ok: bool,
    floor_of: Option<FV>,
    floor_part: f64,
    /// an undecided branch is taken the other way after this many equal decisions at one place
    pub cut: u32,
    pub maxnodes: usize,
    sites: Map<(usize, usize, usize), (u32, bool)>,
    pub cuts: u32,
    /// callees replaced by their contract: end of the symbol, precondition, accuracy
    pub contracts: &'static [Contract],
    pub contract_calls: u64,
    /// number of parameters of the models when the last one is kept for fresh values (see renew)
    pub fresh: u8,
    fresh_used: Vec<(Rc<TM>, TM, f64)>,
    memo: Memo,
}

fn key(v: FV) -> u64 {
    match v {
        FV::C(x) => x.to_bits(),
        FV::N(i, s) => 0xfff8_0000_0000_0000 | ((s as u64) << 40) | (i as u64 + 1),
    }
}

pub fn ulp_gran(x: f64) -> f64 {
    // the largest power of two that divides x
    if x == 0.0 || !x.is_finite() {
        return f64::INFINITY;
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    if e == 0 {
        return f64::from_bits(1 << m.trailing_zeros());
    }
    let m = m | (1 << 52);
    let t = m.trailing_zeros() as i32;
    let k = e - 1075 + t;
    crate::dd::pow2(k.max(-1074))
}
/// spacing of the doubles at magnitude x (x > 0)
fn ulp(x: f64) -> f64 {
    let e = ((x.to_bits() >> 52) & 0x7ff) as i32;
    if e <= 53 {
        return 5e-324;
    }
    crate::dd::pow2(e - 1075)
}
pub fn up(x: f64) -> f64 {
    if x.is_nan() || x == f64::INFINITY {
        return x;
    }
    if x == 0.0 {
        return 5e-324;
    }
    let b = x.to_bits();
    f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 })
}
pub fn dn(x: f64) -> f64 {
    -up(-x)
}

const UR: f64 = 1.1102230246251565e-16;
const SLK: f64 = 1.0 + 1e-10;

impl<'m> State<'m> {
    pub fn new(m: &'m Module, deg: u8) -> State<'m> {
        State {
            m,
            nodes: vec![],
            cons: Default::default(),
            mem: vec![],
            stack: vec![],
            inputs: vec![],
            forced: None,
            dead: false,
            facts: Default::default(),
            steps: 0,
            forks: 0,
            deg,
            refine_fail: 0,
            refines: 0,
            calls: Default::default(),
            ivonly: false,
            floor_ok: false,
            floor_of: None,
            floor_part: 0.0,
            cut: 0,
            maxnodes: usize::MAX,
            only_panics: false,
            returns: false,
            sites: Default::default(),
            cuts: 0,
            contracts: &[],
            fresh: 0,
            fresh_used: vec![],
            contract_calls: 0,
            memo: Default::default(),
        }
    }
    pub fn input(&mut self, tm: TM, lo: f64, hi: f64, ident: Option<usize>) -> FV {
        if lo == hi {
            return FV::C(lo);
        }
        let id = self.nodes.len() as Id;
        let mig = if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 };
        self.nodes.push(Node {
            k: K::Input,
            a: FV::C(0.0),
            b: FV::C(0.0),
            c: FV::C(0.0),
            lo,
            hi,
            nan: false,
            tm: if tm.ok() && !self.ivonly { Some(Rc::new(tm)) } else { None },
            e: 0.0,
            eps: 0.0,
            g: if mig > 0.0 { ulp(mig) } else { 0.0 },
        });
        self.inputs.push(Input { id, ident });
        FV::N(id, false)
    }
    /// the argument that is parameter d itself
    pub fn ident(&self, d: usize) -> Option<FV> {
        self.inputs.iter().find(|i| i.ident == Some(d)).map(|i| FV::N(i.id, false))
    }
    // ---- views of values
    pub fn iv(&self, v: FV) -> (f64, f64, bool) {
        match v {
            FV::C(x) => (x, x, x.is_nan()),
            FV::N(i, s) => {
                let n = &self.nodes[i as usize];
                if s {
                    (-n.hi, -n.lo, n.nan)
                } else {
                    (n.lo, n.hi, n.nan)
                }
            }
        }
    }
    pub fn tm(&self, v: FV) -> Option<Rc<TM>> {
        match v {
            FV::C(x) => {
                if x.is_finite() {
                    Some(Rc::new(TM::cst(x)))
                } else {
                    None
                }
            }
            FV::N(i, s) => {
                let t = self.nodes[i as usize].tm.clone()?;
                Some(if s { Rc::new(t.neg()) } else { t })
            }
        }
    }
    pub fn err(&self, v: FV) -> f64 {
        match v {
            FV::C(_) => 0.0,
            FV::N(i, _) => self.nodes[i as usize].e,
        }
    }
    fn gran(&self, v: FV) -> f64 {
        match v {
            FV::C(x) => ulp_gran(x),
            FV::N(i, _) => self.nodes[i as usize].g,
        }
    }
    pub fn mag(&self, v: FV) -> f64 {
        let (a, b, _) = self.iv(v);
        a.abs().max(b.abs())
    }
    /// smallest magnitude
    pub fn mig(&self, v: FV) -> f64 {
        let (a, b, _) = self.iv(v);
        if a > 0.0 {
            a
        } else if b < 0.0 {
            -b
        } else {
            0.0
        }
    }
    // ---- node construction
    fn mk(&mut self, k: K, a: FV, b: FV, c: FV) -> FV {
        let ky = (k, key(a), key(b), key(c));
        if let Some(&i) = self.cons.get(&ky) {
            let n = &self.nodes[i as usize];
            if n.lo == n.hi && !n.nan && n.lo != 0.0 && n.tm.is_none() {
                return FV::C(n.lo);
            }
            return FV::N(i, false);
        }
        let (lo, hi, nan) = self.ivop(k, a, b, c);
        let mut n = Node { k, a, b, c, lo, hi, nan, tm: None, e: f64::INFINITY, eps: f64::INFINITY, g: 0.0 };
        self.local(&mut n);
        if !self.ivonly {
            self.fill_tm(&mut n);
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.cons.insert(ky, id);
        if !self.ivonly {
            self.maybe_refine(id);
            self.tighten(id);
        }
        let n = &self.nodes[id as usize];
        if n.lo == n.hi && !n.nan && n.lo != 0.0 && n.k != K::Input && (n.tm.is_none()) {
            return FV::C(n.lo);
        }
        FV::N(id, false)
    }
    fn tighten(&mut self, id: Id) {
        let n = &mut self.nodes[id as usize];
        if let Some(t) = &n.tm {
            if n.e.is_finite() && !n.nan {
                let (a, b) = t.range();
                let (a, b) = (dn(a - n.e), up(b + n.e));
                if a > n.lo {
                    n.lo = a;
                }
                if b < n.hi {
                    n.hi = b;
                }
            }
        }
    }
    fn ivop(&self, k: K, a: FV, b: FV, c: FV) -> (f64, f64, bool) {
        let (al, ah, an) = self.iv(a);
        let (bl, bh, bn) = self.iv(b);
        let inf = f64::INFINITY;
        let has_inf = |l: f64, h: f64| l == -inf || h == inf;
        let w1 = |l: f64, h: f64, n: bool| (dn(l), up(h), n);
        match k {
            K::Input => (al, ah, an),
            K::Add => {
                let nan = an || bn || (al == -inf && bh == inf) || (ah == inf && bl == -inf);
                let (mut l, mut h) = (al + bl, ah + bh);
                if l.is_nan() {
                    l = -inf;
                }
                if h.is_nan() {
                    h = inf;
                }
                (l, h, nan)
            }
            K::Mul => {
                let z = |l: f64, h: f64| l <= 0.0 && h >= 0.0;
                let nan = an || bn || (z(al, ah) && has_inf(bl, bh)) || (z(bl, bh) && has_inf(al, ah));
                if a == b {
                    let m = if z(al, ah) { 0.0 } else { (al * al).min(ah * ah) };
                    return (m, (al * al).max(ah * ah), nan);
                }
                let p = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
                let v = [p(al, bl), p(al, bh), p(ah, bl), p(ah, bh)];
                (v.iter().cloned().fold(inf, f64::min), v.iter().cloned().fold(-inf, f64::max), nan)
            }
            K::Div => {
                if bl <= 0.0 && bh >= 0.0 {
                    let nan = an || bn || (al <= 0.0 && ah >= 0.0) || (has_inf(al, ah) && has_inf(bl, bh));
                    if bl == 0.0 && al >= 0.0 && bh > 0.0 {
                        return (al / bh, inf, nan);
                    }
                    return (-inf, inf, nan);
                }
                let nan = an || bn || (has_inf(al, ah) && has_inf(bl, bh));
                let q = |x: f64, y: f64| if x.is_infinite() && y.is_infinite() { 0.0 } else { x / y };
                let mut v = vec![q(al, bl), q(al, bh), q(ah, bl), q(ah, bh)];
                if has_inf(al, ah) && has_inf(bl, bh) {
                    v.push(inf);
                    v.push(-inf);
                }
                (v.iter().cloned().fold(inf, f64::min), v.iter().cloned().fold(-inf, f64::max), nan)
            }
            K::Floor => (al.floor(), ah.floor(), an),
            K::Sqrt => (al.max(0.0).sqrt(), ah.max(0.0).sqrt(), an || al < 0.0),
            K::Exp => {
                let (mut l, h, n) = w1(al.exp(), ah.exp(), an);
                if al > 709.79 {
                    l = inf; // certain overflow
                }
                (if al == -inf { 0.0 } else { l.max(0.0) }, h, n)
            }
            K::Ln => w1(
                if al <= 0.0 { -inf } else { al.ln() },
                if ah <= 0.0 { -inf } else { ah.ln() },
                an || al < 0.0,
            ),
            K::Sin | K::Cos => {
                // monotone pieces are not needed: the Taylor model gives the sharp range
                if ah - al < 1e-300 && al.is_finite() {
                    let v = if k == K::Sin { al.sin() } else { al.cos() };
                    return w1(v, v, an);
                }
                (-1.0, 1.0, an || has_inf(al, ah))
            }
            K::Sinh => w1(al.sinh(), ah.sinh(), an).slop(),
            K::Cosh => {
                let m = if al <= 0.0 && ah >= 0.0 { 1.0 } else { al.cosh().min(ah.cosh()) };
                w1(m, al.cosh().max(ah.cosh()), an).slop()
            }
            K::Pow => {
                if al < 0.0 {
                    return (-inf, inf, true);
                }
                let v = [al.powf(bl), al.powf(bh), ah.powf(bl), ah.powf(bh)];
                let mut l = v.iter().cloned().fold(inf, f64::min);
                let mut h = v.iter().cloned().fold(-inf, f64::max);
                if al <= 1.0 && ah >= 1.0 {
                    l = l.min(1.0);
                    h = h.max(1.0);
                }
                let r = w1(l, h, an || bn);
                (r.0.max(0.0), r.1, r.2)
            }
            K::Abs => {
                let m = if al <= 0.0 && ah >= 0.0 { 0.0 } else { al.abs().min(ah.abs()) };
                (m, al.abs().max(ah.abs()), an)
            }
            K::Shc | K::Snc | K::Rsn => {
                let m = al.abs().max(ah.abs());
                let (l, h) = match k {
                    K::Shc => (1.0, if m == 0.0 { 1.0 } else { m.sinh() / m }),
                    K::Snc => (if m == 0.0 { 1.0 } else { m.sin() / m }, 1.0),
                    _ => (1.0, if m == 0.0 { 1.0 } else { m / m.sin() }),
                };
                (l * (1.0 - 1e-14), h * (1.0 + 1e-14), an)
            }
            K::Gp => (0.0, 1.0, an || bn),
            K::Bp => (0.0, 1.0, an || bn || self.iv(c).2),
            K::Fma => {
                let (cl, ch, cn) = self.iv(c);
                let f = |x: f64, y: f64, z: f64| x.mul_add(y, z);
                let l = [f(al, bl, cl), f(al, bh, cl), f(ah, bl, cl), f(ah, bh, cl)];
                let h = [f(al, bl, ch), f(al, bh, ch), f(ah, bl, ch), f(ah, bh, ch)];
                let bad = l.iter().chain(h.iter()).any(|v| v.is_nan());
                if bad {
                    return (-inf, inf, true);
                }
                (l.iter().cloned().fold(inf, f64::min), h.iter().cloned().fold(-inf, f64::max), an || bn || cn)
            }
        }
    }
    /// local rounding error and granularity
    fn local(&self, n: &mut Node) {
        let m = n.lo.abs().max(n.hi.abs());
        let mig = if n.lo > 0.0 { n.lo } else if n.hi < 0.0 { -n.hi } else { 0.0 };
        let dflt_g = if mig > 0.0 { ulp(mig) } else { 0.0 };
        n.g = dflt_g;
        if !m.is_finite() {
            n.eps = f64::INFINITY;
            return;
        }
        let half = m * UR * (1.0 + 1e-15);
        let sub = 2.5e-324; // rounds to the smallest subnormal
        let tiny = mig < 2.3e-308;
        match n.k {
            K::Add => {
                n.eps = half; // additions never underflow
                let g = self.gran(n.a).min(self.gran(n.b));
                if g > 0.0 && m <= g * 9007199254740992.0 {
                    n.eps = 0.0;
                    n.g = n.g.max(g.min(1e300));
                }
                // |a + b| error is also bounded by the smaller operand
                n.eps = n.eps.min(self.mag(n.a)).min(self.mag(n.b));
            }
            K::Mul => {
                n.eps = half + if tiny { sub * 2.0 } else { 0.0 };
                let p2 = |v: FV| match v {
                    FV::C(x) => x.abs() == ulp_gran(x),
                    _ => false,
                };
                if (p2(n.a) || p2(n.b)) && !tiny {
                    n.eps = 0.0;
                }
                let g = self.gran(n.a) * self.gran(n.b);
                if g > 1e-290 && g < 1e290 && m <= g * 9007199254740992.0 {
                    n.eps = 0.0;
                    n.g = n.g.max(g);
                }
            }
            K::Div => {
                n.eps = half + if tiny { sub * 2.0 } else { 0.0 };
                if let FV::C(x) = n.b {
                    if x.abs() == ulp_gran(x) && !tiny {
                        n.eps = 0.0;
                    }
                }
            }
            K::Fma => n.eps = half + if tiny { sub * 2.0 } else { 0.0 },
            K::Sqrt => n.eps = half,
            // the C library: below one unit in the last place (two for sinh and cosh)
            K::Exp | K::Ln | K::Sin | K::Cos | K::Pow => n.eps = 2.0 * half + if tiny { 5e-324 } else { 0.0 },
            K::Sinh | K::Cosh => n.eps = 4.0 * half + if tiny { 1e-323 } else { 0.0 },
            K::Shc | K::Snc | K::Rsn => n.eps = 5.1 * half,
            K::Floor => {
                n.eps = 0.0;
                n.g = n.g.max(1.0);
            }
            K::Gp => {
                n.eps = self.iv(n.c).0;
                n.g = 0.0;
            }
            K::Bp => {
                n.eps = BETA_EPS;
                n.g = 0.0;
            }
            K::Abs | K::Input => {
                n.eps = 0.0;
                n.g = n.g.max(self.gran(n.a));
            }
        }
    }
    /// the model of an operation depends on the models of its operands only: paths share it
    fn once(&self, n: &Node, f: impl FnOnce() -> TM) -> Rc<TM> {
        let id = |v: FV| match v {
            FV::C(x) => (x.to_bits(), 2),
            FV::N(i, s) => (self.nodes[i as usize].tm.as_ref().map_or(0, |t| Rc::as_ptr(t) as u64), s as u8),
        };
        let k = (n.k, id(n.a), id(n.b), id(n.c));
        if let Some(t) = self.memo.borrow().get(&k) {
            return t.0.clone();
        }
        let t = Rc::new(f());
        // (the operands are kept alive, so that their addresses stay theirs)
        let keep = [n.a, n.b, n.c].map(|v| match v {
            FV::N(i, _) => self.nodes[i as usize].tm.clone(),
            _ => None,
        });
        self.memo.borrow_mut().insert(k, (t.clone(), keep));
        t
    }
    fn fill_tm(&self, n: &mut Node) {
        if n.nan && !(n.lo.is_finite() && n.hi.is_finite()) {
            // maybe the Taylor models still know better (the interval of a quotient is crude)
        }
        let (Some(ta), Some(tb)) = (self.tm(n.a), self.tm(n.b)) else { return };
        let (ea, eb) = (self.err(n.a), self.err(n.b));
        if !ea.is_finite() || !eb.is_finite() {
            return;
        }
        let (t, prop) = match n.k {
            K::Add => (self.once(n, || ta.add(&tb)), ea + eb),
            K::Mul => {
                let t = self.once(n, || {
                    let mut t = if n.a == n.b { ta.sqr() } else { ta.mul(&tb) };
                    if !(t.r <= 1e-14 * t.c[0].h.abs()) {
                        if let Some(q) = self.unreciprocate(n.a, n.b).or_else(|| self.unreciprocate(n.b, n.a)) {
                            if q.ok() && !(t.r <= q.r) {
                                t = q;
                            }
                        }
                    }
                    t
                });
                let p = if ea > 0.0 || eb > 0.0 { ta.mag() * eb + tb.mag() * ea + ea * eb } else { 0.0 };
                (t, p)
            }
            K::Div => {
                let mut t = self.once(n, || {
                    let r = tb.recip();
                    let mut t = ta.mul(&r);
                    // 1 / (p + 1/a) = a / (a p + 1)
                    if n.a == FV::C(1.0) && !(t.r <= 1e-14 * t.c[0].h.abs()) {
                        if let Some((p, a)) = self.sum_with_reciprocal(n.b) {
                            if let (Some(p), Some(a)) = (self.tm(p), self.tm(a)) {
                                let q = a.div(&a.mul(&p).addc(1.0));
                                if q.ok() && !(t.r <= q.r) {
                                    t = q;
                                }
                            }
                        }
                    }
                    t
                });
                if !t.ok() {
                    let (l, h, nan) = self.iv(n.b);
                    let (l, h) = (1.0 / (h + eb * SLK), 1.0 / (l - eb * SLK));
                    if nan || !(l > 0.0 && h > 0.0 && h.is_finite()) {
                        return;
                    }
                    t = Rc::new(ta.mul(&TM::cst(l / 2.0 + h / 2.0).widen((h - l) * 0.5 * SLK + h * 1e-15)));
                }
                // (the interval bounds the computed value, eb its distance from the exact one)
                let d = tb.mig().max(if self.iv(n.b).2 { 0.0 } else { self.mig(n.b) - eb }) - eb;
                if !(d > 0.0) {
                    return;
                }
                let m = t.mag();
                (t, if ea > 0.0 || eb > 0.0 { (ea + m * eb) / d } else { 0.0 })
            }
            K::Sqrt => {
                let (lo, _) = ta.range();
                if lo - ea <= 0.0 {
                    return;
                }
                let t = self.once(n, || ta.sqrt());
                (t, ea / ((lo - ea).sqrt() + lo.sqrt()))
            }
            K::Exp => {
                let t = self.once(n, || ta.exp());
                let m = t.mag();
                (t, m * ea.exp_m1() * SLK)
            }
            K::Ln => {
                let (lo, _) = ta.range();
                if lo - ea <= 0.0 {
                    return;
                }
                (self.once(n, || ta.ln()), ea / (lo - ea))
            }
            K::Sin => (self.once(n, || ta.sincos().0), ea),
            K::Cos => (self.once(n, || ta.sincos().1), ea),
            K::Sinh | K::Cosh => {
                let t = self.once(n, || if n.k == K::Sinh { ta.sinh() } else { ta.cosh() });
                let m = ta.mag() + ea;
                (t, m.cosh() * ea * SLK)
            }
            K::Shc | K::Snc | K::Rsn => {
                let t = self.once(n, || match n.k {
                    K::Shc => ta.shc(1.0),
                    K::Snc => ta.shc(-1.0),
                    _ => ta.shc(-1.0).recip(),
                });
                (t, self.ratio_slope(n.k, n.a) * ea * SLK)
            }
            K::Pow => {
                let (lo, hi) = ta.range();
                if lo - ea <= 0.0 {
                    return;
                }
                let t = self.once(n, || ta.ln().mul(&tb).exp());
                // |d(b ln a)| <= |b| ea/(a - ea) + |ln a| eb
                let lm = (lo - ea).ln().abs().max((hi + ea).ln().abs());
                let d = (tb.mag() + eb) * ea / (lo - ea) + lm * eb;
                let m = t.mag();
                (t, m * d.exp_m1() * SLK)
            }
            K::Abs => {
                let (lo, hi) = ta.range();
                if lo > 0.0 {
                    (ta, ea)
                } else if hi < 0.0 {
                    (Rc::new(ta.neg()), ea)
                } else {
                    let m = lo.abs().max(hi.abs());
                    (Rc::new(TM::cst(m / 2.0).widen(m / 2.0 * (1.0 + 1e-15))), ea)
                }
            }
            K::Fma => {
                let Some(tc) = self.tm(n.c) else { return };
                let ec = self.err(n.c);
                if !ec.is_finite() {
                    return;
                }
                (self.once(n, || ta.mul(&tb).add(&tc)), ta.mag() * eb + tb.mag() * ea + ea * eb + ec)
            }
            K::Gp => {
                if ea > 0.0 {
                    return;
                }
                let t = self.once(n, || {
                    // the radius enters by the mean value theorem
                    let mut x = (*tb).clone();
                    x.r = 0.0;
                    let t = crate::spec::gamma_pq(&ta, &x).0;
                    if tb.r == 0.0 {
                        return t;
                    }
                    t.widen(crate::spec::gamma_density(&ta, &tb.truncate(3)).mag() * tb.r * SLK)
                });
                let p = if eb > 0.0 { crate::spec::gamma_density(&ta, &tb.truncate(3).widen(eb)).mag() * eb } else { 0.0 };
                if !p.is_finite() {
                    return;
                }
                (t, p)
            }
            K::Bp => {
                let (Some(tc), ec) = (self.tm(n.c), self.err(n.c)) else { return };
                if ea > 0.0 || ec > 0.0 {
                    return;
                }
                let t = self.once(n, || {
                    let mut x = (*tb).clone();
                    x.r = 0.0;
                    let t = crate::spec::betai(&ta, &tc, &x);
                    if tb.r == 0.0 {
                        return t;
                    }
                    t.widen(crate::spec::beta_density(&ta, &tc, &tb.truncate(3)).mag() * tb.r * SLK)
                });
                let p = if eb > 0.0 { crate::spec::beta_density(&ta, &tc, &tb.truncate(3).widen(eb)).mag() * eb } else { 0.0 };
                if !p.is_finite() {
                    return;
                }
                (t, p)
            }
            K::Floor => {
                let th = TM::var(2, self.deg, 1, DD::f(self.floor_part / 10.0 + 0.05), 0.0500001);
                (Rc::new(ta.sub(&th)), ea)
            }
            K::Input => return,
        };
        if !t.ok() {
            return;
        }
        // the computed value is finite: |ideal| + error stays far below overflow
        let m = t.mag();
        if !(m + prop < 2e307) {
            return;
        }
        n.tm = Some(t);
        let mut eps = n.eps;
        let e = prop * SLK;
        // a sharper magnitude for the local error
        let m2 = m + e;
        if n.eps > 0.0 && m2 < n.lo.abs().max(n.hi.abs()) || !n.eps.is_finite() {
            let f = match n.k {
                K::Exp | K::Ln | K::Sin | K::Cos | K::Pow => 2.0,
                K::Sinh | K::Cosh => 4.0,
                K::Shc | K::Snc | K::Rsn => 5.1,
                K::Abs | K::Floor => 0.0,
                K::Gp | K::Bp => f64::INFINITY,
                _ => 1.0,
            };
            eps = eps.min(m2 * UR * f * (1.0 + 1e-12) + 1e-323);
        }
        n.eps = eps;
        n.e = (e + eps) * SLK;
        // finite, so not NaN
        n.nan = false;
        let (a, b) = n.tm.as_ref().unwrap().range();
        let (a, b) = (dn(a - n.e), up(b + n.e));
        if n.lo < a || n.lo.is_nan() {
            n.lo = a;
        }
        if n.hi > b || n.hi.is_nan() {
            n.hi = b;
        }
        if n.g == 0.0 {
            let mig = if n.lo > 0.0 { n.lo } else if n.hi < 0.0 { -n.hi } else { 0.0 };
            if mig > 0.0 {
                n.g = ulp(mig);
            }
        }
    }
    /// p and a when v = p + 1/a
    fn sum_with_reciprocal(&self, v: FV) -> Option<(FV, FV)> {
        let FV::N(i, s) = v else { return None };
        let n = &self.nodes[i as usize];
        if n.k != K::Add {
            return None;
        }
        for (p, r) in [(n.a, n.b), (n.b, n.a)] {
            if let FV::N(j, t) = r {
                let m = &self.nodes[j as usize];
                if m.k == K::Div && m.a == FV::C(1.0) {
                    let a = if s != t { m.b.neg() } else { m.b };
                    return Some((if s { p.neg() } else { p }, a));
                }
            }
        }
        None
    }
    /// the model of h (p +- 1/h) d as (h p +- 1) d: the division need not have an accurate model
    fn unreciprocate(&self, h: FV, del: FV) -> Option<TM> {
        let FV::N(i, s) = del else { return None };
        let n = &self.nodes[i as usize];
        if n.k != K::Mul {
            return None;
        }
        for (c, d) in [(n.a, n.b), (n.b, n.a)] {
            if let Some((p, a)) = self.sum_with_reciprocal(c) {
                if a == h || a == h.neg() {
                    let t = self.tm(h)?.mul(&*self.tm(p)?).addc(if a == h { 1.0 } else { -1.0 }).mul(&*self.tm(d)?);
                    return Some(if s { t.neg() } else { t });
                }
            }
        }
        None
    }
    /// bound of the derivative of sinh(a)/a, sin(a)/a or a/sin(a)
    fn ratio_slope(&self, k: K, a: FV) -> f64 {
        let m = self.mag(a);
        match k {
            K::Shc => m * m.cosh(),
            K::Snc => m,
            _ => {
                let s = m.sin() / m.max(1e-300);
                if m < 1e-8 { m * 2.0 } else { m / (s * s) * 1.01 }
            }
        }
    }
    fn maybe_refine(&mut self, id: Id) {
        let n = &self.nodes[id as usize];
        let Some(t) = &n.tm else { return };
        if !n.e.is_finite() || n.e == 0.0 {
            return;
        }
        if n.e > 1e-7 * t.c[0].h.abs() && n.e > 1e-280 && self.refine_fail < 6 {
            let old = n.e;
            self.refine(id);
            let new = self.nodes[id as usize].e;
            if new > old * 0.1 {
                self.refine_fail += 1;
            } else {
                self.refine_fail = 0;
            }
        }
    }
    /// replaces the forward error bound of a node by the adjoint bound
    pub fn refine(&mut self, id: Id) {
        self.refines += 1;
        let e = self.adjoint(id);
        let n = &mut self.nodes[id as usize];
        if e < n.e {
            n.e = e;
        }
    }
    /// |computed - ideal| of node `id` by the mean-value form: the sum over all nodes of
    /// sup |d result / d node| times the rounding error of the node
    pub fn adjoint(&self, id: Id) -> f64 {
        let mut adj: Vec<Option<TM>> = vec![None; id as usize + 1];
        adj[id as usize] = Some(TM::cst(1.0));
        let mut total = 0.0;
        let d = self.deg;
        for i in (0..=id as usize).rev() {
            let Some(w) = adj[i].take() else { continue };
            let n = &self.nodes[i];
            let wm = w.mag();
            if !wm.is_finite() {
                return f64::INFINITY;
            }
            total += wm * n.eps;
            if n.e == 0.0 || n.k == K::Input {
                // no error upstream
                continue;
            }
            let infl = |v: FV| -> Option<TM> { self.tm(v).map(|t| t.truncate(d).widen(self.err(v))) };
            let me = |_: ()| -> Option<TM> { n.tm.as_ref().map(|t| t.truncate(d).widen(n.e)) };
            let mut push = |v: FV, p: TM, adj: &mut Vec<Option<TM>>| {
                if let FV::N(j, s) = v {
                    if self.nodes[j as usize].e == 0.0 {
                        return;
                    }
                    let c = if s { p.neg() } else { p };
                    let slot = &mut adj[j as usize];
                    *slot = Some(match slot.take() {
                        None => c,
                        Some(o) => o.add(&c),
                    });
                }
            };
            let needs = |v: FV| matches!(v, FV::N(j, _) if self.nodes[j as usize].e != 0.0);
            match n.k {
                K::Input => {}
                K::Floor => push(n.a, w, &mut adj),
                K::Gp => {
                    let (Some(ta), Some(tb)) = (self.tm(n.a), infl(n.b)) else { return f64::INFINITY };
                    push(n.b, w.mul(&crate::spec::gamma_density(&ta.truncate(d), &tb)), &mut adj);
                }
                K::Bp => {
                    let (Some(ta), Some(tb), Some(tc)) = (self.tm(n.a), infl(n.b), self.tm(n.c)) else { return f64::INFINITY };
                    push(n.b, w.mul(&crate::spec::beta_density(&ta.truncate(d), &tc.truncate(d), &tb)), &mut adj);
                }
                K::Add => {
                    push(n.a, w.clone(), &mut adj);
                    push(n.b, w, &mut adj);
                }
                K::Mul => {
                    if needs(n.a) {
                        let Some(t) = infl(n.b) else { return f64::INFINITY };
                        push(n.a, w.mul(&t), &mut adj);
                    }
                    if needs(n.b) {
                        let Some(t) = infl(n.a) else { return f64::INFINITY };
                        push(n.b, w.mul(&t), &mut adj);
                    }
                }
                K::Fma => {
                    let (Some(ta), Some(tb)) = (infl(n.a), infl(n.b)) else { return f64::INFINITY };
                    push(n.a, w.mul(&tb), &mut adj);
                    push(n.b, w.mul(&ta), &mut adj);
                    push(n.c, w, &mut adj);
                }
                K::Div => {
                    let Some(tb) = infl(n.b) else { return f64::INFINITY };
                    let r = tb.recip();
                    if !r.ok() {
                        return f64::INFINITY;
                    }
                    let wr = w.mul(&r);
                    if needs(n.b) {
                        let Some(q) = me(()) else { return f64::INFINITY };
                        push(n.b, wr.mul(&q).neg(), &mut adj);
                    }
                    push(n.a, wr, &mut adj);
                }
                K::Sqrt => {
                    let Some(q) = me(()) else { return f64::INFINITY };
                    push(n.a, w.div(&q.scale2(1)), &mut adj);
                }
                K::Exp => {
                    let Some(q) = me(()) else { return f64::INFINITY };
                    push(n.a, w.mul(&q), &mut adj);
                }
                K::Ln => {
                    let Some(t) = infl(n.a) else { return f64::INFINITY };
                    push(n.a, w.div(&t), &mut adj);
                }
                K::Sin | K::Cos => {
                    let Some(t) = infl(n.a) else { return f64::INFINITY };
                    let (s, c) = t.sincos();
                    let p = if n.k == K::Sin { c } else { s.neg() };
                    push(n.a, w.mul(&p), &mut adj);
                }
                K::Sinh | K::Cosh => {
                    let Some(t) = infl(n.a) else { return f64::INFINITY };
                    let p = if n.k == K::Sinh { t.cosh() } else { t.sinh() };
                    push(n.a, w.mul(&p), &mut adj);
                }
                K::Shc | K::Snc | K::Rsn => {
                    push(n.a, TM::cst(0.0).widen(wm * self.ratio_slope(n.k, n.a)), &mut adj);
                }
                K::Pow => {
                    let (Some(ta), Some(tb), Some(q)) = (infl(n.a), infl(n.b), me(())) else { return f64::INFINITY };
                    let wq = w.mul(&q);
                    if needs(n.a) {
                        push(n.a, wq.mul(&tb).div(&ta), &mut adj);
                    }
                    if needs(n.b) {
                        push(n.b, wq.mul(&ta.ln()), &mut adj);
                    }
                }
                K::Abs => {
                    let (lo, hi) = (n.tm.as_ref().map(|_| self.iv(n.a))).map(|x| (x.0, x.1)).unwrap_or((-1.0, 1.0));
                    if lo > 0.0 {
                        push(n.a, w, &mut adj);
                    } else if hi < 0.0 {
                        push(n.a, w.neg(), &mut adj);
                    } else {
                        push(n.a, TM::cst(0.0).widen(wm), &mut adj);
                    }
                }
            }
        }
        let t = total * SLK;
        if t.is_nan() {
            f64::INFINITY
        } else {
            t
        }
    }
    // ---- arithmetic with exact normalisation
    pub fn fadd(&mut self, a: FV, b: FV) -> FV {
        if let (FV::C(x), FV::C(y)) = (a, b) {
            return FV::C(x + y);
        }
        if a == FV::C(0.0) || a == FV::C(-0.0) {
            return b;
        }
        if b == FV::C(0.0) || b == FV::C(-0.0) {
            return a;
        }
        if let (FV::N(i, s), FV::N(j, t)) = (a, b) {
            if i == j && s != t {
                let (l, h, n) = self.iv(a);
                if l.is_finite() && h.is_finite() && !n {
                    return FV::C(0.0);
                }
            }
        }
        // order the operands, then make the first one (or the node) positive
        let (a, b) = match (a, b) {
            (FV::C(_), FV::N(..)) => (b, a),
            (FV::N(i, _), FV::N(j, _)) if i > j => (b, a),
            _ => (a, b),
        };
        if let FV::N(_, true) = a {
            self.mk(K::Add, a.neg(), b.neg(), FV::C(0.0)).neg()
        } else {
            self.mk(K::Add, a, b, FV::C(0.0))
        }
    }
    pub fn fmul(&mut self, a: FV, b: FV) -> FV {
        if let (FV::C(x), FV::C(y)) = (a, b) {
            return FV::C(x * y);
        }
        let (a, b) = match (a, b) {
            (FV::C(_), FV::N(..)) => (b, a),
            (FV::N(i, _), FV::N(j, _)) if i > j => (b, a),
            _ => (a, b),
        };
        if let FV::C(y) = b {
            if y == 1.0 {
                return a;
            }
            if y == -1.0 {
                return a.neg();
            }
            if y == 0.0 {
                let (l, h, n) = self.iv(a);
                if l.is_finite() && h.is_finite() && !n {
                    return FV::C(0.0);
                }
            }
        }
        let (a, s) = self.strip(a);
        let (b, t) = self.strip(b);
        let r = self.mk(K::Mul, a, b, FV::C(0.0));
        if s != t {
            r.neg()
        } else {
            r
        }
    }
    fn strip(&self, a: FV) -> (FV, bool) {
        match a {
            FV::N(i, s) => (FV::N(i, false), s),
            FV::C(x) if x.is_sign_negative() && !x.is_nan() => (FV::C(-x), true),
            _ => (a, false),
        }
    }
    pub fn fdiv(&mut self, a: FV, b: FV) -> FV {
        if let (FV::C(x), FV::C(y)) = (a, b) {
            return FV::C(x / y);
        }
        if b == FV::C(1.0) {
            return a;
        }
        if b == FV::C(-1.0) {
            return a.neg();
        }
        if a == FV::C(0.0) || a == FV::C(-0.0) {
            if self.mig(b) > 0.0 && !self.iv(b).2 {
                return FV::C(0.0);
            }
        }
        let (a, s) = self.strip(a);
        let (b, t) = self.strip(b);
        let r = match self.ratio(a, b) {
            Some((k, p)) => self.mk(k, p, FV::C(0.0), FV::C(0.0)),
            None => self.mk(K::Div, a, b, FV::C(0.0)),
        };
        if s != t {
            r.neg()
        } else {
            r
        }
    }
    /// sinh(p)/p, sin(p)/p or p/sin(p) with |p| <= 3 and p known not to be 0
    fn ratio(&self, a: FV, b: FV) -> Option<(K, FV)> {
        let kind = |v: FV| match v {
            FV::N(i, _) => Some((self.nodes[i as usize].k, self.nodes[i as usize].a)),
            _ => None,
        };
        let (k, p) = match (kind(a), kind(b)) {
            (Some((K::Sinh, p)), _) if p == b => (K::Shc, p),
            (Some((K::Sin, p)), _) if p == b => (K::Snc, p),
            (_, Some((K::Sin, p))) if p == a => (K::Rsn, p),
            _ => return None,
        };
        if !(self.mag(p) <= 3.0) || self.iv(p).2 {
            return None;
        }
        let (l, h, _) = self.iv(p);
        let nonzero = l > 0.0 || h < 0.0 || self.nodes.iter().any(|n| n.k == K::Abs && n.a == p && n.lo > 0.0);
        // (results that underflow are excluded: they keep no relative accuracy)
        let ab = self.nodes.iter().filter(|n| n.k == K::Abs && n.a == p).map(|n| n.lo).fold(0.0, f64::max);
        let far = if l > 0.0 { l } else if h < 0.0 { -h } else { ab };
        (nonzero && far > 1e-300).then_some((k, p))
    }
    pub fn fabs(&mut self, a: FV) -> FV {
        match a {
            FV::C(x) => FV::C(x.abs()),
            FV::N(i, _) => {
                let n = &self.nodes[i as usize];
                if n.lo >= 0.0 {
                    return FV::N(i, false);
                }
                if n.hi <= 0.0 {
                    return FV::N(i, true);
                }
                self.mk(K::Abs, FV::N(i, false), FV::C(0.0), FV::C(0.0))
            }
        }
    }
    fn un(&mut self, k: K, a: FV) -> FV {
        if let FV::C(x) = a {
            return FV::C(match k {
                K::Sqrt => x.sqrt(),
                K::Exp => x.exp(),
                K::Ln => x.ln(),
                K::Sin => x.sin(),
                K::Cos => x.cos(),
                K::Sinh => x.sinh(),
                K::Cosh => x.cosh(),
                _ => unreachable!(),
            });
        }
        let (p, s) = self.strip(a);
        match k {
            K::Sin | K::Sinh => {
                let r = self.mk(k, p, FV::C(0.0), FV::C(0.0));
                if s {
                    r.neg()
                } else {
                    r
                }
            }
            K::Cos | K::Cosh => self.mk(k, p, FV::C(0.0), FV::C(0.0)),
            _ => self.mk(k, a, FV::C(0.0), FV::C(0.0)),
        }
    }
    fn powi(&mut self, a: FV, n: i32) -> FV {
        let recip = n < 0;
        let mut b = n;
        let mut a = a;
        let mut r = FV::C(1.0);
        loop {
            if b & 1 != 0 {
                r = self.fmul(r, a);
            }
            b /= 2;
            if b == 0 {
                break;
            }
            a = self.fmul(a, a);
        }
        if recip {
            self.fdiv(FV::C(1.0), r)
        } else {
            r
        }
    }
    // ---- decisions
    fn choose(&mut self, n: usize) -> Result<usize, Stop> {
        match self.forced.take() {
            None => Err(Stop::Fork(n)),
            Some(k) => Ok(k),
        }
    }
    /// follow exact operations from a node to an input: the input value at which `v` equals c
    fn trace(&self, v: FV, c: f64) -> Option<(usize, f64)> {
        let FV::N(i, s) = v else { return None };
        let c = if s { -c } else { c };
        let n = &self.nodes[i as usize];
        match n.k {
            K::Input => {
                let d = self.inputs.iter().find(|x| x.id == i)?.ident?;
                // strictly useful only if the value lies in the cell
                if c > n.lo && c < n.hi || (c == n.lo || c == n.hi) && n.lo < n.hi {
                    Some((d, c))
                } else {
                    None
                }
            }
            K::Add if n.eps == 0.0 => {
                if let FV::C(y) = n.b {
                    let t = c - y;
                    if t + y == c {
                        return self.trace(n.a, t);
                    }
                }
                None
            }
            K::Mul if n.eps == 0.0 => {
                if let FV::C(y) = n.b {
                    let t = c / y;
                    if t * y == c {
                        return self.trace(n.a, t);
                    }
                }
                None
            }
            // approximately monotone in the input: a good place to split, decided by re-running
            K::Add | K::Mul | K::Div => {
                if let FV::C(y) = n.b {
                    let t = match n.k {
                        K::Add => c - y,
                        K::Mul => c / y,
                        _ => c * y,
                    };
                    return self.trace_approx(n.a, t);
                }
                if let (K::Div, FV::C(y)) = (n.k, n.a) {
                    return self.trace_approx(n.b, y / c);
                }
                if n.k == K::Mul && n.a == n.b && c > 0.0 {
                    return self.trace_approx(n.a, c.sqrt());
                }
                None
            }
            _ => None,
        }
    }
    /// as `trace`, but the split point is only near the threshold; used when the cell is wide
    fn trace_approx(&self, v: FV, c: f64) -> Option<(usize, f64)> {
        let (l, h, _) = self.iv(v);
        let w = h - l;
        let (d, p) = self.trace(v, c)?;
        let inp = self.inputs.iter().find(|x| x.ident == Some(d))?;
        let n = &self.nodes[inp.id as usize];
        // stop splitting when the threshold is already next to the border of the cell
        let m = 1e-3 * (n.hi - n.lo);
        if w > 0.0 && p > n.lo + m && p < n.hi - m && (n.hi - n.lo) > 1e-6 * p.abs() {
            return Some((d, p));
        }
        None
    }
    fn diff_sign(&self, a: FV, b: FV) -> Option<i32> {
        // sign of computed a - computed b when the Taylor models decide it
        let (ta, tb) = (self.tm(a)?, self.tm(b)?);
        let e = self.err(a) + self.err(b);
        if !e.is_finite() {
            return None;
        }
        let (l, h) = ta.sub(&tb).range();
        if l > e {
            Some(1)
        } else if h < -e {
            Some(-1)
        } else {
            None
        }
    }
    /// p: 0 '<', 1 '<=', 2 '==' (ordered comparisons). Returns the truth value.
    fn cmp(&mut self, p: u8, a: FV, b: FV) -> Result<bool, Stop> {
        let (al, ah, an) = self.iv(a);
        let (bl, bh, bn) = self.iv(b);
        if let (FV::C(x), FV::C(y)) = (a, b) {
            return Ok(match p {
                0 => x < y,
                1 => x <= y,
                _ => x == y,
            });
        }
        let nan = an || bn;
        if al.is_nan() && ah.is_nan() || matches!(a, FV::C(x) if x.is_nan()) || matches!(b, FV::C(x) if x.is_nan()) {
            return Ok(false);
        }
        if !nan {
            match p {
                0 => {
                    if ah < bl {
                        return Ok(true);
                    }
                    if al >= bh {
                        return Ok(false);
                    }
                }
                1 => {
                    if ah <= bl {
                        return Ok(true);
                    }
                    if al > bh {
                        return Ok(false);
                    }
                }
                _ => {
                    if ah < bl || al > bh {
                        return Ok(false);
                    }
                    if a == b {
                        return Ok(true);
                    }
                    if al == ah && bl == bh && al == bl {
                        return Ok(true);
                    }
                }
            }
            if a == b {
                return Ok(p == 1);
            }
        } else {
            // may be NaN: false is certain when the ordered part is false
            match p {
                0 if al >= bh => return Ok(false),
                1 if al > bh => return Ok(false),
                2 if ah < bl || al > bh => return Ok(false),
                _ => {}
            }
        }
        let ky = (p, key(a), key(b));
        if let Some(&r) = self.facts.get(&ky) {
            return Ok(r);
        }
        if !nan {
            if let Some(s) = self.diff_sign(a, b) {
                return Ok(match p {
                    0 | 1 => s < 0,
                    _ => false,
                });
            }
        }
        if self.forced.is_none() {
            if let FV::C(c) = b {
                if let Some((d, at)) = self.trace(a, c) {
                    return Err(Stop::Split(d, at));
                }
            }
            if let FV::C(c) = a {
                if let Some((d, at)) = self.trace(b, c) {
                    return Err(Stop::Split(d, at));
                }
            }
        }
        let mut site = (0, 0, 0);
        let mut r = None;
        if self.cut > 0 {
            let f = self.stack.last().unwrap();
            site = (f.body as *const _ as usize, f.bb, f.pc);
            if let Some(&(k, r0)) = self.sites.get(&site) {
                if k >= self.cut {
                    self.cuts += 1;
                    r = Some(!r0);
                }
            }
        }
        let r = match r {
            Some(r) => r,
            None => self.choose(2)? == 1,
        };
        if self.cut > 0 {
            let e = self.sites.entry(site).or_insert((0, r));
            if e.1 == r {
                e.0 += 1;
            } else {
                *e = (1, r);
            }
        }
        self.facts.insert(ky, r);
        // clip the enclosures
        match (p, r) {
            (0, true) => {
                self.clip(a, f64::NEG_INFINITY, dn(bh), true);
                self.clip(b, up(al), f64::INFINITY, true);
            }
            (1, true) => {
                self.clip(a, f64::NEG_INFINITY, bh, true);
                self.clip(b, al, f64::INFINITY, true);
            }
            (2, true) => {
                self.clip(a, bl, bh, true);
                self.clip(b, al, ah, true);
            }
            (0, false) if !nan => {
                self.clip(a, bl, f64::INFINITY, false);
                self.clip(b, f64::NEG_INFINITY, ah, false);
            }
            (1, false) if !nan => {
                self.clip(a, up(bl), f64::INFINITY, false);
                self.clip(b, f64::NEG_INFINITY, dn(ah), false);
            }
            _ => {}
        }
        Ok(r)
    }
    fn clip(&mut self, v: FV, lo: f64, hi: f64, ordered: bool) {
        if let FV::N(i, s) = v {
            let (lo, hi) = if s { (-hi, -lo) } else { (lo, hi) };
            let mut changed = false;
            let mut dead = false;
            {
                let n = &mut self.nodes[i as usize];
                if lo > n.lo {
                    n.lo = lo;
                    changed = true;
                }
                if hi < n.hi {
                    n.hi = hi;
                    changed = true;
                }
                if ordered && n.nan {
                    n.nan = false;
                    changed = true;
                }
                if n.lo > n.hi {
                    // no value is left: the path is infeasible
                    dead = ordered || !n.nan;
                    n.hi = n.lo;
                }
            }
            self.dead |= dead;
            if changed && !dead {
                // |x| clipped: nothing to learn about x unless its sign is known
                let n = self.nodes[i as usize].clone();
                if n.k == K::Abs {
                    let (l, h, _) = self.iv(n.a);
                    if l >= 0.0 {
                        self.clip(n.a, n.lo, n.hi, ordered);
                    } else if h <= 0.0 {
                        self.clip(n.a, -n.hi, -n.lo, ordered);
                    } else {
                        self.clip(n.a, -n.hi, n.hi, ordered);
                    }
                }
                self.resweep(i);
            }
        }
    }
    /// re-evaluates the enclosures of the nodes above `i`
    fn resweep(&mut self, i: Id) {
        let mut dirty = vec![false; self.nodes.len()];
        dirty[i as usize] = true;
        for j in i as usize + 1..self.nodes.len() {
            let n = &self.nodes[j];
            if n.k == K::Input {
                continue;
            }
            let d = |v: FV| matches!(v, FV::N(k, _) if dirty[k as usize]);
            if d(n.a) || d(n.b) || d(n.c) {
                let (lo, hi, nan) = self.ivop(n.k, n.a, n.b, n.c);
                let n = &mut self.nodes[j];
                let mut ch = false;
                if lo > n.lo && lo <= n.hi {
                    n.lo = lo;
                    ch = true;
                }
                if hi < n.hi && hi >= n.lo {
                    n.hi = hi;
                    ch = true;
                }
                if n.nan && !nan {
                    n.nan = false;
                    ch = true;
                }
                if ch && n.tm.is_none() && !self.ivonly {
                    let mut m = n.clone();
                    self.local(&mut m);
                    self.fill_tm(&mut m);
                    self.nodes[j] = m;
                }
                dirty[j] = ch;
            }
        }
    }
    fn is_nan(&mut self, a: FV) -> Result<bool, Stop> {
        match a {
            FV::C(x) => Ok(x.is_nan()),
            FV::N(i, _) => {
                if !self.nodes[i as usize].nan {
                    return Ok(false);
                }
                let ky = (9, i as u64, 0);
                if let Some(&r) = self.facts.get(&ky) {
                    return Ok(r);
                }
                let r = self.choose(2)? == 1;
                self.facts.insert(ky, r);
                if !r {
                    self.clip(a, f64::NEG_INFINITY, f64::INFINITY, true);
                }
                Ok(r)
            }
        }
    }
    fn fcmp(&mut self, p: u8, a: FV, b: FV) -> Result<bool, Stop> {
        // p: 0 olt 1 ole 2 oeq 3 ogt 4 oge 5 one 6 ord 7 uno, +8: unordered variants ult ule ueq ugt uge une
        let base = p & 7;
        let unord = p >= 8;
        if unord {
            // u-variant = not (opposite ordered)
            return Ok(match base {
                0 => !self.cmp(1, b, a)?, // ult = !(a >= b)
                1 => !self.cmp(0, b, a)?, // ule = !(a > b)
                2 => {
                    // ueq = uno || oeq
                    if self.is_nan(a)? || self.is_nan(b)? {
                        true
                    } else {
                        self.cmp(2, a, b)?
                    }
                }
                3 => !self.cmp(1, a, b)?,
                4 => !self.cmp(0, a, b)?,
                _ => !self.cmp(2, a, b)?, // une = !(oeq)
            });
        }
        Ok(match base {
            0 => self.cmp(0, a, b)?,
            1 => self.cmp(1, a, b)?,
            2 => self.cmp(2, a, b)?,
            3 => self.cmp(0, b, a)?,
            4 => self.cmp(1, b, a)?,
            5 => {
                if self.is_nan(a)? || self.is_nan(b)? {
                    false
                } else {
                    !self.cmp(2, a, b)?
                }
            }
            6 => !(self.is_nan(a)? || self.is_nan(b)?),
            _ => self.is_nan(a)? || self.is_nan(b)?,
        })
    }
    /// sign bit (zeros count as positive unless the value is a constant)
    fn signbit(&mut self, a: FV) -> Result<bool, Stop> {
        match a {
            FV::C(x) => Ok(x.is_sign_negative()),
            _ => self.cmp(0, a, FV::C(0.0)),
        }
    }
    /// an integer-valued function of a float, monotone: picks one value
    fn pick_int(&mut self, a: FV, f: impl Fn(f64) -> f64) -> Result<f64, Stop> {
        if let FV::C(x) = a {
            return Ok(f(x));
        }
        let (l, h, nan) = self.iv(a);
        if nan {
            if self.is_nan(a)? {
                return Ok(f(f64::NAN));
            }
            return self.pick_int(a, f);
        }
        let (l, h) = (f(l), f(h));
        if l == h {
            return Ok(l);
        }
        if !(h - l <= 40.0) {
            return Err(Stop::Wide("integer conversion".into()));
        }
        let ky = (8, key(a), 0);
        let _ = ky;
        // an exact image of an input: split the cell there
        if self.forced.is_none() {
            if let Some((d, at)) = self.trace(a, h) {
                return Err(Stop::Split(d, at));
            }
        }
        let n = (h - l) as usize + 1;
        let k = l + self.choose(n)? as f64;
        // the preimage of k under floor or trunc
        let (cl, ch) = if k > 0.0 || f(k - 0.5) == k - 1.0 {
            (k, dn(k + 1.0))
        } else if k == 0.0 {
            (up(-1.0), dn(1.0))
        } else {
            (up(k - 1.0), k)
        };
        if f(cl) == k && f(ch) == k {
            self.clip(a, cl, ch, true);
            Ok(k)
        } else {
            Err(Stop::Wide("integer conversion".into()))
        }
    }
    /// the truncation of a non-negative value with many possible results, as a symbolic integer
    fn floor(&mut self, a: FV) -> Result<Option<V<'m>>, Stop> {
        if !self.floor_ok {
            return Ok(None);
        }
        let (l, h, nan) = self.iv(a);
        if nan || !(l >= 0.0 && h < 4503599627370496.0) || h.floor() - l.floor() <= if l >= 10.0 { 0.0 } else { 3.0 } {
            return Ok(None);
        }
        if self.floor_of.map_or(false, |b| b != a) {
            return Err(Stop::Wide("second truncation".into()));
        }
        if self.floor_of.is_none() {
            // cases by the fractional part
            self.floor_part = self.choose(10)? as f64;
            self.floor_of = Some(a);
        }
        Ok(Some(V::SI(self.mk(K::Floor, a, FV::C(0.0), FV::C(0.0)))))
    }
    fn si_op(&mut self, o: &str, x: FV, c: u64, bits: u32) -> Result<V<'m>, Stop> {
        let r = match o {
            "mul" if c < 1 << 20 => self.fmul(x, FV::C(c as f64)),
            "shl" if c < 20 => self.fmul(x, FV::C((1u64 << c) as f64)),
            "add" => {
                let s = sext(c, bits);
                if s.abs() > 1 << 40 {
                    return Err(Stop::Unsupported("symbolic integer".into()));
                }
                self.fadd(x, FV::C(s as f64))
            }
            "sub" if c < 1 << 40 => self.fadd(x, FV::C(-(c as f64))),
            "or" if c == 1 => {
                // only even values are set bit by bit: not tracked
                return Err(Stop::Unsupported("symbolic integer or".into()));
            }
            _ => return Err(Stop::Unsupported(format!("symbolic integer {o}"))),
        };
        let (l, h, _) = self.iv(r);
        let lim = if bits >= 53 { 9007199254740992.0 } else { (1u64 << (bits - 1)) as f64 };
        if l >= 0.0 && h < lim {
            Ok(V::SI(r))
        } else {
            Err(Stop::Wide("symbolic integer range".into()))
        }
    }
    fn exp_range(&self, id: Id) -> (i64, i64) {
        let n = &self.nodes[id as usize];
        let be = |x: f64| ((x.abs().to_bits() >> 52) & 0x7ff) as i64;
        let m = n.lo.abs().max(n.hi.abs());
        let g = if n.lo > 0.0 { n.lo } else if n.hi < 0.0 { -n.hi } else { 0.0 };
        (be(g), if n.nan { 0x7ff } else { be(m) })
    }
    fn pick_exp(&mut self, s: SymI) -> Result<i64, Stop> {
        let (l, h) = self.exp_range(s.id);
        if l == h {
            return Ok(l + s.off);
        }
        if h - l > 60 {
            return Err(Stop::Wide("exponent".into()));
        }
        let k = l + self.choose((h - l + 1) as usize)? as i64;
        self.clip_exp(s.id, k, k);
        Ok(k + s.off)
    }
    fn clip_exp(&mut self, id: Id, l: i64, h: i64) {
        let lo = if l == 0 { 0.0 } else { f64::from_bits((l as u64) << 52) };
        let hi = f64::from_bits(((h as u64) << 52) | ((1 << 52) - 1));
        let n = &self.nodes[id as usize];
        if n.lo >= 0.0 {
            self.clip(FV::N(id, false), lo, hi, h < 0x7ff);
        } else if n.hi <= 0.0 {
            self.clip(FV::N(id, false), -hi, -lo, h < 0x7ff);
        } else {
            self.clip(FV::N(id, false), -hi, hi, h < 0x7ff);
        }
    }
    /// a function of the exponent with few distinct results
    fn pick_fn(&mut self, s: SymI, f: impl Fn(i64) -> u64) -> Result<u64, Stop> {
        let (l, h) = self.exp_range(s.id);
        if h - l > 2100 {
            return Err(Stop::Wide("exponent".into()));
        }
        // maximal runs of equal results
        let mut runs: Vec<(i64, i64, u64)> = vec![];
        for k in l..=h {
            let v = f(k + s.off);
            match runs.last_mut() {
                Some(r) if r.2 == v => r.1 = k,
                _ => runs.push((k, k, v)),
            }
        }
        if runs.len() == 1 {
            return Ok(runs[0].2);
        }
        if runs.len() > 60 {
            return Err(Stop::Wide("exponent".into()));
        }
        let k = self.choose(runs.len())?;
        self.clip_exp(s.id, runs[k].0, runs[k].1);
        Ok(runs[k].2)
    }
    fn truth(&mut self, v: &V<'m>) -> Result<bool, Stop> {
        match v {
            V::I(x) => Ok(*x & 1 == 1),
            V::Cmp(p, a, b) => self.fcmp(*p, *a, *b),
            _ => Err(Stop::Unsupported(format!("condition {v:?}"))),
        }
    }
    fn int(&mut self, v: &V<'m>) -> Result<u64, Stop> {
        match v {
            V::I(x) => Ok(*x),
            V::S(s) => Ok(self.pick_exp(*s)? as u64),
            V::Cmp(..) => Ok(self.truth(v)? as u64),
            V::Bits(FV::C(x)) => Ok(x.to_bits()),
            V::F(FV::C(x)) => Ok(x.to_bits()),
            V::U => Ok(0),
            V::SI(FV::C(x)) => Ok(*x as u64),
            V::LI(x) => Ok(self.pick_int(*x, |v| v.trunc())? as u64),
            V::SI(x) => {
                // few values: choose one
                let r = self.pick_int(*x, |v| v.trunc())?;
                Ok(r as u64)
            }
            _ => Err(Stop::Unsupported(format!("integer {v:?}"))),
        }
    }
    fn flt(&mut self, v: &V<'m>) -> Result<FV, Stop> {
        match v {
            V::F(f) => Ok(*f),
            V::I(x) => Ok(FV::C(f64::from_bits(*x))),
            V::Bits(f) => Ok(*f),
            V::U => Ok(FV::C(0.0)),
            _ => Err(Stop::Unsupported(format!("float {v:?}"))),
        }
    }
    // ---- memory
    fn alloc(&mut self, size: usize) -> V<'m> {
        self.mem.push(Rc::new(Obj { size, cells: BTreeMap::new() }));
        V::P(Base::Obj(self.mem.len() - 1), 0)
    }
    fn load(&mut self, ty: &Ty, p: &V<'m>) -> Result<V<'m>, Stop> {
        let un = |s: String| Err(Stop::Unsupported(s));
        let sz = ty.size();
        if let Ty::Struct(_) | Ty::Array(..) = ty {
            let n = match ty {
                Ty::Struct(v) => v.len(),
                Ty::Array(n, _) => *n,
                _ => 0,
            };
            let V::P(b, o) = p else { return un("load".into()) };
            let mut v = vec![];
            for i in 0..n {
                let (fo, ft) = ty.field(i);
                v.push(self.load(&ft, &V::P(*b, o + fo as i64))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        match p {
            V::P(Base::Glob(g), off) => {
                let Some(gl) = self.m.globals.get(*g) else { return un(format!("global {g}")) };
                let o = *off as usize;
                if *off < 0 || o + sz > gl.bytes.len() {
                    return un(format!("load outside of {g}"));
                }
                if *ty == Ty::Ptr {
                    return match gl.ptrs.get(&o) {
                        Some(t) => Ok(V::P(Base::Glob(t), 0)),
                        None => Ok(V::P(Base::Null, 0)),
                    };
                }
                let mut b = [0u8; 8];
                if sz > 8 {
                    return un("wide load".into());
                }
                b[..sz].copy_from_slice(&gl.bytes[o..o + sz]);
                let x = u64::from_le_bytes(b);
                Ok(match ty {
                    Ty::Double => V::F(FV::C(f64::from_bits(x))),
                    Ty::Int(_) => V::I(x),
                    _ => return un(format!("load {ty:?}")),
                })
            }
            V::P(Base::Obj(k), off) => {
                let ob = self.mem[*k].clone();
                if *off < 0 || *off as usize + sz > ob.size {
                    return un("load out of bounds".into());
                }
                let o = *off as usize;
                let v = match ob.cells.get(&o) {
                    Some((s, v)) if *s == sz => v.clone(),
                    _ => {
                        // compose from smaller constant cells, or cut from a larger one
                        let mut x: u64 = 0;
                        let mut ok = sz <= 8;
                        for i in 0..sz.min(8) {
                            let mut hit = false;
                            if let Some((co, (cs, cv))) = ob.cells.range(..=o + i).next_back() {
                                if o + i < co + cs {
                                    let val = match cv {
                                        V::I(y) => Some(*y),
                                        V::F(FV::C(y)) => Some(y.to_bits()),
                                        _ => None,
                                    };
                                    if let Some(y) = val {
                                        x |= ((y >> (8 * (o + i - co))) & 0xff) << (8 * i);
                                        hit = true;
                                    }
                                }
                            }
                            if !hit {
                                ok = false;
                            }
                        }
                        if !ok {
                            return un("uninitialised or mixed load".into());
                        }
                        V::I(x)
                    }
                };
                Ok(match (ty, v) {
                    (Ty::Double, V::I(x)) => V::F(FV::C(f64::from_bits(x))),
                    (Ty::Double, V::Bits(f)) => V::F(f),
                    (Ty::Int(64), V::F(f)) => match f {
                        FV::C(x) => V::I(x.to_bits()),
                        _ => V::Bits(f),
                    },
                    (Ty::Int(b), V::I(x)) if *b < 64 => V::I(x & ((1 << b) - 1)),
                    (Ty::Ptr, V::I(_)) => V::P(Base::Null, 0),
                    (_, v) => v,
                })
            }
            _ => un(format!("load from {p:?}")),
        }
    }
    fn store(&mut self, ty: &Ty, v: V<'m>, p: &V<'m>) -> Result<(), Stop> {
        let un = |s: String| Err(Stop::Unsupported(s));
        if let (Ty::Struct(_) | Ty::Array(..), V::A(vs)) = (ty, &v) {
            let V::P(b, o) = p else { return un("store".into()) };
            for (i, x) in vs.iter().enumerate() {
                let (fo, ft) = ty.field(i);
                self.store(&ft, x.clone(), &V::P(*b, o + fo as i64))?;
            }
            return Ok(());
        }
        let sz = ty.size();
        match p {
            V::P(Base::Obj(k), off) => {
                let size = self.mem[*k].size;
                if *off < 0 || *off as usize + sz > size {
                    return un("store out of bounds".into());
                }
                let v = if let V::Cmp(..) = v { V::I(self.truth(&v)? as u64) } else { v };
                let o = *off as usize;
                let ob = Rc::make_mut(&mut self.mem[*k]);
                // cut overlapped cells
                let ov: Vec<usize> =
                    ob.cells.range(o.saturating_sub(64)..o + sz).filter(|(c, (s, _))| *c + s > o && **c < o + sz).map(|(c, _)| *c).collect();
                for c in ov {
                    let (s, old) = ob.cells.remove(&c).unwrap();
                    if c < o || c + s > o + sz {
                        if let V::I(x) = old {
                            for i in 0..s.min(8) {
                                if c + i < o || c + i >= o + sz {
                                    ob.cells.insert(c + i, (1, V::I((x >> (8 * i)) & 0xff)));
                                }
                            }
                        }
                    }
                }
                ob.cells.insert(o, (sz, v));
                Ok(())
            }
            _ => un(format!("store to {p:?}")),
        }
    }
    fn memcpy(&mut self, d: &V<'m>, s: &V<'m>, n: usize) -> Result<(), Stop> {
        let un = |s: &str| Err(Stop::Unsupported(s.into()));
        if n == 0 {
            return Ok(());
        }
        let V::P(db, dof) = d else { return un("memcpy") };
        let V::P(sb, sof) = s else { return un("memcpy") };
        match sb {
            Base::Glob(g) => {
                let Some(gl) = self.m.globals.get(*g) else { return un("memcpy global") };
                let o = *sof as usize;
                if o + n > gl.bytes.len() {
                    return un("memcpy bounds");
                }
                let bytes = &gl.bytes[o..o + n];
                let mut i = 0;
                while i < n {
                    let c = if i + 8 <= n { 8 } else { 1 };
                    let mut b = [0u8; 8];
                    b[..c].copy_from_slice(&bytes[i..i + c]);
                    self.store(&Ty::Int(8 * c as u32), V::I(u64::from_le_bytes(b)), &V::P(*db, dof + i as i64))?;
                    i += c;
                }
                Ok(())
            }
            Base::Obj(k) => {
                let o = *sof as usize;
                let src = self.mem[*k].clone();
                if o + n > src.size {
                    return un("memcpy bounds");
                }
                for (c, (sz, v)) in src.cells.range(o..o + n) {
                    if c + sz > o + n {
                        return un("memcpy cut");
                    }
                    let ty = match v {
                        V::F(_) => Ty::Double,
                        V::P(..) => Ty::Ptr,
                        _ => Ty::Int(8 * *sz as u32),
                    };
                    self.store(&ty, v.clone(), &V::P(*db, dof + (*c as i64 - o as i64)))?;
                }
                Ok(())
            }
            _ => un("memcpy null"),
        }
    }
    // ---- running
    pub fn begin(&mut self, c: &CallSpec) -> Result<(), Stop> {
        let f = self.m.funcs.get(&c.func).ok_or(Stop::Unsupported(format!("no function {}", c.func)))?;
        let args = self.alloc(8 * c.args.len().max(1));
        let out = self.alloc(8 * c.nout.max(1));
        for (i, a) in c.args.iter().enumerate() {
            let V::P(b, o) = args else { unreachable!() };
            self.store(&Ty::Double, V::F(*a), &V::P(b, o + 8 * i as i64))?;
        }
        let body = f.body().map_err(Stop::Unsupported)?;
        let mut regs = vec![V::U; body.nregs];
        let pv = [V::I(c.n), args, out];
        for (i, p) in body.params.iter().enumerate() {
            regs[*p] = pv[i].clone();
        }
        self.stack.push(Frame { body, name: &f.name, regs, bb: 0, pc: 0, prev: usize::MAX, dst: None });
        Ok(())
    }
    fn opv(&mut self, o: &'m Op) -> Result<V<'m>, Stop> {
        Ok(match o {
            Op::Reg(r) => self.stack.last().unwrap().regs[*r].clone(),
            Op::Int(x) => V::I(*x),
            Op::F(x) => V::F(FV::C(*x)),
            Op::Null => V::P(Base::Null, 0),
            Op::Undef => V::U,
            Op::Zero => V::U,
            Op::Global(g) => V::P(Base::Glob(g), 0),
            Op::Gep(b, o) => match self.opv(b)? {
                V::P(b, k) => V::P(b, k + o),
                _ => return Err(Stop::Unsupported("gep".into())),
            },
            Op::Agg(v) => {
                let mut r = vec![];
                for (_, x) in v {
                    r.push(self.opv(x)?);
                }
                V::A(Rc::new(r))
            }
        })
    }
    /// runs until the outermost call returns
    pub fn run(&mut self, budget: u64) -> Result<Option<String>, Stop> {
        loop {
            self.steps += 1;
            if self.steps > budget || self.nodes.len() > self.maxnodes {
                return Err(Stop::Budget);
            }
            if self.only_panics && self.stack.last().is_some_and(|f| f.pc == 0) && !self.stack.iter().any(|f| self.m.may_panic_from(f.name, f.body, f.bb, f.pc)) {
                self.stack.clear();
                self.returns = true;
                return Ok(None);
            }
            let r = self.step()?;
            if self.dead {
                self.stack.clear();
                return Ok(None);
            }
            match r {
                Flow::Next => {}
                Flow::Done => return Ok(None),
                Flow::Panic(s) => {
                    self.stack.clear();
                    return Ok(Some(s));
                }
                Flow::_P(_) => {}
            }
        }
    }
    pub fn outputs(&mut self, obj: usize, n: usize) -> Result<Vec<FV>, Stop> {
        let mut v = vec![];
        for i in 0..n {
            let x = self.load(&Ty::Double, &V::P(Base::Obj(obj), 8 * i as i64))?;
            v.push(self.flt(&x)?);
        }
        Ok(v)
    }
    pub fn nobj(&self) -> usize {
        self.mem.len()
    }
    /// the next decision takes alternative k
    pub fn force(&mut self, k: usize) {
        self.forced = Some(k);
        self.forks += 1;
    }
    fn step(&mut self) -> Result<Flow<'m>, Stop> {
        let fr = self.stack.last().unwrap();
        let body = fr.body;
        let blk = &body.blocks[fr.bb];
        if fr.pc < blk.ins.len() {
            let (dst, ins) = &blk.ins[fr.pc];
            if let Ins::Phi(_) = ins {
                return self.phis(body, blk);
            }
            let r = self.ins(ins)?;
            self.forced = None;
            match r {
                Act::Val(v) => {
                    let fr = self.stack.last_mut().unwrap();
                    if let Some(d) = dst {
                        fr.regs[*d] = v;
                    }
                    fr.pc += 1;
                }
                Act::Call(f, args) => {
                    self.stack.last_mut().unwrap().pc += 1;
                    self.enter(f, args, *dst)?;
                }
                Act::Panic(s) => return Ok(Flow::Panic(s)),
            }
            return Ok(Flow::Next);
        }
        // terminator
        let go = |st: &mut Self, b: usize| {
            let fr = st.stack.last_mut().unwrap();
            fr.prev = fr.bb;
            fr.bb = b;
            fr.pc = 0;
        };
        match &blk.term {
            Term::Br(b) => go(self, *b),
            Term::CondBr(c, a, b) => {
                let v = self.opv(c)?;
                let t = self.truth(&v)?;
                self.forced = None;
                // remember the decision in the register
                if let Op::Reg(r) = c {
                    self.stack.last_mut().unwrap().regs[*r] = V::I(t as u64);
                }
                go(self, if t { *a } else { *b })
            }
            Term::Switch(bits, c, d, cases) => {
                let v = self.opv(c)?;
                let m = if *bits >= 64 { u64::MAX } else { (1 << bits) - 1 };
                let target = match v {
                    V::S(s) => {
                        let cs: Vec<(u64, usize)> = cases.clone();
                        let d = *d;
                        self.pick_fn(s, move |k| cs.iter().find(|(x, _)| *x == (k as u64 & m)).map(|c| c.1).unwrap_or(d) as u64)? as usize
                    }
                    v => {
                        let x = self.int(&v)? & m;
                        cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*d)
                    }
                };
                self.forced = None;
                go(self, target)
            }
            Term::Ret(o) => {
                let v = match o {
                    Some(o) => self.opv(o)?,
                    None => V::U,
                };
                let fr = self.stack.pop().unwrap();
                if let Some(top) = self.stack.last_mut() {
                    if let Some(d) = fr.dst {
                        top.regs[d] = v;
                    }
                } else {
                    return Ok(Flow::Done);
                }
            }
            Term::Unreachable => return Ok(Flow::Panic("unreachable".into())),
            Term::Invoke(dst, ty, f, args, nx) => {
                let _ = ty;
                let a = self.args(args)?;
                let r = self.call(f, a)?;
                self.forced = None;
                let fr = self.stack.last_mut().unwrap();
                fr.prev = fr.bb;
                fr.bb = *nx;
                fr.pc = 0;
                match r {
                    Act::Val(v) => {
                        if let Some(d) = dst {
                            fr.regs[*d] = v;
                        }
                    }
                    Act::Call(f, a) => self.enter(f, a, *dst)?,
                    Act::Panic(s) => return Ok(Flow::Panic(s)),
                }
            }
            Term::Bad(s) => return Err(Stop::Unsupported(s.clone())),
        }
        Ok(Flow::Next)
    }
    fn enter(&mut self, f: &'m Func, args: Vec<V<'m>>, dst: Option<usize>) -> Result<(), Stop> {
        if self.stack.len() > 200 {
            return Err(Stop::Unsupported("recursion".into()));
        }
        let body = f.body().map_err(Stop::Unsupported)?;
        self.calls.insert(&f.name);
        let mut regs = vec![V::U; body.nregs];
        for (i, p) in body.params.iter().enumerate() {
            regs[*p] = args[i].clone();
        }
        self.stack.push(Frame { body, name: &f.name, regs, bb: 0, pc: 0, prev: usize::MAX, dst });
        Ok(())
    }
    fn phis(&mut self, _body: &'m Body, blk: &'m Block) -> Result<Flow<'m>, Stop> {
        let prev = self.stack.last().unwrap().prev;
        let mut vals = vec![];
        let mut n = 0;
        for (dst, ins) in &blk.ins {
            let Ins::Phi(v) = ins else { break };
            n += 1;
            let o = v.iter().find(|(_, l)| *l == prev).ok_or(Stop::Unsupported("phi".into()))?;
            vals.push((*dst, self.opv(&o.0)?));
        }
        let fr = self.stack.last_mut().unwrap();
        for (d, v) in vals {
            if let Some(d) = d {
                fr.regs[d] = v;
            }
        }
        fr.pc = n;
        Ok(Flow::Next)
    }
    fn args(&mut self, a: &'m [(Ty, Op)]) -> Result<Vec<V<'m>>, Stop> {
        let mut v = vec![];
        for (_, o) in a {
            v.push(self.opv(o)?);
        }
        Ok(v)
    }
    /// Names the deviation of a value from its polynomial (radius of the model and rounding error)
    /// by the last parameter, so that it can cancel later. An earlier meaning of that parameter
    /// ends here.
    fn renew(&mut self, v: FV) -> FV {
        let FV::N(i, sg) = v else { return v };
        if self.fresh == 0 || self.nodes[i as usize].nan {
            return v;
        }
        let Some((t, e)) = self.model(FV::N(i, false)) else { return v };
        let t0 = t.drop_last();
        let rad = (t0.r + e) * SLK;
        if !rad.is_finite() || rad == 0.0 || t0.nv != self.fresh {
            return v;
        }
        for n in self.nodes.iter_mut() {
            if let Some(t) = &n.tm {
                if t.nv == self.fresh && t.has_last() {
                    n.tm = Some(Rc::new(t.drop_last()));
                }
            }
        }
        let mut poly = t0.clone();
        poly.r = 0.0;
        // an enclosure used before is good enough if it contains this one (the computation repeats)
        let mut old = None;
        for (m, p, r) in &self.fresh_used {
            if poly.sub(p).mag() + rad <= *r {
                old = Some(m.clone());
            }
        }
        let tm = match old {
            Some(m) => m,
            None => {
                let m = Rc::new(poly.add(&TM::var(self.fresh, self.deg, self.fresh - 1, DD::f(0.0), rad * SLK)));
                self.fresh_used.push((m.clone(), poly, rad));
                m
            }
        };
        let n = &self.nodes[i as usize];
        let (lo, hi, g) = (n.lo, n.hi, n.g);
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { k: K::Input, a: FV::C(0.0), b: FV::C(0.0), c: FV::C(0.0), lo, hi, nan: false, tm: Some(tm), e: 0.0, eps: 0.0, g });
        for f in self.stack.iter_mut() {
            for r in f.regs.iter_mut() {
                if let V::F(FV::N(j, s)) = r {
                    if *j == i {
                        *r = V::F(FV::N(id, *s));
                    }
                }
            }
        }
        FV::N(id, sg)
    }
    /// a value within eps of P(a, x)
    pub fn gp(&mut self, a: FV, x: FV, eps: f64) -> FV {
        self.mk(K::Gp, a, x, FV::C(eps))
    }
    /// a value within BETA_EPS of I_x(a, b)
    pub fn bp(&mut self, a: FV, b: FV, x: FV) -> FV {
        self.mk(K::Bp, a, x, b)
    }
    /// a call of a function whose contract is proved elsewhere: its value is only known by the contract
    fn by_contract(&mut self, f: &str, a: &[V<'m>]) -> Result<Option<FV>, Stop> {
        for c in self.contracts {
            if !f.ends_with(c.0) {
                continue;
            }
            let mut v = vec![];
            for x in a {
                v.push(self.flt(x)?);
            }
            if v.iter().all(|x| matches!(x, FV::C(_))) {
                return Ok(None);
            }
            // the precondition
            for (x, (lo, hi)) in v.iter().zip(c.1) {
                let (l, h, nan) = self.iv(*x);
                if nan || l < *lo || h > *hi {
                    return Err(Stop::Wide(format!("precondition of {}", c.0)));
                }
            }
            self.contract_calls += 1;
            for x in v.iter_mut() {
                *x = self.renew(*x);
            }
            return Ok(Some(match c.0 {
                "5gamma5gammp" => self.gp(v[0], v[1], c.2),
                "4beta5betai" => self.bp(v[0], v[1], v[2]),
                _ => return Ok(None),
            }));
        }
        Ok(None)
    }
    fn call(&mut self, f: &'m str, a: Vec<V<'m>>) -> Result<Act<'m>, Stop> {
        if !self.contracts.is_empty() {
            if let Some(v) = self.by_contract(f, &a)? {
                return Ok(Act::Val(V::F(v)));
            }
        }
        if let Some(fun) = self.m.funcs.get(f) {
            if !f.contains("panic") && !f.contains("handle_error") {
                return Ok(Act::Call(fun, a));
            }
        }
        let val = |v: V<'m>| Ok(Act::Val(v));
        let fl = |v: FV| Ok(Act::Val(V::F(v)));
        if let Some(n) = f.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap_or("");
            match base {
                "fabs" => {
                    let x = self.flt(&a[0])?;
                    let r = self.fabs(x);
                    return fl(r);
                }
                "sqrt" | "exp" | "log" | "sin" | "cos" | "sinh" | "cosh" => {
                    let x = self.flt(&a[0])?;
                    let k = match base {
                        "sqrt" => K::Sqrt,
                        "exp" => K::Exp,
                        "log" => K::Ln,
                        "sin" => K::Sin,
                        "cos" => K::Cos,
                        "sinh" => K::Sinh,
                        _ => K::Cosh,
                    };
                    let r = self.un(k, x);
                    return fl(r);
                }
                "fma" | "fmuladd" => {
                    let (x, y, z) = (self.flt(&a[0])?, self.flt(&a[1])?, self.flt(&a[2])?);
                    if base == "fmuladd" {
                        let p = self.fmul(x, y);
                        let r = self.fadd(p, z);
                        return fl(r);
                    }
                    if let (FV::C(x), FV::C(y), FV::C(z)) = (x, y, z) {
                        return fl(FV::C(x.mul_add(y, z)));
                    }
                    let r = self.mk(K::Fma, x, y, z);
                    return fl(r);
                }
                "pow" => {
                    let (x, y) = (self.flt(&a[0])?, self.flt(&a[1])?);
                    if let (FV::C(x), FV::C(y)) = (x, y) {
                        return fl(FV::C(x.powf(y)));
                    }
                    let r = self.mk(K::Pow, x, y, FV::C(0.0));
                    return fl(r);
                }
                "powi" => {
                    let x = self.flt(&a[0])?;
                    let k = self.int(&a[1])? as u32 as i32;
                    let r = self.powi(x, k);
                    return fl(r);
                }
                "floor" | "trunc" | "ceil" | "round" | "rint" | "roundeven" | "nearbyint" => {
                    let x = self.flt(&a[0])?;
                    let b = base.to_string();
                    let r = self.pick_int(x, move |v| match b.as_str() {
                        "floor" => v.floor(),
                        "trunc" => v.trunc(),
                        "ceil" => v.ceil(),
                        "round" => v.round(),
                        _ => v.round_ties_even(),
                    })?;
                    return fl(FV::C(r));
                }
                "copysign" => {
                    let (x, y) = (self.flt(&a[0])?, self.flt(&a[1])?);
                    let s = self.signbit(y)?;
                    let m = self.fabs(x);
                    return fl(if s { m.neg() } else { m });
                }
                "maximumnum" | "maxnum" | "maximum" | "minimumnum" | "minnum" | "minimum" => {
                    let (x, y) = (self.flt(&a[0])?, self.flt(&a[1])?);
                    if self.is_nan(x)? {
                        return fl(y);
                    }
                    if self.is_nan(y)? {
                        return fl(x);
                    }
                    let lt = self.cmp(0, x, y)?;
                    return fl(if base.starts_with("max") == lt { y } else { x });
                }
                "is" => {
                    // is.fpclass
                    let x = self.flt(&a[0])?;
                    let m = self.int(&a[1])?;
                    return Ok(Act::Val(V::I(self.fpclass(x, m)? as u64)));
                }
                "fptoui" | "fptosi" => {
                    let x = self.flt(&a[0])?;
                    let b: u32 = if n.contains(".i32") { 32 } else if n.contains(".i64") { 64 } else if n.contains(".i8") { 8 } else { 16 };
                    let sg = base == "fptosi";
                    if let Some(v) = self.floor(x)? {
                        return val(v);
                    }
                    if let (FV::N(..), (l, h, false)) = (x, self.iv(x)) {
                        if l >= 0.0 && h < 2147483647.0 && h.trunc() > l.trunc() {
                            return val(V::LI(x));
                        }
                    }
                    let r = self.pick_int(x, move |v| {
                        if sg {
                            if b == 32 {
                                v as i32 as f64
                            } else {
                                v as i64 as f64
                            }
                        } else if b == 32 {
                            v as u32 as f64
                        } else if b == 8 {
                            v as u8 as f64
                        } else {
                            v as u64 as f64
                        }
                    })?;
                    let v = if sg { r as i64 as u64 } else { r as u64 };
                    // the conversion itself for constants (large values are not exact as f64)
                    let v = match x {
                        FV::C(c) => {
                            if sg {
                                if b == 32 {
                                    c as i32 as u32 as u64
                                } else {
                                    c as i64 as u64
                                }
                            } else if b == 32 {
                                c as u32 as u64
                            } else if b == 8 {
                                c as u8 as u64
                            } else {
                                c as u64
                            }
                        }
                        _ => {
                            if b == 32 {
                                v & 0xffff_ffff
                            } else {
                                v
                            }
                        }
                    };
                    return val(V::I(v));
                }
                "umax" | "umin" | "smax" | "smin" => {
                    let bits: u32 = if n.ends_with("i32") { 32 } else { 64 };
                    let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                    let (sx, sy) = (sext(x, bits), sext(y, bits));
                    let r = match base {
                        "umax" => x.max(y),
                        "umin" => x.min(y),
                        "smax" => if sx > sy { x } else { y },
                        _ => if sx < sy { x } else { y },
                    };
                    return val(V::I(r));
                }
                "abs" => {
                    let bits: u32 = if n.ends_with("i32") { 32 } else { 64 };
                    let x = sext(self.int(&a[0])?, bits);
                    return val(V::I(mask(x.unsigned_abs(), bits)));
                }
                "usub" | "uadd" | "ssub" | "sadd" if n.contains(".sat") => {
                    let bits: u32 = if n.ends_with("i32") { 32 } else { 64 };
                    let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                    let mx = mask(u64::MAX, bits);
                    let r = match base {
                        "usub" => x.saturating_sub(y),
                        "uadd" => (x as u128 + y as u128).min(mx as u128) as u64,
                        _ => return Err(Stop::Unsupported(f.into())),
                    };
                    return val(V::I(r));
                }
                "umul" | "smul" | "uadd" | "sadd" | "usub" | "ssub" => {
                    let bits: u32 = if n.ends_with("i32") { 32 } else { 64 };
                    if let (V::SI(x), V::I(y)) = (&a[0], &a[1]) {
                        let r = self.si_op(&base[1..], *x, *y, bits)?;
                        return val(V::A(Rc::new(vec![r, V::I(0)])));
                    }
                    let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                    let sg = base.starts_with('s');
                    let (xx, yy) = if sg { (sext(x, bits) as i128, sext(y, bits) as i128) } else { (x as i128, y as i128) };
                    let r = match &base[1..] {
                        "mul" => xx * yy,
                        "add" => xx + yy,
                        _ => xx - yy,
                    };
                    let (mn, mx) = if sg { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                    let o = r < mn || r > mx;
                    return val(V::A(Rc::new(vec![V::I(mask(r as u64, bits)), V::I(o as u64)])));
                }
                "ctlz" | "cttz" | "ctpop" => {
                    let bits: u32 = if n.ends_with("i32") { 32 } else { 64 };
                    let x = self.int(&a[0])?;
                    let r = match base {
                        "ctlz" => if x == 0 { bits } else { x.leading_zeros() - (64 - bits) },
                        "cttz" => if x == 0 { bits } else { x.trailing_zeros() },
                        _ => x.count_ones(),
                    };
                    return val(V::I(r as u64));
                }
                "memcpy" | "memmove" => {
                    let k = self.int(&a[2])? as usize;
                    self.memcpy(&a[0], &a[1], k)?;
                    return val(V::U);
                }
                "memset" => {
                    let b = self.int(&a[1])? & 0xff;
                    let k = self.int(&a[2])? as usize;
                    let V::P(base, o) = a[0] else { return Err(Stop::Unsupported("memset".into())) };
                    let w = b * 0x0101_0101_0101_0101;
                    let mut i = 0;
                    while i < k {
                        let c = if i + 8 <= k { 8 } else { 1 };
                        self.store(&Ty::Int(8 * c as u32), V::I(if c == 8 { w } else { b }), &V::P(base, o + i as i64))?;
                        i += c;
                    }
                    return val(V::U);
                }
                "lifetime" | "assume" | "experimental" | "dbg" | "invariant" | "prefetch" => return val(V::U),
                "expect" => return val(a[0].clone()),
                "trap" => return Ok(Act::Panic("trap".into())),
                _ => return Err(Stop::Unsupported(f.into())),
            }
        }
        match f {
            "sinh" | "cosh" | "exp" | "log" | "sin" | "cos" | "sqrt" => {
                let x = self.flt(&a[0])?;
                let k = match f {
                    "sqrt" => K::Sqrt,
                    "exp" => K::Exp,
                    "log" => K::Ln,
                    "sin" => K::Sin,
                    "cos" => K::Cos,
                    "sinh" => K::Sinh,
                    _ => K::Cosh,
                };
                let r = self.un(k, x);
                return fl(r);
            }
            "expm1" | "log1p" | "tgamma" | "lgamma" | "atan2" | "hypot" | "fmod" | "tan" | "atan" | "cbrt" | "log2" | "log10" | "exp2" => {
                let mut v = vec![];
                for x in &a {
                    match self.flt(x)? {
                        FV::C(c) => v.push(c),
                        _ => return Err(Stop::Unsupported(f.into())),
                    }
                }
                return fl(FV::C(match f {
                    "expm1" => v[0].exp_m1(),
                    "log1p" => v[0].ln_1p(),
                    "atan2" => v[0].atan2(v[1]),
                    "hypot" => v[0].hypot(v[1]),
                    "fmod" => v[0] % v[1],
                    "tan" => v[0].tan(),
                    "atan" => v[0].atan(),
                    "cbrt" => v[0].cbrt(),
                    "log2" => v[0].log2(),
                    "log10" => v[0].log10(),
                    "exp2" => v[0].exp2(),
                    _ => return Err(Stop::Unsupported(f.into())),
                }));
            }
            "memcpy" | "memmove" => {
                let k = self.int(&a[2])? as usize;
                self.memcpy(&a[0], &a[1], k)?;
                return val(a[0].clone());
            }
            _ => {}
        }
        if f.contains("panic") || f.contains("handle_error") || f.contains("unwrap_failed") || f.contains("expect_failed") || f.contains("slice_index") || f.contains("index_fail") || f.contains("6option") {
            return Ok(Act::Panic(f.to_string()));
        }
        if f.contains("___rust_alloc") && !f.contains("error") {
            let k = self.int(&a[0])? as usize;
            let p = self.alloc(k);
            if f.contains("zeroed") {
                let V::P(b, _) = p else { unreachable!() };
                let mut i = 0;
                while i + 8 <= k {
                    self.store(&Ty::Int(64), V::I(0), &V::P(b, i as i64))?;
                    i += 8;
                }
            }
            return val(p);
        }
        if f.contains("___rust_dealloc") || f.contains("no_alloc_shim") {
            return val(V::U);
        }
        if f.contains("___rust_realloc") {
            let k = self.int(&a[3])? as usize;
            let p = self.alloc(k);
            let n = self.int(&a[1])? as usize;
            self.memcpy(&p, &a[0], n.min(k))?;
            return val(p);
        }
        Err(Stop::Unsupported(format!("call {f}")))
    }
    fn fpclass(&mut self, x: FV, m: u64) -> Result<bool, Stop> {
        // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -zero 6 +zero 7 +sub 8 +normal 9 +inf
        if let FV::C(v) = x {
            let c = if v.is_nan() {
                1
            } else {
                let neg = v.is_sign_negative();
                let k = if v.is_infinite() { 0 } else if v == 0.0 { 3 } else if v.abs() < f64::MIN_POSITIVE { 2 } else { 1 };
                if neg { 2 + k } else { 9 - k }
            };
            let m = if m & 3 != 0 { m | 3 } else { m };
            return Ok(m >> c & 1 == 1);
        }
        let (l, h, nan) = self.iv(x);
        let mut poss = 0u64;
        if nan {
            poss |= 3;
        }
        if l == f64::NEG_INFINITY {
            poss |= 1 << 2;
        }
        if h == f64::INFINITY {
            poss |= 1 << 9;
        }
        if l <= -f64::MIN_POSITIVE && h > f64::NEG_INFINITY {
            poss |= 1 << 3;
        }
        if h >= f64::MIN_POSITIVE && l < f64::INFINITY {
            poss |= 1 << 8;
        }
        if l < 0.0 && h > -f64::MIN_POSITIVE {
            poss |= 1 << 4;
        }
        if h > 0.0 && l < f64::MIN_POSITIVE {
            poss |= 1 << 7;
        }
        if l <= 0.0 && h >= 0.0 {
            poss |= 3 << 5;
        }
        if poss & m == poss {
            return Ok(true);
        }
        if poss & m == 0 {
            return Ok(false);
        }
        // the usual classes: infinite, NaN, zero, sign
        if m == 0x3 || m == 0x1 || m == 0x2 {
            return self.is_nan(x);
        }
        if poss & 3 != 0 {
            self.is_nan(x)?;
            return self.fpclass(x, m);
        }
        // decide infinite, zero, subnormal and sign one after the other, as far as needed
        let hold = |poss: u64| -> Option<bool> {
            if poss & m == poss {
                Some(true)
            } else if poss & m == 0 {
                Some(false)
            } else {
                None
            }
        };
        for class in [0x204u64, 0x60, 0x90, 0x1c0] {
            if poss & class == 0 || poss & class == poss {
                continue;
            }
            let a = self.fabs(x);
            let yes = match class {
                0x204 => !self.cmp(0, a, FV::C(f64::INFINITY))?,
                0x60 => self.cmp(2, x, FV::C(0.0))?,
                0x90 => self.cmp(0, a, FV::C(f64::MIN_POSITIVE))?,
                _ => self.cmp(1, FV::C(0.0), x)?,
            };
            if class == 0x1c0 {
                // non-negative: zeros of either sign count as both
                poss &= if yes { 0x3e0 } else { 0x7c };
            } else {
                poss &= if yes { class } else { !class };
            }
            if let Some(r) = hold(poss) {
                return Ok(r);
            }
        }
        Err(Stop::Wide(format!("fpclass {m:x}")))
    }
    fn ins(&mut self, i: &'m Ins) -> Result<Act<'m>, Stop> {
        let un = |s: String| Err(Stop::Unsupported(s));
        let val = |v: V<'m>| Ok(Act::Val(v));
        match i {
            Ins::FBin(o, a, b) => {
                let (a, b) = (self.opv(a)?, self.opv(b)?);
                let (a, b) = (self.flt(&a)?, self.flt(&b)?);
                val(V::F(match o {
                    b'+' => self.fadd(a, b),
                    b'-' => self.fadd(a, b.neg()),
                    b'*' => self.fmul(a, b),
                    b'/' => self.fdiv(a, b),
                    _ => {
                        if let (FV::C(x), FV::C(y)) = (a, b) {
                            FV::C(x % y)
                        } else if b == FV::C(1.0) {
                            // fract of a node: exact
                            let t = self.pick_int(a, |v| v.trunc())?;
                            self.fadd(a, FV::C(-t))
                        } else {
                            return un("frem".into());
                        }
                    }
                }))
            }
            Ins::FNeg(a) => {
                let a = self.opv(a)?;
                let a = self.flt(&a)?;
                val(V::F(a.neg()))
            }
            Ins::FCmp(p, a, b) => {
                let (a, b) = (self.opv(a)?, self.opv(b)?);
                let (a, b) = (self.flt(&a)?, self.flt(&b)?);
                let code = match p.as_str() {
                    "olt" => 0,
                    "ole" => 1,
                    "oeq" => 2,
                    "ogt" => 3,
                    "oge" => 4,
                    "one" => 5,
                    "ord" => 6,
                    "uno" => 7,
                    "ult" => 8,
                    "ule" => 9,
                    "ueq" => 10,
                    "ugt" => 11,
                    "uge" => 12,
                    "une" => 13,
                    "true" => return val(V::I(1)),
                    "false" => return val(V::I(0)),
                    _ => return un(format!("fcmp {p}")),
                };
                if let (FV::C(_), FV::C(_)) = (a, b) {
                    return val(V::I(self.fcmp(code, a, b)? as u64));
                }
                val(V::Cmp(code, a, b))
            }
            Ins::ICmp(p, bits, a, b) => {
                let (a, b) = (self.opv(a)?, self.opv(b)?);
                if let (V::P(ba, oa), V::P(bb, ob)) = (&a, &b) {
                    let eq = ba == bb && oa == ob;
                    if ba != bb && p != "eq" && p != "ne" {
                        return un("pointer order".into());
                    }
                    return val(V::I(match p.as_str() {
                        "eq" => eq,
                        "ne" => !eq,
                        "ult" => oa < ob,
                        "ule" => oa <= ob,
                        "ugt" => oa > ob,
                        "uge" => oa >= ob,
                        _ => return un("pointer order".into()),
                    } as u64));
                }
                if let (V::Bits(f), V::I(c)) = (&a, &b) {
                    // sign tests and comparisons of bit patterns
                    let c = *c as i64;
                    let (f, p) = (*f, p.as_str());
                    if p == "slt" && c == 0 {
                        return val(V::I(self.signbit(f)? as u64));
                    }
                    if p == "sgt" && c == -1 {
                        return val(V::I(!self.signbit(f)? as u64));
                    }
                    if p == "eq" || p == "ne" {
                        let t = f64::from_bits(c as u64);
                        let r = if t.is_nan() {
                            return un("NaN pattern".into());
                        } else {
                            self.cmp(2, f, FV::C(t))?
                        };
                        return val(V::I((r == (p == "eq")) as u64));
                    }
                    return un(format!("bits {p}"));
                }
                if let (V::LI(x), V::I(c)) = (&a, &b) {
                    // trunc(x) < c if and only if x < c, for x >= 0
                    if *c < 1 << 31 {
                        let r = match p.as_str() {
                            "ult" | "slt" => Some((0, *c)),
                            "ule" | "sle" => Some((0, *c + 1)),
                            "ugt" | "sgt" => Some((4, *c + 1)),
                            "uge" | "sge" => Some((4, *c)),
                            _ => None,
                        };
                        if let Some((code, c)) = r {
                            return val(V::Cmp(code, *x, FV::C(c as f64)));
                        }
                    }
                }
                if let (V::SI(x), V::I(c)) = (&a, &b) {
                    // both are non-negative and exact as floats
                    if *c < 1 << 52 {
                        let code = match p.as_str() {
                            "eq" => 2,
                            "ne" => 5,
                            "ult" | "slt" => 0,
                            "ule" | "sle" => 1,
                            "ugt" | "sgt" => 3,
                            _ => 4,
                        };
                        return val(V::Cmp(code, *x, FV::C(*c as f64)));
                    }
                }
                let f = |x: u64, y: u64| -> bool {
                    let (sx, sy) = (sext(x, *bits), sext(y, *bits));
                    match p.as_str() {
                        "eq" => x == y,
                        "ne" => x != y,
                        "ult" => x < y,
                        "ule" => x <= y,
                        "ugt" => x > y,
                        "uge" => x >= y,
                        "slt" => sx < sy,
                        "sle" => sx <= sy,
                        "sgt" => sx > sy,
                        _ => sx >= sy,
                    }
                };
                if let (V::S(s), V::I(c)) = (&a, &b) {
                    let (c, bits) = (*c, *bits);
                    return val(V::I(self.pick_fn(*s, |k| f(mask(k as u64, bits), c) as u64)?));
                }
                let (x, y) = (self.int(&a)?, self.int(&b)?);
                val(V::I(f(mask(x, *bits), mask(y, *bits)) as u64))
            }
            Ins::IBin(o, bits, a, b) => {
                let (a, b) = (self.opv(a)?, self.opv(b)?);
                // lazy booleans
                if *bits == 1 {
                    match (o.as_str(), &a, &b) {
                        ("xor", V::Cmp(..), V::I(1)) => return val(V::I(!self.truth(&a)? as u64)),
                        ("and", V::I(0), _) | ("and", _, V::I(0)) => return val(V::I(0)),
                        ("or", V::I(1), _) | ("or", _, V::I(1)) => return val(V::I(1)),
                        ("and", V::I(1), x) | ("and", x, V::I(1)) => return val(x.clone()),
                        ("or", V::I(0), x) | ("or", x, V::I(0)) => return val(x.clone()),
                        _ => {}
                    }
                    if o == "and" || o == "or" {
                        let t = self.truth(&a)?;
                        if t == (o == "or") {
                            return val(V::I(t as u64));
                        }
                        return val(V::I(self.truth(&b)? as u64));
                    }
                }
                if let (V::Bits(f), V::I(c)) = (&a, &b) {
                    let f = *f;
                    let c = *c;
                    match o.as_str() {
                        "lshr" if c == 63 => return val(V::I(self.signbit(f)? as u64)),
                        "lshr" if c == 52 => {
                            let s = self.signbit(f)?;
                            let FV::N(id, _) = f else { return un("bits".into()) };
                            let (lo, hi) = self.exp_range(id);
                            return val(V::S(SymI { id, lo, hi, off: if s { 2048 } else { 0 } }));
                        }
                        "and" if c == 0x7fff_ffff_ffff_ffff => {
                            let m = self.fabs(f);
                            return val(V::Bits(m));
                        }
                        "xor" if c == 1 << 63 => return val(V::Bits(f.neg())),
                        "and" if c == 1 << 63 => return val(V::I((self.signbit(f)? as u64) << 63)),
                        "or" if c == 1 << 63 => {
                            let m = self.fabs(f);
                            return val(V::Bits(m.neg()));
                        }
                        "and" if c == 0x800f_ffff_ffff_ffff || c == 0x000f_ffff_ffff_ffff => {
                            // mantissa with the exponent removed: remember the exponent
                            let m = self.fabs(f);
                            let FV::N(id, _) = m else { return un("mantissa".into()) };
                            let (lo, hi) = self.exp_range(id);
                            let e = self.pick_fn(SymI { id, lo, hi, off: 0 }, |k| k as u64)? as i64;
                            if e < 1 || e > 2046 {
                                return Err(Stop::Wide("mantissa of a subnormal".into()));
                            }
                            return val(V::Mant(if c >> 63 == 1 { f } else { m }, e));
                        }
                        _ => {}
                    }
                    return un(format!("bits {o} {c:x}"));
                }
                if let (V::Mant(f, e), V::I(c)) = (&a, &b) {
                    let p = (*c >> 52 & 2047) as i64;
                    let m = self.fabs(*f);
                    if matches!(o.as_str(), "or" | "add" | "xor") && *c & 0x000f_ffff_ffff_ffff == 0 && p > 0 && p < 2047 {
                        // exact: both are normal
                        let mut r = m;
                        let mut d = p - e;
                        let signed = *f != m;
                        let neg = if signed { self.signbit(*f)? } else { false };
                        while d != 0 {
                            let k = d.clamp(-1022, 1023);
                            r = self.fmul(r, FV::C(f64::from_bits(((1023 + k) as u64) << 52)));
                            d -= k;
                        }
                        let neg = neg != (*c >> 63 == 1);
                        return val(V::Bits(if neg { r.neg() } else { r }));
                    }
                    return un(format!("mantissa {o}"));
                }
                if let (V::SI(x), V::I(c)) = (&a, &b) {
                    return val(self.si_op(o, *x, *c, *bits)?);
                }
                if let (V::S(s), V::I(c)) = (&a, &b) {
                    let cs = sext(*c, *bits);
                    match o.as_str() {
                        "add" => return val(V::S(SymI { off: s.off + cs, ..*s })),
                        "sub" => return val(V::S(SymI { off: s.off - cs, ..*s })),
                        "and" if *c == 2047 && (s.off == 0 || s.off == 2048) => {
                            return val(V::S(SymI { off: 0, ..*s }));
                        }
                        _ => {}
                    }
                    let (o, bits, c) = (o.clone(), *bits, *c);
                    let r = self.pick_fn(*s, |k| ibin(&o, bits, mask(k as u64, bits), c).unwrap_or(0))?;
                    return val(V::I(r));
                }
                if let (V::I(c), V::S(s)) = (&a, &b) {
                    if o == "add" {
                        return val(V::S(SymI { off: s.off + sext(*c, *bits), ..*s }));
                    }
                    let (o, bits, c) = (o.clone(), *bits, *c);
                    let r = self.pick_fn(*s, |k| ibin(&o, bits, c, mask(k as u64, bits)).unwrap_or(0))?;
                    return val(V::I(r));
                }
                // pointer arithmetic through integers
                if let (V::P(b1, o1), V::P(b2, o2)) = (&a, &b) {
                    if o == "sub" && b1 == b2 {
                        return val(V::I((o1 - o2) as u64));
                    }
                    return un("pointer arithmetic".into());
                }
                if let (V::P(..), _) | (_, V::P(..)) = (&a, &b) {
                    return un("pointer arithmetic".into());
                }
                let (x, y) = (self.int(&a)?, self.int(&b)?);
                match ibin(o, *bits, mask(x, *bits), mask(y, *bits)) {
                    Some(r) => val(V::I(r)),
                    None => un(format!("{o}")),
                }
            }
            Ins::Cast(o, t1, a, t2) => {
                let a = self.opv(a)?;
                let b1 = match t1 {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                let b2 = match t2 {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                match o.as_str() {
                    "bitcast" => {
                        if t1 == t2 {
                            return val(a);
                        }
                        match (t1, t2, a) {
                            (Ty::Double, Ty::Int(64), V::F(FV::C(x))) => val(V::I(x.to_bits())),
                            (Ty::Double, Ty::Int(64), V::F(f)) => val(V::Bits(f)),
                            (Ty::Int(64), Ty::Double, V::I(x)) => val(V::F(FV::C(f64::from_bits(x)))),
                            (Ty::Int(64), Ty::Double, V::Bits(f)) => val(V::F(f)),
                            (_, _, V::U) => val(V::U),
                            (x, y, v) => un(format!("bitcast {x:?} {y:?} {v:?}")),
                        }
                    }
                    "trunc" | "zext" | "sext" => match a {
                        V::S(s) if b2 >= 16 => val(V::S(s)),
                        V::Cmp(..) => {
                            let t = self.truth(&a)? as u64;
                            val(V::I(if o == "sext" && t == 1 { mask(u64::MAX, b2) } else { t }))
                        }
                        V::P(..) => un("pointer cast".into()),
                        a => {
                            let x = self.int(&a)?;
                            val(V::I(match o.as_str() {
                                "trunc" => mask(x, b2),
                                "zext" => mask(x, b1),
                                _ => mask(sext(x, b1) as u64, b2),
                            }))
                        }
                    },
                    "uitofp" | "sitofp" => {
                        if *t2 != Ty::Double {
                            return un("float".into());
                        }
                        if let V::SI(f) = a {
                            return val(V::F(f));
                        }
                        let x = self.int(&a)?;
                        val(V::F(FV::C(if o == "uitofp" { mask(x, b1) as f64 } else { sext(x, b1) as f64 })))
                    }
                    "fptosi" | "fptoui" => {
                        let f = self.flt(&a)?;
                        let sg = o == "fptosi";
                        if let Some(v) = self.floor(f)? {
                            return val(v);
                        }
                        if let (FV::N(..), (l, h, false)) = (f, self.iv(f)) {
                            if l >= 0.0 && h < 2147483647.0 && h.trunc() > l.trunc() {
                                return val(V::LI(f));
                            }
                        }
                        let r = self.pick_int(f, move |v| if sg { v as i64 as f64 } else { v as u64 as f64 })?;
                        val(V::I(mask(if sg { r as i64 as u64 } else { r as u64 }, b2)))
                    }
                    "ptrtoint" => match a {
                        V::P(Base::Obj(_), _) | V::P(Base::Glob(_), _) => val(a),
                        _ => val(V::I(0)),
                    },
                    "inttoptr" => match a {
                        V::P(..) => val(a),
                        _ => val(V::P(Base::Null, 0)),
                    },
                    _ => un(o.clone()),
                }
            }
            Ins::Select(c, a, b) => {
                let c = self.opv(c)?;
                let (a, b) = (self.opv(a)?, self.opv(b)?);
                // select of equal constants
                if let (V::I(x), V::I(y)) = (&a, &b) {
                    if x == y {
                        return val(a);
                    }
                    if let (V::Cmp(..), 1, 0) = (&c, x, y) {
                        // a boolean: stays lazy when used as one
                    }
                }
                let t = self.truth(&c)?;
                val(if t { a } else { b })
            }
            Ins::Phi(_) => un("phi".into()),
            Ins::Load(t, p) => {
                let p = self.opv(p)?;
                let v = self.load(t, &p)?;
                val(v)
            }
            Ins::Store(t, v, p) => {
                let (v, p) = (self.opv(v)?, self.opv(p)?);
                self.store(t, v, &p)?;
                val(V::U)
            }
            Ins::Gep(t, b, idx) => {
                let b = self.opv(b)?;
                let (base, mut off) = match b {
                    V::P(b, o) => (b, o),
                    _ => return un("gep base".into()),
                };
                let mut ty = t.clone();
                for (k, (bits, o)) in idx.iter().enumerate() {
                    let v = self.opv(o)?;
                    let i = sext(self.int(&v)?, *bits);
                    if k == 0 {
                        off += i * ty.size() as i64;
                    } else {
                        let (fo, ft) = ty.field(i as usize);
                        off += fo as i64;
                        ty = ft;
                    }
                }
                val(V::P(base, off))
            }
            Ins::Alloca(n) => {
                let p = self.alloc(*n);
                val(p)
            }
            Ins::Call(_, f, a) => {
                let a = self.args(a)?;
                self.call(f, a)
            }
            Ins::CallPtr => un("indirect call".into()),
            Ins::Extract(a, idx) => {
                let mut v = self.opv(a)?;
                for i in idx {
                    v = match v {
                        V::A(x) => x[*i].clone(),
                        V::U => V::U,
                        _ => return un("extractvalue".into()),
                    };
                }
                val(v)
            }
            Ins::Insert(a, x, idx, t) => {
                let (a, x) = (self.opv(a)?, self.opv(x)?);
                if idx.len() != 1 {
                    return un("insertvalue".into());
                }
                let n = match t {
                    Ty::Struct(v) => v.len(),
                    Ty::Array(n, _) => *n,
                    _ => return un("insertvalue".into()),
                };
                let mut v = match a {
                    V::A(v) => (*v).clone(),
                    _ => vec![V::U; n],
                };
                v[idx[0]] = x;
                val(V::A(Rc::new(v)))
            }
            Ins::Bad(s) => un(s.clone()),
        }
    }
    pub fn where_am_i(&self) -> String {
        self.stack.last().map(|f| f.name.to_string()).unwrap_or_default()
    }
    // ---- what the specifications use
    /// the real-valued model of an output with its total error: |computed - tm| <= err
    pub fn model(&mut self, v: FV) -> Option<(Rc<TM>, f64)> {
        match v {
            FV::C(x) => x.is_finite().then(|| (Rc::new(TM::cst(x)), 0.0)),
            FV::N(i, _) => {
                let t = self.tm(v)?;
                let mut e = self.adjoint(i).min(self.nodes[i as usize].e);
                self.nodes[i as usize].e = e;
                if e > 1e-15 * t.mag() && self.sharpen(i) {
                    e = self.adjoint(i).min(e);
                    self.nodes[i as usize].e = e;
                }
                Some((t, e))
            }
        }
    }
    /// a sum of a few values, rounding errors kept apart: constant and error bound when everything
    /// else cancels
    pub fn cancels(&self, v: FV) -> Option<(f64, f64)> {
        let mut m: BTreeMap<Id, f64> = BTreeMap::new();
        let (mut c, mut e, mut w) = (0.0f64, 0.0f64, 0.0f64);
        let mut todo = vec![(v, 1.0)];
        let mut k = 0;
        while let Some((v, s)) = todo.pop() {
            k += 1;
            if k > 40 {
                return None;
            }
            match v {
                FV::C(x) => {
                    c += s * x;
                    w += x.abs();
                }
                FV::N(i, neg) => {
                    let n = &self.nodes[i as usize];
                    let s = if neg { -s } else { s };
                    if n.k == K::Add && n.lo.is_finite() && n.hi.is_finite() && !n.nan {
                        e += n.eps;
                        todo.push((n.a, s));
                        todo.push((n.b, s));
                    } else {
                        *m.entry(i).or_insert(0.0) += s;
                    }
                }
            }
        }
        if m.values().any(|x| *x != 0.0) || m.keys().any(|i| self.nodes[*i as usize].nan || !self.nodes[*i as usize].lo.is_finite() || !self.nodes[*i as usize].hi.is_finite()) {
            return None;
        }
        Some((c, e * 1.01 + w * 1e-15))
    }
    /// why a value has no Taylor model
    pub fn why(&self, v: FV) -> String {
        let FV::N(id, _) = v else { return "constant".into() };
        for (i, n) in self.nodes.iter().enumerate().take(id as usize + 1) {
            if n.tm.is_none() && n.k != K::Input {
                let f = |v: FV| match v {
                    FV::C(x) => format!("{x:e}"),
                    FV::N(j, _) => format!("#{j} {:?} err {:e} tm {:?}", self.nodes[j as usize].k, self.nodes[j as usize].e, self.nodes[j as usize].tm.as_ref().map(|t| t.range())),
                };
                return format!("no model of #{i} {:?} [{:e},{:e}]: {} / {}", n.k, n.lo, n.hi, f(n.a), f(n.b));
            }
        }
        "no model".into()
    }
    /// refines the ancestors of a node whose error bounds enter derivatives
    fn sharpen(&mut self, id: Id) -> bool {
        let mut seen = vec![false; id as usize + 1];
        seen[id as usize] = true;
        let mut cand = std::collections::BTreeSet::new();
        for i in (0..=id).rev() {
            if !seen[i as usize] {
                continue;
            }
            let n = &self.nodes[i as usize];
            if n.e == 0.0 || n.k == K::Input {
                continue;
            }
            for v in [n.a, n.b, n.c] {
                if let FV::N(j, _) = v {
                    seen[j as usize] = true;
                }
            }
            let bad = |v: FV| -> Option<Id> {
                let FV::N(j, _) = v else { return None };
                let m = &self.nodes[j as usize];
                let t = m.tm.as_ref()?;
                (m.e > 1e-11 * t.mag()).then_some(j)
            };
            match n.k {
                K::Div => {
                    cand.extend(bad(n.b));
                    cand.extend(bad(FV::N(i, false)));
                }
                K::Sqrt | K::Exp => cand.extend(bad(FV::N(i, false))),
                K::Mul if matches!((n.a, n.b), (FV::N(..), FV::N(..))) => {
                    // a bad factor matters if the other one carries a large error as well
                    if let (Some(x), Some(y)) = (bad(n.a), bad(n.b)) {
                        cand.insert(x);
                        cand.insert(y);
                    }
                }
                K::Ln | K::Sin | K::Cos | K::Sinh | K::Cosh => cand.extend(bad(n.a)),
                K::Pow => {
                    cand.extend(bad(n.a));
                    cand.extend(bad(FV::N(i, false)));
                }
                _ => {}
            }
        }
        cand.remove(&id);
        let mut any = false;
        for j in cand.into_iter().take(24) {
            let old = self.nodes[j as usize].e;
            self.refine(j);
            any |= self.nodes[j as usize].e < 0.5 * old;
        }
        any
    }
    pub fn cdd(x: DD) -> TM {
        TM::cdd(x)
    }
}

trait Slop {
    fn slop(self) -> Self;
}
impl Slop for (f64, f64, bool) {
    fn slop(self) -> Self {
        (dn(dn(self.0)), up(up(self.1)), self.2)
    }
}

fn mask(x: u64, bits: u32) -> u64 {
    if bits >= 64 {
        x
    } else {
        x & ((1u64 << bits) - 1)
    }
}
fn sext(x: u64, bits: u32) -> i64 {
    if bits >= 64 {
        x as i64
    } else {
        ((x << (64 - bits)) as i64) >> (64 - bits)
    }
}
fn ibin(o: &str, bits: u32, x: u64, y: u64) -> Option<u64> {
    let (sx, sy) = (sext(x, bits), sext(y, bits));
    let r = match o {
        "add" => x.wrapping_add(y),
        "sub" => x.wrapping_sub(y),
        "mul" => x.wrapping_mul(y),
        "udiv" => x.checked_div(y)?,
        "urem" => x.checked_rem(y)?,
        "sdiv" => sx.checked_div(sy)? as u64,
        "srem" => sx.checked_rem(sy)? as u64,
        "shl" => {
            if y >= bits as u64 {
                0
            } else {
                x << y
            }
        }
        "lshr" => {
            if y >= bits as u64 {
                0
            } else {
                x >> y
            }
        }
        "ashr" => (sx >> y.min(63)) as u64,
        "and" => x & y,
        "or" => x | y,
        "xor" => x ^ y,
        _ => return None,
    };
    Some(mask(r, bits))
}

enum Flow<'m> {
    Next,
    Done,
    #[allow(dead_code)]
    Panic(String),
    #[allow(dead_code)]
    _P(std::marker::PhantomData<&'m ()>),
}

enum Act<'m> {
    Val(V<'m>),
    Call(&'m Func, Vec<V<'m>>),
    Panic(String),
}
impl<'m> State<'m> {
    /// the expression of a value, to a depth (for development)
    pub fn dump(&self) {
        for (i, n) in self.nodes.iter().enumerate() {
            if let Some(t) = &n.tm {
                eprintln!("#{i} {:?} {:?} {:?} [{:e},{:e}] c {:e} dev {:.1e} r {:.1e} e {:.1e}", n.k, n.a, n.b, n.lo, n.hi, t.c[0].h, t.dev() / t.c[0].h, t.r / t.c[0].h, n.e);
            } else {
                eprintln!("#{i} {:?} {:?} {:?} [{:e},{:e}]", n.k, n.a, n.b, n.lo, n.hi);
            }
        }
    }
    pub fn show(&self, v: FV, d: u32) -> String {
        match v {
            FV::C(x) => format!("{x:e}"),
            FV::N(i, s) => {
                let n = &self.nodes[i as usize];
                let sg = if s { "-" } else { "" };
                if d == 0 || n.k == K::Input {
                    return format!("{sg}#{i}");
                }
                format!("{sg}#{i}{:?}({}, {})", n.k, self.show(n.a, d - 1), self.show(n.b, d - 1))
            }
        }
    }
}
