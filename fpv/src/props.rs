//! The contracts: for each property, the calls, their preconditions (cells) and postconditions.
use crate::check::*;
use crate::exec::*;
use crate::spec;
use crate::tm::TM;

pub const TRUSTED: &[&str] = &[
    "fpv itself (interpreter of LLVM IR, Taylor-model and adjoint arithmetic, reference enclosures)",
    "rustc front end and the LLVM passes that produced the analysed IR; the code generator that turns it into machine code",
    "IEEE-754 binary64 arithmetic, round to nearest",
];

pub const ASSUMED: &[&str] = &[
    "libm: exp, log, sin, cos and pow are within 1 ulp and sinh and cosh within 2 ulp of the exact value, exp, log and pow have the sign and the special cases of C99, and each is a function of its argument",
    "a NaN has no sign or payload that matters; in symmetry identities the sign of a zero is not compared",
    "allocation does not fail; panics unwind to the caller and are observed there",
];

pub struct Plan {
    pub tasks: Vec<Box<dyn Task>>,
    pub secs: f64,
    pub level: &'static str,
    pub note: String,
    pub assume: Vec<String>,
    /// relational contracts: function, odd order, whether the sign changes
    pub rels: Vec<(&'static str, bool, bool)>,
}

#[derive(Clone, Copy, Debug)]
pub enum Tol {
    Abs(f64),
    Rel(f64),
    /// tol * max(1, |value|)
    Mixed(f64),
    /// absolute + relative: min over both allowed? no: both must hold
    Both(f64, f64),
}
impl Tol {
    /// smallest and largest tolerance over values in [lo, hi]
    fn bounds(self, lo: f64, hi: f64) -> (f64, f64) {
        let mx = lo.abs().max(hi.abs());
        let mn = if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 };
        match self {
            Tol::Abs(t) => (t, t),
            Tol::Rel(t) => (t * mn, t * mx),
            Tol::Mixed(t) => (t * mn.max(1.0), t * mx.max(1.0)),
            Tol::Both(a, r) => (a.min(r * mn), a.min(r * mx)),
        }
    }
}

/// |out - spec| <= tol
pub fn near(st: &mut State, out: FV, spec: &TM, tol: Tol) -> Verdict {
    if !spec.ok() {
        return Verdict::Unproved("specification out of range".into());
    }
    let (sl, sh) = spec.range();
    let (tmin, tmax) = tol.bounds(sl, sh);
    match out {
        FV::C(x) => {
            if x.is_nan() {
                return Verdict::Refuted(format!("result is NaN, expected {:?}", (sl, sh)));
            }
            if x.is_infinite() {
                return Verdict::Refuted(format!("result is {x}, expected {:?}", (sl, sh)));
            }
            let (dl, dh) = spec.addc(-x).range();
            if dl.abs().max(dh.abs()) <= tmin {
                return Verdict::Ok;
            }
            let m = if dl > 0.0 { dl } else if dh < 0.0 { -dh } else { 0.0 };
            if m > tmax {
                return Verdict::Refuted(format!("result {x:e}, expected {:e}, tolerance {tmax:e}, off by {m:e}", spec.c[0].h));
            }
            Verdict::Unproved("constant".into())
        }
        FV::N(..) => {
            if st.iv(out).2 {
                return Verdict::Unproved("may be NaN".into());
            }
            let (l, h, _) = st.iv(out);
            if (l - sh).abs().max((h - sl).abs()) * (1.0 + 1e-12) <= tmin {
                return Verdict::Ok;
            }
            if std::env::var("FPV_SHOW").is_ok() {
                st.dump();
                eprintln!("{}", st.show(out, 5));
            }
            if let Some((c, e)) = st.cancels(out) {
                if spec.addc(-c).mag() + e <= tmin {
                    return Verdict::Ok;
                }
            }
            let Some(t) = st.tm(out) else { return Verdict::Unproved(st.why(out)) };
            let d = spec.sub(&t).mag();
            if d > tmin {
                return Verdict::Unproved(format!("difference {d:.1e} of {tmin:.1e}"));
            }
            if d + st.err(out) <= tmin {
                return Verdict::Ok;
            }
            let Some((_, e)) = st.model(out) else { return Verdict::Unproved("no model".into()) };
            if d + e <= tmin {
                Verdict::Ok
            } else {
                Verdict::Unproved(format!("rounding {e:.2e} difference {d:.1e} of {tmin:.1e}"))
            }
        }
    }
}
/// lo <= out <= hi
pub fn within(st: &mut State, out: FV, lo: f64, hi: f64) -> Verdict {
    match out {
        FV::C(x) => {
            if x >= lo && x <= hi {
                Verdict::Ok
            } else {
                Verdict::Refuted(format!("result {x:e} outside of [{lo:e}, {hi:e}]"))
            }
        }
        _ => {
            let (l, h, nan) = st.iv(out);
            if !nan && l >= lo && h <= hi {
                return Verdict::Ok;
            }
            if let Some((t, e)) = st.model(out) {
                let (l, h) = t.range();
                if l - e >= lo && h + e <= hi {
                    return Verdict::Ok;
                }
            }
            Verdict::Unproved("range".into())
        }
    }
}
pub fn val(o: &Out, k: usize) -> Result<FV, Verdict> {
    match o {
        Out::Vals(v) => Ok(v[k]),
        Out::Panic(s) => Err(Verdict::Refuted(format!("panics ({})", short(s)))),
    }
}
/// bit-for-bit equality up to the sign of zero
pub fn same(a: FV, b: FV) -> Verdict {
    match (a, b) {
        (FV::C(x), FV::C(y)) => {
            if x == y || x.is_nan() && y.is_nan() {
                Verdict::Ok
            } else {
                Verdict::Refuted(format!("{x:e} differs from {y:e}"))
            }
        }
        (a, b) => {
            if a == b {
                Verdict::Ok
            } else {
                Verdict::Unproved("not the same expression".into())
            }
        }
    }
}
pub fn all(v: Vec<Verdict>) -> Verdict {
    let mut r = Verdict::Ok;
    for x in v {
        match x {
            Verdict::Ok => {}
            Verdict::Refuted(s) => return Verdict::Refuted(s),
            Verdict::Unproved(s) => {
                if let Verdict::Ok = r {
                    r = Verdict::Unproved(s)
                }
            }
        }
    }
    r
}

type Calls = Box<dyn Fn(&Ctx) -> Vec<(&'static str, u64, Vec<(Arg, f64, f64)>, usize)> + Sync + Send>;
type Post = Box<dyn Fn(&Ctx, &mut Option<Vec<TM>>, &mut State, &[Out]) -> Verdict + Sync + Send>;

/// a contract given by closures
pub struct Con {
    pub name: String,
    pub cells: Vec<Cell>,
    pub calls: Calls,
    pub post: Post,
    pub deg: u8,
    pub minw: f64,
    pub budget: u64,
    pub ivonly: bool,
    pub maxpaths: u32,
    pub floor: bool,
    pub bounded: usize,
    pub giveup: u32,
    pub cut: u32,
    pub maxnodes: usize,
    pub weights: Vec<f64>,
    pub contracts: &'static [Contract],
    pub lemma: bool,
    pub only_panics: bool,
}
impl Task for Con {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn cells(&self) -> Vec<Cell> {
        self.cells.clone()
    }
    fn deg(&self) -> u8 {
        self.deg
    }
    fn calls(&self, c: &Ctx) -> Vec<(&'static str, u64, Vec<(Arg, f64, f64)>, usize)> {
        (self.calls)(c)
    }
    fn post(&self, c: &Ctx, s: &mut Option<Vec<TM>>, st: &mut State, o: &[Out]) -> Verdict {
        (self.post)(c, s, st, o)
    }
    fn minwidth(&self) -> f64 {
        self.minw
    }
    fn budget(&self) -> u64 {
        self.budget
    }
    fn ivonly(&self) -> bool {
        self.ivonly
    }
    fn floor(&self) -> bool {
        self.floor
    }
    fn lemma(&self) -> bool {
        self.lemma
    }
    fn only_panics(&self) -> bool {
        self.only_panics
    }
    fn bounded(&self) -> usize {
        self.bounded
    }
    fn giveup(&self) -> u32 {
        self.giveup
    }
    fn maxpaths(&self) -> u32 {
        self.maxpaths
    }
    fn maxnodes(&self) -> usize {
        self.maxnodes
    }
    fn cut(&self) -> u32 {
        self.cut
    }
    fn contracts(&self) -> &'static [Contract] {
        self.contracts
    }
    fn weight(&self, c: &Cell, d: usize) -> f64 {
        // a negative weight: of the absolute width
        let w = self.weights.get(d).copied().unwrap_or(1.0);
        if w < 0.0 {
            -w * c.r[d].0.abs().max(c.r[d].1.abs())
        } else {
            w
        }
    }
}
pub fn cell(r: Vec<(f64, f64)>) -> Cell {
    Cell { r, n: 0, tag: 0, depth: 0, task: 0, fixed: vec![] }
}
/// k cells of equal width
pub fn lin(lo: f64, hi: f64, k: usize) -> Vec<(f64, f64)> {
    let mut v = vec![];
    let mut a = lo;
    for i in 1..=k {
        let b = if i == k { hi } else { lo + (hi - lo) * i as f64 / k as f64 };
        v.push((a, b));
        a = up(b);
    }
    v
}
/// cells of ratio about `f` (positive range)
pub fn geo(lo: f64, hi: f64, f: f64) -> Vec<(f64, f64)> {
    let mut v = vec![];
    let mut a = lo;
    loop {
        let b = if a * f >= hi { hi } else { a * f };
        v.push((a, b));
        if b >= hi {
            return v;
        }
        a = up(b);
    }
}
pub fn neg(v: Vec<(f64, f64)>) -> Vec<(f64, f64)> {
    v.into_iter().map(|(a, b)| (-b, -a)).collect()
}
pub fn pid(c: &Ctx, d: usize) -> (Arg, f64, f64) {
    (Arg::Id(d), c.cell.r[d].0, c.cell.r[d].1)
}
pub fn ng(c: &Ctx, d: usize) -> (Arg, f64, f64) {
    (Arg::Neg(d), -c.cell.r[d].1, -c.cell.r[d].0)
}
pub fn k(x: f64) -> (Arg, f64, f64) {
    (Arg::Const(x), x, x)
}
fn con(name: &str, cells: Vec<Cell>, calls: Calls, post: Post) -> Con {
    Con { name: name.into(), cells, calls, post, deg: 10, minw: 1e-6, budget: 400_000, ivonly: false, maxpaths: 64, floor: false, bounded: 0, giveup: 0, cut: 0, maxnodes: usize::MAX, weights: vec![], contracts: &[], lemma: false, only_panics: false }
}

/// one call f(n, x), compared with a specification
pub fn unary(name: &str, f: &'static str, n: u64, xs: Vec<(f64, f64)>, tol: Tol, sp: fn(&TM, u64) -> TM) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        name,
        cells,
        Box::new(move |c| vec![(f, n, vec![pid(c, 0)], 1)]),
        Box::new(move |c, s, st, o| {
            let y = match val(&o[0], 0) {
                Ok(y) => y,
                Err(v) => return v,
            };
            let s = s.get_or_insert_with(|| vec![sp(&c.p[0], n)]);
            near(st, y, &s[0], tol)
        }),
    )
}
const INF: f64 = f64::INFINITY;
/// one call whose result lies in [lo, hi]
pub fn ranged(name: &str, f: &'static str, xs: Vec<(f64, f64)>, lo: f64, hi: f64) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        name,
        cells,
        Box::new(move |c| vec![(f, 0, vec![pid(c, 0)], 1)]),
        Box::new(move |_, _, st, o| match val(&o[0], 0) {
            Ok(y) => within(st, y, lo, hi),
            Err(v) => v,
        }),
    )
}
/// one call whose result is this constant (sign of zero and infinities included)
pub fn constant(name: &str, f: &'static str, xs: Vec<(f64, f64)>, v: f64) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        name,
        cells,
        Box::new(move |c| vec![(f, 0, vec![pid(c, 0)], 1)]),
        Box::new(move |_, _, st, o| match val(&o[0], 0) {
            Ok(FV::C(x)) => {
                if x == v || x.is_nan() && v.is_nan() {
                    Verdict::Ok
                } else {
                    Verdict::Refuted(format!("result {x:e} instead of {v:e}"))
                }
            }
            Ok(y) => {
                let (l, h, nan) = st.iv(y);
                if l == v && h == v && !nan {
                    Verdict::Ok
                } else {
                    Verdict::Unproved("constant".into())
                }
            }
            Err(v) => v,
        }),
    )
}
/// one call that returns
pub fn nopanic(name: &str, f: &'static str, cells: Vec<Cell>, nout: usize) -> Con {
    let mut t = con(
        name,
        cells,
        Box::new(move |c| vec![(f, 0, (0..c.cell.r.len()).map(|d| pid(c, d)).collect(), nout)]),
        Box::new(move |_, _, _, o| match val(&o[0], 0) {
            Ok(_) => Verdict::Ok,
            Err(v) => v,
        }),
    );
    t.ivonly = true;
    t
}
/// f(n, -x) == -f(n, x) (or f(n, x))
pub fn odd(name: &str, f: &'static str, n: u64, xs: Vec<(f64, f64)>, odd: bool) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        name,
        cells,
        Box::new(move |c| vec![(f, n, vec![pid(c, 0)], 1), (f, n, vec![ng(c, 0)], 1)]),
        Box::new(move |_, _, _, o| match (val(&o[0], 0), val(&o[1], 0)) {
            (Ok(a), Ok(b)) => same(if odd { a.neg() } else { a }, b),
            (Err(v), _) | (_, Err(v)) => v,
        }),
    )
}
/// f(n, x) is near the specification and f(n, -x) == (-1)^n f(n, x)
pub fn par(name: &str, f: &'static str, n: u64, xs: Vec<(f64, f64)>, tol: Tol, sp: fn(&TM, u64) -> TM) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        &format!("{name} and has the parity of {n}"),
        cells,
        Box::new(move |c| vec![(f, n, vec![pid(c, 0)], 1), (f, n, vec![ng(c, 0)], 1)]),
        Box::new(move |c, s, st, o| {
            let (y, z) = match (val(&o[0], 0), val(&o[1], 0)) {
                (Ok(y), Ok(z)) => (y, z),
                (Err(v), _) | (_, Err(v)) => return v,
            };
            let s = s.get_or_insert_with(|| vec![sp(&c.p[0], n)]);
            all(vec![same(if n % 2 == 1 { y.neg() } else { y }, z), near(st, y, &s[0], tol)])
        }),
    )
}
/// |f(result) - argument| <= tol
pub fn inverse(name: &str, f: &'static str, xs: Vec<(f64, f64)>, sp: fn(&TM) -> TM, dsp: fn(f64, f64) -> f64, tol: fn(f64, f64) -> f64) -> Con {
    let cells = xs.into_iter().map(|r| cell(vec![r])).collect();
    con(
        name,
        cells,
        Box::new(move |c| vec![(f, 0, vec![pid(c, 0)], 1)]),
        Box::new(move |c, _, st, o| {
            let y = match val(&o[0], 0) {
                Ok(y) => y,
                Err(v) => return v,
            };
            if let FV::C(x) = y {
                if !x.is_finite() {
                    return Verdict::Refuted(format!("result is {x}"));
                }
            }
            if st.iv(y).2 {
                return Verdict::Unproved("may be NaN".into());
            }
            let Some((t, e)) = st.model(y) else { return Verdict::Unproved("no model".into()) };
            // the result is t + err with |err| <= e: mean value theorem
            let (tl, th) = t.range();
            let d = sp(&t).sub(&c.p[0]).widen(e * dsp(tl - e, th + e));
            if !d.ok() {
                return Verdict::Unproved("specification out of range".into());
            }
            let (dl, dh) = d.range();
            let (pl, ph) = c.cell.r[0];
            let t0 = tol(pl, ph);
            if dl.abs().max(dh.abs()) <= t0 {
                return Verdict::Ok;
            }
            if c.point {
                let m = if dl > 0.0 { dl } else if dh < 0.0 { -dh } else { 0.0 };
                if m > t0 {
                    return Verdict::Refuted(format!("misses the argument by {m:e}, tolerance {t0:e}"));
                }
            }
            Verdict::Unproved(format!("round trip {:.1e} of {t0:.1e}, error {e:.1e} radius {:.1e}", dl.abs().max(dh.abs()), d.r))
        }),
    )
}
/// bound on |erf'| over [lo, hi]
fn derf(lo: f64, hi: f64) -> f64 {
    let m = if lo > 0.0 { lo } else if hi < 0.0 { -hi } else { 0.0 };
    // m^2 is at most 30000^2 here; the factor covers the rounding of m^2 and exp
    1.1284 * (-m * m).exp() * (1.0 + 1e-9)
}
fn orders(thorough: bool) -> Vec<u64> {
    if thorough {
        (0..=50).collect()
    } else {
        vec![0, 1, 2, 3, 4, 5, 8, 13, 21, 34, 50]
    }
}
fn bx<T: Task + 'static>(t: T) -> Box<dyn Task> {
    Box::new(t)
}
fn cat(v: Vec<Vec<(f64, f64)>>) -> Vec<(f64, f64)> {
    v.into_iter().flatten().collect()
}

/// how the second argument follows from the cell parameters (a, s)
#[derive(Clone, Copy, PartialEq)]
pub enum Co {
    /// s
    Id,
    /// exp(s)
    Exp,
    /// a + s sqrt(a)
    Dev,
    /// a exp(s)
    Ratio,
    /// a exp(s / sqrt(a))
    RDev,
    /// exp(a s)
    Power,
    /// 1 - exp(s)
    Comp,
}
/// the second argument as a function of the cell parameters (at a point: the double it rounds to)
fn second(c: &Ctx, co: Co) -> TM {
    let (a, s) = (&c.p[0], &c.p[1]);
    let t = match co {
        Co::Id => return s.clone(),
        Co::Exp => s.exp(),
        Co::Dev => a.add(&s.mul(&a.sqrt())),
        Co::Ratio => a.mul(&s.exp()),
        Co::RDev => a.mul(&s.div(&a.sqrt()).exp()),
        Co::Power => a.mul(s).exp(),
        Co::Comp => TM::cst(1.0).sub(&s.exp()),
    };
    if c.point {
        TM::cst(t.c[0].h)
    } else {
        t
    }
}
fn second_arg(c: &Ctx, co: Co) -> (Arg, f64, f64) {
    if co == Co::Id {
        return pid(c, 1);
    }
    let t = second(c, co);
    let (mut l, mut h) = t.range();
    // positive functions: monotone in every quantity
    let ((al, ah), (sl, sh)) = (c.cell.r[0], c.cell.r[1]);
    let e = match co {
        Co::Exp => (sl, sh),
        Co::Ratio => (sl + al.ln(), sh + ah.ln()),
        _ => (-INF, INF),
    };
    let m = |x: f64| 1e-12 * (1.0 + x.abs());
    l = l.max((e.0 - m(e.0)).exp() * (1.0 - 1e-12)).max(5e-324);
    h = h.min((e.1 + m(e.1)).exp() * (1.0 + 1e-12));
    (Arg::Tm(t), dn(l).max(5e-324), up(h))
}
fn range01(st: &mut State, y: FV) -> Verdict {
    let (l, h, nan) = st.iv(y);
    if !nan && l >= 0.0 && h <= 1.0 { Verdict::Ok } else { Verdict::Unproved("range".into()) }
}
/// x and 1 - x and their logarithms, where logit x = ln(a/b) + s sqrt(1/a + 1/b)
fn logit(c: &Ctx) -> [TM; 4] {
    let (a, b, s) = (&c.p[0], &c.p[1], &c.p[2]);
    let one = TM::cst(1.0);
    let sd = a.recip().add(&b.recip()).sqrt();
    let z = a.ln().sub(&b.ln()).add(&s.mul(&sd));
    let (l, h) = z.range();
    let up = l + h > 0.0;
    let z = if up { z.neg() } else { z };
    let e = z.exp();
    let f = e.add(&one);
    let l = f.ln().neg();
    let r = f.recip();
    let v = [e.mul(&r), r, z.add(&l), l];
    let [x, y, lx, ly] = v;
    let v = if up { [y, x, ly, lx] } else { [x, y, lx, ly] };
    if c.point {
        let x = v[0].c[0].h.clamp(5e-324, 1.0 - 1.2e-16);
        let y = one.addc(-x);
        [TM::cst(x), y.clone(), TM::cst(x).ln(), y.ln()]
    } else {
        v
    }
}
fn logit_arg(c: &Ctx) -> (Arg, f64, f64) {
    let [t, ..] = logit(c);
    let (l, h) = t.range();
    let r = &c.cell.r;
    // monotone in every quantity of ln(b/a) - s sd
    let (sl, sh) = ((1.0 / r[0].1 + 1.0 / r[1].1).sqrt(), (1.0 / r[0].0 + 1.0 / r[1].0).sqrt());
    let (pl, ph) = (r[2].0 * if r[2].0 < 0.0 { sh } else { sl }, r[2].1 * if r[2].1 < 0.0 { sl } else { sh });
    let (gl, gh) = ((r[1].0 / r[0].1).ln() - ph, (r[1].1 / r[0].0).ln() - pl);
    let e = 1e-12;
    let l = l.max(1.0 / (1.0 + gh.exp() * (1.0 + e)) * (1.0 - e));
    let h = h.min(1.0 / (1.0 + gl.exp() * (1.0 - e)) * (1.0 + e));
    (Arg::Tm(t), l.max(5e-324), h.min(1.0 - 1.1e-16))
}
/// orders: integers, halves, and what lies between
fn orders_with_halves(hi: u32) -> Vec<(f64, f64)> {
    let mut v = vec![(0.0, 0.0), (5e-324, 1e-10)];
    let mut a = 1e-10;
    for k in 1..=2 * hi {
        let b = k as f64 / 2.0;
        v.push((up(a), b - 1e-9));
        v.push((b - 1e-9, dn(b)));
        v.push((b, b));
        if k < 2 * hi {
            v.push((up(b), b + 1e-9));
        }
        a = b + 1e-9;
    }
    v
}
fn grid(a: &[(f64, f64)], b: &[(f64, f64)]) -> Vec<Cell> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push(cell(vec![*x, *y]));
        }
    }
    v
}
/// gammp + gammq == 1 to 1e-12, both in [0, 1]
fn gamma_sums(p: &mut Plan) {
    for (nm, co, cells, cut) in gamma_regions() {
        let mut t = con(
            &format!("gammp and gammq lie in [0, 1] and their sum is 1 to 1e-12: {nm}"),
            cells,
            Box::new(move |c| {
                let x = second_arg(c, co);
                vec![("gammp", 0, vec![pid(c, 0), x.clone()], 1), ("gammq", 0, vec![pid(c, 0), x], 1)]
            }),
            Box::new(move |_, _, st, o| {
                let (p, q) = match (val(&o[0], 0), val(&o[1], 0)) {
                    (Ok(p), Ok(q)) => (p, q),
                    (Err(v), _) | (_, Err(v)) => return v,
                };
                let s = st.fadd(p, q);
                all(vec![within(st, p, 0.0, 1.0), within(st, q, 0.0, 1.0), near(st, s, &TM::cst(1.0), Tol::Abs(1e-12))])
            }),
        );
        t.deg = 8;
        t.cut = if cut > 0 { 40 } else { 0 };
        t.weights = gamma_weights(co);
        t.maxnodes = 5000;
        t.maxpaths = 300;
        p.tasks.push(bx(t));
    }
    for (f, v) in [("gammp", 0.0), ("gammq", 1.0)] {
        let cells = cat(vec![geo(0.01, 100.0, 1.6), geo(up(100.0), 10000.0, 1.6)]).into_iter().flat_map(|r| [(0.0, 0.0), (-0.0, -0.0)].map(|z| cell(vec![r, z]))).collect();
        p.tasks.push(bx(con(
            &format!("{f}(a, 0) is {v}"),
            cells,
            Box::new(move |c| vec![(f, 0, vec![pid(c, 0), pid(c, 1)], 1)]),
            Box::new(move |_, _, st, o| match val(&o[0], 0) {
                Ok(y) => near(st, y, &TM::cst(v), Tol::Abs(0.0)),
                Err(v) => v,
            }),
        )));
    }
    p.assume.push(cut_note(40));
}
fn cut_note(k: u32) -> String {
    format!("where rounding errors leave the stopping test of a continued fraction or series undecided, it is taken to fire after at most {k} further iterations of the same path (the results of all these iterations are checked against the contract; native samples run the loop to its end)")
}
fn gamma_weights(co: Co) -> Vec<f64> {
    match co {
        Co::Id => vec![1.0, 1.0],
        Co::RDev | Co::Dev => vec![2.0, -0.3],
        Co::Exp => vec![1.0, -0.1],
        _ => vec![1.0, -1.0],
    }
}
/// the domain 0.01 <= a <= 10000, 1e-300 <= x <= 100000, by region: name, coordinates, cells, whether the
/// continued fraction is used
/// ranges of the order in [0, hi]: between integers and half integers, and approaching the latter when
/// the continued fraction terminates there
fn real_orders(hi: f64, half: bool) -> Vec<(f64, f64)> {
    let tiny = 1e-292;
    let mut v = vec![(0.0, 0.0), (5e-324, tiny / 100.0)];
    v.extend(geo(up(tiny / 100.0), 1e-16, 300.0));
    v.extend(geo(up(1e-16), 1e-3, 30.0));
    v.extend(geo(up(1e-3), 0.1, 1.6));
    v.push((up(0.1), 0.25));
    let mut m = 0.5;
    while m - 0.5 < hi {
        // from m - 1/4 to m + 1/4 around the half integer, then around the integer
        let mut e = 0.25;
        while half && e > 1e-10 {
            v.push((up(m - e), m - e / 8.0));
            v.push((m + e / 8.0, dn(m + e)));
            e /= 8.0;
        }
        v.push((up(m - e), dn(m)));
        v.push((m, m));
        v.push((up(m), dn(m + e)));
        let i = m + 0.5;
        v.push((m + 0.25, i - 1e-6));
        v.push((up(i - 1e-6), dn(i)));
        v.push((i, i));
        v.push((up(i), i + 1e-6));
        v.push((up(i + 1e-6), i + 0.25));
        m += 1.0;
    }
    v.retain(|c| c.0 <= hi);
    for c in &mut v {
        c.1 = c.1.min(hi);
    }
    v
}

fn gamma_regions() -> Vec<(&'static str, Co, Vec<Cell>, u32)> {
    let small = geo(0.01, 100.0, 1.6);
    // the continued fraction terminates at integer a: cells that keep away from 1
    let mut low = geo(0.01, 0.8, 1.6);
    let mut e = 0.2;
    while e > 1e-10 {
        low.push((up(1.0 - e), 1.0 - e / 4.0));
        low.push((up(1.0 + e / 4.0), 1.0 + e));
        e /= 4.0;
    }
    low.push((up(1.0 - e), 1.0 + e));
    low.push((up(1.2), 1.5));
    let large = geo(up(100.0), 10000.0, 1.6);
    vec![
        ("a <= 100, x < 0.001", Co::Exp, grid(&small, &lin(-690.8, -6.9, 684)), 0),
        ("a <= 1.5, 0.001 <= x <= 340", Co::Id, grid(&low, &geo(0.001, 340.0, 1.5)), 12),
        ("1.5 < a <= 100, |x - a| moderate", Co::RDev, grid(&geo(up(1.5), 100.0, 1.6), &lin(-25.0, 14.0, 39)), 12),
        ("6.25 < a <= 100, 0.001 <= x < a exp(-25/sqrt(a))", Co::Id, grid(&geo(6.25, 100.0, 1.6), &geo(0.001, 8.3, 1.5)), 12),
        ("a <= 100, x > 340", Co::Id, grid(&small, &[(up(340.0), 1e5)]), 0),
        ("a > 100, x < 0.2 a", Co::Ratio, grid(&large, &lin(-700.0, -1.6, 40)), 0),
        ("a > 100, 0.2 a <= x <= 0.9 a", Co::Ratio, grid(&large, &lin(-1.62, -0.105, 12)), 0),
        ("a > 100, |x - a| <= 12 sqrt(a) or so", Co::RDev, grid(&large, &lin(-12.0, 23.0, 35)), 0),
        ("a > 100, x > a + 23 sqrt(a)", Co::Dev, grid(&large, &geo(23.0, 10000.0, 8.0)), 0),
    ]
}

fn gamma_accuracy(f: &'static str, nm: &str, co: Co, cells: Vec<Cell>, cut: u32) -> Con {
    let mut t = con(
        &format!("{f}(a, x) is within 1e-9 of the incomplete gamma function: {nm}"),
        cells,
        Box::new(move |c| vec![(f, 0, vec![pid(c, 0), second_arg(c, co)], 1)]),
        Box::new(move |c, s, st, o| {
            let y = match val(&o[0], 0) {
                Ok(y) => y,
                Err(v) => return v,
            };
            let s = s.get_or_insert_with(|| {
                let (p, q) = spec::gamma_pq(&c.p[0], &second(c, co));
                vec![if f == "gammp" { p } else { q }]
            });
            near(st, y, &s[0], Tol::Abs(if f == "gammp" { 9.9e-10 } else { 1e-9 }))
        }),
    );
    t.bounded = if f == "gammp" { 0 } else { 2 };
    t.deg = 10;
    t.cut = cut;
    t.weights = gamma_weights(co);
    t.maxnodes = 5000;
    t.maxpaths = 100;
    t
}

fn beta_accuracy(nm: &str, cells: Vec<Cell>) -> Con {
    let mut t = con(
        &format!("betai(a, b, x) is within 4e-9 of I_x(a, b): {nm}"),
        cells,
        Box::new(move |c| vec![("betai", 0, vec![pid(c, 0), pid(c, 1), logit_arg(c)], 1)]),
        Box::new(move |c, s, st, o| {
            let y = match val(&o[0], 0) {
                Ok(y) => y,
                Err(v) => return v,
            };
            if let FV::C(v) = y {
                if !(v >= 0.0 && v <= 1.0) {
                    return Verdict::Refuted(format!("result {v:e} is not in [0, 1]"));
                }
            }
            let s = s.get_or_insert_with(|| {
                let [x, y, lx, ly] = logit(c);
                vec![spec::betai_log(&c.p[0], &c.p[1], &x, &y, &lx, &ly)]
            });
            all(vec![near(st, y, &s[0], Tol::Abs(4e-9)), range01(st, y)])
        }),
    );
    t.weights = vec![1.0, 1.0, -1.0];
    t.cut = 12;
    t.maxnodes = 9000;
    t.maxpaths = 100;
    t
}
/// every x in [1e-299, 1 - 2e-12], at the pairs of parameters
fn beta_lines(vals: &[f64]) -> Vec<Cell> {
    let mut cells = vec![];
    for &a in vals {
        for &b in vals {
            let sd = (1.0f64 / a + 1.0 / b).sqrt();
            let (l, r) = ((690.0 + (a / b).ln()) / sd, (27.0 - (a / b).ln()) / sd);
            let mut ss = vec![];
            if l > 12.0 {
                ss.extend(neg(geo(12.0, l, 1.2)));
            }
            ss.extend(lin(up(-l.min(12.0)), r.min(12.0), 30));
            if r > 12.0 {
                ss.extend(geo(up(12.0), r, 1.2));
            }
            for s in ss {
                cells.push(cell(vec![(a, a), (b, b), s]));
            }
        }
    }
    cells
}

/// the mathematical P(a, y) of a result y is within 1e-8 of s
fn inverts(c: &Ctx, y: f64, s: &TM) -> Verdict {
    if !(y > 0.0 && y < INF) {
        return Verdict::Refuted(format!("result {y:e} is not positive and finite"));
    }
    let (l, h) = spec::gamma_pq(&c.p[0], &TM::cst(y)).0.sub(s).range();
    if l > 1e-8 || h < -1e-8 {
        return Verdict::Refuted(format!("P(a, {y:e}) is off by [{l:e}, {h:e}]"));
    }
    if l >= -1e-8 && h <= 1e-8 {
        return Verdict::Ok;
    }
    Verdict::Unproved("specification out of range".into())
}

/// the mathematical I_y(a, b) of a result y is within 1e-7 of s
fn inverts_beta(c: &Ctx, y: f64, s: &TM) -> Verdict {
    if !(y >= 0.0 && y <= 1.0) {
        return Verdict::Refuted(format!("result {y:e} is not in [0, 1]"));
    }
    let x = TM::cst(y.clamp(1e-300, 1.0 - 1.2e-16));
    let (l, h) = spec::betai(&c.p[0], &c.p[1], &x).sub(s).range();
    if l > 1e-7 || h < -1e-7 {
        return Verdict::Refuted(format!("I_x(a, b) at {y:e} is off by [{l:e}, {h:e}]"));
    }
    if l >= -1e-7 && h <= 1e-7 {
        return Verdict::Ok;
    }
    Verdict::Unproved("specification out of range".into())
}
/// invbetai at cells (a, b, p)
fn beta_inverse(nm: &str, cells: Vec<Cell>) -> Con {
    let mut t = con(
        &format!("I_x(a, b) at x = invbetai(p, a, b) is within 1e-7 of p: {nm}"),
        cells,
        Box::new(move |c| vec![("invbetai", 0, vec![pid(c, 2), pid(c, 0), pid(c, 1)], 1)]),
        Box::new(move |c, _, st, o| {
            let y = match val(&o[0], 0) {
                Ok(y) => y,
                Err(v) => return v,
            };
            let s = &c.p[2];
            match y {
                FV::C(x) if c.point => inverts_beta(c, x, s),
                _ => {
                    let (l, h, nan) = st.iv(y);
                    if nan || !(l > 0.0 && h < 1.0) {
                        return Verdict::Unproved("result may not be in (0, 1)".into());
                    }
                    let a = st.ident(0).unwrap_or(FV::C(c.cell.r[0].0));
                    let b = st.ident(1).unwrap_or(FV::C(c.cell.r[1].0));
                    let g = st.bp(a, b, y);
                    near(st, g, s, Tol::Abs(1e-7))
                }
            }
        }),
    );
    t.contracts = &[("4beta5betai", &[(0.1, 10000.0), (0.1, 10000.0), (1e-290, 1.0 - 1e-11)], crate::exec::BETA_EPS)];
    t.deg = 8;
    t
}

pub fn plan(id: &str, tier: &str) -> Option<Plan> {
    let thorough = tier == "thorough";
    let mut p = Plan { tasks: vec![], secs: if thorough { 600.0 } else { 40.0 }, level: "proof", note: String::new(), assume: vec![], rels: vec![] };
    match id {
        "C04" => {
            let xs = cat(vec![neg(lin(1e-3, 6.0, 60)), lin(-1e-3, 1e-3, 1), lin(1e-3, 6.0, 60)]);
            let far = vec![(6.0, 30.0), (up(30.0), 1e300), (up(1e300), INF)];
            p.tasks.push(bx(unary("erf(x) is within 2e-15 of erf", "erf", 0, xs.clone(), Tol::Abs(2e-15), |x, _| spec::erf(x))));
            // 1 - erf(6) < 3e-17
            p.tasks.push(bx(ranged("erf(x) is within 2e-15 of erf above 6", "erf", far.clone(), 1.0 - 1.9e-15, 1.0)));
            p.tasks.push(bx(ranged("erf(x) is within 2e-15 of erf below -6", "erf", neg(far), -1.0, -1.0 + 1.9e-15)));
            let ys = cat(vec![xs, lin(6.0, 26.0, 200)]);
            p.tasks.push(bx(unary("erfc(x) is within relative 1e-12 of erfc", "erfc", 0, ys, Tol::Rel(1e-12), |x, _| spec::erfc(x))));
            p.tasks.push(bx(ranged("erfc(x) <= 1e-290 above 26", "erfc", vec![(up(26.0), 40.0), (up(40.0), INF)], 0.0, 1e-290)));
        }
        "C05" => {
            let xs = cat(vec![lin(0.0, 7.0, 30), vec![(up(7.0), 40.0), (up(40.0), INF)]]);
            p.tasks.push(bx(odd("erf(-x) == -erf(x)", "erf", 0, xs.clone(), true)));
            for (nm, f, tot) in [("erfc(x) + erfc(-x) is 2 to 5e-16", "erfc", 2.0), ("erf(x) + erfc(x) is 1 to 5e-16", "erf", 1.0)] {
                let ys = if f == "erf" { cat(vec![xs.clone(), neg(xs.clone())]) } else { xs.clone() };
                let cells = ys.iter().map(|r| cell(vec![*r])).collect();
                p.tasks.push(bx(con(
                    nm,
                    cells,
                    Box::new(move |c| vec![(f, 0, vec![pid(c, 0)], 1), ("erfc", 0, vec![if f == "erf" { pid(c, 0) } else { ng(c, 0) }], 1)]),
                    Box::new(move |_, _, st, o| {
                        let (a, b) = match (val(&o[0], 0), val(&o[1], 0)) {
                            (Ok(a), Ok(b)) => (a, b),
                            (Err(v), _) | (_, Err(v)) => return v,
                        };
                        let s = st.fadd(a, b);
                        near(st, s, &TM::cst(tot), Tol::Abs(5e-16))
                    }),
                )));
            }
            let ys = cat(vec![xs.clone(), neg(xs)]);
            p.tasks.push(bx(ranged("erf(x) is in [-1, 1]", "erf", ys.clone(), -1.0, 1.0)));
            p.tasks.push(bx(ranged("erfc(x) is in [0, 2]", "erfc", ys, 0.0, 2.0)));
        }
        "C06" => {
            let xs = cat(vec![neg(lin(1e-3, 26.0, 200)), lin(-1e-3, 1e-3, 1), lin(1e-3, 60.0, 400), geo(up(60.0), 1e300, 1.6)]);
            p.tasks.push(bx(unary("erfcx(x) is within relative 1e-12 of exp(x^2)erfc(x)", "erfcx", 0, xs, Tol::Rel(1e-12), |x, _| spec::erfcx(x))));
            p.tasks.push(bx(constant("erfcx(x) is +inf below -26.7", "erfcx", vec![(-30.0, dn(-26.7)), (-1e10, dn(-30.0)), (-INF, dn(-1e10))], INF)));
        }
        "C07" => {
            let ps = cat(vec![geo(1e-300, 1e-2, 1.5), lin(up(1e-2), 2.0 - 1e-2, 100), {
                let mut v = vec![];
                let mut d = 1e-2;
                while d > 1e-15 {
                    let e: f64 = if d / 1.5 < 1e-15 { 1e-15 } else { d / 1.5 };
                    v.push((up(2.0 - d), 2.0 - e));
                    d = e;
                }
                v
            }]);
            let mut t = inverse("erfc(inverfc(p)) is p to 1e-11 min(p, 2-p)", "inverfc", ps, |x| spec::erfc(x), derf, |lo, hi| 1e-11 * lo.min(2.0 - hi));
            t.minw = 1e-17;
            p.tasks.push(bx(t));
            let mut qs = lin(-0.9, 0.9, 100);
            let mut d = 0.1;
            while d > 1e-15 {
                let e: f64 = if d / 1.5 < 1e-15 { 1e-15 } else { d / 1.5 };
                qs.push((up(1.0 - d), 1.0 - e));
                qs.push((-1.0 + e, -up(1.0 - d)));
                d = e;
            }
            let mut t = inverse("erf(inverf(p)) is p to 2e-14", "inverf", qs, |x| spec::erf(x), derf, |_, _| 2e-14);
            t.minw = 1e-17;
            p.tasks.push(bx(t));
            let cells = cat(vec![lin(up(1.0), 1.99, 20), vec![(up(1.99), dn(2.0))]]).into_iter().map(|r| cell(vec![r])).collect();
            p.tasks.push(bx(con(
                "inverfc(2-p) == -inverfc(p)",
                cells,
                Box::new(|c| vec![("inverfc", 0, vec![pid(c, 0)], 1), ("inverfc", 0, vec![(Arg::Sub(2.0, 0), 2.0 - c.cell.r[0].1, 2.0 - c.cell.r[0].0)], 1)]),
                Box::new(|_, _, _, o| match (val(&o[0], 0), val(&o[1], 0)) {
                    (Ok(a), Ok(b)) => same(a.neg(), b),
                    (Err(v), _) | (_, Err(v)) => v,
                }),
            )));
        }
        "C08" => {
            let mut xs = cat(vec![geo(1e-280, 1e-3, 3.0), lin(up(1e-3), 10.0, 100), lin(up(10.0), 171.0, 330)]);
            xs.extend(neg(geo(1e-280, 1e-3, 3.0)));
            xs.extend(lin(dn(-1.0) + 4e-16, -up(1e-3), 10));
            for j in 1..20 {
                let (a, b) = (-(j as f64) - 1.0, -(j as f64));
                xs.extend(lin(up(a), dn(b), 10));
            }
            let mut t = unary("gamma(x) is within relative 1e-13 of Gamma(x)", "gamma", 0, xs, Tol::Rel(1e-13), |x, _| spec::gamma(x));
            t.minw = 1e-18;
            p.tasks.push(bx(t));
            for n in 1..=171u64 {
                p.tasks.push(bx(unary("gamma(n) is (n-1)!", "gamma", n, vec![(n as f64, n as f64)], Tol::Rel(1e-13), |_, n| spec::factorial(n - 1))));
            }
            for n in 0..=170u64 {
                p.tasks.push(bx(unary("factorial(n) is n!", "factorial", n, vec![(0.0, 0.0)], Tol::Rel(1e-13), |_, n| spec::factorial(n))));
            }
            p.tasks.push(bx(constant("gamma(x) is +inf above 171.63", "gamma", vec![(171.63, 1e10), (up(1e10), INF)], INF)));
            p.tasks.push(bx(constant("gamma(+0)", "gamma", vec![(0.0, 0.0)], INF)));
            p.tasks.push(bx(constant("gamma(-0)", "gamma", vec![(-0.0, -0.0)], -INF)));
            let mut pts: Vec<(f64, f64)> = (1..=400).map(|k| (-(k as f64), -(k as f64))).collect();
            pts.extend((9..=307).map(|k| (-(10f64.powi(k)).floor(), -(10f64.powi(k)).floor())));
            pts.push((f64::NAN, f64::NAN));
            pts.push((-INF, -INF));
            p.tasks.push(bx(constant("gamma is NaN at negative integers, -inf and NaN", "gamma", pts, f64::NAN)));
        }
        "C09" => {
            let xs = cat(vec![geo(1e-300, 1e-2, 2.0), geo(up(1e-2), 1e15, 1.1)]);
            p.tasks.push(bx(unary("ln_gamma(x) is within 1e-10 max(1, |.|) of ln Gamma(x)", "ln_gamma", 0, xs, Tol::Mixed(1e-10), |x, _| spec::ln_gamma(x))));
            p.tasks.push(bx(constant("ln_gamma(inf)", "ln_gamma", vec![(INF, INF)], INF)));
        }
        "C14" => {
            let vals = [0.1, 0.17, 0.3, 0.5, 0.75, 1.0, 1.2, 1.5, 2.0, 2.5, 3.3, 5.0, 8.0, 14.0, 25.0, 40.0, 70.0, 100.0, 164.5, 270.5, 700.0, 1800.0, 3000.0, 3001.0, 5500.0, 10000.0];
            let cells = beta_lines(&vals);
            let mut sheets = vec![];
            p.tasks.push(bx(beta_accuracy("every x, at 676 pairs of parameters", cells)));
            for a in geo(0.1, 1000.0, 1.25) {
                for b in if thorough { vec![0.5, 2.5] } else { vec![0.5] } {
                    // closer to where the algorithm changes, at x = (a+1)/(a+b+2)
                    let ch = |a: f64| (((a + 1.0) / (b + 1.0)).ln() - (a / b).ln()) / (1.0 / a + 1.0 / b).sqrt();
                    let (c0, c1) = (ch(a.0).min(ch(a.1)), ch(a.0).max(ch(a.1)));
                    let d = 0.5 / (a.1.max(b) + 2.0);
                    let mid = lin(c0 - d, c1 + d, ((c1 - c0) / d / 2.0 + 1.0) as usize);
                    let mut ss = vec![];
                    let (mut e, mut w) = (d, d);
                    while w < 1.0 {
                        ss.push((c0 - e - w, dn(c0 - e)));
                        ss.push((up(c1 + e), c1 + e + w));
                        e += w;
                        w *= 2.0;
                    }
                    ss.extend(lin(-12.0, dn(c0 - e), 12));
                    ss.extend(lin(up(c1 + e), 12.0, 12));
                    ss.extend(mid);
                    for s in ss {
                        sheets.push(cell(vec![a, (b, b), s]));
                        sheets.push(cell(vec![(b, b), a, (-s.1, -s.0)]));
                    }
                }
            }
            let mut t = beta_accuracy("every a, or every b, at a value of the other one", sheets);
            t.giveup = if thorough { 14 } else { 10 };
            p.tasks.push(bx(t));
            let mut boxes = vec![];
            for a in geo(0.1, 10000.0, 1.6) {
                for b in geo(0.1, 10000.0, 1.6) {
                    for s in lin(-6.0, 6.0, 12) {
                        boxes.push(cell(vec![a, b, s]));
                    }
                }
            }
            let mut t = beta_accuracy("all parameters, sampled", boxes);
            t.bounded = 8;
            p.tasks.push(bx(t));
            // the ends, where the logit has no meaning
            let direct = |nm: &str, xs: Vec<(f64, f64)>, pts: usize| {
                let mut cells = vec![];
                for a in geo(0.1, 10000.0, 2.0) {
                    for b in geo(0.1, 10000.0, 2.0) {
                        cells.extend(xs.iter().map(|x| cell(vec![a, b, *x])));
                    }
                }
                let mut t = con(
                    &format!("betai(a, b, x) is within 4e-9 of I_x(a, b): {nm}"),
                    cells,
                    Box::new(move |c| vec![("betai", 0, vec![pid(c, 0), pid(c, 1), pid(c, 2)], 1)]),
                    Box::new(move |c, s, st, o| {
                        let y = match val(&o[0], 0) {
                            Ok(y) => y,
                            Err(v) => return v,
                        };
                        let s = s.get_or_insert_with(|| {
                            let one = TM::cst(1.0);
                            let y = one.sub(&c.p[2]);
                            let (lx, ly) = (c.p[2].ln(), if c.p[2].range().1 < 1e-20 { c.p[2].neg() } else { y.ln() });
                            vec![spec::betai_log(&c.p[0], &c.p[1], &c.p[2], &y, &lx, &ly)]
                        });
                        all(vec![near(st, y, &s[0], Tol::Abs(4e-9)), range01(st, y)])
                    }),
                );
                t.bounded = pts;
                t
            };
            p.tasks.push(bx(direct("x within 2e-12 of 1, sampled", cat(vec![lin(1.0 - 2e-12, 1.0 - 2e-15, 4), lin(1.0 - 1.8e-15, 1.0 - 1.2e-16, 4), vec![(dn(1.0), dn(1.0))]]), 2)));
            p.tasks.push(bx(direct("x below 1e-299, sampled", vec![(5e-324, 5e-324), (1e-323, 2.3e-308), (2.3e-308, 1e-304), (1e-304, 1e-299)], 2)));
            for v in [0.0, 1.0] {
                let mut t = con(
                    &format!("betai(a, b, {v}) is exactly {v}"),
                    grid(&geo(0.1, 10000.0, 10.0), &geo(0.1, 10000.0, 10.0)),
                    Box::new(move |c| vec![("betai", 0, vec![pid(c, 0), pid(c, 1), (Arg::Const(v), v, v)], 1)]),
                    Box::new(move |_, _, _, o| match val(&o[0], 0) {
                        Ok(FV::C(x)) if x == v => Verdict::Ok,
                        Ok(FV::C(x)) => Verdict::Refuted(format!("result {x:e} instead of {v:e}")),
                        Ok(_) => Verdict::Unproved("constant".into()),
                        Err(v) => v,
                    }),
                );
                t.ivonly = true;
                p.tasks.push(bx(t));
            }
            p.assume.push(cut_note(12));
            p.level = "exploration";
            p.secs = 400.0;
        }
        "C03" => {
            // every double
            let pos = vec![(5e-324, f64::MAX), (INF, INF)];
            let nan = vec![(f64::NAN, f64::NAN), (-f64::NAN, -f64::NAN)];
            let bad = cat(vec![neg(pos.clone()), vec![(-0.0, -0.0), (0.0, 0.0)]]);
            let negative = neg(pos.clone());
            let any = cat(vec![bad.clone(), pos.clone(), nan.clone()]);
            let above1 = vec![(up(1.0), f64::MAX), (INF, INF)];
            // one argument at a time from the invalid ones, the others arbitrary
            let region = |bads: Vec<Vec<(f64, f64)>>| -> Vec<Cell> {
                let mut v = vec![];
                for (k, b) in bads.iter().enumerate() {
                    let mut cs = vec![vec![]];
                    for d in 0..bads.len() {
                        let rs = if d == k { b } else { &any };
                        cs = cs.iter().flat_map(|c: &Vec<(f64, f64)>| rs.iter().map(move |r| [c.clone(), vec![*r]].concat())).collect();
                    }
                    v.extend(cs.into_iter().map(cell));
                }
                v
            };
            let nonpos = cat(vec![bad.clone(), nan.clone()]);
            let below0 = cat(vec![negative.clone(), nan.clone()]);
            for (nm, f, bads, nout) in [
                ("beta(z, w) panics if z or w is <= 0 or NaN", "beta", vec![nonpos.clone(), nonpos.clone()], 1),
                ("betai(a, b, x) panics if a or b is <= 0 or NaN or x is outside [0, 1]", "betai", vec![nonpos.clone(), nonpos.clone(), cat(vec![below0.clone(), above1.clone()])], 1),
                ("gammp(a, x) panics if a <= 0, x < 0 or NaN", "gammp", vec![nonpos.clone(), below0.clone()], 1),
                ("gammq(a, x) panics if a <= 0, x < 0 or NaN", "gammq", vec![nonpos.clone(), below0.clone()], 1),
                ("invgammp(p, a) panics if a <= 0 or NaN", "invgammp", vec![vec![], nonpos.clone()], 1),
                ("besseljy(nu, x) panics if nu < 0 or x <= 0", "besseljy", vec![negative.clone(), bad.clone()], 4),
                ("besselik(nu, x) panics if nu < 0 or x <= 0", "besselik", vec![negative.clone(), bad.clone()], 4),
            ] {
                let mut t = con(
                    nm,
                    region(bads),
                    Box::new(move |c| vec![(f, 0, (0..c.cell.r.len()).map(|d| pid(c, d)).collect(), nout)]),
                    Box::new(move |_, _, st, o| match &o[0] {
                        Out::Panic(_) => Verdict::Ok,
                        Out::Vals(v) if !st.returns && v.iter().all(|x| matches!(x, FV::C(_))) => Verdict::Refuted("does not panic".into()),
                        Out::Vals(_) => Verdict::Unproved("may return".into()),
                    }),
                );
                t.ivonly = true;
                t.only_panics = true;
                t.minw = 1e-3;
                p.tasks.push(bx(t));
            }
            let valid = |nm: &str, f: &'static str, cells: Vec<Cell>, nout: usize| {
                let mut t = con(
                    nm,
                    cells,
                    Box::new(move |c| vec![(f, 0, (0..c.cell.r.len()).map(|d| pid(c, d)).collect(), nout)]),
                    Box::new(move |_, _, _, o| match &o[0] {
                        Out::Panic(s) => Verdict::Refuted(format!("panics ({})", short(s))),
                        Out::Vals(_) => Verdict::Ok,
                    }),
                );
                t.ivonly = true;
                t.only_panics = true;
                t
            };
            let ab = (0.01, 10000.0);
            let mut xs = vec![];
            for x in [(0.0, 0.0), (5e-324, 1.0)] {
                xs.push(cell(vec![ab, ab, x]));
            }
            p.tasks.push(bx(valid("betai(a, b, x) does not panic for a, b in [0.01, 10000], x in [0, 1]", "betai", xs, 1)));
            p.tasks.push(bx(valid("beta(z, w) does not panic for z, w in [0.01, 10000]", "beta", vec![cell(vec![ab, ab])], 1)));
            for f in ["gammp", "gammq"] {
                p.tasks.push(bx(valid(&format!("{f}(a, x) does not panic for a in [0.01, 10000], x in [0, 100000]"), f, vec![cell(vec![ab, (0.0, 0.0)]), cell(vec![ab, (5e-324, 1e5)])], 1)));
            }
            // an arbitrary finite p
            p.tasks.push(bx(valid("invgammp(p, a) does not panic for p <= 0 or p >= 1", "invgammp", grid(&[(-0.0, -0.0), (0.0, 0.0), (-f64::MAX, -5e-324), (1.0, f64::MAX)], &[ab]), 1)));
            let ps = cat(vec![vec![(5e-324, 1e-300)], geo(up(1e-300), 1e-10, 1e20), geo(up(1e-10), 1e-2, 10.0), lin(up(0.01), 0.99, 20), {
                let mut v: Vec<_> = geo(1e-15, 1e-2, 10.0).iter().map(|r| (1.0 - r.1, dn(1.0 - r.0))).collect();
                v.push((dn(1.0), dn(1.0)));
                v
            }]);
            let mut t = valid("invgammp(p, a) does not panic for p in (0, 1), sampled", "invgammp", grid(&ps, &cat(vec![geo(0.01, dn(1.0), 1.5), vec![(1.0, 1.0), (up(1.0), 1.0 + 1e-12)], geo(1.0 + 1e-12, 1e4, 1.5)])), 1);
            t.bounded = 4;
            p.tasks.push(bx(t));
            let os = orders_with_halves(50);
            let xs = cat(vec![geo(0.001, dn(2.0), 1.2), vec![(2.0, 2.0)], lin(up(2.0), 100.0, 98)]);
            for f in ["besseljy", "besselik"] {
                let mut t = valid(&format!("{f}(nu, x) does not panic for nu in [0, 50], x in [0.001, 100], sampled"), f, grid(&os, &xs), 4);
                t.bounded = if thorough { 100 } else { 20 };
                p.tasks.push(bx(t));
            }
            let gs = cat(vec![geo(0.01, dn(1.0), 2.5), vec![(1.0, 1.0), (up(1.0), 1.0 + 1e-12)], geo(1.0 + 1e-12, 1e4, 2.5)]);
            let mut cells = vec![];
            for a in &gs {
                for b in &gs {
                    cells.extend(ps.iter().map(|p| cell(vec![*p, *a, *b])));
                }
            }
            let mut t = valid("invbetai(p, a, b) does not panic for p in (0, 1), sampled", "invbetai", cells, 1);
            t.bounded = 4;
            p.tasks.push(bx(t));
            p.tasks.push(bx(valid("invbetai(p, a, b) does not panic for p <= 0 or p >= 1", "invbetai", [(-0.0, -0.0), (0.0, 0.0), (-f64::MAX, -5e-324), (1.0, f64::MAX)].iter().map(|p| cell(vec![*p, ab, ab])).collect(), 1)));
            let zero = cat(vec![vec![(-0.0, -0.0), (0.0, 0.0)], negative.clone()]);
            let inva = grid(&zero, &[(5e-324, f64::MAX)]);
            let mut t = con(
                "invgammp(p, a) is 0 for p <= 0 and a > 0",
                inva,
                Box::new(move |c| vec![("invgammp", 0, vec![pid(c, 0), pid(c, 1)], 1)]),
                Box::new(move |_, _, _, o| match val(&o[0], 0) {
                    Ok(FV::C(x)) if x == 0.0 => Verdict::Ok,
                    Ok(FV::C(x)) => Verdict::Refuted(format!("result {x:e} instead of 0")),
                    Ok(_) => Verdict::Unproved("constant".into()),
                    Err(v) => v,
                }),
            );
            t.ivonly = true;
            p.tasks.push(bx(t));
            let two = vec![(2.0, 2.0), (up(2.0), f64::MAX), (INF, INF)];
            let one = vec![(1.0, 1.0), (up(1.0), f64::MAX), (INF, INF)];
            for (nm, f, xs, v) in [
                ("inverfc(p) is 100 for p <= 0", "inverfc", zero, 100.0),
                ("inverfc(p) is -100 for p >= 2", "inverfc", two, -100.0),
                ("inverf(p) is 100 for p >= 1", "inverf", one.clone(), 100.0),
                ("inverf(p) is -100 for p <= -1", "inverf", neg(one), -100.0),
            ] {
                let mut t = constant(nm, f, xs, v);
                t.ivonly = true;
                p.tasks.push(bx(t));
            }
            p.note = "a path ends where no panic is reachable any more in the control flow graph (callees included); besseljy and besselik on valid arguments and invgammp for p in (0, 1) are sampled: bounded".into();
        }
        "C15" => {
            let vals: &[f64] = &[0.5, 0.6, 0.75, 0.95, 1.0, 1.05, 1.3, 1.7, 2.0, 2.5, 3.7, 5.0, 8.0, 14.0, 24.5, 40.0, 70.0, 100.0];
            let ps = cat(vec![geo(0.001, 0.1, 1.3), lin(up(0.1), dn(0.5), 16), vec![(0.5, 0.5)], lin(up(0.5), dn(0.9), 16), {
                let mut v: Vec<_> = geo(0.001, 0.1, 1.3).iter().map(|r| (1.0 - r.1, 1.0 - r.0)).collect();
                v.reverse();
                v
            }]);
            let mut cells = vec![];
            for &a in vals {
                for &b in vals {
                    cells.extend(ps.iter().map(|p| cell(vec![(a, a), (b, b), *p])));
                }
            }
            p.tasks.push(bx(beta_inverse("every p, at 324 pairs of parameters", cells)));
            let mut cells = vec![];
            let gs = cat(vec![vec![(0.5, 0.5)], geo(0.5, dn(1.0), 1.3), vec![(1.0, 1.0), (up(1.0), 1.0 + 1e-9)], geo(up(1.0 + 1e-9), 100.0, 1.5)]);
            for a in &gs {
                for b in &gs {
                    cells.extend(ps.iter().map(|p| cell(vec![*a, *b, *p])));
                }
            }
            let mut t = beta_inverse("all parameters, sampled", cells);
            t.bounded = 3;
            p.tasks.push(bx(t));
            // p is a value of betai
            let mut cells = vec![];
            for a in &gs {
                for b in &gs {
                    for s in lin(-5.0, 5.0, 20) {
                        cells.push(cell(vec![*a, *b, s]));
                    }
                }
            }
            let mut t = con(
                "I_x(a, b) at x = invbetai(p, a, b) is within 1e-7 of p, at p = betai(a, b, x), sampled",
                cells,
                Box::new(move |c| vec![("betai", 0, vec![pid(c, 0), pid(c, 1), logit_arg(c)], 1), ("invbetai", 0, vec![(Arg::Out(0, 0), 0.0, 1.0), pid(c, 0), pid(c, 1)], 1)]),
                Box::new(move |c, _, _, o| match (&o[0], &o[1]) {
                    (Out::Vals(p), Out::Vals(y)) => match (p[0], y[0]) {
                        (FV::C(p), FV::C(y)) if c.point && (0.001..=0.999).contains(&p) => inverts_beta(c, y, &TM::cst(p)),
                        _ => Verdict::Ok,
                    },
                    (Out::Vals(p), Out::Panic(s)) if matches!(p[0], FV::C(p) if (0.001..=0.999).contains(&p)) => Verdict::Refuted(format!("panics ({})", short(s))),
                    _ => Verdict::Ok,
                }),
            );
            t.bounded = 3;
            p.tasks.push(bx(t));
            let mut t = beta_accuracy("every x, at 324 pairs of parameters", beta_lines(vals));
            t.lemma = true;
            p.tasks.push(bx(t));
            p.assume.push(cut_note(12));
            p.level = "exploration";
            p.secs = 300.0;
        }
        "C16" => {
            for n in 0..=32u64 {
                let nn = (n as f64).max(1.0);
                let small = if n < 2 { lin(0.01, nn, 10) } else { geo(0.01, nn, 1.03) };
                let xs = cat(vec![vec![(0.0, 0.0)], small, lin(up(nn), 100.0, 200)]);
                let nm = format!("Jn({n}, x) is within 1e-13 of J_{n}(x)");
                p.tasks.push(bx(par(&nm, "Jn", n, xs, Tol::Abs(1e-13), |x, n| spec::jn(n, x))));
                // below 1e-154 the result is 0 for n > 1
                let f = if n < 12 { 1.05 } else { 1.02 };
                let low = if n < 2 { vec![(5e-324, 1e-300), (up(1e-300), 1e-12)] } else { vec![(5e-324, 1e-155)] };
                let tiny = if n < 2 { vec![] } else { geo(up(1e-155), 1e-12, if thorough { f } else { 1.5 }) };
                let small = if n < 2 { lin(up(1e-12), dn(0.01), 3) } else { geo(up(1e-12), dn(0.01), f) };
                for (s, xs, b) in [("for x in [1e-12, 0.01]", small, 0), ("for x below 1e-155", low, 0), ("for x in [1e-155, 1e-12]", tiny, if thorough { 0 } else { 1 })] {
                    let mut t = par(&format!("{nm} {s}"), "Jn", n, xs, Tol::Abs(1e-13), |x, n| spec::jn(n, x));
                    t.minw = 1e-8;
                    t.bounded = b;
                    p.tasks.push(bx(t));
                }
                let ys = cat(vec![geo(0.01, 1.0, 1.1), lin(up(1.0), 25.0, 100), lin(up(25.0), 100.0, 150)]);
                p.tasks.push(bx(unary(&format!("Yn({n}, x) is within 1e-12 max(1, |.|) of Y_{n}(x)"), "Yn", n, ys, Tol::Mixed(1e-12), |x, n| spec::yn(n, x))));
            }
        }
        "C17" => {
            for n in 0..=32u64 {
                let xs = cat(vec![geo(0.01, 25.0, 1.1 - 0.002 * n as f64), lin(up(25.0), 100.0, 80), lin(up(100.0), 700.0, 400)]);
                let nm = format!("In({n}, x) is within relative 1e-12 of I_{n}(x) and has the parity of {n}");
                let f = if n < 12 { 1.05 } else { 1.02 };
                let low = if n < 2 { vec![(5e-324, 1e-300), (up(1e-300), 1e-12)] } else { vec![(5e-324, 1e-155)] };
                let tiny = if n < 2 { vec![] } else { geo(up(1e-155), 1e-4, if thorough { f } else { 1.5 }) };
                let small = if n < 2 { lin(up(1e-12), dn(0.01), 3) } else { geo(up(1e-4), dn(0.01), f) };
                for (nm, xs, b) in [(nm.clone(), xs, 0), (format!("{nm}, for x in [1e-4, 0.01]"), small, 0), (format!("{nm}, for x below 1e-155"), low, 0), (format!("{nm}, for x in [1e-155, 1e-4]"), tiny, if thorough { 0 } else { 1 })] {
                    let mut t = con(
                        &nm,
                        xs.iter().map(|r| cell(vec![*r])).collect(),
                        Box::new(move |c| vec![("In", n, vec![pid(c, 0)], 1), ("In", n, vec![ng(c, 0)], 1)]),
                        Box::new(move |c, s, st, o| {
                            let (y, z) = match (val(&o[0], 0), val(&o[1], 0)) {
                                (Ok(y), Ok(z)) => (y, z),
                                (Err(v), _) | (_, Err(v)) => return v,
                            };
                            let par = same(if n % 2 == 1 { y.neg() } else { y }, z);
                            let s = s.get_or_insert_with(|| vec![spec::in_scaled(n, &c.p[0], 0)]);
                            let (_, hi) = s[0].range();
                            if hi < 1e-290 {
                                return par;
                            }
                            all(vec![par, near(st, y, &s[0], Tol::Rel(1e-12))])
                        }),
                    );
                    t.bounded = b;
                    t.deg = 16;
                    p.tasks.push(bx(t));
                }
                let ys = cat(vec![geo(0.01, 1.0, 1.1), lin(up(1.0), 25.0, 60), lin(up(25.0), 640.0, 150)]);
                let mut t = unary(&format!("Kn({n}, x) is within relative 1e-12 of K_{n}(x)"), "Kn", n, ys, Tol::Rel(1e-12), |x, n| spec::kn(n, x, false));
                t.deg = 14;
                p.tasks.push(bx(t));
            }
        }
        "C02" => {
            // all doubles but NaN: both signs, subnormals, infinities
            let pos = cat(vec![vec![(0.0, 0.0), (5e-324, 1e-300)], geo(up(1e-300), 1e-3, 1e10), lin(up(1e-3), 12.0, 400), geo(up(12.0), 1e4, 1.05), geo(up(1e4), 1e300, 1e3), vec![(up(1e300), f64::MAX), (INF, INF)]]);
            let every = cat(vec![neg(pos.clone()), pos.clone()]);
            for (f, lo, hi, cond) in [("erf", -1.0, 1.0, true), ("erfc", 0.0, 2.0, true), ("erfcx", 0.0, INF, true), ("dawson", -0.55, 0.55, true), ("inverf", -INF, INF, false), ("inverfc", -INF, INF, false)] {
                let mut xs = every.clone();
                if !cond {
                    xs = cat(vec![neg(pos.clone()), vec![(0.0, 0.0), (5e-324, 5e-324)], geo(1e-323, 1e-300, 2.0), geo(up(1e-300), 0.1, 1.5), lin(up(0.1), 0.9, 60), {
                        let mut v = vec![];
                        for c in [1.0, 2.0] {
                            let mut d = 0.1;
                            while d > 1e-15 {
                                v.push((up(c - d), c - d / 1.5));
                                v.push((c + d / 1.5, dn(c + d)));
                                d /= 1.5;
                            }
                            v.push((up(c - d), dn(c)));
                            v.push((c, c));
                            v.push((up(c), dn(c + d)));
                        }
                        v
                    }, lin(1.1, 1.9, 60), vec![(2.1, 1e10), (up(1e10), f64::MAX), (INF, INF)]]);
                    xs.extend(neg(xs.clone().into_iter().filter(|r| r.1 <= 1.1 && r.0 > 0.0).collect()));
                }
                let mut t = ranged(&format!("{f}(x) does not panic and is in [{lo}, {hi}]"), f, xs, lo, hi);
                t.floor = f == "dawson";
                t.minw = if f.starts_with("inv") { 1e-17 } else { 1e-9 };
                p.tasks.push(bx(t));
                let nan = vec![(f64::NAN, f64::NAN), (-f64::NAN, -f64::NAN)];
                if cond {
                    p.tasks.push(bx(constant(&format!("{f}(NaN) is NaN"), f, nan, f64::NAN)));
                } else {
                    p.tasks.push(bx(nopanic(&format!("{f}(NaN) does not panic"), f, nan.iter().map(|r| cell(vec![*r])).collect(), 1)));
                }
            }
            let pos = cat(vec![vec![(0.0, 0.0), (5e-324, 1e-300)], geo(up(1e-300), 1e-3, 1e20), lin(up(1e-3), 12.0, 24), geo(up(12.0), 1e3, 2.0), geo(up(1e3), 1e300, 1e20), vec![(up(1e300), f64::MAX), (INF, INF)]]);
            let every = cat(vec![neg(pos.clone()), pos.clone(), vec![(f64::NAN, f64::NAN)]]);
            let mut cells = vec![];
            for a in &every {
                for b in &every {
                    cells.push(cell(vec![*a, *b]));
                }
            }
            for fl in [false, true] {
                let cs = cells.iter().filter(|c| (c.r[1] == (0.0, 0.0) && !(c.r[0].0.abs().max(c.r[0].1.abs()) <= 12.0)) == fl).cloned().collect();
                let mut t = nopanic(if fl { "faddeeva(x, 0) returns, |x| > 12" } else { "faddeeva(x, y) returns" }, "faddeeva", cs, 2);
                t.floor = fl;
                t.maxpaths = 500;
                t.minw = 1e-9;
                p.tasks.push(bx(t));
            }
        }
        "C18" => {
            for f in ["Jn", "In"] {
                let top = if f == "Jn" { 1000.0 } else { 700.0 };
                p.rels.push((f, false, false));
                p.rels.push((f, true, true));
                for n in 0..=1000u64 {
                    let mut t = odd(&format!("{f}({n}, -x) against {f}({n}, x), sampled"), f, n, cat(vec![geo(1e-300, 1e-2, 1e100), geo(up(1e-2), top, if thorough { 2.0 } else { 100.0 })]), n % 2 == 1);
                    t.bounded = if thorough { 4 } else { 2 };
                    p.tasks.push(bx(t));
                    let v = if n == 0 { 1.0 } else { 0.0 };
                    p.tasks.push(bx(unary(&format!("{f}({n}, 0) is {v}"), f, n, vec![(0.0, 0.0), (-0.0, -0.0)], Tol::Abs(if n == 0 { 1e-15 } else { 0.0 }), |_, n| TM::cst(if n == 0 { 1.0 } else { 0.0 }))));
                }
            }
            p.note = "The parity is proved for every order and every double by the relational analysis (rel.rs), without unrolling; the samples only serve to find a failing input when that proof fails.".into();
        }
        "C10" => gamma_sums(&mut p),
        "C11" => {
            // gammq within 1e-9 of Q follows from gammp within 9.9e-10 of P and the sum within 1e-12 of 1
            gamma_sums(&mut p);
            p.note = "gammq(a, x) is within 1e-9 of Q(a, x) because gammp(a, x) is within 9.9e-10 of P(a, x) and gammp + gammq within 1e-12 of 1, both proved; gammq is sampled directly as well.".into();
            for (nm, co, cells, cut) in gamma_regions() {
                for f in ["gammp", "gammq"] {
                    p.tasks.push(bx(gamma_accuracy(f, nm, co, cells.clone(), cut)));
                }
            }
            p.assume.push(cut_note(12));
            p.secs = if thorough { 800.0 } else { 250.0 };
        }
        "C12" => {
            // a is 1 at a border of the branches
            let mut high = vec![(1.0, 1.0)];
            let mut e = 2e-16;
            while e < 0.1 {
                high.push((up(1.0 + e), 1.0 + e * 4.0));
                e *= 4.0;
            }
            high.extend(geo(up(1.0 + e), 1000.0, 1.2));
            let mut low = vec![];
            for a in cat(vec![geo(0.1, 0.98, 1.05), vec![(up(0.98), dn(1.0))]]) {
                let (l, h) = ((1e-6f64).ln() / a.0, (0.5f64).ln() / a.1);
                for r in lin(l, h, ((h - l) / 0.6).ceil() as usize) {
                    low.push(cell(vec![a, r]));
                }
            }
            let tail = lin((1e-6f64).ln(), (0.52f64).ln(), 44);
            for (nm, co, cells) in [
                ("a < 1, p < 0.5", Co::Power, low),
                ("a < 1, p > 0.48", Co::Comp, grid(&cat(vec![geo(0.1, 0.98, 1.1), vec![(up(0.98), dn(1.0))]]), &tail)),
                ("a >= 1, p < 0.52", Co::Exp, grid(&high, &tail)),
                ("a >= 1, p > 0.48", Co::Comp, grid(&high, &tail)),
            ] {
                let mut t = con(
                    &format!("P(a, invgammp(p, a)) is within 1e-8 of p: {nm}"),
                    cells,
                    Box::new(move |c| vec![("invgammp", 0, vec![second_arg(c, co), pid(c, 0)], 1)]),
                    Box::new(move |c, s, st, o| {
                        let y = match val(&o[0], 0) {
                            Ok(y) => y,
                            Err(v) => return v,
                        };
                        let s = s.get_or_insert_with(|| vec![second(c, co)]);
                        match y {
                            FV::C(x) if c.point => inverts(c, x, &s[0]),
                            _ => {
                                let (l, h, nan) = st.iv(y);
                                if nan || !(l > 0.0 && h < INF) {
                                    return Verdict::Unproved("result may not be positive".into());
                                }
                                let a = st.ident(0).unwrap_or(FV::C(c.cell.r[0].0));
                                let g = st.gp(a, y, 0.0);
                                near(st, g, &s[0], Tol::Abs(1e-8))
                            }
                        }
                    }),
                );
                t.contracts = &[("5gamma5gammp", &[(0.01, 10000.0), (1e-300, 100000.0)], 9.9e-10)];
                t.deg = 8;
                p.tasks.push(bx(t));
            }
            for (nm, co, mut cells, cut) in gamma_regions() {
                cells.retain(|c| c.r[0].1 >= 0.1 && c.r[0].0 <= 1000.0);
                let middle = matches!(nm, "a <= 1.5, 0.001 <= x <= 340" | "1.5 < a <= 100, |x - a| moderate" | "a > 100, 0.2 a <= x <= 0.9 a" | "a > 100, |x - a| <= 12 sqrt(a) or so");
                // p is a value of gammp where gammp itself is at work
                let mut t = con(
                    &format!("P(a, invgammp(p, a)) is within 1e-8 of p, at p = gammp(a, x), sampled: {nm}"),
                    cells.clone(),
                    Box::new(move |c| vec![("gammp", 0, vec![pid(c, 0), second_arg(c, co)], 1), ("invgammp", 0, vec![(Arg::Out(0, 0), 0.0, 1.0), pid(c, 0)], 1)]),
                    Box::new(move |c, _, _, o| match (&o[0], &o[1]) {
                        (Out::Vals(p), Out::Vals(y)) => match (p[0], y[0]) {
                            (FV::C(p), FV::C(y)) if c.point && (1e-6..=1.0 - 1e-6).contains(&p) && (0.1..=1000.0).contains(&c.cell.r[0].0) => inverts(c, y, &TM::cst(p)),
                            _ => Verdict::Ok,
                        },
                        (Out::Vals(p), Out::Panic(s)) if matches!(p[0], FV::C(p) if (1e-6..=1.0 - 1e-6).contains(&p)) => Verdict::Refuted(format!("panics ({})", short(s))),
                        _ => Verdict::Ok,
                    }),
                );
                t.bounded = 3;
                if middle {
                    p.tasks.push(bx(t));
                }
                let mut t = gamma_accuracy("gammp", nm, co, cells, cut);
                t.lemma = true;
                p.tasks.push(bx(t));
            }
            p.note = "invgammp is verified against the contract of gammp (within 9.9e-10 of P on a in [0.01, 10000], x in [1e-300, 100000]; its precondition is proved at every call), which C11 states and which is discharged here again for a in [0.1, 1000].".into();
            p.assume.push(cut_note(12));
            p.secs = if thorough { 800.0 } else { 500.0 };
        }
        "C13" => {
            let g = geo(0.01, 100.0, 1.5);
            let mut cells = vec![];
            for a in &g {
                for b in &g {
                    cells.push(cell(vec![*a, *b]));
                }
            }
            let mut t = con(
                "beta(z, w) is within relative 1e-9 of Gamma(z)Gamma(w)/Gamma(z+w)",
                cells.clone(),
                Box::new(move |c| vec![("beta", 0, vec![pid(c, 0), pid(c, 1)], 1)]),
                Box::new(move |c, s, st, o| {
                    let y = match val(&o[0], 0) {
                        Ok(y) => y,
                        Err(v) => return v,
                    };
                    let s = s.get_or_insert_with(|| vec![spec::beta(&c.p[0], &c.p[1])]);
                    near(st, y, &s[0], Tol::Rel(1e-9))
                }),
            );
            t.deg = 8;
            p.tasks.push(bx(t));
            p.tasks.push(bx(con(
                "beta(z, w) == beta(w, z)",
                vec![cell(vec![(0.01, 100.0), (0.01, 100.0)])],
                Box::new(move |c| vec![("beta", 0, vec![pid(c, 0), pid(c, 1)], 1), ("beta", 0, vec![pid(c, 1), pid(c, 0)], 1)]),
                Box::new(move |_, _, _, o| match (val(&o[0], 0), val(&o[1], 0)) {
                    (Ok(a), Ok(b)) => same(a, b),
                    (Err(v), _) | (_, Err(v)) => v,
                }),
            )));
        }
        "C20" => {
            // (the arguments of sinh and sin are near 0 at x = 2)
            let mut near2 = vec![];
            let mut e = 0.1;
            while e > 1e-4 {
                near2.push((up(2.0 - e), 2.0 - e / 2.0));
                e /= 2.0;
            }
            near2.push((up(2.0 - e), dn(2.0)));
            for (nm, ords, xs, cut) in [
                ("x < 2", real_orders(20.0, false), cat(vec![geo(0.1, 1.9, 1.06), near2]), 3),
                ("x >= 2", real_orders(20.0, true), cat(vec![geo(2.0, 8.0, 1.06), lin(up(8.0), 50.0, 84)]), 3),
            ] {
                let mut t = con(
                    &format!("besselik returns I, K and their derivatives within 1e-9: {nm}"),
                    grid(&ords, &xs),
                    Box::new(move |c| vec![("besselik", 0, vec![pid(c, 0), pid(c, 1)], 4), ("Inu_Knu", 0, vec![pid(c, 0), pid(c, 1)], 2)]),
                    Box::new(move |c, s, st, o| {
                        let (a, b) = match (&o[0], &o[1]) {
                            (Out::Vals(a), Out::Vals(b)) => (a, b),
                            _ => return Verdict::Refuted("panics".into()),
                        };
                        let e = all(vec![same(a[0], b[0]), same(a[1], b[1])]);
                        if !matches!(e, Verdict::Ok) {
                            return e;
                        }
                        let s = s.get_or_insert_with(|| spec::ik_nu(&c.p[0], &c.p[1]));
                        all((0..4).map(|k| near(st, a[k], &s[k], Tol::Mixed(1e-9))).collect())
                    }),
                );
                t.weights = vec![-0.5, 1.0];
                t.cut = cut;
                t.maxnodes = 5000;
                t.maxpaths = 100;
                p.tasks.push(bx(t));
            }
            p.assume.push(cut_note(3));
            p.secs = if thorough { 800.0 } else { 450.0 };
        }
        "C19" => {
            let mut near2 = vec![];
            let mut e = 0.1;
            while e > 1e-4 {
                near2.push((up(2.0 - e), 2.0 - e / 2.0));
                e /= 2.0;
            }
            near2.push((up(2.0 - e), dn(2.0)));
            let jy = |nm: &str, cells: Vec<Cell>| {
                let mut t = con(
                    &format!("besseljy returns J, Y and their derivatives within 1e-9: {nm}"),
                    cells,
                    Box::new(move |c| vec![("besseljy", 0, vec![pid(c, 0), pid(c, 1)], 4), ("Jnu_Ynu", 0, vec![pid(c, 0), pid(c, 1)], 2)]),
                    Box::new(move |c, s, st, o| {
                        let (a, b) = match (&o[0], &o[1]) {
                            (Out::Vals(a), Out::Vals(b)) => (a, b),
                            _ => return Verdict::Refuted("panics".into()),
                        };
                        let e = all(vec![same(a[0], b[0]), same(a[1], b[1])]);
                        if !matches!(e, Verdict::Ok) {
                            return e;
                        }
                        let s = s.get_or_insert_with(|| spec::jy_nu(&c.p[0], &c.p[1]));
                        all((0..4).map(|k| near(st, a[k], &s[k], Tol::Mixed(1e-9))).collect())
                    }),
                );
                t.weights = vec![-0.5, 1.0];
                t.cut = 3;
                t.maxnodes = 5000;
                t.maxpaths = 100;
                t
            };
            let mut t = jy("x < 2", grid(&real_orders(20.0, false), &cat(vec![geo(0.1, 1.9, 1.06), near2])));
            t.giveup = if thorough { 12 } else { 8 };
            p.tasks.push(bx(t));
            // where Y vanishes to the last bit, or the downward recurrence for J
            let pts = [
                (6.007506065, 7.845887984939775), (6.007506065, 7.8458879849397745), (11.000278565, 38.47616896309565), (1.002483565, 2.2001783843455582), (0.004419065, 7.092974417800123),
                (17.007775565, 19.505373782202188), (2.007408065, 3.3928337954031953), (16.000401065, 27.389745763196796), (0.5000822, 1.5709485522662436), (1.5000222, 1.5708374395235942),
                (1.5002022, 1.5711707657528304), (0.5012222, 1.5730589353112434), (1.5012222, 1.5730589353112432),
            ];
            p.tasks.push(bx(jy("exact zeros", pts.iter().map(|q| cell(vec![(q.0, q.0), (q.1, q.1)])).collect())));
            let mut hi = vec![];
            let mut lo = vec![];
            let mut ords = vec![(0.0, 0.0), (5e-324, 1e-18)];
            ords.extend(geo(up(1e-18), 0.25, 30.0));
            ords.extend(lin(up(0.25), 20.0, 79));
            for c in grid(&ords, &cat(vec![geo(2.0, 8.0, 1.06), lin(up(8.0), 50.0, 126)])) {
                if c.r[1].1 < c.r[0].0 + 1.0 { lo.push(c) } else { hi.push(c) }
            }
            let mut t = jy("2 <= x < nu + 1", lo);
            t.giveup = if thorough { 10 } else { 5 };
            p.tasks.push(bx(t));
            let mut t = jy("x >= 2 and x >= nu + 1", hi);
            t.giveup = if thorough { 6 } else { 3 };
            p.tasks.push(bx(t));
            p.assume.push(cut_note(3));
            p.level = "exploration";
            p.secs = if thorough { 800.0 } else { 330.0 };
        }
        "C23" => {
            p.secs = if thorough { 600.0 } else { 200.0 };
            let wcon = |nm: &str, cells: Vec<Cell>| {
                con(
                    &format!("both parts of faddeeva(x, y) are within 1e-12 |w|: {nm}"),
                    cells,
                    Box::new(move |c| vec![("faddeeva", 0, vec![pid(c, 0), pid(c, 1)], 2)]),
                    Box::new(move |c, s, st, o| {
                        let v = match &o[0] {
                            Out::Vals(v) => v,
                            _ => return Verdict::Refuted("panics".into()),
                        };
                        let s = s.get_or_insert_with(|| {
                            let (r, i) = spec::faddeeva(&c.p[0], &c.p[1]);
                            vec![r, i]
                        });
                        let (l, h) = s[0].sqr().add(&s[1].sqr()).range();
                        let tol = |m: f64| Tol::Abs(1e-12 * m.max(0.0).sqrt());
                        // (a refutation needs the largest tolerance)
                        let t = if c.point { tol(h) } else { tol(l) };
                        all((0..2).map(|k| near(st, v[k], &s[k], t)).collect())
                    }),
                )
            };
            // cells between the borders of the tiles, where the index 7x steps
            let tile = |k: u32| {
                let mut b = k as f64 / 7.0;
                while dn(b) * 7.0 >= k as f64 {
                    b = dn(b);
                }
                while b * 7.0 < k as f64 {
                    b = up(b);
                }
                b
            };
            let tiles: Vec<(f64, f64)> = (1..49).map(|k| (tile(k), dn(tile(k + 1)))).collect();
            let t1 = dn(tile(1));
            let xs = cat(vec![vec![(0.0, 0.0), (5e-324, 1e-12)], geo(up(1e-12), 1e-3, 10.0), geo(up(1e-3), t1, 3.0), tiles.clone(), geo(tile(49), 100.0, 1.04)]);
            let ys = cat(vec![geo(0.01, t1, 1.5), tiles, geo(tile(49), 100.0, 1.04)]);
            p.tasks.push(bx(wcon("x >= 0", grid(&xs, &ys))));
            p.tasks.push(bx(wcon("x < 0", grid(&neg(xs[1..].to_vec()), &ys))));
            let mut t = con(
                "faddeeva(0, y) is (erfcx(y), 0)",
                vec![cell(vec![(f64::MIN, -5e-324)]), cell(vec![(0.0, 0.0)]), cell(vec![(5e-324, 1e-300)]), cell(vec![(up(1e-300), f64::MAX)])],
                Box::new(move |c| vec![("faddeeva", 0, vec![k(0.0), pid(c, 0)], 2), ("erfcx", 0, vec![pid(c, 0)], 1)]),
                Box::new(move |_, _, _, o| match (&o[0], &o[1]) {
                    (Out::Vals(a), Out::Vals(b)) => all(vec![same(a[0], b[0]), same(a[1], FV::C(0.0))]),
                    _ => Verdict::Refuted("panics".into()),
                }),
            );
            t.ivonly = true;
            p.tasks.push(bx(t));
            let xs = cat(vec![vec![(0.0, 0.0), (5e-324, 1e-20)], geo(up(1e-20), 0.01, 100.0), lin(up(0.01), 28.0, 280), vec![(up(28.0), 1000.0)]]);
            let mut cells: Vec<Cell> = xs.iter().map(|r| cell(vec![*r])).collect();
            cells.extend(neg(xs.clone()).iter().map(|r| cell(vec![*r])));
            p.tasks.push(bx(con(
                "the real part of faddeeva(x, 0) is within 1e-15 of exp(-x^2)",
                cells,
                Box::new(move |c| vec![("faddeeva", 0, vec![pid(c, 0), k(0.0)], 2)]),
                Box::new(move |c, s, st, o| {
                    let y = match val(&o[0], 0) {
                        Ok(y) => y,
                        Err(v) => return v,
                    };
                    let (lo, hi) = c.cell.r[0];
                    if lo > 27.9 || hi < -27.9 {
                        return within(st, y, 0.0, 1e-15);
                    }
                    let s = s.get_or_insert_with(|| vec![c.p[0].sqr().neg().exp()]);
                    near(st, y, &s[0], Tol::Abs(1e-15))
                }),
            )));
        }
        "C24" => {
            let ie = 0.36787944117144233; // 1/e rounded up
            for (f, w0, rel, lo, top, tiny) in [
                ("lambert_w0", true, 1e-11, 1e-9, 1e300, 1e-300),
                ("lambert_wm1", false, 1e-11, 1e-9, 1e300, 1e-300),
                ("sp_lambert_w0", true, 1e-5, 1e-6, 1e30, 1e-30),
                ("sp_lambert_wm1", false, 1e-5, 1e-6, 1e30, 1e-30),
            ] {
                let ab = if w0 { 1e-15 } else { 0.0 };
                // from the branch point
                let mut xs: Vec<(f64, f64)> = geo(lo * 1.001, 0.2, 1.15).into_iter().map(|(a, b)| (a - ie, dn(b - ie))).collect();
                xs.insert(0, (-ie + lo, -ie + lo * 1.002));
                let e = xs.last().unwrap().1;
                if w0 {
                    xs.extend(lin(e, 1.0, 30));
                    xs.extend(geo(up(1.0), top, if top > 1e100 { 1.4 } else { 1.2 }));
                } else {
                    xs.extend(neg(geo(tiny, -e, 1.2)));
                }
                let cells = xs.iter().map(|r| cell(vec![*r])).collect();
                p.tasks.push(bx(con(
                    &format!("w = {f}(z) solves |w exp(w) - z| <= {rel:e} |z| + {ab:e} on its branch"),
                    cells,
                    Box::new(move |c| vec![(f, 0, vec![pid(c, 0)], 1)]),
                    Box::new(move |c, _, st, o| {
                        let y = match val(&o[0], 0) {
                            Ok(y) => y,
                            Err(v) => return v,
                        };
                        if let FV::C(x) = y {
                            if !x.is_finite() {
                                return Verdict::Refuted(format!("result is {x}"));
                            }
                        }
                        if st.iv(y).2 {
                            return Verdict::Unproved("may be NaN".into());
                        }
                        let Some((t, e)) = st.model(y) else { return Verdict::Unproved("no model".into()) };
                        let (tl, th) = t.range();
                        let (tl, th) = (tl - e, th + e);
                        if c.point && (if w0 { th < -1.0 } else { tl > -1.0 }) {
                            return Verdict::Refuted("the result lies on the other branch".into());
                        }
                        if if w0 { tl < -1.0 } else { th > -1.0 } {
                            return Verdict::Unproved("branch".into());
                        }
                        // |d/dw w exp(w)| over the values the result can take; monotone factors
                        let m = (1.0 + tl).abs().max((1.0 + th).abs());
                        let dm = up(m) * th.exp() * (1.0 + 1e-9);
                        let z = &c.p[0];
                        let d = t.mul(&t.exp()).sub(z).widen(e * dm);
                        if !d.ok() {
                            return Verdict::Unproved("specification out of range".into());
                        }
                        let (dl, dh) = d.range();
                        let (zl, zh) = c.cell.r[0];
                        let (za, zb) = (if zl > 0.0 { zl } else if zh < 0.0 { -zh } else { 0.0 }, zl.abs().max(zh.abs()));
                        if dl.abs().max(dh.abs()) <= (rel * za + ab) * (1.0 - 1e-12) {
                            return Verdict::Ok;
                        }
                        if c.point {
                            let m = if dl > 0.0 { dl } else if dh < 0.0 { -dh } else { 0.0 };
                            let t0 = (rel * zb + ab) * (1.0 + 1e-12);
                            if m > t0 {
                                return Verdict::Refuted(format!("misses the argument by {m:e}, tolerance {t0:e}"));
                            }
                        }
                        Verdict::Unproved(format!("residual {:.1e} of {:.1e}, error {e:.1e}", dl.abs().max(dh.abs()), rel * za + ab))
                    }),
                )));
                let mut below = vec![(-INF, -INF), (f64::MIN, -1e10), (dn(-1e10), -1.0), (up(-1.0), -0.3678794411714424)];
                if !w0 {
                    below.extend([(5e-324, 1.0), (up(1.0), f64::MAX), (INF, INF)]);
                }
                p.tasks.push(bx(constant(&format!("{f} is NaN off the real branch"), f, below, f64::NAN)));
            }
        }
        "C22" => {
            let xs = cat(vec![lin(0.05, 12.0, 200)]);
            let far = geo(up(12.0), 1e6, 1.05);
            let mut t = unary("dawson(x) is within 5e-7, and relative 2e-6, of F(x) above 12", "dawson", 0, far, Tol::Both(5e-7, 2e-6), |x, _| spec::dawson(x));
            t.floor = true;
            p.tasks.push(bx(t));
            let mut t = unary("dawson(x) is within 5e-7, and relative 2e-6, of F(x)", "dawson", 0, xs.clone(), Tol::Both(5e-7, 2e-6), |x, _| spec::dawson(x));
            t.minw = 1e-9;
            p.tasks.push(bx(t));
            p.tasks.push(bx(unary("dawson(x) is within relative 2e-6 of F(x) for small x", "dawson", 0, geo(1e-300, dn(0.05), 1.5), Tol::Rel(2e-6), |x, _| spec::dawson(x))));
            let mut t = unary("dawson(x) is within relative 2e-6 of F(x) for large x", "dawson", 0, geo(up(1e6), 1e307, 1.5), Tol::Rel(2e-6), |x, _| spec::dawson(x));
            t.floor = true;
            p.tasks.push(bx(t));
            p.tasks.push(bx(ranged("dawson(x) is tiny for subnormal and tiny x", "dawson", vec![(0.0, 1e-300)], 0.0, 1.1e-300)));
            let mut t = odd("dawson(-x) == -dawson(x)", "dawson", 0, cat(vec![vec![(0.0, 1e-3)], lin(up(1e-3), 12.0, 50), geo(up(12.0), 1e8, 2.0), vec![(up(1e8), INF)]]), true);
            t.floor = true;
            p.tasks.push(bx(t));
        }
        _ => return None,
    }
    Some(p)
}

/// reads "name args" lines, prints enclosures (compared with mpmath by tools/selftest.py)
pub fn selftest_io() -> i32 {
    use std::io::BufRead;
    for l in std::io::stdin().lock().lines().map_while(Result::ok) {
        let w: Vec<&str> = l.split_whitespace().collect();
        let f = w[0];
        let n: u64 = w[1].parse().unwrap();
        let lo: f64 = w[2].parse().unwrap();
        let hi: f64 = w[3].parse().unwrap();
        let x = if lo == hi { TM::cst(lo) } else { TM::var(1, 10, 0, crate::dd::DD::f(lo / 2.0 + hi / 2.0), up(hi / 2.0 - lo / 2.0)) };
        let y = match (w.get(4), w.get(5)) {
            (Some(a), Some(b)) => {
                let (a, b): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
                let u = if lo == hi { TM::cst(0.0) } else { TM::var(1, 10, 0, crate::dd::ZERO, 1.0) };
                TM::cst(a / 2.0 + b / 2.0).add(&u.mulc(b / 2.0 - a / 2.0))
            }
            _ => TM::cst(1.0),
        };
        let z = w.get(6).and_then(|a| a.parse().ok()).map_or(TM::cst(0.5), TM::cst);
        let r = match f {
            "jy0" | "jy1" | "jy2" | "jy3" => spec::jy_nu(&x, &y)[f[2..].parse::<usize>().unwrap()].clone(),
            "ik0" | "ik1" | "ik2" | "ik3" => spec::ik_nu(&x, &y)[f[2..].parse::<usize>().unwrap()].clone(),
            "wr" => spec::faddeeva(&x, &y).0,
            "wi" => spec::faddeeva(&x, &y).1,
            "betai" => spec::betai(&x, &y, &z),
            "beta" => spec::beta(&x, &y),
            "gp" => spec::gamma_pq(&x, &y).0,
            "gq" => spec::gamma_pq(&x, &y).1,
            "erf" => spec::erf(&x),
            "erfc" => spec::erfc(&x),
            "erfcx" => spec::erfcx(&x),
            "dawson" => spec::dawson(&x),
            "ln_gamma" => spec::ln_gamma(&x),
            "gamma" => spec::gamma(&x),
            "rgamma" => spec::rgamma(&x),
            "jn" => spec::jn(n, &x),
            "yn" => spec::yn(n, &x),
            "in" => spec::in_scaled(n, &x, 0),
            "kn" => spec::kn(n, &x, false),
            "kns" => spec::kn(n, &x, true),
            "exp" => x.exp(),
            "ln" => x.ln(),
            "sqrt" => x.sqrt(),
            "sin" => x.sincos().0,
            "cos" => x.sincos().1,
            _ => spec::nan(),
        };
        // value at both ends and the middle, with the radius
        let at = |t: f64| {
            let mut s = crate::dd::ZERO;
            for c in r.c.iter().rev() {
                s = s.mulf(t).add(*c);
            }
            s
        };
        let (a, b, c) = (at(-1.0), at(0.0), at(1.0));
        println!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", a.h, a.l, b.h, b.l, c.h, c.l, r.r);
    }
    0
}
