//! Obligations and their driver. A task is one contract: a precondition given as a list of cells,
//! the calls it makes, and a postcondition. Every cell is proved by symbolic execution, bisected, or
//! (when the prover cannot decide it within its budget) examined at sample points only.
use crate::exec::*;
use crate::ir::Module;
use crate::tm::TM;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Cell {
    /// ranges of the cell parameters (sets of doubles when the argument is the parameter)
    pub r: Vec<(f64, f64)>,
    pub n: u64,
    pub tag: u32,
    pub depth: u32,
    pub task: usize,
    pub fixed: Vec<f64>,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok,
    Unproved(String),
    Refuted(String),
}

pub struct Ctx {
    pub cell: Cell,
    /// the cell parameters as Taylor models
    pub p: Vec<TM>,
    pub deg: u8,
    pub point: bool,
}

pub trait Task: Sync + Send {
    fn name(&self) -> String;
    fn cells(&self) -> Vec<Cell>;
    fn deg(&self) -> u8 {
        10
    }
    /// arguments of the calls as Taylor models of the cell parameters, with the parameter index
    /// when the argument is that parameter
    fn calls(&self, c: &Ctx) -> Vec<(&'static str, u64, Vec<(Arg, f64, f64)>, usize)>;
    /// the postcondition
    fn post(&self, c: &Ctx, spec: &mut Option<Vec<TM>>, st: &mut State, outs: &[Out]) -> Verdict;
    /// smallest useful relative width of a cell
    fn minwidth(&self) -> f64 {
        1e-6
    }
    fn budget(&self) -> u64 {
        400_000
    }
    fn maxpaths(&self) -> u32 {
        64
    }
    fn ivonly(&self) -> bool {
        false
    }
    /// a contract this property's proofs rely on and another property states: a failing input is
    /// reported there, here the cell just stays undecided
    fn lemma(&self) -> bool {
        false
    }
    /// cells split this often are sampled instead (0: never)
    fn giveup(&self) -> u32 {
        0
    }
    /// no proof is attempted: native samples only
    fn bounded(&self) -> usize {
        0
    }
    /// whether the postcondition only asks if a call panics (the values are then not computed)
    fn only_panics(&self) -> bool {
        false
    }
    /// whether a truncated quotient may become a parameter
    fn floor(&self) -> bool {
        false
    }
    fn maxnodes(&self) -> usize {
        usize::MAX
    }
    /// see State::contracts
    fn contracts(&self) -> &'static [Contract] {
        &[]
    }
    /// see State::cut
    fn cut(&self) -> u32 {
        0
    }
    /// weight of a dimension when choosing where to bisect
    fn weight(&self, _c: &Cell, _d: usize) -> f64 {
        1.0
    }
}

/// an argument of a call
#[derive(Clone)]
pub enum Arg {
    /// the cell parameter itself
    Id(usize),
    /// minus the cell parameter
    Neg(usize),
    Const(f64),
    /// c minus the cell parameter (computed as a double; meant for exact differences)
    Sub(f64, usize),
    /// a function of the cell parameters
    Tm(TM),
    /// output k of call j (relational contracts)
    Out(usize, usize),
}

pub struct Native {
    lib: *mut std::ffi::c_void,
}
unsafe impl Sync for Native {}
unsafe impl Send for Native {}
extern "C" {
    fn dlopen(f: *const i8, flags: i32) -> *mut std::ffi::c_void;
    fn dlsym(h: *mut std::ffi::c_void, s: *const i8) -> *mut std::ffi::c_void;
}
impl Native {
    pub fn open(path: &str) -> Result<Native, String> {
        let c = std::ffi::CString::new(path).unwrap();
        let lib = unsafe { dlopen(c.as_ptr() as *const i8, 2) };
        if lib.is_null() {
            return Err(format!("cannot load {path}"));
        }
        let n = Native { lib };
        unsafe {
            let f = dlsym(n.lib, c"c_silence".as_ptr() as *const i8);
            if !f.is_null() {
                let f: extern "C" fn() = std::mem::transmute(f);
                f();
            }
        }
        Ok(n)
    }
    /// None: the call panicked
    pub fn call(&self, f: &str, n: u64, a: &[f64], nout: usize) -> Result<Option<Vec<f64>>, String> {
        let c = std::ffi::CString::new(format!("c_{f}")).unwrap();
        let mut args = [0.0; 8];
        args[..a.len()].copy_from_slice(a);
        let mut out = [0.0f64; 8];
        let r = unsafe {
            let p = dlsym(self.lib, c.as_ptr() as *const i8);
            if p.is_null() {
                return Err(format!("no function {f}"));
            }
            let g: extern "C" fn(u64, *const f64, *mut f64) -> i32 = std::mem::transmute(p);
            let slot = WATCH.with(|w| *w);
            watch_begin(slot, f, n, a);
            let r = g(n, args.as_ptr(), out.as_mut_ptr());
            watch_end(slot);
            r
        };
        Ok(if r != 0 { None } else { Some(out[..nout].to_vec()) })
    }
}

// ---- calls that do not return
struct Watch {
    since: Option<Instant>,
    what: String,
}
static WATCHES: Mutex<Vec<Watch>> = Mutex::new(vec![]);
thread_local! {
    static WATCH: usize = {
        let mut w = WATCHES.lock().unwrap();
        w.push(Watch { since: None, what: String::new() });
        w.len() - 1
    };
}
fn watch_begin(i: usize, f: &str, n: u64, a: &[f64]) {
    let mut w = WATCHES.lock().unwrap();
    w[i].since = Some(Instant::now());
    w[i].what = format!("{f} {n} {}", a.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" "));
}
fn watch_end(i: usize) {
    WATCHES.lock().unwrap()[i].since = None;
}
/// a native call that has been running for longer than `d`
pub fn hung(d: Duration) -> Option<String> {
    WATCHES.lock().unwrap().iter().find(|w| w.since.map_or(false, |s| s.elapsed() > d)).map(|w| w.what.clone())
}

pub struct Violation {
    pub task: String,
    pub what: String,
    pub calls: Vec<(String, u64, Vec<f64>, Option<Vec<f64>>)>,
    pub concrete: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cells: u64,
    pub proved: u64,
    pub paths: u64,
    pub infeasible: u64,
    pub unresolved: u64,
    pub timeout: u64,
    pub bounded: u64,
    pub samples: u64,
    pub nodes: u64,
    pub splits: u64,
    pub cuts: u64,
    pub proved_measure: f64,
    pub total_measure: f64,
    pub funcs: BTreeSet<String>,
    pub reasons: std::collections::BTreeMap<String, u64>,
    pub where_unres: Vec<String>,
    pub unsupported: BTreeSet<String>,
    pub secs: f64,
    pub last: String,
    /// proved and all cells per contract
    pub per: std::collections::BTreeMap<usize, (u64, u64)>,
}

pub struct Driver<'m> {
    pub m: &'m Module,
    pub nat: &'m Native,
    pub tasks: Vec<Box<dyn Task>>,
    pub deadline: Instant,
    pub verbose: bool,
    pub deep: u32,
}

#[derive(Default)]
pub struct Guards {
    pub compared: u64,
    pub disagree: Vec<String>,
    pub mutated: u64,
    pub vacuous: Vec<String>,
}
fn arg_value(x: &Arg, pt: &[f64], outs: &[Out]) -> f64 {
    match x {
        Arg::Id(d) => pt[*d],
        Arg::Neg(d) => -pt[*d],
        Arg::Const(x) => *x,
        Arg::Sub(x, d) => *x - pt[*d],
        Arg::Tm(t) => t.c[0].h,
        Arg::Out(j, k) => match &outs[*j] {
            Out::Vals(v) => match v[*k] {
                FV::C(x) => x,
                _ => 0.0,
            },
            _ => f64::NAN,
        },
    }
}

struct Shared {
    /// cells by depth: shallow ones first
    q: Vec<Vec<Cell>>,
    active: usize,
}

pub fn measure(c: &Cell) -> f64 {
    // doubles in the cell, roughly: log-measure for ranges of one sign away from 0
    c.r.iter()
        .map(|(a, b)| {
            let k = |x: f64| {
                let i = x.to_bits() as i64;
                if i < 0 { (i64::MIN as i128 - i as i128) as f64 } else { i as f64 }
            };
            (k(*b) - k(*a)).abs() + 1.0
        })
        .product()
}

fn midpoint(lo: f64, hi: f64) -> f64 {
    if lo == f64::NEG_INFINITY || hi == f64::INFINITY || (lo < 0.0 && hi > 0.0) {
        if lo < 0.0 && hi > 0.0 {
            return 0.0;
        }
        // half way in the ordered bit patterns
        let k = |x: f64| {
            let i = x.to_bits() as i64;
            if i < 0 { i64::MIN as i128 - i as i128 } else { i as i128 }
        };
        let m = (k(lo) + k(hi)) / 2;
        return if m < 0 { f64::from_bits((i64::MIN as i128 - m) as i64 as u64) } else { f64::from_bits(m as u64) };
    }
    if lo > 0.0 && hi / lo > 4.0 {
        return (lo.sqrt() * hi.sqrt()).clamp(lo, hi);
    }
    if hi < 0.0 && lo / hi > 4.0 {
        return -((-lo).sqrt() * (-hi).sqrt()).clamp(-hi, -lo);
    }
    if lo == 0.0 && hi > 1e-300 {
        return hi / 16.0;
    }
    if hi == 0.0 && lo < -1e-300 {
        return lo / 16.0;
    }
    lo + (hi - lo) / 2.0
}

/// the cells left and right of `at`, and the point itself
pub fn split_at(c: &Cell, d: usize, at: f64) -> Vec<Cell> {
    let (lo, hi) = c.r[d];
    let mut v = vec![];
    let mut mk = |a: f64, b: f64| {
        if a <= b {
            let mut n = c.clone();
            n.r[d] = (a, b);
            n.depth += 1;
            v.push(n);
        }
    };
    if at > lo && at < hi {
        mk(lo, dn(at));
        mk(at, at);
        mk(up(at), hi);
    } else if at == lo {
        mk(at, at);
        mk(up(at), hi);
    } else {
        mk(lo, dn(at));
        mk(at, at);
    }
    v
}

fn bisect(t: &dyn Task, c: &Cell) -> Option<Vec<Cell>> {
    let mut best = None;
    let mut bw = 0.0;
    for (d, (lo, hi)) in c.r.iter().enumerate() {
        if lo == hi || lo.is_nan() {
            continue;
        }
        let scale = lo.abs().max(hi.abs());
        let rel = if lo.is_infinite() || hi.is_infinite() {
            1e9
        } else if *lo > 0.0 && hi / lo > 4.0 || *hi < 0.0 && lo / hi > 4.0 {
            (hi / lo).abs().ln().abs() + (lo / hi).abs().ln().abs()
        } else {
            (hi / scale - lo / scale).abs()
        };
        if rel < t.minwidth() {
            continue;
        }
        let w = rel * t.weight(c, d);
        if w > bw {
            bw = w;
            best = Some(d);
        }
    }
    let d = best?;
    let (lo, hi) = c.r[d];
    let m = midpoint(lo, hi);
    let mut v = vec![];
    let m1 = if m >= hi { dn(hi) } else { m };
    let mut a = c.clone();
    a.r[d] = (lo, m1);
    a.depth += 1;
    let mut b = c.clone();
    b.r[d] = (up(m1), hi);
    b.depth += 1;
    if lo <= m1 {
        v.push(a);
    }
    if up(m1) <= hi {
        v.push(b);
    }
    Some(v)
}

pub fn mkctx(t: &dyn Task, c: &Cell) -> Ctx {
    let n0 = c.r.iter().filter(|(a, b)| a < b).count() as u8;
    let fresh = !t.contracts().is_empty();
    let nv = if n0 > 0 { n0 + (t.floor() || fresh) as u8 } else { 0 };
    let mut k = 0;
    let mut p = vec![];
    for (lo, hi) in &c.r {
        if lo == hi || lo.is_nan() {
            p.push(TM::cst(*lo));
        } else if lo.is_infinite() || hi.is_infinite() || hi - lo == f64::INFINITY {
            p.push(TM::cst(f64::NAN));
        } else {
            let mid = *lo / 2.0 + *hi / 2.0;
            let rad = (up(hi - mid)).max(up(mid - lo));
            if k >= 2 && (n0 > 3 || fresh) {
                p.push(TM::cst(f64::NAN));
                continue;
            }
            p.push(TM::var(nv.min(if fresh || n0 == 3 { 3 } else { 2 }), t.deg(), k, crate::dd::DD::f(mid), rad));
            k += 1;
        }
    }
    Ctx { cell: c.clone(), p, deg: t.deg(), point: nv == 0 }
}

pub enum Res {
    Proved { paths: u64, dead: u64 },
    Split(Vec<Cell>),
    Unresolved(String),
    Refuted(String),
}

impl<'m> Driver<'m> {
    /// runs the contract natively at one point of the cell
    pub fn sample(&self, t: &dyn Task, c: &Cell, pt: &[f64], stats: &mut Stats) -> Option<Violation> {
        let mut pc = c.clone();
        for (d, x) in pt.iter().enumerate() {
            pc.r[d] = (*x, *x);
        }
        let ctx = mkctx(t, &pc);
        let mut outs = vec![];
        let mut calls = vec![];
        for (f, n, args, nout) in t.calls(&ctx) {
            let mut a = vec![];
            for (x, _, _) in &args {
                a.push(arg_value(x, pt, &outs));
            }
            stats.samples += 1;
            match self.nat.call(f, n, &a, nout) {
                Ok(Some(v)) => {
                    outs.push(Out::Vals(v.iter().map(|x| FV::C(*x)).collect()));
                    calls.push((f.to_string(), n, a, Some(v)));
                }
                Ok(None) => {
                    outs.push(Out::Panic("panic".into()));
                    calls.push((f.to_string(), n, a, None));
                }
                Err(e) => {
                    stats.unsupported.insert(e);
                    return None;
                }
            }
        }
        let mut st = State::new(self.m, t.deg());
        // arguments given by Taylor models were rounded to doubles: rebuild the context there
        let mut spec = None;
        let ctx = Ctx { p: self.point_params(&ctx, &calls, t), ..ctx };
        match t.post(&ctx, &mut spec, &mut st, &outs) {
            Verdict::Refuted(s) => Some(Violation { task: t.name(), what: s, calls, concrete: true }),
            _ => None,
        }
    }
    fn point_params(&self, ctx: &Ctx, _calls: &[(String, u64, Vec<f64>, Option<Vec<f64>>)], _t: &dyn Task) -> Vec<TM> {
        ctx.p.clone()
    }
    /// guards of every run: the interpreter computes what the compiled code computes, and the
    /// postconditions refute a perturbed result. Returns (points compared, disagreements,
    /// perturbations tried, perturbations not refuted)
    pub fn guards(&self) -> Guards {
        let mut g = Guards::default();
        let mut seed = 0x51ed270b7f4a7c15u64;
        let every = (self.tasks.len() / 400).max(1);
        for t in self.tasks.iter().step_by(every) {
            let cells = t.cells();
            let mut refuted = false;
            let mut tried = false;
            let few = if t.bounded() > 0 { 40 } else { 4 };
            let step = (cells.len() / (few - 1)).max(1);
            for (i, c) in cells.iter().step_by(step).take(few).enumerate() {
                if i >= 4 && refuted {
                    break;
                }
                for pt in self.sample_points(c, 1, &mut seed) {
                    let mut pc = c.clone();
                    for (d, x) in pt.iter().enumerate() {
                        pc.r[d] = (*x, *x);
                    }
                    let ctx = mkctx(&**t, &pc);
                    let plan = t.calls(&ctx);
                    let mut outs: Vec<Out> = vec![];
                    for (f, n, args, nout) in &plan {
                        let a: Vec<f64> = args.iter().map(|(x, _, _)| arg_value(x, &pt, &outs)).collect();
                        let Ok(nat) = self.nat.call(f, *n, &a, *nout) else { continue };
                        // the interpreter on the same constants
                        let mut st = State::new(self.m, t.deg());
                        let base = st.nobj();
                        let cs = CallSpec { func: format!("h_{f}"), n: *n, args: a.iter().map(|x| FV::C(*x)).collect(), nout: *nout };
                        let sym = st.begin(&cs).and_then(|_| st.run(20_000_000)).and_then(|p| match p {
                            Some(_) => Ok(None),
                            None => st.outputs(base + 1, *nout).map(Some),
                        });
                        if let Ok(sym) = sym {
                            g.compared += 1;
                            let same = match (&nat, &sym) {
                                (None, None) => true,
                                (Some(x), Some(y)) => x.iter().zip(y).all(|(x, y)| matches!(y, FV::C(y) if y.to_bits() == x.to_bits() || x.is_nan() && y.is_nan())),
                                _ => false,
                            };
                            if !same {
                                g.disagree.push(format!("{f} {n} {a:?}: native {nat:?}, interpreted {sym:?}"));
                            }
                        }
                        outs.push(match nat {
                            Some(v) => Out::Vals(v.iter().map(|x| FV::C(*x)).collect()),
                            None => Out::Panic("panic".into()),
                        });
                    }
                    if outs.len() != plan.len() {
                        continue;
                    }
                    // one output at a time is changed
                    for i in 0..outs.len() {
                        let Out::Vals(v) = &outs[i] else { continue };
                        for k in 0..v.len() {
                            let FV::C(y) = v[k] else { continue };
                            for z in [y * 1.5 + 1.0, f64::NAN, 1.0] {
                                let mut o2 = outs.clone();
                                if let Out::Vals(w) = &mut o2[i] {
                                    w[k] = FV::C(z);
                                }
                                tried = true;
                                let mut st = State::new(self.m, t.deg());
                                let mut spec = None;
                                if let Verdict::Refuted(_) = t.post(&ctx, &mut spec, &mut st, &o2) {
                                    refuted = true;
                                }
                            }
                        }
                    }
                    if let (Some(Out::Vals(_)), true) = (outs.first(), t.ivonly()) {
                        let mut o2 = outs.clone();
                        o2[0] = Out::Panic("panic".into());
                        tried = true;
                        let mut st = State::new(self.m, t.deg());
                        let mut spec = None;
                        if let Verdict::Refuted(_) = t.post(&ctx, &mut spec, &mut st, &o2) {
                            refuted = true;
                        }
                    }
                    if let Some(Out::Panic(_)) = outs.first() {
                        let mut st = State::new(self.m, t.deg());
                        tried = true;
                        let o2: Vec<Out> = plan.iter().map(|p| Out::Vals(vec![FV::C(0.25); p.3])).collect();
                        let mut spec = None;
                        if let Verdict::Refuted(_) = t.post(&ctx, &mut spec, &mut st, &o2) {
                            refuted = true;
                        }
                    }
                }
            }
            if tried {
                g.mutated += 1;
                if !refuted {
                    g.vacuous.push(t.name());
                }
            }
        }
        g
    }
    fn prove(&self, t: &dyn Task, c: &Cell, stats: &mut Stats) -> Res {
        let ctx = mkctx(t, c);
        let mut st = State::new(self.m, t.deg());
        st.ivonly = t.ivonly();
        st.only_panics = t.only_panics();
        st.floor_ok = t.floor();
        st.cut = t.cut();
        st.maxnodes = t.maxnodes();
        st.contracts = t.contracts();
        if !st.contracts.is_empty() {
            st.fresh = ctx.p.iter().map(|p| p.nv).max().unwrap_or(0);
        }
        // inputs
        let plan = t.calls(&ctx);
        let mut ids: Vec<Option<FV>> = vec![None; c.r.len()];
        for (d, (lo, hi)) in c.r.iter().enumerate() {
            if lo == hi || lo.is_nan() {
                ids[d] = Some(FV::C(*lo));
            } else if plan.iter().any(|p| p.2.iter().any(|a| matches!(a.0, Arg::Id(k) | Arg::Neg(k) | Arg::Sub(_, k) if k == d))) {
                ids[d] = Some(st.input(ctx.p[d].clone(), *lo, *hi, Some(d)));
            }
        }
        struct Job<'m> {
            st: State<'m>,
            call: usize,
            started: bool,
            out_obj: usize,
            outs: Vec<Out>,
            tms: Vec<(TM, (f64, f64), FV)>,
        }
        let mut stack = vec![Job { st, call: 0, started: false, out_obj: 0, outs: vec![], tms: vec![] }];
        let mut npaths = 0u64;
        let mut dead = 0u64;
        let mut spec: Option<Vec<TM>> = None;
        let budget = t.budget();
        let mut spent = 0u64;
        let wide = |why: String, stats: &mut Stats| -> Res {
            *stats.reasons.entry(why.split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().to_string()).or_insert(0) += 1;
            stats.last = why.clone();
            match bisect(t, c) {
                Some(v) => Res::Split(v),
                None => Res::Unresolved(why),
            }
        };
        while let Some(mut j) = stack.pop() {
            'calls: while j.call < plan.len() {
                let (f, n, args, nout) = &plan[j.call];
                if !j.started {
                    let mut av = vec![];
                    for (a, lo, hi) in args {
                        av.push(match a {
                            Arg::Id(d) => ids[*d].unwrap(),
                            Arg::Neg(d) => ids[*d].unwrap().neg(),
                            Arg::Const(x) => FV::C(*x),
                            Arg::Sub(x, d) => j.st.fadd(FV::C(*x), ids[*d].unwrap().neg()),
                            Arg::Tm(tm) => {
                                if ctx.point {
                                    FV::C(tm.c[0].h)
                                } else {
                                    // equal arguments of several calls are one value
                                    let old = j.tms.iter().find(|q| q.1 == (*lo, *hi) && q.0.r == tm.r && q.0.c.len() == tm.c.len() && q.0.c.iter().zip(&tm.c).all(|(x, y)| x.h == y.h && x.l == y.l)).map(|q| q.2);
                                    match old {
                                        Some(v) => v,
                                        None => {
                                            let v = j.st.input(tm.clone(), *lo, *hi, None);
                                            j.tms.push((tm.clone(), (*lo, *hi), v));
                                            v
                                        }
                                    }
                                }
                            }
                            Arg::Out(q, k) => match &j.outs[*q] {
                                Out::Vals(v) => v[*k],
                                _ => FV::C(f64::NAN),
                            },
                        });
                    }
                    let cs = CallSpec { func: format!("h_{f}"), n: *n, args: av, nout: *nout };
                    let base = j.st.nobj();
                    if let Err(Stop::Unsupported(s)) = j.st.begin(&cs) {
                        stats.unsupported.insert(s.clone());
                        return Res::Unresolved(s);
                    }
                    j.out_obj = base + 1;
                    j.started = true;
                }
                let s0 = j.st.steps;
                let r = j.st.run(budget);
                spent += j.st.steps - s0;
                if spent > budget * 4 {
                    return wide("budget".into(), stats);
                }
                match r {
                    Ok(None) => {
                        if j.st.dead {
                            break 'calls;
                        }
                        match if j.st.returns { Ok(vec![]) } else { j.st.outputs(j.out_obj, *nout) } {
                            Ok(v) => j.outs.push(Out::Vals(v)),
                            Err(Stop::Unsupported(s)) => {
                                stats.unsupported.insert(s.clone());
                                return Res::Unresolved(s);
                            }
                            Err(e) => return wide(format!("{e:?}"), stats),
                        }
                        j.call += 1;
                        j.started = false;
                    }
                    Ok(Some(p)) => {
                        j.outs.push(Out::Panic(p));
                        j.call += 1;
                        j.started = false;
                    }
                    Err(Stop::Fork(k)) => {
                        if npaths as u32 + stack.len() as u32 + k as u32 > t.maxpaths() || j.st.forks > 300 {
                            return wide(format!("paths in {}", short(&j.st.where_am_i())), stats);
                        }
                        for i in (1..k).rev() {
                            let mut s2 = j.st.clone();
                            s2.force(i);
                            stack.push(Job { st: s2, call: j.call, started: true, out_obj: j.out_obj, outs: j.outs.clone(), tms: j.tms.clone() });
                        }
                        j.st.force(0);
                    }
                    Err(Stop::Split(d, at)) => {
                        stats.splits += 1;
                        return Res::Split(split_at(c, d, at));
                    }
                    Err(Stop::Wide(s)) => return wide(s, stats),
                    Err(Stop::Budget) => return wide("steps".into(), stats),
                    Err(Stop::Unsupported(s)) => {
                        stats.unsupported.insert(s.clone());
                        return wide(format!("unsupported: {s}"), stats);
                    }
                }
            }
            stats.nodes += j.st.nodes.len() as u64;
            for f in &j.st.calls {
                if !stats.funcs.contains(*f) {
                    stats.funcs.insert(f.to_string());
                }
            }
            stats.cuts += j.st.cuts as u64;
            if j.st.dead {
                dead += 1;
                continue;
            }
            npaths += 1;
            match t.post(&ctx, &mut spec, &mut j.st, &j.outs) {
                Verdict::Ok => {}
                Verdict::Unproved(s) => return wide(s, stats),
                Verdict::Refuted(s) => {
                    if ctx.point {
                        return Res::Refuted(s);
                    }
                    return wide(format!("refuted {s}"), stats);
                }
            }
        }
        Res::Proved { paths: npaths, dead }
    }
    fn sample_points(&self, c: &Cell, k: usize, seed: &mut u64) -> Vec<Vec<f64>> {
        let mut rnd = || {
            *seed ^= *seed << 13;
            *seed ^= *seed >> 7;
            *seed ^= *seed << 17;
            (*seed >> 11) as f64 / (1u64 << 53) as f64
        };
        let mut v = vec![];
        for i in 0..k {
            let mut p = vec![];
            for (lo, hi) in &c.r {
                let x = match i {
                    _ if lo.to_bits() == hi.to_bits() => *lo,
                    0 => midpoint(*lo, *hi),
                    1 => *lo,
                    2 => *hi,
                    _ => {
                        let u = rnd();
                        if lo.is_infinite() || hi.is_infinite() || (*lo > 0.0 && hi / lo > 4.0) {
                            let kx = |x: f64| {
                                let i = x.to_bits() as i64;
                                if i < 0 { (i64::MIN as i128 - i as i128) as f64 } else { i as f64 }
                            };
                            let m = (kx(*lo) * (1.0 - u) + kx(*hi) * u) as i128;
                            let y = if m < 0 { f64::from_bits((i64::MIN as i128 - m) as i64 as u64) } else { f64::from_bits(m as u64) };
                            y.clamp(*lo, *hi)
                        } else {
                            (lo * (1.0 - u) + hi * u).clamp(*lo, *hi)
                        }
                    }
                };
                p.push(if x.is_nan() { *lo } else { x });
            }
            v.push(p);
        }
        v
    }
    pub fn run(&self, stats: &mut Stats) -> Option<Violation> {
        let t0 = Instant::now();
        let mut q = vec![];
        for (i, t) in self.tasks.iter().enumerate() {
            let mut cells = t.cells();
            if let Ok(v) = std::env::var("FPV_CELL") {
                let w: Vec<f64> = v.split(',').map(|x| x.parse().unwrap()).collect();
                cells.truncate(1);
                cells[0].r = w.chunks(2).map(|p| (p[0], p[1])).collect();
            }
            for mut c in cells {
                c.task = i;
                q.push(c);
            }
        }
        // the queue is a stack: deal the cells out so that all parts get their share of the time
        let mut z = 0x9e3779b97f4a7c15u64;
        for i in (1..q.len()).rev() {
            z ^= z << 13;
            z ^= z >> 7;
            z ^= z << 17;
            q.swap(i, (z % (i as u64 + 1)) as usize);
        }
        for c in q.iter().filter(|c| self.tasks[c.task].bounded() == 0) {
            stats.total_measure += measure(c);
        }
        let shared = Mutex::new(Shared { q: vec![q], active: 0 });
        let cv = Condvar::new();
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let all: Mutex<Stats> = Mutex::new(std::mem::take(stats));
        let done = AtomicU64::new(0);
        let nt = std::env::var("FPV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        std::thread::scope(|s| {
            for w in 0..nt {
                let (shared, cv, stop, found, all, done) = (&shared, &cv, &stop, &found, &all, &done);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let mut seed = 0x1234567u64 + w as u64 * 7919;
                    loop {
                        let c = {
                            let mut g = shared.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                if let Some(c) = g.q.iter_mut().find_map(|v| v.pop()) {
                                    g.active += 1;
                                    break Some(c);
                                }
                                if g.active == 0 {
                                    break None;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                        };
                        let Some(c) = c else { break };
                        let t = &*self.tasks[c.task];
                        let mut viol = None;
                        let late = Instant::now() > self.deadline;
                        let gave = t.giveup() > 0 && c.depth >= t.giveup() && c.r.iter().any(|r| r.0 < r.1);
                        let nb = if gave { 10 } else if std::env::var("FPV_NB").is_ok() { 0 } else { t.bounded() };
                        let k = if nb > 0 { nb } else if late { 4 } else if c.depth == 0 { 4 } else { 1 };
                        for p in self.sample_points(&c, k, &mut seed) {
                            viol = self.sample(t, &c, &p, &mut st);
                            if viol.is_some() {
                                break;
                            }
                        }
                        let mut new = vec![];
                        let failed = |v: Violation, st: &mut Stats| {
                            st.cells += 1;
                            st.unresolved += 1;
                            st.per.entry(c.task).or_insert((0, 0)).1 += 1;
                            st.where_unres.push(format!("{}: lemma fails: {}", v.task, v.what));
                        };
                        if t.lemma() && viol.is_some() {
                            failed(viol.take().unwrap(), &mut st);
                        } else if viol.is_none() {
                            st.cells += 1;
                            if nb > 0 {
                                st.bounded += 1;
                            } else if late {
                                st.timeout += 1;
                                st.per.entry(c.task).or_insert((0, 0)).1 += 1;
                            } else {
                                match self.prove(t, &c, &mut st) {
                                    Res::Proved { paths, dead } => {
                                        st.proved += 1;
                                        let e = st.per.entry(c.task).or_insert((0, 0));
                                        e.0 += 1;
                                        e.1 += 1;
                                        st.paths += paths;
                                        st.infeasible += dead;
                                        st.proved_measure += measure(&c);
                                    }
                                    Res::Split(v) => {
                                        if self.deep == c.depth && self.verbose {
                                            eprintln!("deep {} {:?} {}", t.name(), c.r, st.last);
                                        }
                                        if c.depth > 200 {
                                            st.unresolved += 1;
                                        } else {
                                            new = v;
                                        }
                                    }
                                    Res::Refuted(s) => {
                                        // a point cell: the interpreter refutes; replay natively
                                        let p: Vec<f64> = c.r.iter().map(|r| r.0).collect();
                                        viol = self.sample(t, &c, &p, &mut st);
                                        if viol.is_none() {
                                            st.unresolved += 1;
                                            st.where_unres.push(format!("{} {:?} interpreter only: {s}", t.name(), c.r));
                                        }
                                    }
                                    Res::Unresolved(why) => {
                                        st.unresolved += 1;
                                        st.per.entry(c.task).or_insert((0, 0)).1 += 1;
                                        if st.where_unres.len() < 30 {
                                            st.where_unres.push(format!("{} n={} {:?} {:?}: {why}", t.name(), c.n, c.fixed, c.r));
                                        }
                                        for p in self.sample_points(&c, 12, &mut seed) {
                                            viol = self.sample(t, &c, &p, &mut st);
                                            if viol.is_some() {
                                                break;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        if t.lemma() && viol.is_some() {
                            st.where_unres.push(format!("{}: lemma fails: {}", t.name(), viol.take().unwrap().what));
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                        {
                            let mut g = shared.lock().unwrap();
                            g.active -= 1;
                            for c in new {
                                let d = c.depth as usize;
                                while g.q.len() <= d {
                                    g.q.push(vec![]);
                                }
                                g.q[d].push(c);
                            }
                            cv.notify_all();
                        }
                        if let Some(v) = viol {
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(v);
                            }
                            stop.store(true, Ordering::Relaxed);
                            cv.notify_all();
                        }
                    }
                    let mut a = all.lock().unwrap();
                    a.cells += st.cells;
                    a.proved += st.proved;
                    a.paths += st.paths;
                    a.infeasible += st.infeasible;
                    a.unresolved += st.unresolved;
                    a.timeout += st.timeout;
                    a.bounded += st.bounded;
                    a.samples += st.samples;
                    a.nodes += st.nodes;
                    a.splits += st.splits;
                    a.cuts += st.cuts;
                    a.proved_measure += st.proved_measure;
                    for (k, v) in st.per {
                        let e = a.per.entry(k).or_insert((0, 0));
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    a.funcs.extend(st.funcs);
                    a.unsupported.extend(st.unsupported);
                    a.where_unres.extend(st.where_unres);
                    for (k, v) in st.reasons {
                        *a.reasons.entry(k).or_insert(0) += v;
                    }
                    done.fetch_add(1 << 40, Ordering::Relaxed);
                }).unwrap();
            }
            // watch for calls that do not return
            let (stop, found, done) = (&stop, &found, &done);
            let verbose = self.verbose;
            s.spawn(move || {
                let mut last = 0;
                loop {
                    std::thread::sleep(Duration::from_millis(30));
                    let d = done.load(Ordering::Relaxed);
                    if d >> 40 >= nt as u64 {
                        return;
                    }
                    if verbose && t0.elapsed().as_secs() / 5 > last {
                        last = t0.elapsed().as_secs() / 5;
                        eprintln!("  {:.0}s: {} cells", t0.elapsed().as_secs_f64(), d & 0xff_ffff_ffff);
                    }
                    if let Some(w) = hung(Duration::from_secs(20)) {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            let mut it = w.split(' ');
                            let name = it.next().unwrap_or("").to_string();
                            let n = it.next().unwrap_or("0").parse().unwrap_or(0);
                            let a = it.filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect();
                            *f = Some(Violation { task: "termination".into(), what: "the call does not return within 20 s".into(), calls: vec![(name, n, a, None)], concrete: true });
                        }
                        stop.store(true, Ordering::Relaxed);
                        let v = f.take().unwrap();
                        drop(f);
                        crate::report_hang(v);
                    }
                }
            });
        });
        *stats = all.into_inner().unwrap();
        stats.secs += t0.elapsed().as_secs_f64();
        found.into_inner().unwrap()
    }
}

pub fn short(s: &str) -> String {
    // the last identifier of a mangled name
    let mut out = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if n > 1 && st + n <= b.len() && b[st..st + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out = s[st..st + n].to_string();
                i = st + n;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        s.to_string()
    } else {
        out
    }
}
