//! Relational contracts f(n, -x) = +-f(n, x) for every order and every x at once: a product of
//! two runs A (argument x > 0) and B (argument -x), executed in lockstep over the control-flow
//! graph. The invariant of every register at every program point is inferred as a fixpoint
//! (sparse conditional propagation): B's value is equal to A's, or is its negation, or is
//! unrelated. No loop is unrolled and no bound is put on the order. Where the runs part (a branch
//! on the sign of x), each is followed on its own to the return.
use crate::ir::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rel {
    Same,
    Neg,
    /// B's value is the negation of A's, or both are zeros of any sign
    NegZ,
    Any,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tag {
    No,
    /// the argument x itself
    X,
    /// the bits of x
    XBits,
    /// the order n, or n truncated to at least one bit
    N,
    Args,
    Out,
    Alloca,
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Val {
    rel: Rel,
    cst: Option<(u64, u64)>,
    tag: Tag,
}
const SAME: Val = Val { rel: Rel::Same, cst: None, tag: Tag::No };
const NEG: Val = Val { rel: Rel::Neg, cst: None, tag: Tag::No };
const ANY: Val = Val { rel: Rel::Any, cst: None, tag: Tag::No };
fn cst(a: u64, b: u64) -> Val {
    let rel = if a == b {
        Rel::Same
    } else if a ^ b == 1 << 63 {
        Rel::Neg
    } else {
        Rel::Any
    };
    Val { rel, cst: Some((a, b)), tag: Tag::No }
}
fn zero(v: Val) -> bool {
    matches!(v.cst, Some((a, b)) if a << 1 == 0 && b << 1 == 0)
}
fn negz(v: Val) -> bool {
    matches!(v.rel, Rel::Neg | Rel::NegZ)
}
fn join(a: Option<Val>, b: Option<Val>) -> Option<Val> {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => Some(Val {
            rel: if a.rel == b.rel {
                a.rel
            } else if matches!((a.rel, b.rel), (Rel::Neg, Rel::NegZ) | (Rel::NegZ, Rel::Neg)) || zero(a) && negz(b) || zero(b) && negz(a) {
                Rel::NegZ
            } else {
                Rel::Any
            },
            cst: if a.cst == b.cst { a.cst } else { None },
            tag: if a.tag == b.tag { a.tag } else { Tag::No },
        }),
    }
}

pub struct Rels<'m> {
    m: &'m Module,
    odd: bool,
    memo: HashMap<(String, Vec<(u8, Option<(u64, u64)>, u8)>), Result<Val, String>>,
    depth: u32,
    pub funcs: BTreeSet<String>,
    pub points: u64,
}

enum Where {
    Both(usize),
    Apart(usize, usize),
}

impl<'m> Rels<'m> {
    /// Ok(true): f(n, -x) == -f(n, x); Ok(false): f(n, -x) == f(n, x), for n of the given parity
    pub fn prove(m: &'m Module, f: &str, odd: bool) -> (Result<bool, String>, BTreeSet<String>, u64) {
        let mut r = Rels { m, odd, memo: HashMap::new(), depth: 0, funcs: BTreeSet::new(), points: 0 };
        let v = r.func(&format!("h_{f}"), vec![Val { tag: Tag::N, ..SAME }, Val { tag: Tag::Args, ..SAME }, Val { tag: Tag::Out, ..SAME }]);
        let v = match v {
            Ok(Val { rel: Rel::Neg | Rel::NegZ, .. }) => Ok(true),
            Ok(Val { rel: Rel::Same, .. }) => Ok(false),
            Ok(_) => Err("the results are not related".into()),
            Err(e) => Err(e),
        };
        (v, r.funcs, r.points)
    }
    fn func(&mut self, name: &str, args: Vec<Val>) -> Result<Val, String> {
        let key = (name.to_string(), args.iter().map(|v| (v.rel as u8, v.cst, v.tag as u8)).collect::<Vec<_>>());
        if let Some(r) = self.memo.get(&key) {
            return r.clone();
        }
        let m = self.m;
        let Some(f) = m.funcs.get(name) else { return Err(format!("no body of {name}")) };
        if self.depth > 20 {
            return Err("recursion".into());
        }
        self.funcs.insert(name.to_string());
        self.depth += 1;
        let r = self.body(f.body()?, &args);
        self.depth -= 1;
        self.memo.insert(key, r.clone());
        r
    }
    fn body(&mut self, b: &'m Body, args: &[Val]) -> Result<Val, String> {
        let mut regs: Vec<Option<Val>> = vec![None; b.nregs];
        let mut def: Vec<Option<&'m Ins>> = vec![None; b.nregs];
        for (p, v) in b.params.iter().zip(args) {
            regs[*p] = Some(*v);
        }
        for blk in &b.blocks {
            for (d, i) in &blk.ins {
                if let Some(d) = d {
                    def[*d] = Some(i);
                }
            }
        }
        // memory of this call: what was stored through Out, and in each alloca
        let mut mem: HashMap<usize, Option<Val>> = HashMap::new();
        let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
        let mut apart: BTreeSet<(usize, usize, usize)> = BTreeSet::new();
        let mut reach: BTreeSet<usize> = BTreeSet::new();
        reach.insert(0);
        let mut ret: Option<Val> = None;
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 200 {
                return Err("no fixpoint".into());
            }
            let before = (regs.clone(), mem.clone(), edges.len(), apart.len(), ret);
            for bi in reach.clone() {
                let blk = &b.blocks[bi];
                for (d, i) in &blk.ins {
                    self.points += 1;
                    let v = if let Ins::Phi(ops) = i {
                        let mut v = None;
                        for (o, p) in ops {
                            if edges.contains(&(*p, bi)) {
                                v = join(v, self.op(&regs, o));
                            }
                        }
                        v
                    } else {
                        self.ins(&regs, &def, &mut mem, i)?
                    };
                    if let Some(d) = d {
                        regs[*d] = join(regs[*d], v);
                    }
                }
                match self.term(&regs, &blk.term, &mut ret, &mut mem)? {
                    (ts, dst) => {
                        if let Some((d, v)) = dst {
                            regs[d] = join(regs[d], v);
                        }
                        for t in ts {
                            match t {
                                Where::Both(t) => {
                                    edges.insert((bi, t));
                                    reach.insert(t);
                                }
                                Where::Apart(p, q) => {
                                    apart.insert((bi, p, q));
                                }
                            }
                        }
                    }
                }
            }
            if before == (regs.clone(), mem.clone(), edges.len(), apart.len(), ret) {
                break;
            }
        }
        for (from, p, q) in apart {
            let x = self.tail(b, &regs, &def, from, p, 0)?;
            let y = self.tail(b, &regs, &def, from, q, 1)?;
            let v = self.pair(&x, &y);
            ret = join(ret, Some(v));
        }
        if let Some(v) = mem.get(&usize::MAX) {
            // the harness entry point: its result is what it stores
            return v.ok_or("nothing stored".into());
        }
        Ok(ret.unwrap_or(SAME))
    }
    /// relation of two values computed by the two runs
    fn pair(&self, x: &(Val, Option<usize>, bool, Option<u64>), y: &(Val, Option<usize>, bool, Option<u64>)) -> Val {
        if let (Some(a), Some(b)) = (x.3, y.3) {
            return cst(a, b);
        }
        if x.1.is_some() && x.1 == y.1 {
            let neg = x.2 != y.2;
            return match (x.0.rel, neg) {
                (Rel::Same, false) | (Rel::Neg, true) => SAME,
                (Rel::Neg, false) | (Rel::Same, true) => NEG,
                (Rel::NegZ, false) => Val { rel: Rel::NegZ, ..ANY },
                _ => ANY,
            };
        }
        ANY
    }
    /// one run followed alone to the return: (relation of the root, root register, negated, constant)
    fn tail(&mut self, b: &'m Body, regs: &[Option<Val>], def: &[Option<&'m Ins>], from: usize, to: usize, which: u8) -> Result<(Val, Option<usize>, bool, Option<u64>), String> {
        let mut env: HashMap<usize, (Option<usize>, bool, Option<u64>)> = HashMap::new();
        let look = |env: &HashMap<usize, (Option<usize>, bool, Option<u64>)>, o: &Op| -> Option<(Option<usize>, bool, Option<u64>)> {
            match o {
                Op::Reg(r) => Some(env.get(r).copied().unwrap_or((Some(*r), false, None))),
                Op::F(x) => Some((None, false, Some(x.to_bits()))),
                Op::Int(x) => Some((None, false, Some(*x))),
                _ => None,
            }
        };
        let (mut prev, mut bb) = (from, to);
        for _ in 0..50 {
            let blk = &b.blocks[bb];
            let mut new = vec![];
            for (d, i) in &blk.ins {
                let Some(d) = d else { return Err("effect after the runs part".into()) };
                match i {
                    Ins::Phi(ops) => {
                        let o = ops.iter().find(|(_, p)| *p == prev).ok_or("phi")?;
                        new.push((*d, look(&env, &o.0).ok_or("operand")?));
                    }
                    Ins::FNeg(o) => {
                        for (d, v) in new.drain(..) {
                            env.insert(d, v);
                        }
                        let (r, n, c) = look(&env, o).ok_or("operand")?;
                        env.insert(*d, (r, !n, c.map(|c| c ^ 1 << 63)));
                    }
                    Ins::FBin(b'-', Op::F(z), o) if z.to_bits() == 1 << 63 => {
                        let (r, n, c) = look(&env, o).ok_or("operand")?;
                        env.insert(*d, (r, !n, c.map(|c| c ^ 1 << 63)));
                    }
                    _ => return Err("computation after the runs part".into()),
                }
            }
            for (d, v) in new {
                env.insert(d, v);
            }
            match &blk.term {
                Term::Br(t) => {
                    prev = bb;
                    bb = *t;
                }
                Term::CondBr(c, t, f) => {
                    let v = self.op(regs, c).and_then(|v| v.cst).ok_or("branch after the runs part")?;
                    let v = if which == 0 { v.0 } else { v.1 };
                    prev = bb;
                    bb = if v != 0 { *t } else { *f };
                }
                Term::Ret(Some(o)) => {
                    let (r, n, c) = look(&env, o).ok_or("operand")?;
                    let v = match r {
                        Some(r) => regs[r].ok_or("undefined")?,
                        None => SAME,
                    };
                    let _ = def;
                    return Ok((v, r, n, c));
                }
                _ => return Err("terminator after the runs part".into()),
            }
        }
        Err("loop after the runs part".into())
    }
    fn op(&self, regs: &[Option<Val>], o: &Op) -> Option<Val> {
        match o {
            Op::Reg(r) => regs[*r],
            Op::Int(x) => Some(cst(*x, *x)),
            Op::F(x) => Some(cst(x.to_bits(), x.to_bits())),
            _ => Some(SAME),
        }
    }
    fn ins(&mut self, regs: &[Option<Val>], def: &[Option<&'m Ins>], mem: &mut HashMap<usize, Option<Val>>, i: &'m Ins) -> Result<Option<Val>, String> {
        macro_rules! g {
            ($o:expr) => {
                match self.op(regs, $o) {
                    Some(v) => v,
                    None => return Ok(None),
                }
            };
        }
        let plain = |v: Val| Val { tag: Tag::No, cst: None, ..v };
        let both = |a: Val, b: Val| if a.rel == Rel::Same && b.rel == Rel::Same { SAME } else { ANY };
        Ok(Some(match i {
            Ins::FBin(o, a, b) => {
                let (a, b) = (g!(a), g!(b));
                if !matches!((a.rel, b.rel), (Rel::Same | Rel::Neg, Rel::Same | Rel::Neg)) {
                    ANY
                } else if let b'*' | b'/' = o {
                    if a.rel == b.rel { SAME } else { NEG }
                } else if a.rel == b.rel && *o != b'%' {
                    plain(a)
                } else {
                    ANY
                }
            }
            Ins::FNeg(a) => {
                let a = g!(a);
                match a.cst {
                    Some((x, y)) => cst(x ^ 1 << 63, y ^ 1 << 63),
                    None => plain(a),
                }
            }
            Ins::FCmp(p, a, b) => {
                let (x, y) = (g!(a), g!(b));
                if x.rel == Rel::Same && y.rel == Rel::Same {
                    SAME
                } else if let (Tag::X, Some((0, 0))) = (x.tag, y.cst) {
                    // A: x > 0, B: x < 0
                    match p.as_str() {
                        "olt" | "ult" | "ole" | "ule" => cst(0, 1),
                        "ogt" | "ugt" | "oge" | "uge" => cst(1, 0),
                        "oeq" | "ueq" | "uno" => cst(0, 0),
                        "one" | "une" | "ord" => cst(1, 1),
                        _ => ANY,
                    }
                } else if x.rel == Rel::Neg && (y.rel == Rel::Neg || matches!(y.cst, Some((0, 0)))) {
                    match p.as_str() {
                        "oeq" | "ueq" | "one" | "une" | "ord" | "uno" => SAME,
                        _ => ANY,
                    }
                } else {
                    ANY
                }
            }
            Ins::ICmp(p, bits, a, b) => {
                let (x, y) = (g!(a), g!(b));
                match (x.tag, y.cst, p.as_str()) {
                    (Tag::XBits, Some((0, 0)), "slt") => cst(0, 1),
                    (Tag::XBits, Some((0, 0)), "sge") => cst(1, 0),
                    (Tag::XBits, Some((k, _)), "sgt") if k == u64::MAX => cst(1, 0),
                    (Tag::XBits, Some((k, _)), "sle") if k == u64::MAX => cst(0, 1),
                    (Tag::N, Some((k, _)), "eq") if *bits > 0 && (k & 1 == 1) != self.odd => cst(0, 0),
                    (Tag::N, Some((k, _)), "ne") if *bits > 0 && (k & 1 == 1) != self.odd => cst(1, 1),
                    _ => match (x.cst, y.cst) {
                        (Some((a0, a1)), Some((b0, b1))) if p == "eq" => cst((a0 == b0) as u64, (a1 == b1) as u64),
                        (Some((a0, a1)), Some((b0, b1))) if p == "ne" => cst((a0 != b0) as u64, (a1 != b1) as u64),
                        _ => both(x, y),
                    },
                }
            }
            Ins::IBin(o, bits, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let par = self.odd as u64;
                if let (Tag::N, "and", Some((1, 1))) = (x.tag, o.as_str(), y.cst) {
                    cst(par, par)
                } else if let (Tag::N, "urem", Some((2, 2))) = (x.tag, o.as_str(), y.cst) {
                    cst(par, par)
                } else if let (Tag::XBits, "lshr", Some((63, 63))) = (x.tag, o.as_str(), y.cst) {
                    cst(0, 1)
                } else if let (Tag::XBits, "and", Some((k, _))) = (x.tag, o.as_str(), y.cst) {
                    if k == u64::MAX >> 1 {
                        SAME
                    } else if k == 1 << 63 {
                        cst(0, 1 << 63)
                    } else {
                        ANY
                    }
                } else if *bits == 1 && (o == "and" || o == "or" || o == "xor") {
                    // conditions, one of them possibly known
                    match (x.cst, y.cst) {
                        (Some((a, b)), Some((c, d))) => {
                            let f = |p: u64, q: u64| match o.as_str() {
                                "and" => p & q,
                                "or" => p | q,
                                _ => p ^ q,
                            } & 1;
                            cst(f(a, c), f(b, d))
                        }
                        (Some((0, 0)), _) | (_, Some((0, 0))) if o == "and" => cst(0, 0),
                        (Some((1, 1)), _) | (_, Some((1, 1))) if o == "or" => cst(1, 1),
                        _ => both(x, y),
                    }
                } else {
                    both(x, y)
                }
            }
            Ins::Cast(c, from, a, to) => {
                let v = g!(a);
                let _ = from;
                match c.as_str() {
                    "trunc" | "zext" if v.tag == Tag::N => {
                        if let Ty::Int(1) = to {
                            cst(self.odd as u64, self.odd as u64)
                        } else {
                            v
                        }
                    }
                    "zext" if v.cst.is_some() => v,
                    "trunc" if v.cst.is_some() && *to == Ty::Int(1) => {
                        let (a, b) = v.cst.unwrap();
                        cst(a & 1, b & 1)
                    }
                    "bitcast" if v.tag == Tag::X => Val { tag: Tag::XBits, cst: None, rel: Rel::Neg },
                    "bitcast" => plain(v),
                    "fpext" | "fptrunc" | "sitofp" if v.rel == Rel::Same => SAME,
                    _ if v.rel == Rel::Same => SAME,
                    _ => ANY,
                }
            }
            Ins::Select(c, a, b) => {
                let c = g!(c);
                match c.cst {
                    Some((1, 1)) => return Ok(self.op(regs, a)),
                    Some((0, 0)) => return Ok(self.op(regs, b)),
                    Some((ca, cb)) => {
                        let (p, q) = if ca != 0 { (a, b) } else { (b, a) };
                        let _ = cb;
                        let root = |o: &Op| -> (Option<usize>, bool, Option<u64>) {
                            match o {
                                Op::F(x) => (None, false, Some(x.to_bits())),
                                Op::Int(x) => (None, false, Some(*x)),
                                Op::Reg(r) => match def[*r] {
                                    Some(Ins::FNeg(Op::Reg(s))) => (Some(*s), true, None),
                                    _ => (Some(*r), false, None),
                                },
                                _ => (None, false, None),
                            }
                        };
                        let (x, y) = (root(p), root(q));
                        let vx = match x.0 {
                            Some(r) => match regs[r] {
                                Some(v) => v,
                                None => return Ok(None),
                            },
                            None => SAME,
                        };
                        self.pair(&(vx, x.0, x.1, x.2), &(vx, y.0, y.1, y.2))
                    }
                    None if c.rel == Rel::Same => {
                        let (a, b) = (self.op(regs, a), self.op(regs, b));
                        return Ok(join(a, b).map(plain));
                    }
                    None => ANY,
                }
            }
            Ins::Phi(_) => unreachable!(),
            Ins::Load(ty, p) => {
                let v = g!(p);
                match (v.tag, v.cst, ty) {
                    (Tag::Args, _, Ty::Double) => Val { rel: Rel::Neg, cst: None, tag: Tag::X },
                    (Tag::Alloca, _, _) => match mem.get(&0) {
                        Some(v) => return Ok(v.map(plain)),
                        None => return Ok(None),
                    },
                    (Tag::No, _, _) if v.rel == Rel::Same => SAME,
                    _ => ANY,
                }
            }
            Ins::Store(_, v, p) => {
                let (v, p) = (g!(v), g!(p));
                let k = match p.tag {
                    Tag::Out => usize::MAX,
                    Tag::Alloca => 0,
                    _ => return Err("store through a pointer".into()),
                };
                let e = mem.entry(k).or_insert(None);
                *e = join(*e, Some(plain(v)));
                return Ok(None);
            }
            Ins::Gep(_, b, idx) => {
                let v = g!(b);
                let mut r = v.rel;
                for (_, o) in idx {
                    if g!(o).rel != Rel::Same {
                        r = Rel::Any;
                    }
                }
                Val { rel: r, ..v }
            }
            Ins::Alloca(_) => Val { tag: Tag::Alloca, ..SAME },
            Ins::Call(_, f, a) => {
                let mut v = vec![];
                for (_, o) in a {
                    v.push(g!(o));
                }
                return self.call(f, v, mem).map(Some);
            }
            Ins::CallPtr => return Err("indirect call".into()),
            Ins::Extract(a, _) => plain(g!(a)),
            Ins::Insert(a, b, _, _) => {
                let (a, b) = (g!(a), g!(b));
                both(a, b)
            }
            Ins::Bad(s) => return Err(format!("instruction {s}")),
        }))
    }
    fn call(&mut self, f: &str, a: Vec<Val>, mem: &mut HashMap<usize, Option<Val>>) -> Result<Val, String> {
        let same = a.iter().all(|v| v.rel == Rel::Same);
        let ptr = a.iter().any(|v| matches!(v.tag, Tag::Args | Tag::Out | Tag::Alloca));
        if let Some(n) = f.strip_prefix("llvm.") {
            let base = n.split('.').next().unwrap_or("");
            return Ok(match base {
                "fabs" if matches!(a[0].rel, Rel::Same | Rel::Neg) => SAME,
                "fmuladd" | "fma" => match (a[0].rel, a[1].rel, a[2].rel) {
                    (x, y, z) if [x, y, z].iter().any(|r| !matches!(r, Rel::Same | Rel::Neg)) => ANY,
                    (x, y, z) => {
                        let p = if x == y { Rel::Same } else { Rel::Neg };
                        if p != z { ANY } else if p == Rel::Same { SAME } else { NEG }
                    }
                },
                "powi" if a[0].rel == Rel::Neg => match a[1].cst {
                    Some((k, _)) if k & 1 == 0 => SAME,
                    Some(_) => NEG,
                    None => ANY,
                },
                "copysign" if matches!(a[0].rel, Rel::Same | Rel::Neg) && a[1].rel == Rel::Same => SAME,
                "copysign" if matches!(a[0].rel, Rel::Same | Rel::Neg) && a[1].rel == Rel::Neg => NEG,
                "sin" | "sinh" | "tan" if a[0].rel == Rel::Neg => NEG,
                "cos" | "cosh" if a[0].rel == Rel::Neg => SAME,
                "memcpy" | "memmove" | "memset" if a[0].tag == Tag::Alloca && same && a[1].tag == Tag::No => {
                    let e = mem.entry(0).or_insert(None);
                    *e = join(*e, Some(SAME));
                    SAME
                }
                "is" if n.starts_with("is.fpclass") && a[0].rel == Rel::Neg => match a[1].cst {
                    // symmetric classes: nan 3; infinities 4, 512; normals 8, 256; subnormals 16, 128; zeros 32, 64
                    Some((k, _)) => {
                        let sym = |p: u64, q: u64| (k & p != 0) == (k & q != 0);
                        if sym(4, 512) && sym(8, 256) && sym(16, 128) && sym(32, 64) { SAME } else { ANY }
                    }
                    None => ANY,
                },
                "lifetime" | "assume" | "experimental" | "dbg" => SAME,
                _ if same && !ptr => SAME,
                _ => ANY,
            });
        }
        if !self.m.funcs.contains_key(f) {
            // library functions and panics: deterministic
            return match f {
                "sinh" | "sin" if a[0].rel == Rel::Neg => Ok(NEG),
                "cosh" | "cos" if a[0].rel == Rel::Neg => Ok(SAME),
                _ if same && !ptr => Ok(SAME),
                _ => Ok(ANY),
            };
        }
        if ptr {
            return Err(format!("memory passed to {f}"));
        }
        if same && a.iter().all(|v| v.tag != Tag::N) {
            // a deterministic function of equal arguments
            self.funcs.insert(f.to_string());
            return Ok(SAME);
        }
        self.func(f, a)
    }
    fn term(&mut self, regs: &[Option<Val>], t: &'m Term, ret: &mut Option<Val>, mem: &mut HashMap<usize, Option<Val>>) -> Result<(Vec<Where>, Option<(usize, Option<Val>)>), String> {
        let none = Ok((vec![], None));
        match t {
            Term::Br(b) => Ok((vec![Where::Both(*b)], None)),
            Term::CondBr(c, p, q) => {
                let Some(v) = self.op(regs, c) else { return none };
                match v.cst {
                    Some((a, b)) if (a != 0) == (b != 0) => Ok((vec![Where::Both(if a != 0 { *p } else { *q })], None)),
                    Some((a, _)) => Ok((vec![if a != 0 { Where::Apart(*p, *q) } else { Where::Apart(*q, *p) }], None)),
                    None if v.rel == Rel::Same => Ok((vec![Where::Both(*p), Where::Both(*q)], None)),
                    None => Err("branch on unrelated values".into()),
                }
            }
            Term::Switch(_, o, d, cs) => {
                let Some(v) = self.op(regs, o) else { return none };
                if v.rel != Rel::Same {
                    return Err("switch on unrelated values".into());
                }
                let mut w = vec![Where::Both(*d)];
                for (k, b) in cs {
                    if v.tag == Tag::N && (k & 1 == 1) != self.odd {
                        continue;
                    }
                    w.push(Where::Both(*b));
                }
                Ok((w, None))
            }
            Term::Ret(o) => {
                if let Some(o) = o {
                    *ret = join(*ret, self.op(regs, o).map(|v| Val { tag: Tag::No, ..v }));
                }
                none
            }
            Term::Unreachable => none,
            Term::Invoke(d, _, f, a, next) => {
                let mut v = vec![];
                for (_, o) in a {
                    match self.op(regs, o) {
                        Some(x) => v.push(x),
                        None => return none,
                    }
                }
                let r = self.call(f, v, mem)?;
                Ok((vec![Where::Both(*next)], d.map(|d| (d, Some(r)))))
            }
            Term::Bad(s) => Err(format!("terminator {s}")),
        }
    }
}
