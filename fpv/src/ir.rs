//! A parser for the part of LLVM's textual IR that rustc emits for this code base. Function bodies
//! are parsed when they are first called, so that constructs in functions that the properties do
//! not reach (hash tables, formatting) need no support.
use std::sync::OnceLock as OnceCell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Double,
    Float,
    Ptr,
    Struct(Vec<Ty>),
    Array(usize, Box<Ty>),
    Vector(usize, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Struct(v) => v.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Array(_, t) => t.align(),
            Ty::Int(b) => ((*b as usize + 7) / 8).next_power_of_two().min(16),
            Ty::Float => 4,
            Ty::Void | Ty::Other => 1,
            _ => 8,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(b) => ((*b as usize + 7) / 8).next_power_of_two(),
            Ty::Double | Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Void | Ty::Other => 0,
            Ty::Array(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(v) => {
                let mut o = 0usize;
                for t in v {
                    let a = t.align();
                    o = (o + a - 1) / a * a + t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Struct(v) => {
                let mut o = 0usize;
                for (k, t) in v.iter().enumerate() {
                    let a = t.align();
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                (0, Ty::Other)
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            _ => (0, Ty::Other),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(usize),
    Int(u64),
    F(f64),
    Null,
    Undef,
    Global(String),
    Zero,
    Agg(Vec<(Ty, Op)>),
    Gep(Box<Op>, i64),
}

#[derive(Clone, Debug)]
pub enum Ins {
    FBin(u8, Op, Op),
    FNeg(Op),
    FCmp(String, Op, Op),
    ICmp(String, u32, Op, Op),
    IBin(String, u32, Op, Op),
    Cast(String, Ty, Op, Ty),
    Select(Op, Op, Op),
    Phi(Vec<(Op, usize)>),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(u32, Op)>),
    Alloca(usize),
    Call(Ty, String, Vec<(Ty, Op)>),
    CallPtr,
    Extract(Op, Vec<usize>),
    Insert(Op, Op, Vec<usize>, Ty),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Term {
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(u32, Op, usize, Vec<(u64, usize)>),
    Ret(Option<Op>),
    Unreachable,
    /// invoke: destination register, call, normal successor
    Invoke(Option<usize>, Ty, String, Vec<(Ty, Op)>, usize),
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<(Option<usize>, Ins)>,
    pub term: Term,
}

#[derive(Debug)]
pub struct Body {
    pub nregs: usize,
    pub params: Vec<usize>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    head: String,
    lines: Vec<String>,
    body: OnceCell<Result<Body, String>>,
}

pub struct Global {
    pub bytes: Vec<u8>,
    /// pointers inside the initializer
    pub ptrs: HashMap<usize, String>,
}

#[derive(Default)]
pub struct Module {
    pub funcs: HashMap<String, Func>,
    pub globals: HashMap<String, Global>,
    /// see may_panic
    panics: std::sync::Mutex<HashMap<String, std::sync::Arc<Vec<bool>>>>,
}
impl Module {
    fn call_may_panic(&self, f: &str) -> bool {
        if f.starts_with("llvm.") {
            return f.contains("trap");
        }
        if f.contains("panic") || f.contains("handle_error") {
            return true;
        }
        if self.funcs.contains_key(f) {
            return self.may_panic(f).first().copied().unwrap_or(true);
        }
        if f.contains("___rust_alloc") || f.contains("___rust_dealloc") || f.contains("___rust_realloc") || f.contains("no_alloc_shim") {
            return false;
        }
        !["sqrt", "exp", "log", "sin", "cos", "sinh", "cosh", "tan", "pow", "expm1", "log1p", "tgamma", "lgamma", "atan", "atan2", "hypot", "fmod", "cbrt", "log2", "log10", "exp2", "floor", "ceil", "trunc", "round", "memcpy", "memmove", "memset"].contains(&f)
    }
    fn ins_may_panic(&self, i: &Ins) -> bool {
        match i {
            i if out_of_memory(i) => false,
            Ins::Call(_, f, _) => self.call_may_panic(f),
            Ins::CallPtr | Ins::Bad(_) => true,
            _ => false,
        }
    }
    /// for every block of a function: whether control that enters it may reach a panic (by the
    /// control flow alone, callees included; a recursive function counts as one that may)
    pub fn may_panic(&self, f: &str) -> std::sync::Arc<Vec<bool>> {
        if let Some(v) = self.panics.lock().unwrap().get(f) {
            return v.clone();
        }
        let Some(Ok(b)) = self.funcs.get(f).map(|x| x.body()) else { return Default::default() };
        // (empty means: may)
        thread_local!(static BUSY: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) });
        if BUSY.with(|q| q.borrow().iter().any(|x| x == f)) {
            return Default::default();
        }
        BUSY.with(|q| q.borrow_mut().push(f.to_string()));
        let mut v: Vec<bool> = b.blocks.iter().map(|k| k.ins.iter().any(|i| self.ins_may_panic(&i.1)) || matches!(&k.term, Term::Unreachable | Term::Bad(_)) && !k.ins.last().is_some_and(|i| out_of_memory(&i.1)) || matches!(&k.term, Term::Invoke(_, _, g, _, _) if self.call_may_panic(g))).collect();
        loop {
            let mut more = false;
            for (i, k) in b.blocks.iter().enumerate() {
                if !v[i] && succ(&k.term).iter().any(|s| v[*s]) {
                    v[i] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        BUSY.with(|q| q.borrow_mut().pop());
        let v = std::sync::Arc::new(v);
        self.panics.lock().unwrap().insert(f.to_string(), v.clone());
        v
    }
    /// whether control at instruction pc of block bb may reach a panic
    pub fn may_panic_from(&self, f: &str, b: &Body, bb: usize, pc: usize) -> bool {
        let v = self.may_panic(f);
        let k = &b.blocks[bb];
        if v.len() != b.blocks.len() {
            return true;
        }
        k.ins[pc.min(k.ins.len())..].iter().any(|i| self.ins_may_panic(&i.1)) || matches!(&k.term, Term::Unreachable | Term::Bad(_)) || matches!(&k.term, Term::Invoke(_, _, g, _, _) if self.call_may_panic(g)) || succ(&k.term).iter().any(|s| v[*s])
    }
}
/// the end of the program when memory runs out (not the overflow of a capacity), which no property is about
fn out_of_memory(i: &Ins) -> bool {
    matches!(i, Ins::Call(_, f, a) if f.contains("raw_vec12handle_error") && matches!(a.first(), Some((_, Op::Int(n))) if *n != 0))
}
fn succ(t: &Term) -> Vec<usize> {
    match t {
        Term::Br(a) => vec![*a],
        Term::CondBr(_, a, b) => vec![*a, *b],
        Term::Switch(_, _, d, c) => c.iter().map(|x| x.1).chain([*d]).collect(),
        Term::Invoke(_, _, _, _, n) => vec![*n],
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Reg(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'%' || c == b'@' {
            i += 1;
            let st;
            let name;
            if i < b.len() && b[i] == b'"' {
                st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                name = s[st..i].to_string();
                i += 1;
            } else {
                st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                name = s[st..i].to_string();
            }
            out.push(if c == b'%' { Tok::Reg(name) } else { Tok::Glob(name) });
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' || c == b'"' {
            if c == b'c' {
                i += 1;
            }
            i += 1;
            let mut v = vec![];
            while b[i] != b'"' {
                if b[i] == b'\\' {
                    if b[i + 1] == b'\\' {
                        v.push(b'\\');
                        i += 2;
                    } else {
                        v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0));
                        i += 3;
                    }
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            out.push(Tok::Str(v));
        } else if c == b'!' || c == b'#' {
            // metadata or attribute group
            i += 1;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            out.push(Tok::P('!'));
        } else if c.is_ascii_digit() || ((c == b'-' || c == b'+') && i + 1 < b.len() && idc(b[i + 1])) {
            let st = i;
            i += 1;
            while i < b.len() && (idc(b[i]) || b[i] == b'+') {
                i += 1;
            }
            out.push(Tok::Num(s[st..i].to_string()));
        } else if idc(c) {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            let w = &s[st..i];
            if w.len() > 3 && w.starts_with("f0x") {
                out.push(Tok::Num(w.to_string()));
            } else {
                out.push(Tok::Id(w.to_string()));
            }
        } else {
            out.push(Tok::P(c as char));
            i += 1;
        }
    }
    out
}

fn float_of(s: &str) -> Option<f64> {
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    if let Some(h) = s.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
    }
    match s {
        "+inf" | "inf" => return Some(f64::INFINITY),
        "-inf" => return Some(f64::NEG_INFINITY),
        _ => {}
    }
    if s.contains("nan") {
        return Some(f64::NAN);
    }
    s.parse().ok()
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    regs: &'a mut HashMap<String, usize>,
    bbs: &'a HashMap<String, usize>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, self.peek()))
        }
    }
    fn reg(&mut self, n: &str) -> usize {
        let k = self.regs.len();
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Id(s) => Ok(match s.as_str() {
                "double" => Ty::Double,
                "float" => Ty::Float,
                "ptr" => Ty::Ptr,
                "void" => Ty::Void,
                _ => {
                    if let Some(b) = s.strip_prefix('i') {
                        if let Ok(n) = b.parse::<u32>() {
                            return Ok(Ty::Int(n));
                        }
                    }
                    return Err(format!("type {s}"));
                }
            }),
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty()?);
                    self.eat(',');
                }
                Ok(Ty::Struct(v))
            }
            Tok::P('[') => {
                let n = self.num()? as usize;
                self.next()?; // x
                let t = self.ty()?;
                self.expect(']')?;
                Ok(Ty::Array(n, Box::new(t)))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty()?);
                        self.eat(',');
                    }
                    self.expect('>')?;
                    return Ok(Ty::Struct(v));
                }
                let n = self.num()? as usize;
                self.next()?;
                let t = self.ty()?;
                self.expect('>')?;
                Ok(Ty::Vector(n, Box::new(t)))
            }
            t => Err(format!("type {t:?}")),
        }
    }
    fn num(&mut self) -> R<i64> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i64>().or_else(|_| s.parse::<u64>().map(|x| x as i64)).map_err(|_| format!("number {s}")),
            t => Err(format!("number expected, got {t:?}")),
        }
    }
    /// parameter attributes in front of an operand
    fn attrs(&mut self) {
        while let Some(Tok::Id(s)) = self.peek() {
            match s.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "none" => break,
                "align" => {
                    self.i += 2;
                    continue;
                }
                _ => {}
            }
            self.i += 1;
            if self.peek() == Some(&Tok::P('(')) {
                let mut d = 0;
                while let Some(t) = self.peek() {
                    if *t == Tok::P('(') {
                        d += 1;
                    }
                    if *t == Tok::P(')') {
                        d -= 1;
                    }
                    self.i += 1;
                    if d == 0 {
                        break;
                    }
                }
            }
        }
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        match self.next()? {
            Tok::Reg(s) => Ok(Op::Reg(self.reg(&s))),
            Tok::Glob(s) => Ok(Op::Global(s)),
            Tok::Num(s) => match ty {
                Ty::Double => float_of(&s).map(Op::F).ok_or(format!("float {s}")),
                Ty::Int(b) => {
                    let v = s.parse::<i128>().map_err(|_| format!("int {s}"))?;
                    let m = if *b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                    Ok(Op::Int(v as u64 & m))
                }
                _ => Err(format!("number {s} of type {ty:?}")),
            },
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Op::Int(1)),
                "false" => Ok(Op::Int(0)),
                "null" => Ok(Op::Null),
                "undef" | "poison" => Ok(Op::Undef),
                "zeroinitializer" => Ok(Op::Zero),
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    self.ty()?;
                    let b = self.op(&Ty::Ptr)?;
                    self.expect(',')?;
                    let it = self.ty()?;
                    let o = match self.op(&it)? {
                        Op::Int(v) => v as i64,
                        _ => return Err("constant gep".into()),
                    };
                    self.expect(')')?;
                    Ok(Op::Gep(Box::new(b), o * t.size() as i64))
                }
                _ => Err(format!("operand {s}")),
            },
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    v.push((t, o));
                    self.eat(',');
                }
                Ok(Op::Agg(v))
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat(']') {
                    let t = self.ty()?;
                    let o = self.op(&t)?;
                    v.push((t, o));
                    self.eat(',');
                }
                Ok(Op::Agg(v))
            }
            t => Err(format!("operand {t:?}")),
        }
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn flags(&mut self) {
        const F: [&str; 22] = [
            "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "nuw", "nsw", "exact", "disjoint",
            "samesign", "nneg", "inbounds", "nusw", "volatile", "tail", "musttail", "notail", "inrange", "unordered",
        ];
        while let Some(Tok::Id(s)) = self.peek() {
            if F.contains(&s.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn label(&mut self) -> R<usize> {
        if self.isid("label") {
            self.i += 1;
        }
        match self.next()? {
            Tok::Reg(s) => self.bbs.get(&s).copied().ok_or(format!("label {s}")),
            t => Err(format!("label {t:?}")),
        }
    }
    fn call(&mut self) -> R<(Ty, Option<String>, Vec<(Ty, Op)>)> {
        self.flags();
        // calling convention and return attributes
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    let isty = s == "double" || s == "ptr" || s == "void" || s == "float"
                        || s.strip_prefix('i').map_or(false, |b| b.parse::<u32>().is_ok());
                    if isty {
                        break;
                    }
                    self.i += 1;
                    if s == "align" {
                        self.i += 1;
                    }
                    if self.peek() == Some(&Tok::P('(')) {
                        let mut d = 0;
                        while let Some(t) = self.peek() {
                            if *t == Tok::P('(') {
                                d += 1;
                            }
                            if *t == Tok::P(')') {
                                d -= 1;
                            }
                            self.i += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                }
                _ => break,
            }
        }
        let rt = self.ty()?;
        // variadic / function type
        if self.peek() == Some(&Tok::P('(')) {
            while !self.eat(')') {
                self.i += 1;
                if self.i >= self.t.len() {
                    return Err("call".into());
                }
            }
        }
        let callee = match self.next()? {
            Tok::Glob(s) => Some(s),
            Tok::Reg(_) => None,
            t => return Err(format!("callee {t:?}")),
        };
        self.expect('(')?;
        let mut args = vec![];
        while !self.eat(')') {
            if self.isid("metadata") {
                self.i += 1;
                while self.peek().is_some() && self.peek() != Some(&Tok::P(',')) && self.peek() != Some(&Tok::P(')')) {
                    self.i += 1;
                }
                args.push((Ty::Other, Op::Undef));
                self.eat(',');
                continue;
            }
            let a = self.tyop()?;
            args.push(a);
            self.eat(',');
        }
        Ok((rt, callee, args))
    }
}

impl Func {
    pub fn body(&self) -> Result<&Body, String> {
        self.body.get_or_init(|| self.parse()).as_ref().map_err(|e| e.clone())
    }
    fn parse(&self) -> Result<Body, String> {
        let mut regs: HashMap<String, usize> = HashMap::new();
        // parameters
        let ht = lex(&self.head);
        let empty = HashMap::new();
        let mut params = vec![];
        {
            let st = ht.iter().position(|t| matches!(t, Tok::Glob(_))).ok_or("head")? + 1;
            let mut p = P { t: &ht, i: st, regs: &mut regs, bbs: &empty };
            p.expect('(')?;
            let mut auto = 0;
            while !p.eat(')') {
                p.ty()?;
                p.attrs();
                match p.peek() {
                    Some(Tok::Reg(s)) => {
                        let s = s.clone();
                        p.i += 1;
                        let r = p.reg(&s);
                        params.push(r);
                    }
                    _ => {
                        let r = p.reg(&format!("{auto}"));
                        params.push(r);
                    }
                }
                auto += 1;
                p.eat(',');
            }
        }
        // blocks
        let mut bbs = HashMap::new();
        let mut starts: Vec<(usize, usize)> = vec![];
        let n = self.lines.len();
        let mut first = true;
        for (i, l) in self.lines.iter().enumerate() {
            let islabel = !l.starts_with(' ') && !l.is_empty() && !l.starts_with(';');
            if first && !islabel && !l.trim().is_empty() {
                bbs.insert(format!("{}", params.len()), 0);
                starts.push((i, 0));
            }
            if islabel {
                let e = l.rfind(':').filter(|_| true);
                let name = l.split(':').next().unwrap_or("").trim_matches('"').to_string();
                let _ = e;
                bbs.insert(name, starts.len());
                starts.push((i + 1, 0));
            }
            if !l.trim().is_empty() {
                first = false;
            }
        }
        for k in 0..starts.len() {
            starts[k].1 = if k + 1 < starts.len() { starts[k + 1].0 } else { n };
        }
        let mut blocks = vec![];
        for (a, b) in starts {
            let mut ins = vec![];
            let mut term = None;
            let mut i = a;
            while i < b {
                let l = self.lines[i].trim();
                i += 1;
                if l.is_empty() || l.starts_with(';') {
                    continue;
                }
                if !self.lines[i - 1].starts_with(' ') {
                    continue;
                }
                // multi-line instructions: switch, invoke, landingpad
                let mut text = l.to_string();
                while i < b {
                    let nx = &self.lines[i];
                    if nx.starts_with("    ") || nx.trim_start().starts_with(']') {
                        text.push(' ');
                        let mut s = nx.trim();
                        if let Some(k) = s.find(" ;") {
                            s = &s[..k];
                        }
                        text.push_str(s);
                        i += 1;
                    } else {
                        break;
                    }
                }
                let toks = lex(&text);
                let mut p = P { t: &toks, i: 0, regs: &mut regs, bbs: &bbs };
                let mut dst = None;
                if let (Some(Tok::Reg(s)), Some(Tok::P('='))) = (toks.first(), toks.get(1)) {
                    dst = Some(p.reg(s));
                    p.i = 2;
                }
                match parse_ins(&mut p, dst) {
                    Ok(Item::I(x)) => ins.push((dst, x)),
                    Ok(Item::T(t)) => term = Some(t),
                    Ok(Item::Skip) => {}
                    Err(e) => {
                        let m = format!("{e}: {}", text.chars().take(120).collect::<String>());
                        ins.push((dst, Ins::Bad(m.clone())));
                        if text.starts_with("br") || text.starts_with("switch") || text.starts_with("ret") || text.contains("invoke") {
                            term = Some(Term::Bad(m));
                        }
                    }
                }
            }
            blocks.push(Block { ins, term: term.unwrap_or(Term::Bad("no terminator".into())) });
        }
        let nregs = regs.len();
        Ok(Body { nregs, params, blocks })
    }
}

enum Item {
    I(Ins),
    T(Term),
    Skip,
}

fn parse_ins(p: &mut P, dst: Option<usize>) -> R<Item> {
    let mut w = match p.next()? {
        Tok::Id(s) => s,
        t => return Err(format!("{t:?}")),
    };
    if w == "tail" || w == "musttail" || w == "notail" {
        w = match p.next()? {
            Tok::Id(s) => s,
            t => return Err(format!("{t:?}")),
        };
    }
    let i = match w.as_str() {
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.flags();
            let t = p.ty()?;
            if t != Ty::Double {
                return Err(format!("{w} on {t:?}"));
            }
            let a = p.op(&t)?;
            p.expect(',')?;
            let b = p.op(&t)?;
            Ins::FBin(match w.as_str() { "fadd" => b'+', "fsub" => b'-', "fmul" => b'*', "fdiv" => b'/', _ => b'%' }, a, b)
        }
        "fneg" => {
            p.flags();
            let t = p.ty()?;
            if t != Ty::Double {
                return Err(format!("{w} on {t:?}"));
            }
            Ins::FNeg(p.op(&t)?)
        }
        "fcmp" | "icmp" => {
            p.flags();
            let pr = match p.next()? {
                Tok::Id(s) => s,
                t => return Err(format!("{t:?}")),
            };
            let t = p.ty()?;
            let a = p.op(&t)?;
            p.expect(',')?;
            let b = p.op(&t)?;
            match (w.as_str(), &t) {
                ("fcmp", Ty::Double) => Ins::FCmp(pr, a, b),
                ("icmp", Ty::Int(n)) => Ins::ICmp(pr, *n, a, b),
                ("icmp", Ty::Ptr) => Ins::ICmp(pr, 64, a, b),
                _ => return Err(format!("{w} on {t:?}")),
            }
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            p.flags();
            let t = p.ty()?;
            let n = match t {
                Ty::Int(n) if n <= 64 => n,
                _ => return Err(format!("{w} on {t:?}")),
            };
            let a = p.op(&t)?;
            p.expect(',')?;
            let b = p.op(&t)?;
            Ins::IBin(w, n, a, b)
        }
        "trunc" | "zext" | "sext" | "uitofp" | "sitofp" | "fptosi" | "fptoui" | "bitcast" | "ptrtoint" | "inttoptr" | "fptrunc" | "fpext" => {
            p.flags();
            let (t, o) = p.tyop()?;
            if !p.isid("to") {
                return Err("cast".into());
            }
            p.i += 1;
            let t2 = p.ty()?;
            Ins::Cast(w, t, o, t2)
        }
        "freeze" => {
            let (t, o) = p.tyop()?;
            Ins::Cast("bitcast".into(), t.clone(), o, t)
        }
        "select" => {
            p.flags();
            let (t, c) = p.tyop()?;
            if t != Ty::Int(1) {
                return Err("vector select".into());
            }
            p.expect(',')?;
            let (_, a) = p.tyop()?;
            p.expect(',')?;
            let (_, b) = p.tyop()?;
            Ins::Select(c, a, b)
        }
        "phi" => {
            p.flags();
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.expect('[')?;
                let o = p.op(&t)?;
                p.expect(',')?;
                let l = p.label()?;
                p.expect(']')?;
                v.push((o, l));
                if !(p.eat(',') && p.peek() == Some(&Tok::P('['))) {
                    break;
                }
            }
            Ins::Phi(v)
        }
        "load" => {
            p.flags();
            let t = p.ty()?;
            p.expect(',')?;
            let (_, a) = p.tyop()?;
            Ins::Load(t, a)
        }
        "store" => {
            p.flags();
            let (t, v) = p.tyop()?;
            p.expect(',')?;
            let (_, a) = p.tyop()?;
            Ins::Store(t, v, a)
        }
        "getelementptr" => {
            p.flags();
            let t = p.ty()?;
            p.expect(',')?;
            let (_, b) = p.tyop()?;
            let mut idx = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::P('!')) {
                    break;
                }
                let (it, o) = p.tyop()?;
                let n = match it {
                    Ty::Int(n) => n,
                    _ => return Err("gep index".into()),
                };
                idx.push((n, o));
            }
            Ins::Gep(t, b, idx)
        }
        "alloca" => {
            let t = p.ty()?;
            let mut n = 1;
            if p.eat(',') && matches!(p.peek(), Some(Tok::Id(s)) if s.starts_with('i')) {
                if let (_, Op::Int(k)) = p.tyop()? {
                    n = k as usize;
                }
            }
            Ins::Alloca(t.size() * n)
        }
        "call" => {
            let (t, c, a) = p.call()?;
            match c {
                Some(c) => Ins::Call(t, c, a),
                None => Ins::CallPtr,
            }
        }
        "extractvalue" => {
            let (_, o) = p.tyop()?;
            let mut v = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::P('!')) {
                    break;
                }
                v.push(p.num()? as usize);
            }
            Ins::Extract(o, v)
        }
        "insertvalue" => {
            let (t, o) = p.tyop()?;
            p.expect(',')?;
            let (_, x) = p.tyop()?;
            let mut v = vec![];
            while p.eat(',') {
                if p.peek() == Some(&Tok::P('!')) {
                    break;
                }
                v.push(p.num()? as usize);
            }
            Ins::Insert(o, x, v, t)
        }
        "br" => {
            if p.isid("label") {
                return Ok(Item::T(Term::Br(p.label()?)));
            }
            let (_, c) = p.tyop()?;
            p.expect(',')?;
            let a = p.label()?;
            p.expect(',')?;
            let b = p.label()?;
            return Ok(Item::T(Term::CondBr(c, a, b)));
        }
        "switch" => {
            let (t, c) = p.tyop()?;
            let n = match t {
                Ty::Int(n) => n,
                _ => return Err("switch".into()),
            };
            p.expect(',')?;
            let d = p.label()?;
            p.expect('[')?;
            let mut v = vec![];
            while !p.eat(']') {
                let (_, k) = p.tyop()?;
                p.expect(',')?;
                let l = p.label()?;
                if let Op::Int(k) = k {
                    v.push((k, l));
                }
            }
            return Ok(Item::T(Term::Switch(n, c, d, v)));
        }
        "ret" => {
            if p.isid("void") {
                return Ok(Item::T(Term::Ret(None)));
            }
            let (_, o) = p.tyop()?;
            return Ok(Item::T(Term::Ret(Some(o))));
        }
        "unreachable" | "resume" => return Ok(Item::T(Term::Unreachable)),
        "invoke" => {
            let (t, c, a) = p.call()?;
            while !p.isid("to") {
                p.next()?;
            }
            p.i += 1;
            let n = p.label()?;
            return Ok(Item::T(match c {
                Some(c) => Term::Invoke(dst, t, c, a, n),
                None => Term::Bad("indirect invoke".into()),
            }));
        }
        "landingpad" => Ins::Bad("landingpad".into()),
        "fence" => return Ok(Item::Skip),
        _ => return Err(format!("instruction {w}")),
    };
    Ok(Item::I(i))
}

fn parse_init(p: &mut P, t: &Ty, out: &mut Vec<u8>, ptrs: &mut HashMap<usize, String>) -> R<()> {
    match t {
        Ty::Array(n, e) => {
            if let Some(Tok::Str(s)) = p.peek().cloned() {
                p.i += 1;
                out.extend(s);
                return Ok(());
            }
            if p.isid("zeroinitializer") || p.isid("undef") || p.isid("poison") {
                p.i += 1;
                out.extend(vec![0; t.size()]);
                return Ok(());
            }
            p.expect('[')?;
            for _ in 0..*n {
                p.ty()?;
                parse_init(p, e, out, ptrs)?;
                p.eat(',');
            }
            p.expect(']')
        }
        Ty::Struct(v) => {
            if p.isid("zeroinitializer") {
                p.i += 1;
                out.extend(vec![0; t.size()]);
                return Ok(());
            }
            let packed = p.eat('<');
            p.expect('{')?;
            for e in v {
                if !packed {
                    while out.len() % e.align() != 0 {
                        out.push(0);
                    }
                }
                p.ty()?;
                parse_init(p, e, out, ptrs)?;
                p.eat(',');
            }
            p.expect('}')?;
            if packed {
                p.expect('>')?;
            }
            Ok(())
        }
        _ => {
            match p.op(t)? {
                Op::Int(v) => out.extend(&v.to_le_bytes()[..t.size()]),
                Op::F(v) => out.extend(v.to_bits().to_le_bytes()),
                Op::Global(g) => {
                    ptrs.insert(out.len(), g);
                    out.extend([0; 8]);
                }
                _ => out.extend(vec![0; t.size()]),
            }
            Ok(())
        }
    }
}

impl Module {
    pub fn new() -> Module {
        Module::default()
    }
    /// Adds a module; private globals are made unique by `tag`.
    pub fn load(&mut self, text: &str, _tag: &str) -> Result<(), String> {
        let mut lines = text.lines();
        while let Some(l) = lines.next() {
            if l.starts_with("define ") {
                let at = l.find('@').ok_or("define")?;
                let rest = &l[at + 1..];
                let name = if let Some(r) = rest.strip_prefix('"') {
                    r[..r.find('"').unwrap_or(0)].to_string()
                } else {
                    rest[..rest.find('(').ok_or("define")?].to_string()
                };
                let mut b = vec![];
                for l in lines.by_ref() {
                    if l == "}" {
                        break;
                    }
                    b.push(l.to_string());
                }
                self.funcs.entry(name.clone()).or_insert(Func { name, head: l.to_string(), lines: b, body: OnceCell::new() });
            } else if l.starts_with('@') {
                let Some(eq) = l.find(" = ") else { continue };
                let name = l[1..eq].trim_matches('"').to_string();
                let rest = &l[eq + 3..];
                let Some(k) = rest.find("constant ").map(|k| k + 9) else { continue };
                let toks = lex(&rest[k..]);
                let mut regs = HashMap::new();
                let bbs = HashMap::new();
                let mut p = P { t: &toks, i: 0, regs: &mut regs, bbs: &bbs };
                let mut bytes = vec![];
                let mut ptrs = HashMap::new();
                if let Ok(t) = p.ty() {
                    if parse_init(&mut p, &t, &mut bytes, &mut ptrs).is_ok() {
                        self.globals.entry(name).or_insert(Global { bytes, ptrs });
                    }
                }
            }
        }
        Ok(())
    }
}
