//! A parser of the textual LLVM IR that rustc emits.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(n: u64, a: u64) -> u64 {
    (n + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().min(16),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Void | Ty::Other => 1,
        }
    }
    /// The store size of the type.
    pub fn raw_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// The allocation size of the type.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(f, true) => f.iter().map(|t| t.size()).sum(),
            Ty::Struct(f, false) => {
                let mut o = 0;
                for t in f.iter() {
                    o = align_up(o, t.align()) + t.size();
                }
                align_up(o, self.align())
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index out of range")
            }
            _ => panic!("indexing a scalar type"),
        }
    }
    pub fn fields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
}

/// A constant.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128, u16),
    Global(String),
    Zero(Ty),
    Bytes(Vec<u8>),
    Agg(Vec<K>, Ty),
    /// base + offset
    Gep(Box<K>, i64),
    Cast(Box<K>, Ty),
    Sub(Box<K>, Box<K>),
    Add(Box<K>, Box<K>),
    Undef(Ty),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Rc<K>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Same,
}

#[derive(Clone, Copy, Debug)]
pub enum LaneOp {
    Bin(BinOp),
    Icmp(Pred),
}

/// A constant index.
fn index(operand: &Opd) -> Option<usize> {
    match operand {
        Opd::K(k) => match **k {
            K::Int(v, _) => Some(v as usize),
            K::Zero(_) => Some(0),
            _ => None,
        },
        _ => None,
    }
}

#[derive(Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opd },
    Store { ty: Ty, val: Opd, ptr: Opd },
    Gep { dst: u32, base: Opd, off: i64, terms: Vec<(Opd, u16, u64)> },
    Bin { dst: u32, op: BinOp, a: Opd, b: Opd },
    Icmp { dst: u32, pred: Pred, a: Opd, b: Opd },
    /// An operation on each of the lanes of two vectors
    Lanes { dst: u32, op: LaneOp, a: Opd, b: Opd, lane: u16 },
    /// Lanes of two vectors by their indices, or a vector with a lane replaced.
    Shuffle { dst: u32, a: Opd, b: Opd, lane: u16, map: Result<Vec<usize>, usize> },
    Select { dst: u32, c: Opd, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, a: Opd, to: u16 },
    Copy { dst: u32, a: Opd },
    Jump(u32),
    Br { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, normal: Option<u32> },
    Extract { dst: u32, a: Opd, idx: Vec<u32> },
    Insert { dst: u32, a: Opd, v: Opd, idx: Vec<u32> },
    AtomicRmw { dst: u32, op: String, ptr: Opd, v: Opd, w: u16 },
    CmpXchg { dst: u32, ptr: Opd, old: Opd, new: Opd, w: u16 },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ptr(Opd),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub from: HashMap<u32, Opd>,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: usize,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub ty: Ty,
    pub init: Option<(u32, u32)>,
    pub constant: bool,
    pub align: u64,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, Global>,
    /// Byte ranges of the functions' headers and bodies.
    pub funcs: HashMap<String, (usize, usize)>,
    pub declared: Vec<String>,
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
    /// The width of the lanes of the last type if it is a vector.
    lane: u16,
}

type R<T> = Result<T, String>;

/// A vector from its lanes.
fn lanes(values: &[K], width: u16) -> R<K> {
    let lane = width / values.len() as u16;
    let mut total = 0u128;
    for (i, value) in values.iter().enumerate() {
        let value = match value {
            K::Int(value, _) => *value & crate::expr::mask(lane),
            K::Zero(_) | K::Undef(_) => 0,
            _ => return Err("vector of constants".into()),
        };
        total |= value << (i as u16 * lane);
    }
    Ok(K::Int(total, width))
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>) -> Self {
        P { s: s.as_bytes(), i: 0, types, lane: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn rest(&self) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..]) }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, clip(self.rest())))
        }
    }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() {
            let c = self.s[j];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' {
                j += 1;
            } else {
                break;
            }
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[self.i..j]) }
    }
    fn word(&mut self) -> &'a str {
        let w = self.word_at();
        self.i += w.len();
        w
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.word_at() == k {
            self.i += k.len();
            true
        } else {
            false
        }
    }
    /// A name after % or @.
    fn name(&mut self) -> R<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let start = self.i + 1;
            let mut j = start;
            while j < self.s.len() && self.s[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return Ok(String::from_utf8_lossy(&self.s[start..j]).into_owned());
        }
        let mut j = self.i;
        while j < self.s.len() {
            let c = self.s[j];
            if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-' | b'$') {
                j += 1;
            } else {
                break;
            }
        }
        let r = String::from_utf8_lossy(&self.s[self.i..j]).into_owned();
        self.i = j;
        Ok(r)
    }
    fn parens(&mut self) -> R<()> {
        // skip a balanced parenthesised group
        self.expect(b'(')?;
        let mut d = 1;
        while d > 0 {
            if self.i >= self.s.len() {
                return Err("unbalanced".into());
            }
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
        Ok(())
    }
    pub fn ty(&mut self) -> R<Ty> {
        self.ws();
        self.lane = 0;
        let c = self.peek();
        let mut lane = 0;
        let t = match c {
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "array length")?;
                if !self.kw("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = self.word().parse().map_err(|_| "vector length")?;
                    if !self.kw("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    match t {
                        // A vector is a number with its first lane in the low bits.
                        Ty::Int(w) if n * w as u64 <= 128 => {
                            lane = w;
                            Ty::Int((n * w as u64) as u16)
                        }
                        _ => Ty::Vector(n, Rc::new(t)),
                    }
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                self.types.get(&n).cloned().ok_or("unknown type")?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.kw("addrspace") {
                            self.parens()?;
                        }
                        Ty::Ptr
                    }
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        _ => return Err(format!("unknown type {w}")),
                    },
                    _ => return Err(format!("unknown type {w:?} at {}", clip(self.rest()))),
                }
            }
        };
        // function types: ret (args)
        self.lane = lane;
        Ok(t)
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }
    /// A constant of the given type.
    pub fn konst(&mut self, ty: &Ty) -> R<K> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                Ok(K::Global(self.name()?))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i..].starts_with(b"\\\\") {
                        v.push(b'\\');
                        self.i += 2;
                    } else if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|_| "escape")?);
                        self.i += 3;
                    } else {
                        v.push(self.s[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ok(K::Bytes(v))
            }
            b'[' | b'{' | b'<' => {
                self.i += 1;
                let packed = c == b'<' && self.eat(b'{');
                let close = match c {
                    b'[' => b']',
                    b'{' => b'}',
                    _ if packed => b'}',
                    _ => b'>',
                };
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty()?;
                        v.push(self.konst(&t)?);
                        if self.eat(close) {
                            break;
                        }
                        self.expect(b',')?;
                    }
                }
                if packed {
                    self.expect(b'>')?;
                }
                if let Ty::Int(w) = ty {
                    return lanes(&v, *w);
                }
                Ok(K::Agg(v, ty.clone()))
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                match ty {
                    Ty::Int(n) => {
                        let v = if let Some(r) = w.strip_prefix('-') {
                            r.parse::<u128>().map_err(|_| "int")?.wrapping_neg()
                        } else {
                            w.parse::<u128>().map_err(|_| format!("int {w}"))?
                        };
                        Ok(K::Int(v & crate::expr::mask(*n), *n))
                    }
                    _ => Ok(K::Undef(ty.clone())),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(K::Int(1, 1)),
                    "false" => Ok(K::Int(0, 1)),
                    "null" => Ok(K::Int(0, 64)),
                    "none" => Ok(K::Int(0, 64)),
                    "zeroinitializer" => Ok(K::Zero(ty.clone())),
                    "undef" | "poison" => Ok(K::Undef(ty.clone())),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.expect(b')')?;
                        if let (Ty::Int(w), Ty::Int(v)) = (ty, &t) {
                            return lanes(&vec![k; (*w / *v) as usize], *w);
                        }
                        Ok(K::Agg(vec![k; ty.fields()], ty.clone()))
                    }
                    "getelementptr" => {
                        while !matches!(self.peek(), b'(') {
                            let w = self.word();
                            if w.is_empty() {
                                return Err("gep flags".into());
                            }
                            if w == "inrange" {
                                self.parens()?;
                            }
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        self.expect(b',')?;
                        self.ty()?;
                        let base = self.konst(&Ty::Ptr)?;
                        let mut off = 0i64;
                        let mut cur = Some(t);
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let k = match self.konst(&it)? {
                                K::Int(v, w) => crate::expr::sext_val(v, w) as i64,
                                K::Zero(_) => 0,
                                _ => return Err("gep index".into()),
                            };
                            let t = cur.take().unwrap();
                            if first {
                                off += k * t.size() as i64;
                                cur = Some(t);
                                first = false;
                            } else {
                                let (o, t) = t.field(k as u64);
                                off += o as i64;
                                cur = Some(t);
                            }
                        }
                        self.expect(b')')?;
                        Ok(K::Gep(Box::new(base), off))
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        if !self.kw("to") {
                            return Err("cast to".into());
                        }
                        let t = self.ty()?;
                        self.expect(b')')?;
                        Ok(K::Cast(Box::new(k), t))
                    }
                    "sub" | "add" => {
                        while self.peek() != b'(' {
                            if self.word().is_empty() {
                                return Err("const expr".into());
                            }
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.expect(b',')?;
                        let t = self.ty()?;
                        let b = self.konst(&t)?;
                        self.expect(b')')?;
                        Ok(if w == "sub" {
                            K::Sub(Box::new(a), Box::new(b))
                        } else {
                            K::Add(Box::new(a), Box::new(b))
                        })
                    }
                    _ => Err(format!("constant {w:?} {}", clip(self.rest()))),
                }
            }
        }
    }
}

fn clip(s: &str) -> &str {
    let n = s.char_indices().nth(60).map_or(s.len(), |x| x.0);
    &s[..n]
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut types = HashMap::new();
        let mut funcs = HashMap::new();
        let mut declared = vec![];
        let mut raw_globals = vec![];
        let bytes = text.as_bytes();
        let mut i = 0;
        let next = |i: usize| bytes[i..].iter().position(|&b| b == b'\n').map_or(bytes.len(), |p| i + p);
        while i < bytes.len() {
            let e = next(i);
            let line = &text[i..e];
            if line.starts_with("define ") {
                let name = fn_name(line)?;
                let start = i;
                let mut j = e + 1;
                loop {
                    let f = next(j);
                    if &bytes[j..f] == b"}" {
                        i = f + 1;
                        break;
                    }
                    if f >= bytes.len() {
                        return Err("unterminated function".into());
                    }
                    j = f + 1;
                }
                funcs.insert(name, (start, j));
                continue;
            }
            if line.starts_with("declare ") {
                declared.push(fn_name(line)?);
            } else if line.starts_with('%') {
                let mut p = P::new(&line[1..], &types);
                let n = p.name()?;
                p.ws();
                if p.rest().starts_with("= type ") {
                    p.i += 7;
                    let t = p.ty()?;
                    types.insert(n, t);
                }
            } else if line.starts_with('@') {
                raw_globals.push((i, e));
            }
            i = e + 1;
        }
        let mut globals = HashMap::new();
        for (s, e) in raw_globals {
            let line = &text[s..e];
            let mut p = P::new(line, &types);
            p.i = 1;
            let name = p.name()?;
            p.ws();
            p.expect(b'=')?;
            let mut constant = false;
            let mut found = false;
            let mut external = false;
            loop {
                let w = p.word();
                match w {
                    "constant" => {
                        constant = true;
                        found = true;
                        break;
                    }
                    "global" => {
                        found = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => {
                        if p.peek() == b'(' {
                            p.parens()?;
                        }
                    }
                    "alias" | "ifunc" | "" => break,
                    _ => {}
                }
            }
            if !found {
                continue;
            }
            let ty = p.ty()?;
            p.ws();
            let off = (s + p.i) as u32;
            let init = if external { None } else { Some((off, e as u32)) };
            let align = line
                .rfind(", align ")
                .and_then(|k| {
                    let d: String =
                        line[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse().ok()
                })
                .unwrap_or(16);
            globals.insert(name, Global { ty, init, constant, align });
        }
        Ok(Module { text, types, globals, funcs, declared })
    }

    pub fn global_init(&self, name: &str) -> R<Option<K>> {
        let g = &self.globals[name];
        match g.init {
            None => Ok(None),
            Some((s, e)) => {
                let mut p = P::new(&self.text[s as usize..e as usize], &self.types);
                Ok(Some(p.konst(&g.ty)?))
            }
        }
    }

    pub fn func(&self, name: &str) -> R<Func> {
        let &(s, e) = self.funcs.get(name).ok_or_else(|| format!("no function {name}"))?;
        FnParser::parse(self, name, &self.text[s..e])
    }
}

fn fn_name(line: &str) -> R<String> {
    let k = line.find('@').ok_or("function name")?;
    let rest = &line[k + 1..];
    if let Some(r) = rest.strip_prefix('"') {
        return Ok(r[..r.find('"').unwrap()].to_string());
    }
    Ok(rest[..rest.find('(').ok_or("paren")?].to_string())
}

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

const ATTR_WITH_PARENS: &[&str] = &[
    "align",
    "dereferenceable",
    "dereferenceable_or_null",
    "captures",
    "range",
    "memory",
    "sret",
    "byval",
    "initializes",
    "nofpclass",
    "elementtype",
    "preallocated",
    "inalloca",
    "byref",
    "dead_on_return",
];

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn attrs(&mut self, p: &mut P<'a>) -> R<()> {
        // parameter and return attributes
        loop {
            let c = p.peek();
            if c == b'"' {
                p.i += 1;
                while p.s[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
                if p.eat(b'=') {
                    p.expect(b'"')?;
                    while p.s[p.i] != b'"' {
                        p.i += 1;
                    }
                    p.i += 1;
                }
                continue;
            }
            let w = p.word_at();
            if w == "align" {
                p.word();
                if p.peek() == b'(' {
                    p.parens()?;
                } else {
                    p.word();
                }
                continue;
            }
            if ATTR_WITH_PARENS.contains(&w) {
                p.word();
                if p.peek() == b'(' {
                    p.parens()?;
                }
                continue;
            }
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "writeonly"
                | "readnone" | "signext" | "zeroext" | "inreg" | "returned" | "nocapture"
                | "immarg" | "swiftself" | "nest" | "allocalign" | "allocptr" | "writable"
                | "dead_on_unwind" | "noext" => {
                    p.word();
                }
                _ => return Ok(()),
            }
        }
    }
    fn opd(&mut self, p: &mut P<'a>, ty: &Ty) -> R<Opd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(Opd::K(Rc::new(p.konst(ty)?)))
    }
    fn topd(&mut self, p: &mut P<'a>) -> R<(Ty, Opd)> {
        let t = p.ty()?;
        let o = self.opd(p, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, p: &mut P<'a>) -> R<u32> {
        if !p.kw("label") {
            return Err(format!("label expected at {}", clip(p.rest())));
        }
        p.expect(b'%')?;
        let n = p.name()?;
        Ok(self.block(&n))
    }

    fn parse(m: &'a Module, name: &str, text: &'a str) -> R<Func> {
        let mut f = FnParser { m, regs: HashMap::new(), blocks: HashMap::new() };
        let header_end = text.find('\n').unwrap();
        let header = &text[..header_end];
        let at = header.find('@').unwrap();
        let mut p = P::new(header, &m.types);
        p.i = at + 1;
        p.name()?;
        p.expect(b'(')?;
        let mut params = 0usize;
        let mut unnamed = 0usize;
        if !p.eat(b')') {
            loop {
                if p.rest().trim_start().starts_with("...") {
                    p.ws();
                    p.i += 3;
                    p.expect(b')')?;
                    break;
                }
                p.ty()?;
                f.attrs(&mut p)?;
                let n = if p.eat(b'%') {
                    let n = p.name()?;
                    if n.parse::<usize>().is_ok() {
                        unnamed += 1;
                    }
                    n
                } else {
                    let n = unnamed.to_string();
                    unnamed += 1;
                    n
                };
                f.reg(&n);
                params += 1;
                if p.eat(b')') {
                    break;
                }
                p.expect(b',')?;
            }
        }
        let body = &text[header_end + 1..];
        // join lines: a switch spans several, as do invokes
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        let mut lines = body.lines().peekable();
        while let Some(line) = lines.next() {
            if line.is_empty() || line.trim_start().starts_with(';') {
                continue;
            }
            if line.starts_with("  #dbg") || line.trim_start().starts_with("#dbg") {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let l = line.trim_start();
                let n = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or_else(|| format!("label {l}"))?].to_string()
                };
                let b = f.block(&n);
                blocks.insert(b, Block::default());
                cur = Some(b);
                continue;
            }
            if cur.is_none() {
                let b = f.block(&unnamed.to_string());
                blocks.insert(b, Block::default());
                cur = Some(b);
            }
            let t = line.trim_start();
            let mut owned = String::new();
            let mut joined: &str = t;
            let is_switch = t.starts_with("switch ");
            let is_invoke = {
                let u = match t.find(" = ") {
                    Some(k) if t.starts_with('%') => &t[k + 3..],
                    _ => t,
                };
                u.starts_with("invoke ")
            };
            if is_switch && !t.contains(']') {
                owned.push_str(t);
                for l in lines.by_ref() {
                    owned.push(' ');
                    owned.push_str(l.trim());
                    if l.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if is_invoke {
                owned.push_str(t);
                while !owned.contains(" unwind label ") {
                    let l = lines.next().ok_or("invoke")?;
                    owned.push(' ');
                    owned.push_str(l.trim());
                }
            }
            if !owned.is_empty() {
                // leaked: functions are parsed once
                joined = Box::leak(owned.into_boxed_str());
            }
            let b = cur.unwrap();
            let mut blk = blocks.remove(&b).unwrap();
            f.inst(joined, &mut blk).map_err(|e| format!("{name}: {e}: {joined}"))?;
            blocks.insert(b, blk);
        }
        let n = f.blocks.len() as u32;
        let mut v = vec![];
        for i in 0..n {
            v.push(blocks.remove(&i).ok_or_else(|| format!("{name}: missing block {i}"))?);
        }
        Ok(Func { name: name.into(), params, nregs: f.regs.len() as u32, blocks: v })
    }

    fn inst(&mut self, line: &'a str, blk: &mut Block) -> R<()> {
        let m = self.m;
        let mut p = P::new(line, &m.types);
        let mut dst = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            p.expect(b'=')?;
            dst = Some(self.reg(&n));
        }
        let op = p.word();
        let d = || dst.ok_or_else(|| "no destination".to_string());
        let inst = match op {
            "alloca" => {
                p.kw("inalloca");
                let t = p.ty()?;
                let mut n = 1;
                let mut align = t.align();
                while p.eat(b',') {
                    if p.kw("align") {
                        align = p.word().parse().map_err(|_| "align")?;
                    } else if let (_, Opd::K(k)) = self.topd(&mut p)? {
                        if let K::Int(v, _) = *k {
                            n = v as u64;
                        }
                    } else {
                        return Err("dynamic alloca".into());
                    }
                }
                Inst::Alloca { dst: d()?, size: t.size() * n, align }
            }
            "load" => {
                while p.kw("atomic") || p.kw("volatile") {}
                let ty = p.ty()?;
                p.expect(b',')?;
                let (_, ptr) = self.topd(&mut p)?;
                Inst::Load { dst: d()?, ty, ptr }
            }
            "store" => {
                while p.kw("atomic") || p.kw("volatile") {}
                let (ty, val) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, ptr) = self.topd(&mut p)?;
                Inst::Store { ty, val, ptr }
            }
            "getelementptr" => {
                loop {
                    let w = p.word_at();
                    match w {
                        "inbounds" | "nuw" | "nusw" => {
                            p.word();
                        }
                        "inrange" => {
                            p.word();
                            p.parens()?;
                        }
                        _ => break,
                    }
                }
                let t = p.ty()?;
                p.expect(b',')?;
                let (_, base) = self.topd(&mut p)?;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.topd(&mut p)?;
                    let w = match it {
                        Ty::Int(w) => w,
                        _ => return Err("gep index type".into()),
                    };
                    let scale = if first { cur.size() } else { 0 };
                    match &o {
                        Opd::K(k) => {
                            let k = match &**k {
                                K::Int(v, w) => crate::expr::sext_val(*v, *w) as i64,
                                K::Zero(_) => 0,
                                _ => return Err("gep index".into()),
                            };
                            if first {
                                off += k * scale as i64;
                            } else {
                                let (o, t) = cur.field(k as u64);
                                off += o as i64;
                                cur = t;
                            }
                        }
                        Opd::R(_) => {
                            if first {
                                terms.push((o, w, scale));
                            } else {
                                match cur.clone() {
                                    Ty::Arr(_, t) | Ty::Vector(_, t) => {
                                        terms.push((o, w, t.size()));
                                        cur = (*t).clone();
                                    }
                                    _ => return Err("gep struct index".into()),
                                }
                            }
                        }
                    }
                    first = false;
                }
                Inst::Gep { dst: d()?, base, off, terms }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr"
            | "and" | "or" | "xor" => {
                while p.kw("nuw") || p.kw("nsw") || p.kw("exact") || p.kw("disjoint") {}
                let t = p.ty()?;
                if !matches!(t, Ty::Int(_)) {
                    blk.insts.push(Inst::Unsupported(line.into()));
                    return Ok(());
                }
                let lane = p.lane;
                let a = self.opd(&mut p, &t)?;
                p.expect(b',')?;
                let b = self.opd(&mut p, &t)?;
                use BinOp::*;
                let op = match op {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "shl" => Shl,
                    "lshr" => LShr,
                    "ashr" => AShr,
                    "and" => And,
                    "or" => Or,
                    _ => Xor,
                };
                if lane > 0 && !matches!(op, And | Or | Xor) {
                    Inst::Lanes { dst: d()?, op: LaneOp::Bin(op), a, b, lane }
                } else {
                    Inst::Bin { dst: d()?, op, a, b }
                }
            }
            "icmp" => {
                p.kw("samesign");
                use Pred::*;
                let pred = match p.word() {
                    "eq" => Eq,
                    "ne" => Ne,
                    "ult" => Ult,
                    "ule" => Ule,
                    "ugt" => Ugt,
                    "uge" => Uge,
                    "slt" => Slt,
                    "sle" => Sle,
                    "sgt" => Sgt,
                    "sge" => Sge,
                    w => return Err(format!("predicate {w}")),
                };
                let t = p.ty()?;
                if !matches!(t, Ty::Int(_) | Ty::Ptr) {
                    blk.insts.push(Inst::Unsupported(line.into()));
                    return Ok(());
                }
                let lane = p.lane;
                let a = self.opd(&mut p, &t)?;
                p.expect(b',')?;
                let b = self.opd(&mut p, &t)?;
                if lane > 0 {
                    Inst::Lanes { dst: d()?, op: LaneOp::Icmp(pred), a, b, lane }
                } else {
                    Inst::Icmp { dst: d()?, pred, a, b }
                }
            }
            "select" => {
                let (t, c) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, a) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, b) = self.topd(&mut p)?;
                match t {
                    Ty::Int(1) => Inst::Select { dst: d()?, c, a, b },
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "insertelement" => {
                let (t, a) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (u, v) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, at) = self.topd(&mut p)?;
                match (t, u, index(&at)) {
                    (Ty::Int(_), Ty::Int(lane), Some(at)) => {
                        Inst::Shuffle { dst: d()?, a, b: v, lane, map: Err(at) }
                    }
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "extractelement" => {
                let t = p.ty()?;
                let lane = p.lane;
                let a = self.opd(&mut p, &t)?;
                p.expect(b',')?;
                let (_, at) = self.topd(&mut p)?;
                match index(&at) {
                    Some(at) if lane > 0 => {
                        Inst::Shuffle { dst: d()?, b: a.clone(), a, lane, map: Ok(vec![at]) }
                    }
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "shufflevector" => {
                let t = p.ty()?;
                let lane = p.lane;
                let a = self.opd(&mut p, &t)?;
                p.expect(b',')?;
                let (_, b) = self.topd(&mut p)?;
                p.expect(b',')?;
                // The type of the mask can be wider than what is represented as a number.
                p.expect(b'<')?;
                let n: usize = p.word().parse().map_err(|_| "mask")?;
                p.kw("x");
                p.ty()?;
                p.expect(b'>')?;
                let mut map = vec![];
                if p.kw("zeroinitializer") || p.kw("poison") {
                    map = vec![0; n];
                } else if p.eat(b'<') {
                    while !p.eat(b'>') {
                        let t = p.ty()?;
                        map.push(match p.konst(&t)? {
                            K::Int(v, _) => v as usize,
                            _ => 0,
                        });
                        p.eat(b',');
                    }
                } else if p.kw("splat") {
                    p.expect(b'(')?;
                    let t = p.ty()?;
                    if let K::Int(v, _) = p.konst(&t)? {
                        map = vec![v as usize; n];
                    }
                    p.expect(b')')?;
                }
                if lane > 0 && map.len() == n && n * lane as usize <= 128 {
                    Inst::Shuffle { dst: d()?, a, b, lane, map: Ok(map) }
                } else {
                    Inst::Unsupported(line.into())
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while p.kw("nneg") || p.kw("nuw") || p.kw("nsw") {}
                let from = p.ty()?;
                let lane = p.lane;
                let a = self.opd(&mut p, &from)?;
                if !p.kw("to") {
                    return Err("cast".into());
                }
                let t = p.ty()?;
                if lane > 0 && op != "bitcast" {
                    blk.insts.push(Inst::Unsupported(line.into()));
                    return Ok(());
                }
                let width = |t: &Ty| match t {
                    Ty::Int(n) => Some(*n),
                    Ty::Ptr => Some(64),
                    _ => None,
                };
                match (width(&from), width(&t)) {
                    (Some(wf), Some(to)) => {
                        let op = match op {
                            "zext" => CastOp::ZExt,
                            "sext" => CastOp::SExt,
                            _ if wf > to => CastOp::Trunc,
                            _ if wf < to => CastOp::ZExt,
                            _ => CastOp::Same,
                        };
                        Inst::Cast { dst: d()?, op, a, to }
                    }
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "freeze" => {
                let (_, a) = self.topd(&mut p)?;
                Inst::Copy { dst: d()?, a }
            }
            "phi" => {
                let t = p.ty()?;
                let mut from = HashMap::new();
                loop {
                    p.expect(b'[')?;
                    let o = self.opd(&mut p, &t)?;
                    p.expect(b',')?;
                    p.expect(b'%')?;
                    let n = p.name()?;
                    let b = self.block(&n);
                    from.insert(b, o);
                    p.expect(b']')?;
                    if !p.eat(b',') {
                        break;
                    }
                    if p.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push(Phi { dst: d()?, from });
                return Ok(());
            }
            "br" => {
                if p.word_at() == "label" {
                    Inst::Jump(self.label(&mut p)?)
                } else {
                    let (_, c) = self.topd(&mut p)?;
                    p.expect(b',')?;
                    let t = self.label(&mut p)?;
                    p.expect(b',')?;
                    let f = self.label(&mut p)?;
                    Inst::Br { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.topd(&mut p)?;
                p.expect(b',')?;
                let default = self.label(&mut p)?;
                p.expect(b'[')?;
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = p.ty()?;
                    let k = match p.konst(&ct)? {
                        K::Int(v, _) => v,
                        _ => return Err("case".into()),
                    };
                    p.expect(b',')?;
                    let l = self.label(&mut p)?;
                    cases.push((k, l));
                }
                let _ = t;
                Inst::Switch { v, default, cases }
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&mut p, &t)?))
                }
            }
            "unreachable" | "resume" => Inst::Unreachable,
            "landingpad" | "cleanup" | "filter" | "catch" => Inst::Nop,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = op == "invoke";
                if op != "call" && !invoke {
                    p.word();
                }
                self.call(&mut p, dst, invoke)?
            }
            "extractvalue" => {
                let (_, a) = self.topd(&mut p)?;
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "index")?);
                }
                Inst::Extract { dst: d()?, a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, v) = self.topd(&mut p)?;
                let mut idx = vec![];
                while p.eat(b',') {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "index")?);
                }
                Inst::Insert { dst: d()?, a, v, idx }
            }
            "atomicrmw" => {
                p.kw("volatile");
                let op = p.word().to_string();
                let (_, ptr) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (t, v) = self.topd(&mut p)?;
                match t {
                    Ty::Int(w) => Inst::AtomicRmw { dst: d()?, op, ptr, v, w },
                    Ty::Ptr => Inst::AtomicRmw { dst: d()?, op, ptr, v, w: 64 },
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "cmpxchg" => {
                while p.kw("weak") || p.kw("volatile") {}
                let (_, ptr) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (t, old) = self.topd(&mut p)?;
                p.expect(b',')?;
                let (_, new) = self.topd(&mut p)?;
                match t {
                    Ty::Int(w) => Inst::CmpXchg { dst: d()?, ptr, old, new, w },
                    Ty::Ptr => Inst::CmpXchg { dst: d()?, ptr, old, new, w: 64 },
                    _ => Inst::Unsupported(line.into()),
                }
            }
            "fence" => Inst::Nop,
            _ => Inst::Unsupported(line.into()),
        };
        blk.insts.push(inst);
        Ok(())
    }

    fn call(&mut self, p: &mut P<'a>, dst: Option<u32>, invoke: bool) -> R<Inst> {
        // calling convention, return attributes
        loop {
            let w = p.word_at();
            match w {
                "fastcc" | "coldcc" | "ccc" | "unnamed_addr" | "local_unnamed_addr" | "nnan"
                | "ninf" | "nsz" => {
                    p.word();
                }
                "cc" => {
                    p.word();
                    p.word();
                }
                _ => {
                    let at = p.i;
                    self.attrs(p)?;
                    if p.i == at {
                        break;
                    }
                }
            }
        }
        if p.word_at() == "range" {
            p.word();
            p.parens()?;
        }
        p.ty()?;
        // a full function type may follow
        if p.peek() == b'(' {
            p.parens()?;
        }
        let callee = match p.peek() {
            b'@' => {
                p.i += 1;
                Callee::Name(p.name()?.into())
            }
            b'%' => {
                p.i += 1;
                let n = p.name()?;
                Callee::Ptr(Opd::R(self.reg(&n)))
            }
            b'a' => return Ok(Inst::Unsupported(format!("asm {}", clip(p.rest())))),
            _ => Callee::Ptr(Opd::K(Rc::new(p.konst(&Ty::Ptr)?))),
        };
        p.expect(b'(')?;
        let mut args = vec![];
        if !p.eat(b')') {
            loop {
                let t = p.ty()?;
                self.attrs(p)?;
                if t == Ty::Other {
                    // metadata argument
                    let mut depth = 0;
                    while p.i < p.s.len() {
                        match p.s[p.i] {
                            b'(' => depth += 1,
                            b')' if depth == 0 => break,
                            b')' => depth -= 1,
                            b',' if depth == 0 => break,
                            _ => {}
                        }
                        p.i += 1;
                    }
                } else if t == Ty::Void {
                    return Err("void argument".into());
                } else {
                    args.push(self.opd(p, &t)?);
                }
                if p.eat(b')') {
                    break;
                }
                p.expect(b',')?;
            }
        }
        let mut normal = None;
        if invoke {
            let r = p.rest();
            let k = r.find(" to label %").ok_or("invoke target")?;
            p.i += k + 4;
            normal = Some(self.label(p)?);
        }
        Ok(Inst::Call { dst, callee, args, normal })
    }
}
