//! Path-wise symbolic execution of LLVM IR.

use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub enum Val {
    I(E),
    A(Rc<Vec<Val>>),
}

pub type Cell = (E, u8);

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    /// An upper bound of the size.
    pub limit: u64,
    pub cells: Vec<Cell>,
    pub writable: bool,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    block: u32,
    at: usize,
    regs: Vec<Val>,
    dst: Option<u32>,
    normal: Option<u32>,
    stack: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: BTreeMap<u64, Rc<Obj>>,
    heap: u64,
    stack: u64,
    pc: Vec<E>,
    /// The conditions on each leaf, as the latest link of a chain
    used: Rc<HashMap<E, u32>>,
    ranges: Rc<HashMap<E, (u128, u128)>>,
    model: Rc<HashMap<E, u128>>,
    checks: Vec<(E, u32)>,
    vars: Vec<E>,
    trace: Vec<E>,
    touched: Vec<Rc<BTreeSet<E>>>,
    phase: usize,
    instrs: u64,
    /// The number of instructions beyond which the path is idle.
    idle: u64,
    /// The largest request for memory allowed
    memory: u64,
    concretised: u32,
    depth: u32,
    /// The decisions so far.
    key: u64,
    /// The number of decisions until the shard is chosen.
    open: u32,
}

#[derive(Clone, Debug)]
pub struct Witness {
    pub kind: String,
    pub id: u32,
    pub vars: Vec<u128>,
    pub bytes: Vec<(u32, u64, u8)>,
    pub trace: Vec<u128>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub instrs: u64,
    pub assumed_away: u64,
    pub bounded: BTreeMap<u32, u64>,
    pub reached: BTreeMap<u32, bool>,
    pub checks: u64,
    pub checks_folded: u64,
    pub checks_solved: u64,
    pub max_pending: usize,
    pub max_pc: usize,
    pub infeasible: u64,
    pub branch_folded: u64,
    pub branch_fresh: u64,
    pub branch_queries: u64,
    pub branch_cached: u64,
    pub concretisations: u64,
    pub final_queries: u64,
    pub merged: u64,
}

enum Stop {
    /// The path is over.
    End,
    /// The path belongs to another shard.
    Elsewhere,
    Assumed,
    Bound(u32),
    Violation(String, u32),
    Error(String),
}
type X<T> = Result<T, Stop>;

#[derive(Clone)]
enum Target {
    Func(Rc<Func>),
    Panic,
    Native,
}

pub struct Options {
    pub params: HashMap<u32, u64>,
    pub deadline: Duration,
    pub max_instrs: u64,
    pub samples: usize,
    pub seed: u64,
    pub verbose: bool,
    pub shard: u64,
    pub shards: u64,
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub pool: Pool,
    pub solver: Solver,
    pub opts: Options,
    pub stats: Stats,
    pub funcs: HashMap<Rc<str>, Target0>,
    pub blocks: HashMap<Rc<str>, Vec<bool>>,
    global_at: HashMap<String, u64>,
    global_by: BTreeMap<u64, String>,
    globals: HashMap<u64, Rc<Obj>>,
    func_at: HashMap<String, u64>,
    func_by: HashMap<u64, Rc<str>>,
    konsts: HashMap<*const K, (Rc<K>, Val)>,
    var_ids: HashMap<(usize, u16, u128, u128), u32>,
    /// The answers to the queries so far.
    answers: HashMap<Vec<E>, Option<Vec<(E, u128)>>>,
    /// How many times something has been compared with constants.
    compared: HashMap<E, u32>,
    pub samples: Vec<Witness>,
    pub places: HashMap<(Rc<str>, u32), u64>,
    /// The conditions on leaves, each with the previous one on the same leaf
    links: Vec<(E, u32)>,
    /// The time spent on looking for samples
    sampling: Duration,
    rng: u64,
    stub_format: Option<Rc<str>>,
    start: Instant,
    pub cross: Option<Vec<Vec<E>>>,
}

pub struct Target0(Target);

const GLOBALS: u64 = 0x4000_0000;
const FUNCS: u64 = 0x0020_0000;
const HEAP: u64 = 0x6000_0000_0000;
const STACK: u64 = 0x1000_0000_0000;
/// The assertion on the size of a request for memory.
const MEMORY: u32 = 1_000_000;
/// The part of an allocation that can be accessed.
const LARGEST: u64 = 1 << 32;

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, solver: Solver, opts: Options) -> Self {
        let mut global_at = HashMap::new();
        let mut global_by = BTreeMap::new();
        let mut names: Vec<&String> = m.globals.keys().collect();
        names.sort();
        let mut at = GLOBALS;
        for n in names {
            let g = &m.globals[n];
            at = align_up(at, g.align.max(16));
            global_at.insert(n.clone(), at);
            global_by.insert(at, n.clone());
            at += g.ty.size().max(1) + 16;
        }
        let mut func_at = HashMap::new();
        let mut func_by = HashMap::new();
        let mut names: Vec<&String> = m.funcs.keys().chain(m.declared.iter()).collect();
        names.sort();
        for (i, n) in names.into_iter().enumerate() {
            let a = FUNCS + 16 * i as u64;
            func_at.insert(n.clone(), a);
            func_by.insert(a, Rc::from(n.as_str()));
        }
        let stub_format = m.funcs.get_key_value("stub_format").map(|x| Rc::from(x.0.as_str()));
        Exec {
            m,
            pool: Pool::new(),
            solver,
            rng: opts.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            opts,
            stats: Stats::default(),
            funcs: HashMap::new(),
            blocks: HashMap::new(),
            global_at,
            global_by,
            globals: HashMap::new(),
            func_at,
            func_by,
            konsts: HashMap::new(),
            var_ids: HashMap::new(),
            samples: vec![],
            places: HashMap::new(),
            links: vec![],
            sampling: Duration::ZERO,
            answers: HashMap::new(),
            compared: HashMap::new(),
            stub_format,
            start: Instant::now(),
            cross: None,
        }
    }

    fn random(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    /// Explore all paths of a function.
    pub fn run(&mut self, name: &str) -> Result<Option<Witness>, String> {
        let f = Rc::new(self.m.func(name)?);
        self.blocks.insert(f.name.clone(), vec![false; f.blocks.len()]);
        self.start = Instant::now();
        let regs = vec![Val::I(self.pool.ff); f.nregs as usize];
        let mut work = vec![State {
            frames: vec![Frame {
                func: f,
                block: 0,
                at: 0,
                regs,
                dst: None,
                normal: None,
                stack: STACK,
            }],
            objs: BTreeMap::new(),
            heap: HEAP,
            stack: STACK,
            pc: vec![],
            used: Default::default(),
            ranges: Default::default(),
            model: Default::default(),
            checks: vec![],
            vars: vec![],
            trace: vec![],
            touched: vec![Rc::default(); 4],
            phase: 0,
            instrs: 0,
            idle: u64::MAX,
            memory: u64::MAX,
            concretised: 0,
            depth: 0,
            key: 0xcbf29ce484222325,
            open: if self.opts.shards > 1 { 12 } else { 0 },
        }];
        while let Some(mut st) = work.pop() {
            if self.start.elapsed() > self.opts.deadline {
                return Err(format!("timeout with {} pending paths", work.len() + 1));
            }
            let end = self.path(&mut st, &mut work);
            self.stats.max_pending = self.stats.max_pending.max(work.len());
            self.stats.max_pc = self.stats.max_pc.max(st.pc.len());
            let mut violation = None;
            match end {
                Stop::End => {
                    if let Some(w) = self.flush(&mut st)? {
                        violation = Some(w);
                    } else {
                        self.stats.paths += 1;
                        self.sample(&mut st)?;
                    }
                }
                Stop::Elsewhere => continue,
                Stop::Assumed => {
                    if let Some(w) = self.flush(&mut st)? {
                        violation = Some(w);
                    }
                    self.stats.assumed_away += 1;
                }
                Stop::Bound(id) => {
                    if let Some(w) = self.flush(&mut st)? {
                        violation = Some(w);
                    }
                    *self.stats.bounded.entry(id).or_insert(0) += 1;
                }
                Stop::Violation(kind, id) => {
                    violation = self.witness(&mut st, &[], &kind, id)?;
                    if violation.is_none() {
                        // The path is infeasible once equal positions are
                        // known to have equal contents.
                        self.stats.infeasible += 1;
                    }
                }
                Stop::Error(e) => return Err(format!("{e}\n{}", self.backtrace(&st))),
            }
            if self.opts.verbose && self.stats.paths % 500 == 0 {
                eprintln!(
                    "{}: paths {} pending {} forks {} instrs {} queries {} pool {} {:?}",
                    name,
                    self.stats.paths,
                    work.len(),
                    self.stats.forks,
                    self.stats.instrs,
                    self.solver.queries,
                    self.pool.infos.len(),
                    self.start.elapsed()
                );
            }
            if violation.is_some() {
                return Ok(violation);
            }
        }
        Ok(None)
    }

    fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(12) {
            s += &format!("  in {} block {} inst {}", f.func.name, f.block, f.at);
            if let Some(i) = f.func.blocks[f.block as usize].insts.get(f.at) {
                let t = format!("{i:?}");
                s += &format!(" {}", &t[..t.len().min(200)]);
            }
            s += "\n";
        }
        s
    }

    // ---- path conditions

    fn prange(&self, st: &State, e: E, depth: u32) -> (u128, u128) {
        let (lo, hi) = self.pool.range(e);
        if lo == hi {
            return (lo, hi);
        }
        let known = st.ranges.get(&e).copied();
        if let Some((a, b)) = known {
            if a == b {
                return (a, b);
            }
        }
        let mut r = (lo, hi);
        if depth > 0 {
            let m = mask(self.pool.w(e));
            let p = |x: E| self.prange(st, x, depth - 1);
            let t = (1, 1);
            let f = (0, 0);
            let d = match self.pool.node(e) {
                Node::Sum(terms, c) => sum_range(terms, *c, m, p),
                Node::Concat(parts) => {
                    let (mut lo, mut hi) = (0u128, 0u128);
                    for &q in parts.iter() {
                        let x = p(q);
                        lo = lo << 8 | x.0;
                        hi = hi << 8 | x.1;
                    }
                    (lo, hi)
                }
                Node::ZExt(a) => p(*a),
                Node::Extract(a, 0) => {
                    let x = p(*a);
                    if x.1 <= m {
                        x
                    } else if x.0 == x.1 {
                        (x.0 & m, x.0 & m)
                    } else {
                        (0, m)
                    }
                }
                Node::Extract(a, k) => {
                    let x = p(*a);
                    let (u, v) = (x.0 >> k, x.1 >> k);
                    if v <= m {
                        (u, v)
                    } else if x.0 == x.1 {
                        (u & m, u & m)
                    } else {
                        (0, m)
                    }
                }
                Node::Mul(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    match x.1.checked_mul(y.1) {
                        Some(h) if h <= m => (x.0 * y.0, h),
                        _ => (0, m),
                    }
                }
                Node::And(a, b) if m > 1 => {
                    let (x, y) = (p(*a), p(*b));
                    if x.0 == x.1 && y.0 == y.1 {
                        (x.0 & y.0, x.0 & y.0)
                    } else {
                        (0, x.1.min(y.1))
                    }
                }
                Node::And(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    (x.0 & y.0, x.1 & y.1)
                }
                Node::Or(a, b) if m == 1 => {
                    let (x, y) = (p(*a), p(*b));
                    (x.0 | y.0, x.1 | y.1)
                }
                Node::Or(a, b) | Node::Xor(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if x.0 == x.1 && y.0 == y.1 {
                        let v = if matches!(self.pool.node(e), Node::Or(..)) {
                            x.0 | y.0
                        } else {
                            x.0 ^ y.0
                        };
                        (v, v)
                    } else {
                        (0, m)
                    }
                }
                Node::Not(a) => match p(*a) {
                    (0, 0) => t,
                    (1, 1) => f,
                    _ => (0, 1),
                },
                Node::Eq(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if x.1 < y.0 || y.1 < x.0 {
                        f
                    } else if x.0 == x.1 && x == y {
                        t
                    } else {
                        (0, 1)
                    }
                }
                Node::Ult(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if x.1 < y.0 {
                        t
                    } else if x.0 >= y.1 {
                        f
                    } else {
                        (0, 1)
                    }
                }
                Node::Ule(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if x.1 <= y.0 {
                        t
                    } else if x.0 > y.1 {
                        f
                    } else {
                        (0, 1)
                    }
                }
                Node::Ite(c, a, b) => match p(*c) {
                    (1, 1) => p(*a),
                    (0, 0) => p(*b),
                    _ => {
                        let (x, y) = (p(*a), p(*b));
                        (x.0.min(y.0), x.1.max(y.1))
                    }
                },
                Node::UDiv(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if y.0 > 0 {
                        (x.0 / y.1, x.1 / y.0)
                    } else {
                        (0, m)
                    }
                }
                Node::LShr(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if y.1 < 128 {
                        (x.0 >> y.1, x.1 >> y.0)
                    } else {
                        (0, m)
                    }
                }
                Node::Shl(a, b) => {
                    let (x, y) = (p(*a), p(*b));
                    if y.1 < 64 && x.1 < 1 << 63 && x.1 << y.1 <= m {
                        (x.0 << y.0, x.1 << y.1)
                    } else {
                        (0, m)
                    }
                }
                Node::SExt(a) => {
                    let x = p(*a);
                    let wa = self.pool.w(*a);
                    if x.1 <= mask(wa) >> 1 {
                        x
                    } else if x.0 == x.1 {
                        let v = sext_val(x.0, wa) as u128 & m;
                        (v, v)
                    } else {
                        (0, m)
                    }
                }
                _ => (0, m),
            };
            r = (r.0.max(d.0), r.1.min(d.1));
        }
        if let Some((a, b)) = known {
            r = (r.0.max(a), r.1.min(b));
        }
        if r.0 > r.1 {
            // contradictory: the path is infeasible; leave it to the solver
            return (lo, hi);
        }
        r
    }

    fn known(&self, st: &State, e: E) -> Option<u128> {
        let r = self.prange(st, e, 6);
        if r.0 == r.1 {
            Some(r.0)
        } else {
            None
        }
    }

    fn set_range(&self, st: &mut State, e: E, lo: u128, hi: u128) {
        if self.pool.cv(e).is_some() {
            return;
        }
        let (a, b) = self.prange(st, e, 1);
        let (lo, hi) = (lo.max(a), hi.min(b));
        if lo > hi || (lo, hi) == (a, b) && st.ranges.contains_key(&e) {
            return;
        }
        Rc::make_mut(&mut st.ranges).insert(e, (lo, hi));
        match self.pool.node(e).clone() {
            Node::ZExt(a) => self.set_range(st, a, lo, hi),
            Node::Concat(parts) => {
                let n = parts.len();
                for (i, &p) in parts.iter().enumerate() {
                    let s = 8 * (n - 1 - i) as u32;
                    let (x, y) = ((lo >> s) & 255, (hi >> s) & 255);
                    self.set_range(st, p, x, y);
                    if x != y {
                        break;
                    }
                }
            }
            Node::Extract(a, 0) => {
                if self.prange(st, a, 3).1 <= mask(self.pool.w(e)) {
                    self.set_range(st, a, lo, hi)
                }
            }
            Node::Sum(t, c) if t.len() == 1 => {
                let m = mask(self.pool.w(e));
                if t[0].1 == 1 && lo == hi {
                    let v = lo.wrapping_sub(c) & m;
                    self.set_range(st, t[0].0, v, v);
                } else if sum_no_wrap(&t, c, m, |x| self.pool.range(x)) && hi >= c {
                    let k = t[0].1;
                    let l = if lo > c { (lo - c + k - 1) / k } else { 0 };
                    self.set_range(st, t[0].0, l, (hi - c) / k);
                }
            }
            _ => {}
        }
    }

    fn propagate(&self, st: &mut State, c: E, val: bool) {
        let v = val as u128;
        if self.pool.cv(c).is_some() {
            return;
        }
        Rc::make_mut(&mut st.ranges).insert(c, (v, v));
        match (self.pool.node(c).clone(), val) {
            (Node::Not(x), _) => self.propagate(st, x, !val),
            (Node::And(a, b), true) => {
                self.propagate(st, a, true);
                self.propagate(st, b, true);
            }
            (Node::Or(a, b), false) => {
                self.propagate(st, a, false);
                self.propagate(st, b, false);
            }
            (Node::Eq(a, b), true) => {
                let (x, y) = (self.prange(st, a, 3), self.prange(st, b, 3));
                self.set_range(st, a, y.0, y.1);
                self.set_range(st, b, x.0, x.1);
            }
            (Node::Eq(a, b), false) => {
                if let Some(k) = self.pool.cv(b) {
                    let (lo, hi) = self.prange(st, a, 3);
                    if lo == k && lo < hi {
                        self.set_range(st, a, lo + 1, hi);
                    } else if hi == k && lo < hi {
                        self.set_range(st, a, lo, hi - 1);
                    }
                }
            }
            (Node::Ult(a, b), true) => self.less(st, a, b, 1),
            (Node::Ult(a, b), false) => self.less(st, b, a, 0),
            (Node::Ule(a, b), true) => self.less(st, a, b, 0),
            (Node::Ule(a, b), false) => self.less(st, b, a, 1),
            _ => {}
        }
    }
    fn less(&self, st: &mut State, a: E, b: E, d: u128) {
        let (x, y) = (self.prange(st, a, 3), self.prange(st, b, 3));
        if y.1 >= d {
            self.set_range(st, a, 0, y.1 - d);
        }
        self.set_range(st, b, x.0 + d, u128::MAX);
    }

    fn add(&mut self, st: &mut State, c: E) {
        if self.pool.cv(c) == Some(1) {
            return;
        }
        st.pc.push(c);
        let l = self.pool.leaves(c);
        let used = Rc::make_mut(&mut st.used);
        for &x in l.iter() {
            let link = self.links.len() as u32;
            let previous = used.insert(x, link).unwrap_or(u32::MAX);
            self.links.push((c, previous));
        }
        self.propagate(st, c, true);
    }

    fn evaluate(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.pool.eval_leaves(e, &st.model, &mut memo)
    }

    /// Find the conditions that are connected with the one given.
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut rest: Vec<E> = self.pool.leaves(c).iter().copied().collect();
        let mut leaves: HashSet<E> = rest.iter().copied().collect();
        let mut taken: HashSet<E> = HashSet::new();
        let mut out = vec![];
        while let Some(x) = rest.pop() {
            let mut link = st.used.get(&x).copied().unwrap_or(u32::MAX);
            while link != u32::MAX {
                let (p, previous) = self.links[link as usize];
                link = previous;
                if taken.insert(p) {
                    out.push(p);
                    rest.extend(self.pool.leaves(p).iter().copied().filter(|&x| leaves.insert(x)));
                }
            }
        }
        out
    }

    /// If the condition compares untouched input with a constant, return an
    /// assignment that makes it true.
    fn fresh(&mut self, st: &State, c: E) -> Option<Vec<(E, u128)>> {
        let (x, v) = match *self.pool.node(c) {
            Node::Eq(x, k) => (x, self.pool.cv(k)?),
            Node::Not(y) => match *self.pool.node(y) {
                Node::Eq(x, k) => {
                    let k = self.pool.cv(k)?;
                    (x, if k == 0 { 1 } else { 0 })
                }
                _ => return None,
            },
            Node::Ult(a, b) | Node::Ule(a, b) => {
                let strict = matches!(self.pool.node(c), Node::Ult(..)) as u128;
                if let Some(_) = self.pool.cv(b) {
                    (a, 0)
                } else if let Some(k) = self.pool.cv(a) {
                    (b, k + strict)
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        let mut x = x;
        while let Node::ZExt(y) = *self.pool.node(x) {
            x = y;
        }
        if v > mask(self.pool.w(x)) {
            return None;
        }
        let parts: Vec<E> = match self.pool.node(x) {
            Node::Concat(p) => p.to_vec(),
            Node::Byte(..) => vec![x],
            _ => return None,
        };
        let mut seen = HashSet::new();
        let mut out = vec![];
        let n = parts.len();
        for (i, &p) in parts.iter().enumerate() {
            if !matches!(self.pool.node(p), Node::Byte(..)) || st.used.contains_key(&p) || !seen.insert(p)
            {
                return None;
            }
            out.push((p, (v >> (8 * (n - 1 - i))) & 255));
        }
        Some(out)
    }

    /// If the condition is an equality or the opposite, try changing the model a little so that all
    /// conditions hold.
    fn repair(&mut self, st: &State, c: E, q: &[E]) -> Option<Vec<(E, u128)>> {
        let mut tries: Vec<Vec<(E, u128)>> = vec![];
        let gap = match *self.pool.node(c) {
            Node::Eq(a, b) => {
                let (x, y) = (self.evaluate(st, a), self.evaluate(st, b));
                for (mut e, v) in [(a, y), (b, x)] {
                    while let Node::ZExt(y) = *self.pool.node(e) {
                        e = y;
                    }
                    if v > mask(self.pool.w(e)) {
                        continue;
                    }
                    let parts: Vec<E> = match self.pool.node(e) {
                        Node::Concat(p) => p.to_vec(),
                        _ => vec![e],
                    };
                    let mut rest = v;
                    let mut changes = vec![];
                    for &p in parts.iter().rev() {
                        let w = self.pool.w(p);
                        let v = rest & mask(w);
                        rest = rest.checked_shr(w as u32).unwrap_or(0);
                        let (low, high) = self.pool.range(p);
                        let free = matches!(self.pool.node(p), Node::Byte(..) | Node::Var(_));
                        if !free || v < low || v > high {
                            changes.clear();
                            break;
                        }
                        changes.push((p, v));
                    }
                    if !changes.is_empty() {
                        tries.push(changes);
                    }
                }
                x.wrapping_sub(y)
            }
            Node::Not(y) if matches!(self.pool.node(y), Node::Eq(..)) => 1,
            _ => return None,
        };
        let leaves: Vec<E> = self.pool.leaves(c).iter().copied().collect();
        let leaves = leaves.into_iter().filter(|&x| matches!(self.pool.node(x), Node::Var(_)));
        for x in leaves.take(4) {
            let (low, high) = self.pool.range(x);
            let now = self.evaluate(st, x);
            for v in [now.wrapping_sub(gap), now.wrapping_add(gap)] {
                let v = v & mask(self.pool.w(x));
                if v >= low && v <= high {
                    tries.push(vec![(x, v)]);
                }
            }
        }
        for changes in tries {
            let mut model = (*st.model).clone();
            model.extend(changes.iter().copied());
            let mut memo = HashMap::new();
            if q.iter().all(|&e| self.pool.eval_leaves(e, &model, &mut memo) == 1) {
                return Some(changes);
            }
        }
        None
    }

    /// Find whether the condition can hold, extending the model if needed.
    fn feasible(&mut self, st: &State, c: E) -> X<Option<Rc<HashMap<E, u128>>>> {
        match self.known(st, c) {
            Some(0) => return Ok(None),
            _ => {}
        }
        if self.evaluate(st, c) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if let Some(v) = self.fresh(st, c) {
            self.stats.branch_fresh += 1;
            let mut m = (*st.model).clone();
            m.extend(v);
            return Ok(Some(Rc::new(m)));
        }
        let mut q = self.slice(st, c);
        q.push(c);
        q.sort_unstable();
        q.dedup();
        if let Some(answer) = self.answers.get(&q) {
            self.stats.branch_cached += 1;
            return Ok(answer.as_ref().map(|v| {
                let mut m = (*st.model).clone();
                m.extend(v.iter().copied());
                Rc::new(m)
            }));
        }
        if let Some(changes) = self.repair(st, c, &q) {
            self.stats.branch_fresh += 1;
            let mut m = (*st.model).clone();
            m.extend(changes);
            return Ok(Some(Rc::new(m)));
        }
        self.stats.branch_queries += 1;
        let mut want: HashSet<E> = HashSet::new();
        for &x in &q {
            want.extend(self.pool.leaves(x).iter().copied());
        }
        let want: Vec<E> = want.into_iter().collect();
        self.record(&q);
        let (a, v) = self.solver.check(&self.pool, &q, false, &want).map_err(Stop::Error)?;
        if a == Answer::Unsat {
            self.answers.insert(q, None);
            return Ok(None);
        }
        let mut m = (*st.model).clone();
        m.extend(v.iter().map(|(&e, &v)| (e, v)));
        self.answers.insert(q, Some(v.into_iter().collect()));
        Ok(Some(Rc::new(m)))
    }

    fn record(&mut self, q: &[E]) {
        if let Some(c) = self.cross.as_mut() {
            if c.len() < 400 {
                c.push(q.to_vec());
            }
        }
    }

    /// Branch: return the chosen side and push the other one.
    fn fork(
        &mut self,
        st: &mut State,
        c: E,
        work: &mut Vec<State>,
        other: impl FnOnce(&mut State, bool),
    ) -> X<bool> {
        if let Some(v) = self.known(st, c) {
            self.stats.branch_folded += 1;
            return Ok(v == 1);
        }
        let now = self.evaluate(st, c) == 1;
        let n = self.pool.not(c);
        let (here, there) = if now { (c, n) } else { (n, c) };
        if let Some(model) = self.feasible(st, there)? {
            let mut o = st.clone();
            o.model = model;
            o.depth += 1;
            self.add(&mut o, there);
            other(&mut o, !now);
            let keep = self.decide(&mut o, !now as u64);
            self.stats.forks += 1;
            if self.opts.verbose {
                let f = st.frames.last().unwrap();
                *self.places.entry((f.func.name.clone(), f.block)).or_default() += 1;
            }
            if keep {
                work.push(o);
            }
            self.add(st, here);
            if !self.decide(st, now as u64) {
                return Err(Stop::Elsewhere);
            }
            return Ok(now);
        }
        // It follows from the conditions that are there.
        self.propagate(st, here, true);
        self.pin(st, here)?;
        Ok(now)
    }

    /// If something is being compared with constants time after time, find if it can have only one
    /// value.
    fn pin(&mut self, st: &mut State, mut c: E) -> X<()> {
        while let Node::Not(y) = *self.pool.node(c) {
            c = y;
        }
        let (Node::Eq(a, b) | Node::Ult(a, b) | Node::Ule(a, b)) = *self.pool.node(c) else {
            return Ok(());
        };
        let x = match (self.pool.cv(a), self.pool.cv(b)) {
            (Some(_), None) => b,
            (None, Some(_)) => a,
            _ => return Ok(()),
        };
        let count = self.compared.entry(x).or_default();
        *count += 1;
        if *count % 8 != 0 || self.known(st, x).is_some() {
            return Ok(());
        }
        let v = self.evaluate(st, x);
        let k = self.pool.c(v, self.pool.w(x));
        let same = self.pool.eq(x, k);
        let other = self.pool.not(same);
        if self.feasible(st, other)?.is_none() {
            self.propagate(st, same, true);
        }
        Ok(())
    }

    /// Record a decision, and find if the path belongs to this shard.
    fn decide(&self, st: &mut State, decision: u64) -> bool {
        if st.open == 0 {
            return true;
        }
        st.key = (st.key ^ (decision + 1)).wrapping_mul(0x100000001b3);
        st.open -= 1;
        st.open > 0 || self.here(st)
    }
    fn here(&self, st: &State) -> bool {
        (st.key ^ st.key >> 29 ^ st.key >> 47) % self.opts.shards == self.opts.shard
    }

    /// Make an expression concrete, pushing the remaining possibilities.
    fn concrete(&mut self, st: &mut State, e: E, work: &mut Vec<State>) -> X<u128> {
        if let Some(v) = self.pool.cv(e) {
            return Ok(v);
        }
        if let Some(v) = self.known(st, e) {
            return Ok(v);
        }
        st.concretised += 1;
        self.stats.concretisations += 1;
        if st.concretised > 20000 {
            return Err(Stop::Error("too many concretisations".into()));
        }
        let v = self.evaluate(st, e);
        let w = self.pool.w(e);
        let k = self.pool.c(v, w);
        let c = self.pool.eq(e, k);
        // The other state executes the same instruction again.
        let open = std::mem::take(&mut st.open);
        self.fork(st, c, work, |other, _| other.open = open)?;
        st.open = open;
        // The order of the values is up to the solver, but not the values.
        if !self.decide(st, v as u64) {
            return Err(Stop::Elsewhere);
        }
        Ok(v)
    }

    // ---- verdicts

    fn flush(&mut self, st: &mut State) -> Result<Option<Witness>, String> {
        if st.checks.is_empty() {
            return Ok(None);
        }
        let checks = std::mem::take(&mut st.checks);
        let mut all = self.pool.tt;
        for &(c, _) in &checks {
            all = self.pool.and(all, c);
        }
        let bad = self.pool.not(all);
        let mut q = self.slice(st, bad);
        q.push(bad);
        self.stats.final_queries += 1;
        self.record(&q);
        let (a, _) = self.solver.check(&self.pool, &q, false, &[])?;
        if a == Answer::Unsat {
            self.stats.checks_solved += checks.len() as u64;
            return Ok(None);
        }
        // Find the first that can fail.
        for &(c, id) in &checks {
            let n = self.pool.not(c);
            if let Some(w) = self.witness(st, &[n], "check", id)? {
                return Ok(Some(w));
            }
        }
        self.stats.checks_solved += checks.len() as u64;
        Ok(None)
    }

    /// Extend the model of the path so that equal positions have equal contents.
    fn complete(
        &mut self,
        st: &State,
        extra: &[E],
        leaves: &BTreeSet<E>,
    ) -> Result<Option<HashMap<E, u128>>, String> {
        let mut fixed: HashSet<E> = st.used.keys().copied().collect();
        let mut base = (*st.model).clone();
        if !extra.is_empty() {
            let mut q = vec![];
            for &x in extra {
                q.extend(self.slice(st, x));
                q.push(x);
            }
            let mut all = BTreeSet::new();
            for &x in &q {
                all.extend(self.pool.leaves(x).iter().copied());
            }
            let all: Vec<E> = all.into_iter().collect();
            self.stats.final_queries += 1;
            let (a, v) = self.solver.check(&self.pool, &q, false, &all)?;
            if a == Answer::Unsat {
                return Ok(None);
            }
            base.extend(v);
            fixed.extend(all);
        }
        let mut related: Option<HashMap<E, Vec<E>>> = None;
        // How many positions depend on a leaf
        let mut uses: HashMap<E, usize> = HashMap::new();
        for &l in leaves {
            if let Node::Byte(_, p) = *self.pool.node(l) {
                for &x in self.pool.leaves(p).iter() {
                    *uses.entry(x).or_default() += 1;
                }
            }
        }
        for round in 0..6 {
            // With many structures, or if all else fails, let them share their places.
            let shared = match leaves.len() > 20000 {
                true => round % 2 == 0,
                false => round == 5,
            };
            let place = 128 + self.random() as u128 % 128;
            let mut m = base.clone();
            for &l in leaves {
                if !fixed.contains(&l) {
                    let (lo, hi) = self.pool.range(l);
                    let v = match hi - lo {
                        _ if shared && uses.contains_key(&l) => place.clamp(lo, hi),
                        u128::MAX => self.random() as u128,
                        d => lo + self.random() as u128 % (d + 1),
                    };
                    m.insert(l, v);
                } else if !m.contains_key(&l) {
                    m.insert(l, self.pool.range(l).0);
                }
            }
            if shared {
                let related = related.get_or_insert_with(|| self.related(st, extra));
                for &l in leaves {
                    if fixed.contains(&l) && uses.contains_key(&l) {
                        self.change(related, &mut m, l, place);
                    }
                }
            }
            for _ in 0..60 {
                let mut memo = HashMap::new();
                let mut content: HashMap<(u32, u64), (E, u128)> = HashMap::new();
                let mut changes = vec![];
                let mut moves = vec![];
                for &l in leaves {
                    if let Node::Byte(t, p) = *self.pool.node(l) {
                        let at = self.pool.eval_leaves(p, &m, &mut memo) as u64;
                        let v = m[&l];
                        match content.get(&(t, at)).copied() {
                            Some((o, w)) if w != v => {
                                let free = |x: &E| !fixed.contains(x) && !uses.contains_key(x);
                                if free(&l) {
                                    changes.push((l, w));
                                } else if free(&o) {
                                    changes.push((o, v));
                                } else {
                                    moves.push((o, l));
                                }
                            }
                            Some(_) => {}
                            None => {
                                content.insert((t, at), (l, v));
                            }
                        }
                    }
                }
                if changes.is_empty() && moves.is_empty() {
                    let mut memo = HashMap::new();
                    let holds = st
                        .pc
                        .iter()
                        .chain(extra.iter())
                        .all(|&c| self.pool.eval_leaves(c, &m, &mut memo) == 1);
                    if holds {
                        return Ok(Some(m));
                    }
                    break;
                }
                m.extend(changes);
                // Move to another place as long as the constraints allow for it.
                let mut moved = HashSet::new();
                for (one, other) in moves {
                    // Choose the one that fewer things depend on.
                    let mut choices = vec![];
                    for x in [other, one] {
                        let Node::Byte(_, p) = *self.pool.node(x) else { continue };
                        let around = self.pool.leaves(p);
                        let least = around
                            .iter()
                            .filter(|&&l| matches!(self.pool.node(l), Node::Byte(..)))
                            .map(|l| uses[l])
                            .min();
                        choices.push((least, around));
                    }
                    choices.sort_by_key(|choice| choice.0.unwrap_or(usize::MAX));
                    let (least, around) = choices.swap_remove(0);
                    for &l in around.iter() {
                        if !matches!(self.pool.node(l), Node::Byte(..)) || Some(uses[&l]) != least {
                            continue;
                        }
                        if !moved.insert(l) {
                            continue;
                        }
                        let related = related.get_or_insert_with(|| self.related(st, extra));
                        let v = self.random() as u128 & 255;
                        self.change(related, &mut m, l, v);
                    }
                }
            }
        }
        Ok(None)
    }

    /// The conditions that each leaf takes part in.
    fn related(&mut self, st: &State, extra: &[E]) -> HashMap<E, Vec<E>> {
        let mut map: HashMap<E, Vec<E>> = HashMap::new();
        for &c in st.pc.iter().chain(extra.iter()) {
            for &x in self.pool.leaves(c).clone().iter() {
                map.entry(x).or_default().push(c);
            }
        }
        map
    }

    /// Change a leaf if the conditions that it takes part in allow for that.
    fn change(&self, related: &HashMap<E, Vec<E>>, m: &mut HashMap<E, u128>, l: E, v: u128) {
        let old = m.insert(l, v).unwrap();
        if let Some(list) = related.get(&l) {
            let mut memo = HashMap::new();
            if !list.iter().all(|&c| self.pool.eval_leaves(c, m, &mut memo) == 1) {
                m.insert(l, old);
            }
        }
    }

    fn witness(
        &mut self,
        st: &mut State,
        extra: &[E],
        kind: &str,
        id: u32,
    ) -> Result<Option<Witness>, String> {
        let mut q = st.pc.clone();
        q.extend_from_slice(extra);
        let mut leaves: BTreeSet<E> = BTreeSet::new();
        for &x in q.iter().chain(st.trace.iter()) {
            leaves.extend(self.pool.all_leaves(x).iter().copied());
        }
        for &v in &st.vars {
            leaves.insert(v);
        }
        let mut want = vec![];
        for &l in &leaves {
            want.push(l);
            if let Node::Byte(_, p) = *self.pool.node(l) {
                want.push(p);
            }
        }
        let v = match self.complete(st, extra, &leaves)? {
            Some(mut v) => {
                let mut memo = HashMap::new();
                for &e in &want {
                    if !v.contains_key(&e) {
                        let x = self.pool.eval_leaves(e, &v, &mut memo);
                        v.insert(e, x);
                    }
                }
                v
            }
            _ => {
                // A sample is not worth waiting for.
                let sample = kind == "sample";
                if sample && self.sampling > Duration::from_secs(5) {
                    return Err("no time for samples".into());
                }
                self.stats.final_queries += 1;
                let start = Instant::now();
                self.solver.limit(if sample { 3000 } else { 0 })?;
                let answer = self.solver.check(&self.pool, &q, true, &want);
                self.solver.limit(0)?;
                if sample {
                    self.sampling += start.elapsed();
                }
                let (a, v) = answer?;
                if a == Answer::Unsat {
                    return Ok(None);
                }
                v
            }
        };
        let mut model = Model::default();
        let mut bytes = BTreeMap::new();
        for &l in &leaves {
            match *self.pool.node(l) {
                Node::Var(i) => {
                    model.vars.insert(i, v[&l]);
                }
                Node::Byte(t, p) => {
                    let at = self.pool.cv(p).unwrap_or_else(|| v[&p]);
                    model.bytes.insert((t, at as u64), v[&l] as u8);
                    bytes.insert((t, at as u64), v[&l] as u8);
                }
                _ => {}
            }
        }
        let mut memo = HashMap::new();
        let vars = st.vars.iter().map(|&e| self.pool.eval(e, &model, &mut memo)).collect();
        let trace = st.trace.iter().map(|&e| self.pool.eval(e, &model, &mut memo)).collect();
        Ok(Some(Witness {
            kind: kind.to_string(),
            id,
            vars,
            bytes: bytes.into_iter().map(|((t, p), b)| (t, p, b)).collect(),
            trace,
        }))
    }

    fn sample(&mut self, st: &mut State) -> Result<(), String> {
        let n = self.opts.samples as u64;
        if n == 0 {
            return Ok(());
        }
        let k = self.stats.paths;
        if self.samples.len() as u64 >= n && self.random() % k >= n {
            return Ok(());
        }
        let found = match self.witness(st, &[], "sample", 0) {
            Ok(found) => found,
            Err(_) => return Ok(()),
        };
        if let Some(w) = found {
            if (self.samples.len() as u64) < n {
                self.samples.push(w);
            } else {
                let i = (self.random() % n) as usize;
                self.samples[i] = w;
            }
        } else {
            self.stats.infeasible += 1;
        }
        Ok(())
    }

    // ---- constants

    fn konst(&mut self, k: &K) -> X<Val> {
        Ok(match k {
            K::Int(v, w) => Val::I(self.pool.c(*v, *w)),
            K::Global(n) => {
                let a = match self.global_at.get(n) {
                    Some(a) => *a,
                    None => match self.func_at.get(n) {
                        Some(a) => *a,
                        None => return Err(Stop::Error(format!("unknown symbol {n}"))),
                    },
                };
                Val::I(self.pool.c(a as u128, 64))
            }
            K::Zero(t) | K::Undef(t) => self.zero(t)?,
            K::Bytes(b) => {
                let v = b.iter().map(|&x| Val::I(self.pool.c(x as u128, 8))).collect();
                Val::A(Rc::new(v))
            }
            K::Agg(v, _) => {
                let v = v.iter().map(|x| self.konst(x)).collect::<X<Vec<_>>>()?;
                Val::A(Rc::new(v))
            }
            K::Gep(b, o) => {
                let kv = self.konst_ref(b)?;
                let e = self.int(kv)?;
                let k = self.pool.c(*o as u128, 64);
                Val::I(self.pool.add(e, k))
            }
            K::Cast(a, t) => {
                let kv = self.konst_ref(a)?;
                let e = self.int(kv)?;
                let w = match t {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                let f = self.pool.w(e);
                Val::I(if w > f { self.pool.zext(e, w) } else { self.pool.trunc(e, w) })
            }
            K::Sub(a, b) | K::Add(a, b) => {
                let kv = self.konst_ref(a)?;
                let x = self.int(kv)?;
                let kv = self.konst_ref(b)?;
                let y = self.int(kv)?;
                Val::I(if matches!(k, K::Sub(..)) {
                    self.pool.sub(x, y)
                } else {
                    self.pool.add(x, y)
                })
            }
        })
    }
    fn konst_ref(&mut self, k: &K) -> X<Val> {
        self.konst(k)
    }
    fn zero(&mut self, t: &Ty) -> X<Val> {
        Ok(match t {
            Ty::Int(w) => Val::I(self.pool.c(0, *w)),
            Ty::Ptr => Val::I(self.pool.c(0, 64)),
            Ty::Float(w) => Val::I(self.pool.c(0, *w)),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let mut v = vec![];
                for i in 0..t.fields() {
                    let (_, f) = t.field(i as u64);
                    v.push(self.zero(&f)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return Err(Stop::Error("zero of an unsized type".into())),
        })
    }
    fn int(&self, v: Val) -> X<E> {
        match v {
            Val::I(e) => Ok(e),
            _ => Err(Stop::Error("an aggregate where an integer is expected".into())),
        }
    }
    fn val(&mut self, st: &State, o: &Opd) -> X<Val> {
        match o {
            Opd::R(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opd::K(k) => {
                let key = Rc::as_ptr(k);
                if let Some((_, v)) = self.konsts.get(&key) {
                    return Ok(v.clone());
                }
                let v = self.konst(k)?;
                self.konsts.insert(key, (k.clone(), v.clone()));
                Ok(v)
            }
        }
    }
    fn ev(&mut self, st: &State, o: &Opd) -> X<E> {
        match o {
            Opd::R(r) => match st.frames.last().unwrap().regs[*r as usize] {
                Val::I(e) => Ok(e),
                _ => Err(Stop::Error("an aggregate where an integer is expected".into())),
            },
            _ => {
                let v = self.val(st, o)?;
                self.int(v)
            }
        }
    }
    fn set(&self, st: &mut State, dst: u32, e: E) {
        st.frames.last_mut().unwrap().regs[dst as usize] = Val::I(e);
    }

    // ---- memory

    /// A request for memory is an assertion on its size.
    fn request(&mut self, st: &mut State, size: E) {
        if st.memory == u64::MAX {
            return;
        }
        self.stats.checks += 1;
        let limit = self.pool.c(st.memory as u128, 64);
        let c = self.pool.ule(size, limit);
        match self.known(st, c) {
            Some(1) => self.stats.checks_folded += 1,
            _ => st.checks.push((c, MEMORY)),
        }
    }

    fn alloc(&mut self, st: &mut State, limit: u64, align: u64) -> u64 {
        let base = align_up(st.heap, align.max(16));
        st.heap = base + limit + 32;
        st.objs.insert(base, Rc::new(Obj { base, limit, cells: vec![], writable: true }));
        base
    }

    fn global(&mut self, base: u64) -> X<Rc<Obj>> {
        if let Some(o) = self.globals.get(&base) {
            return Ok(o.clone());
        }
        let name = self.global_by[&base].clone();
        let g = &self.m.globals[&name];
        let ty = g.ty.clone();
        let constant = g.constant;
        let init = self
            .m
            .global_init(&name)
            .map_err(|e| Stop::Error(format!("global {name}: {e}")))?
            .ok_or_else(|| Stop::Error(format!("external global {name}")))?;
        let size = ty.size();
        let mut cells = vec![(0, 0); size as usize];
        self.init(&mut cells, 0, &ty, &init)?;
        let o = Rc::new(Obj { base, limit: size, cells, writable: !constant });
        self.globals.insert(base, o.clone());
        Ok(o)
    }
    fn init(&mut self, cells: &mut [Cell], at: u64, ty: &Ty, k: &K) -> X<()> {
        match k {
            K::Bytes(b) => {
                for (i, &x) in b.iter().enumerate() {
                    cells[at as usize + i] = (self.pool.c(x as u128, 8), 0);
                }
            }
            K::Agg(v, _) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.init(cells, at + o, &t, x)?;
                }
            }
            K::Zero(t) => {
                let z = self.pool.c(0, 8);
                for i in 0..t.size() {
                    cells[(at + i) as usize] = (z, 0);
                }
            }
            K::Undef(_) => {}
            _ => {
                let v = self.konst(k)?;
                let e = self.int(v)?;
                let n = ty.raw_size();
                let e = if (self.pool.w(e) as u64) < 8 * n {
                    self.pool.zext(e, 8 * n as u16)
                } else {
                    e
                };
                for i in 0..n {
                    cells[(at + i) as usize] = (e, i as u8);
                }
            }
        }
        Ok(())
    }

    fn find(&mut self, st: &State, addr: u64) -> X<Rc<Obj>> {
        if let Some((_, o)) = st.objs.range(..=addr).next_back() {
            if addr < o.base + o.limit.max(1) {
                return Ok(o.clone());
            }
        }
        if addr >= GLOBALS && addr < HEAP {
            if let Some((&b, n)) = self.global_by.range(..=addr).next_back() {
                if addr < b + self.m.globals[n].ty.size().max(1) {
                    return self.global(b);
                }
            }
        }
        Err(Stop::Violation(format!("memory: access to {addr:#x} outside of any object"), 0))
    }
    fn find_mut<'s>(&mut self, st: &'s mut State, addr: u64) -> X<&'s mut Obj> {
        let base = match st.objs.range(..=addr).next_back() {
            Some((&b, o)) if addr < b + o.limit.max(1) => b,
            _ => {
                let o = self.find(st, addr)?;
                if !o.writable {
                    return Err(Stop::Violation("memory: write to a constant".into(), 0));
                }
                let b = o.base;
                st.objs.insert(b, o);
                b
            }
        };
        Ok(Rc::make_mut(st.objs.get_mut(&base).unwrap()))
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> X<E> {
        let o = self.find(st, addr)?;
        let at = (addr - o.base) as usize;
        if addr + n > o.base + o.limit {
            return Err(Stop::Violation("memory: read past the end of an object".into(), 0));
        }
        let n = n as usize;
        let cell = |i: usize| o.cells.get(at + i).copied().unwrap_or((0, 0));
        let (e, k) = cell(0);
        if e != 0 && k == 0 && self.pool.w(e) as usize == 8 * n {
            if (1..n).all(|i| cell(i) == (e, i as u8)) {
                return Ok(e);
            }
        }
        let mut v = Vec::with_capacity(n);
        for i in (0..n).rev() {
            let (e, k) = cell(i);
            v.push(if e == 0 { self.pool.c(0, 8) } else { self.pool.byte_at(e, k as u16) });
        }
        Ok(self.pool.concat(v))
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, e: E) -> X<()> {
        let n = (self.pool.w(e) / 8) as usize;
        let o = self.find_mut(st, addr)?;
        let at = (addr - o.base) as usize;
        if addr + n as u64 > o.base + o.limit {
            return Err(Stop::Violation("memory: write past the end of an object".into(), 0));
        }
        if o.cells.len() < at + n {
            let cap = at + n;
            o.cells.resize(cap, (0, 0));
        }
        for i in 0..n {
            o.cells[at + i] = (e, i as u8);
        }
        Ok(())
    }

    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(w) => {
                let e = self.read_bytes(st, addr, ty.raw_size())?;
                let e = if self.pool.w(e) > *w { self.pool.trunc(e, *w) } else { e };
                Ok(Val::I(e))
            }
            Ty::Ptr => Ok(Val::I(self.read_bytes(st, addr, 8)?)),
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..ty.fields() {
                    let (o, t) = ty.field(i as u64);
                    v.push(self.load(st, addr + o, &t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, addr + i * t.size(), t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Error(format!("load of {ty:?}"))),
        }
    }
    /// Load from a symbolic address in a small range of a single object.
    fn table(&mut self, st: &mut State, p: E, ty: &Ty) -> X<Option<Val>> {
        if self.pool.cv(p).is_some() || !matches!(ty, Ty::Int(_) | Ty::Ptr) {
            return Ok(None);
        }
        let step = match self.pool.node(p) {
            Node::Sum(terms, _) => terms.iter().fold(0u128, |g, (_, k)| gcd(g, *k)),
            _ => return Ok(None),
        };
        let (lo, hi) = self.prange(st, p, 6);
        if step == 0 || hi < lo || (hi - lo) / step > 512 {
            return Ok(None);
        }
        let size = ty.raw_size() as u128;
        match self.find(st, lo as u64) {
            Ok(o) if hi + size <= (o.base + o.limit) as u128 => {}
            _ => return Ok(None),
        }
        let mut list = vec![];
        let mut at = lo;
        while at <= hi {
            match self.load(st, at as u64, ty)? {
                Val::I(v) => list.push((at, v)),
                _ => return Ok(None),
            }
            at += step;
        }
        let mut result = list[0].1;
        for &(at, v) in &list[1..] {
            if v == result && list.iter().all(|x| x.1 == v) {
                continue;
            }
            let k = self.pool.c(at, 64);
            let c = self.pool.eq(p, k);
            result = self.pool.ite(c, v, result);
        }
        Ok(Some(Val::I(result)))
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr, Val::I(e)) => {
                let n = 8 * ty.raw_size() as u16;
                let e = if self.pool.w(*e) < n { self.pool.zext(*e, n) } else { *e };
                self.write_bytes(st, addr, e)
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vector(..), Val::A(v)) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.store(st, addr + o, &t, x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Error(format!("store of {ty:?}"))),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.find(st, src)?;
        if src + n > o.base + o.limit {
            return Err(Stop::Violation("memory: copy past the end of an object".into(), 0));
        }
        let at = (src - o.base) as usize;
        let have = o.cells.len().saturating_sub(at).min(n as usize);
        let cells: Vec<Cell> = o.cells[at.min(o.cells.len())..at.min(o.cells.len()) + have].to_vec();
        drop(o);
        let d = self.find_mut(st, dst)?;
        if dst + n > d.base + d.limit {
            return Err(Stop::Violation("memory: copy past the end of an object".into(), 0));
        }
        let at = (dst - d.base) as usize;
        if d.cells.len() < at + have {
            d.cells.resize(at + have, (0, 0));
        }
        d.cells[at..at + have].copy_from_slice(&cells);
        let end = (at + n as usize).min(d.cells.len());
        for c in &mut d.cells[at + have..end.max(at + have)] {
            *c = (0, 0);
        }
        Ok(())
    }

    // ---- execution

    fn resolve(&mut self, name: &Rc<str>) -> X<Target> {
        if let Some(t) = self.funcs.get(name) {
            return Ok(t.0.clone());
        }
        let t = if is_panic(name) {
            Target::Panic
        } else if name.starts_with("llvm.") || NATIVE.contains(&&**name) || name.starts_with("sym_") {
            Target::Native
        } else if name.contains("3fmt6format12format_inner") && self.stub_format.is_some() {
            Target::Native
        } else if self.m.funcs.contains_key(&**name) {
            let f = self.m.func(name).map_err(Stop::Error)?;
            self.blocks.insert(f.name.clone(), vec![false; f.blocks.len()]);
            Target::Func(Rc::new(f))
        } else {
            return Err(Stop::Error(format!("unsupported external function {name}")));
        };
        self.funcs.insert(name.clone(), Target0(t.clone()));
        Ok(t)
    }

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let from = f.block;
        let b = &func.blocks[to as usize];
        if let Some(v) = self.blocks.get_mut(&func.name) {
            v[to as usize] = true;
        }
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.from.get(&from).ok_or_else(|| Stop::Error("phi".into()))?;
                vals.push((p.dst, self.val(st, o)?));
            }
            let f = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = to;
        f.at = 0;
        Ok(())
    }

    /// A vector given by its lanes.
    fn vector(&mut self, parts: &[E]) -> E {
        let lane = self.pool.w(parts[0]);
        if lane % 8 == 0 {
            let mut bytes = vec![];
            for &part in parts.iter().rev() {
                for i in (0..lane / 8).rev() {
                    bytes.push(self.pool.extract(part, 8 * i, 8));
                }
            }
            return self.pool.concat(bytes);
        }
        let width = lane * parts.len() as u16;
        let mut total = self.pool.c(0, width);
        for (i, &part) in parts.iter().enumerate() {
            let part = self.pool.zext(part, width);
            let shift = self.pool.c(i as u128 * lane as u128, width);
            let part = self.pool.shl(part, shift);
            total = self.pool.or(total, part);
        }
        total
    }

    fn binary(&mut self, op: BinOp, a: E, b: E) -> E {
        let p = &mut self.pool;
        match op {
            BinOp::Add => p.add(a, b),
            BinOp::Sub => p.sub(a, b),
            BinOp::Mul => p.mul(a, b),
            BinOp::UDiv => p.udiv(a, b),
            BinOp::SDiv => p.sdiv(a, b),
            BinOp::URem => p.urem(a, b),
            BinOp::SRem => p.srem(a, b),
            BinOp::Shl => p.shl(a, b),
            BinOp::LShr => p.lshr(a, b),
            BinOp::AShr => p.ashr(a, b),
            BinOp::And => p.and(a, b),
            BinOp::Or => p.or(a, b),
            BinOp::Xor => p.xor(a, b),
        }
    }

    fn compare(&mut self, pred: Pred, a: E, b: E) -> E {
        let p = &mut self.pool;
        match pred {
            Pred::Eq => p.eq(a, b),
            Pred::Ne => {
                let x = p.eq(a, b);
                p.not(x)
            }
            Pred::Ult => p.ult(a, b),
            Pred::Ule => p.ule(a, b),
            Pred::Ugt => p.ult(b, a),
            Pred::Uge => p.ule(b, a),
            Pred::Slt => p.slt(a, b),
            Pred::Sle => p.sle(a, b),
            Pred::Sgt => p.slt(b, a),
            Pred::Sge => p.sle(b, a),
        }
    }

    /// The target of a block that only computes values.
    fn pure(func: &Func, b: u32) -> Option<u32> {
        let b = &func.blocks[b as usize];
        if !b.phis.is_empty() || b.insts.len() > 12 {
            return None;
        }
        let (last, rest) = b.insts.split_last()?;
        for i in rest {
            match i {
                Inst::Load { .. }
                | Inst::Gep { .. }
                | Inst::Icmp { .. }
                | Inst::Select { .. }
                | Inst::Cast { .. }
                | Inst::Copy { .. }
                | Inst::Nop => {}
                Inst::Bin { op, .. } => match op {
                    BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem => return None,
                    _ => {}
                },
                _ => return None,
            }
        }
        match last {
            Inst::Jump(to) => Some(*to),
            _ => None,
        }
    }

    /// The values of a block reached through a pure one.
    fn through(&mut self, st: &State, c: E, b: u32, to: u32) -> X<Option<Vec<E>>> {
        let func = st.frames.last().unwrap().func.clone();
        let mut other = st.clone();
        self.propagate(&mut other, c, true);
        if b != to {
            other.frames.last_mut().unwrap().block = b;
            let insts = &func.blocks[b as usize].insts;
            for i in 0..insts.len() - 1 {
                // A load should not have several outcomes.
                if let Inst::Load { ptr, ty, .. } = &insts[i] {
                    let p = self.ev(&other, ptr)?;
                    if self.known(&other, p).is_none()
                        && !matches!(self.table(&mut other, p, ty), Ok(Some(_)))
                    {
                        return Ok(None);
                    }
                }
                other.frames.last_mut().unwrap().at = i;
                let mut none = vec![];
                match self.step(&mut other, &mut none) {
                    Ok(()) if none.is_empty() => {}
                    _ => return Ok(None),
                }
            }
        }
        let origin = other.frames.last().unwrap().block;
        let mut list = vec![];
        for p in &func.blocks[to as usize].phis {
            let o = p.from.get(&origin).ok_or_else(|| Stop::Error("phi".into()))?;
            match self.val(&other, o)? {
                Val::I(e) => list.push(e),
                _ => return Ok(None),
            }
        }
        Ok(Some(list))
    }

    /// Continue with the chosen values.
    fn merged(&mut self, st: &mut State, to: u32, values: Vec<E>, through: &[u32]) {
        let frame = st.frames.last_mut().unwrap();
        let func = frame.func.clone();
        if let Some(v) = self.blocks.get_mut(&func.name) {
            for &b in through.iter().chain([&to]) {
                v[b as usize] = true;
            }
        }
        for (p, e) in func.blocks[to as usize].phis.iter().zip(values) {
            frame.regs[p.dst as usize] = Val::I(e);
        }
        frame.block = to;
        frame.at = 0;
        self.stats.merged += 1;
    }

    /// Pass a switch that only chooses values.
    fn select(&mut self, st: &mut State, v: E, default: u32, cases: &[(u128, u32)]) -> X<bool> {
        let func = st.frames.last().unwrap().func.clone();
        let mut targets: Vec<u32> = cases.iter().map(|c| c.1).collect();
        let open = !matches!(
            func.blocks[default as usize].insts.as_slice(),
            [Inst::Unreachable]
        );
        if open {
            targets.push(default);
        }
        let Some(to) = targets.iter().find_map(|&b| Self::pure(&func, b)) else {
            return Ok(false);
        };
        if targets.iter().any(|&b| b != to && Self::pure(&func, b) != Some(to)) {
            return Ok(false);
        }
        let w = self.pool.w(v);
        let mut none = self.pool.tt;
        let mut conds = vec![];
        for &(k, b) in cases {
            let k = self.pool.c(k, w);
            let c = self.pool.eq(v, k);
            conds.push((c, b));
            let n = self.pool.not(c);
            none = self.pool.and(none, n);
        }
        if open {
            conds.push((none, default));
        }
        let mut values: Option<Vec<E>> = None;
        for (c, b) in conds.into_iter().rev() {
            let Some(list) = self.through(st, c, b, to)? else {
                return Ok(false);
            };
            values = Some(match values {
                None => list,
                Some(rest) => {
                    list.iter().zip(rest).map(|(&x, y)| self.pool.ite(c, x, y)).collect()
                }
            });
        }
        self.merged(st, to, values.unwrap(), &targets);
        Ok(true)
    }

    /// Pass a diamond or a triangle without forking if its sides only compute values.
    fn merge(&mut self, st: &mut State, c: E, t: u32, f: u32) -> X<bool> {
        let func = st.frames.last().unwrap().func.clone();
        let (x, y) = (Self::pure(&func, t), Self::pure(&func, f));
        let to = if x == Some(f) {
            f
        } else if y == Some(t) {
            t
        } else if x.is_some() && x == y {
            x.unwrap()
        } else {
            return Ok(false);
        };
        if func.blocks[to as usize].phis.is_empty() {
            return Ok(false);
        }
        let n = self.pool.not(c);
        let Some(one) = self.through(st, c, t, to)? else {
            return Ok(false);
        };
        let Some(two) = self.through(st, n, f, to)? else {
            return Ok(false);
        };
        for (&a, &b) in one.iter().zip(&two) {
            let constant = self.pool.cv(a).is_some() && self.pool.cv(b).is_some();
            // These are likely to control what comes next.
            if a != b && constant && self.pool.w(a) > 1 {
                return Ok(false);
            }
        }
        let values = one.iter().zip(two).map(|(&a, b)| self.pool.ite(c, a, b)).collect();
        self.merged(st, to, values, &[t, f]);
        Ok(true)
    }

    fn path(&mut self, st: &mut State, work: &mut Vec<State>) -> Stop {
        loop {
            match self.step(st, work) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn step(&mut self, st: &mut State, work: &mut Vec<State>) -> X<()> {
        st.instrs += 1;
        self.stats.instrs += 1;
        if st.instrs > st.idle {
            return Err(Stop::Bound(2));
        }
        if st.instrs > self.opts.max_instrs {
            return Err(Stop::Violation("nontermination: instruction limit".into(), 0));
        }
        if self.stats.instrs & 0xffff == 0 && self.start.elapsed() > self.opts.deadline {
            return Err(Stop::Error(format!("timeout with {} pending paths", work.len() + 1)));
        }
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let inst = &func.blocks[f.block as usize].insts[f.at];
        match inst {
            Inst::Nop => {}
            Inst::Alloca { dst, size, align } => {
                let base = align_up(st.stack, (*align).max(16));
                st.stack = base + size + 16;
                st.objs.insert(
                    base,
                    Rc::new(Obj { base, limit: *size, cells: vec![], writable: true }),
                );
                let e = self.pool.c(base as u128, 64);
                self.set(st, *dst, e);
            }
            Inst::Load { dst, ty, ptr } => {
                let p = self.ev(st, ptr)?;
                let v = match self.table(st, p, ty)? {
                    Some(v) => v,
                    None => {
                        let a = self.concrete(st, p, work)? as u64;
                        self.load(st, a, ty)?
                    }
                };
                st.frames.last_mut().unwrap().regs[*dst as usize] = v;
            }
            Inst::Store { ty, val, ptr } => {
                let p = self.ev(st, ptr)?;
                let a = self.concrete(st, p, work)? as u64;
                let v = self.val(st, val)?;
                self.store(st, a, ty, &v)?;
            }
            Inst::Gep { dst, base, off, terms } => {
                let mut e = self.ev(st, base)?;
                if *off != 0 {
                    let k = self.pool.c(*off as u128, 64);
                    e = self.pool.add(e, k);
                }
                for (o, w, scale) in terms {
                    let mut x = self.ev(st, o)?;
                    if *w < 64 {
                        x = self.pool.sext(x, 64);
                    }
                    let k = self.pool.c(*scale as u128, 64);
                    let y = self.pool.mul(x, k);
                    e = self.pool.add(e, y);
                }
                self.set(st, *dst, e);
            }
            Inst::Bin { dst, op, a, b } => {
                let a = self.ev(st, a)?;
                let b = self.ev(st, b)?;
                let e = self.binary(*op, a, b);
                self.set(st, *dst, e);
            }
            Inst::Icmp { dst, pred, a, b } => {
                let a = self.ev(st, a)?;
                let b = self.ev(st, b)?;
                let e = self.compare(*pred, a, b);
                self.set(st, *dst, e);
            }
            Inst::Lanes { dst, op, a, b, lane } => {
                let a = self.ev(st, a)?;
                let b = self.ev(st, b)?;
                let mut parts = vec![];
                for i in 0..self.pool.w(a) / lane {
                    let a = self.pool.extract(a, i * lane, *lane);
                    let b = self.pool.extract(b, i * lane, *lane);
                    parts.push(match op {
                        LaneOp::Bin(op) => self.binary(*op, a, b),
                        LaneOp::Icmp(pred) => self.compare(*pred, a, b),
                    });
                }
                let e = self.vector(&parts);
                self.set(st, *dst, e);
            }
            Inst::Shuffle { dst, a, b, lane, map } => {
                let a = self.ev(st, a)?;
                let b = self.ev(st, b)?;
                let n = (self.pool.w(a) / lane) as usize;
                let mut parts = vec![];
                match map {
                    Ok(map) => {
                        for &i in map {
                            let (x, i) = if i < n { (a, i) } else { (b, i - n) };
                            if i >= n {
                                return Err(Stop::Error("index of a lane".into()));
                            }
                            parts.push(self.pool.extract(x, i as u16 * lane, *lane));
                        }
                    }
                    Err(at) => {
                        for i in 0..n {
                            parts.push(if i == *at {
                                b
                            } else {
                                self.pool.extract(a, i as u16 * lane, *lane)
                            });
                        }
                    }
                }
                let e = self.vector(&parts);
                self.set(st, *dst, e);
            }
            Inst::Select { dst, c, a, b } => {
                let c = self.ev(st, c)?;
                let v = match self.known(st, c) {
                    Some(1) => self.val(st, a)?,
                    Some(_) => self.val(st, b)?,
                    None => {
                        let (x, y) = (self.val(st, a)?, self.val(st, b)?);
                        match (&x, &y) {
                            (Val::I(x), Val::I(y)) => Val::I(self.pool.ite(c, *x, *y)),
                            _ => {
                                let v = self.concrete(st, c, work)?;
                                if v == 1 {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                    }
                };
                st.frames.last_mut().unwrap().regs[*dst as usize] = v;
            }
            Inst::Cast { dst, op, a, to } => {
                let a = self.ev(st, a)?;
                let e = match op {
                    CastOp::ZExt => self.pool.zext(a, *to),
                    CastOp::SExt => self.pool.sext(a, *to),
                    CastOp::Trunc => self.pool.trunc(a, *to),
                    CastOp::Same => a,
                };
                self.set(st, *dst, e);
            }
            Inst::Copy { dst, a } => {
                let v = self.val(st, a)?;
                st.frames.last_mut().unwrap().regs[*dst as usize] = v;
            }
            Inst::Extract { dst, a, idx } => {
                let mut v = self.val(st, a)?;
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Error("extractvalue".into())),
                    };
                }
                st.frames.last_mut().unwrap().regs[*dst as usize] = v;
            }
            Inst::Insert { dst, a, v, idx } => {
                let a = self.val(st, a)?;
                let v = self.val(st, v)?;
                let r = insert(a, v, idx)?;
                st.frames.last_mut().unwrap().regs[*dst as usize] = r;
            }
            Inst::Jump(t) => return self.jump(st, *t),
            Inst::Br { c, t, f } => {
                let c = self.ev(st, c)?;
                let (t, f) = (*t, *f);
                if self.known(st, c).is_none() && self.merge(st, c, t, f)? {
                    return Ok(());
                }
                let mut pending: Option<usize> = None;
                let before = work.len();
                let side = self.fork(st, c, work, |_, _| {})?;
                if work.len() > before {
                    pending = Some(before);
                }
                if let Some(i) = pending {
                    let mut o = work.remove(i);
                    let r = self.jump(&mut o, if side { f } else { t });
                    work.push(o);
                    r?;
                }
                return self.jump(st, if side { t } else { f });
            }
            Inst::Switch { v, default, cases } => {
                let v = self.ev(st, v)?;
                if let Some(k) = self.known(st, v) {
                    let to = cases.iter().find(|c| c.0 == k).map_or(*default, |c| c.1);
                    return self.jump(st, to);
                }
                if cases.len() >= 6 && self.select(st, v, *default, cases)? {
                    return Ok(());
                }
                let w = self.pool.w(v);
                let mut order: Vec<u32> = vec![];
                let mut conds: HashMap<u32, E> = HashMap::new();
                let mut none = self.pool.tt;
                for &(k, to) in cases {
                    let kk = self.pool.c(k, w);
                    let c = self.pool.eq(v, kk);
                    if to == *default {
                        continue;
                    }
                    if !conds.contains_key(&to) {
                        order.push(to);
                        conds.insert(to, c);
                    } else {
                        let o = self.pool.or(conds[&to], c);
                        conds.insert(to, o);
                    }
                    let n = self.pool.not(c);
                    none = self.pool.and(none, n);
                }
                let mut sides = vec![];
                for to in order {
                    let c = conds[&to];
                    if let Some(m) = self.feasible(st, c)? {
                        sides.push((to, c, m));
                    }
                }
                if let Some(m) = self.feasible(st, none)? {
                    sides.push((*default, none, m));
                }
                if sides.is_empty() {
                    return Err(Stop::Error("no feasible case".into()));
                }
                if self.opts.verbose {
                    let f = st.frames.last().unwrap();
                    *self.places.entry((f.func.name.clone(), f.block)).or_default() +=
                        sides.len() as u64 - 1;
                }
                let many = sides.len() > 1;
                while sides.len() > 1 {
                    let (to, c, m) = sides.pop().unwrap();
                    let mut o = st.clone();
                    o.model = m;
                    o.depth += 1;
                    self.add(&mut o, c);
                    self.jump(&mut o, to)?;
                    self.stats.forks += 1;
                    if self.decide(&mut o, 2 + to as u64) {
                        work.push(o);
                    }
                }
                let (to, c, m) = sides.pop().unwrap();
                st.model = m;
                self.add(st, c);
                if many && !self.decide(st, 2 + to as u64) {
                    return Err(Stop::Elsewhere);
                }
                return self.jump(st, to);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => Some(self.val(st, o)?),
                    None => None,
                };
                return self.ret(st, v);
            }
            Inst::Unreachable => {
                return Err(Stop::Violation("unreachable code reached".into(), 0));
            }
            Inst::Call { dst, callee, args, normal } => {
                let name = match callee {
                    Callee::Name(n) => n.clone(),
                    Callee::Ptr(p) => {
                        let p = self.ev(st, p)?;
                        let a = self.concrete(st, p, work)? as u64;
                        match self.func_by.get(&a) {
                            Some(n) => n.clone(),
                            None => return Err(Stop::Error(format!("call to {a:#x}"))),
                        }
                    }
                };
                let target = self.resolve(&name)?;
                match target {
                    Target::Panic => {
                        let at = self.location(st, args)?;
                        return Err(Stop::Violation(format!("panic: {name} {at}"), 0));
                    }
                    Target::Native => {
                        let mut vals = Vec::with_capacity(args.len());
                        for a in args {
                            vals.push(self.val(st, a)?);
                        }
                        if name.contains("3fmt6format12format_inner") {
                            let stub = self.stub_format.clone().unwrap();
                            let t = self.resolve(&stub)?;
                            if let Target::Func(f) = t {
                                vals.truncate(1);
                                return self.enter(st, f, vals, None, *normal);
                            }
                        }
                        let r = self.native(st, &name, vals, work)?;
                        let f = st.frames.last_mut().unwrap();
                        if let (Some(d), Some(v)) = (dst, r) {
                            f.regs[*d as usize] = v;
                        }
                        if let Some(n) = normal {
                            return self.jump(st, *n);
                        }
                    }
                    Target::Func(f) => {
                        let mut vals = Vec::with_capacity(args.len());
                        for a in args {
                            vals.push(self.val(st, a)?);
                        }
                        return self.enter(st, f, vals, *dst, *normal);
                    }
                }
            }
            Inst::AtomicRmw { dst, op, ptr, v, w } => {
                let p = self.ev(st, ptr)?;
                let a = self.concrete(st, p, work)? as u64;
                let v = self.ev(st, v)?;
                let ty = Ty::Int(*w);
                let old = self.load(st, a, &ty)?;
                let o = self.int(old.clone())?;
                let p = &mut self.pool;
                let new = match op.as_str() {
                    "add" => p.add(o, v),
                    "sub" => p.sub(o, v),
                    "xchg" => v,
                    "and" => p.and(o, v),
                    "or" => p.or(o, v),
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, a, &ty, &Val::I(new))?;
                st.frames.last_mut().unwrap().regs[*dst as usize] = old;
            }
            Inst::CmpXchg { dst, ptr, old, new, w } => {
                let p = self.ev(st, ptr)?;
                let a = self.concrete(st, p, work)? as u64;
                let (old, new) = (self.ev(st, old)?, self.ev(st, new)?);
                let ty = Ty::Int(*w);
                let cur = self.load(st, a, &ty)?;
                let c = self.int(cur)?;
                let eq = self.pool.eq(c, old);
                let n = self.pool.ite(eq, new, c);
                self.store(st, a, &ty, &Val::I(n))?;
                st.frames.last_mut().unwrap().regs[*dst as usize] =
                    Val::A(Rc::new(vec![Val::I(c), Val::I(eq)]));
            }
            Inst::Unsupported(s) => return Err(Stop::Error(format!("unsupported: {s}"))),
        }
        st.frames.last_mut().unwrap().at += 1;
        Ok(())
    }

    fn enter(
        &mut self,
        st: &mut State,
        f: Rc<Func>,
        vals: Vec<Val>,
        dst: Option<u32>,
        normal: Option<u32>,
    ) -> X<()> {
        if st.frames.len() > 300 {
            return Err(Stop::Violation("recursion limit".into(), 0));
        }
        if vals.len() < f.params {
            return Err(Stop::Error(format!("arguments of {}", f.name)));
        }
        let z = self.pool.ff;
        let mut regs = vec![Val::I(z); f.nregs as usize];
        for (i, v) in vals.into_iter().enumerate().take(f.params) {
            regs[i] = v;
        }
        if let Some(v) = self.blocks.get_mut(&f.name) {
            v[0] = true;
        }
        st.frames.push(Frame { func: f, block: 0, at: 0, regs, dst, normal, stack: st.stack });
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> X<()> {
        let f = st.frames.pop().unwrap();
        // release the stack
        if st.stack > f.stack {
            let dead: Vec<u64> = st.objs.range(f.stack..st.stack).map(|x| *x.0).collect();
            for d in dead {
                st.objs.remove(&d);
            }
            st.stack = f.stack;
        }
        if st.frames.is_empty() {
            return Err(Stop::End);
        }
        let c = st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (f.dst, v) {
            c.regs[d as usize] = v;
        }
        match f.normal {
            Some(n) => self.jump(st, n),
            None => {
                c.at += 1;
                Ok(())
            }
        }
    }

    /// The source location passed to a panic.
    fn location(&mut self, st: &mut State, args: &[Opd]) -> X<String> {
        for a in args {
            let Ok(e) = self.ev(st, a) else { continue };
            let Some(p) = self.pool.cv(e) else { continue };
            let p = p as u64;
            if p < GLOBALS || p >= HEAP {
                continue;
            }
            let mut word = |at: u64, n: u64| -> Option<u64> {
                let e = self.read_bytes(st, at, n).ok()?;
                self.pool.cv(e).map(|x| x as u64)
            };
            let Some(f) = word(p, 8) else { continue };
            let Some(n) = word(p + 8, 8) else { continue };
            let Some(line) = word(p + 16, 4) else { continue };
            if n > 300 || f < GLOBALS {
                continue;
            }
            let mut s = String::new();
            for i in 0..n {
                match word(f + i, 1) {
                    Some(c) => s.push(c as u8 as char),
                    None => break,
                }
            }
            if s.ends_with(".rs") {
                return Ok(format!("at {s}:{line}"));
            }
        }
        let n = st.frames.len();
        Ok(format!("in {}", st.frames[n - 1].func.name))
    }

    fn native(
        &mut self,
        st: &mut State,
        name: &str,
        args: Vec<Val>,
        work: &mut Vec<State>,
    ) -> X<Option<Val>> {
        let e = |i: usize| -> X<E> {
            match &args[i] {
                Val::I(e) => Ok(*e),
                _ => Err(Stop::Error(format!("aggregate argument of {name}"))),
            }
        };
        macro_rules! conc {
            ($i:expr) => {{
                let x = e($i)?;
                self.concrete(st, x, work)? as u64
            }};
        }
        let base = name.strip_prefix("llvm.").map(|r| r.split(".i").next().unwrap());
        if let Some(b) = base {
            let b = b.split(".p0").next().unwrap();
            let p = &mut self.pool;
            let r = match b {
                "experimental.noalias.scope.decl" | "lifetime.start" | "lifetime.end" | "assume"
                | "sideeffect" | "donothing" | "prefetch" | "dbg.value" | "dbg.declare"
                | "invariant.start" | "invariant.end" | "x86.sse2.pause" => return Ok(None),
                "bswap" => p.bswap(e(0)?),
                "umax" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let c = p.ult(a, b);
                    p.ite(c, b, a)
                }
                "umin" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let c = p.ult(a, b);
                    p.ite(c, a, b)
                }
                "smax" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let c = p.slt(a, b);
                    p.ite(c, b, a)
                }
                "smin" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let c = p.slt(a, b);
                    p.ite(c, a, b)
                }
                "abs" => {
                    let a = e(0)?;
                    let z = p.c(0, p.w(a));
                    let n = p.neg(a);
                    let c = p.slt(a, z);
                    p.ite(c, n, a)
                }
                "usub.sat" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let w = p.w(a);
                    let c = p.ult(a, b);
                    let z = p.c(0, w);
                    let d = p.sub(a, b);
                    p.ite(c, z, d)
                }
                "uadd.sat" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let w = p.w(a);
                    let s = p.add(a, b);
                    let c = p.ult(s, a);
                    let m = p.c(mask(w), w);
                    p.ite(c, m, s)
                }
                "expect" | "expect.with.probability" | "threadlocal.address" | "launder.invariant.group" => {
                    e(0)?
                }
                "is.constant" => p.ff,
                "umul.with.overflow" | "uadd.with.overflow" | "usub.with.overflow"
                | "smul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" => {
                    let (a, b) = (e(0)?, e(1)?);
                    let w = p.w(a);
                    let signed = name.as_bytes()[5] == b's';
                    let ww = 2 * w;
                    if ww > 128 && &name[6..9] == "mul" {
                        // 64-bit multiplication needs 128 bits; wider does not occur
                        return Err(Stop::Error(format!("wide {name}")));
                    }
                    let ext = |p: &mut Pool, x: E, n: u16| {
                        if signed {
                            p.sext(x, n)
                        } else {
                            p.zext(x, n)
                        }
                    };
                    let n = if &name[6..9] == "mul" { ww } else { w + 8 };
                    let (x, y) = (ext(p, a, n), ext(p, b, n));
                    let (full, r) = match &name[6..9] {
                        "mul" => (p.mul(x, y), p.mul(a, b)),
                        "add" => (p.add(x, y), p.add(a, b)),
                        _ => (p.sub(x, y), p.sub(a, b)),
                    };
                    let o = if !signed && &name[6..9] == "sub" {
                        p.ult(a, b)
                    } else if !signed {
                        let m = p.c(mask(w), n);
                        p.ult(m, full)
                    } else {
                        let back = p.sext(r, n);
                        let q = p.eq(back, full);
                        p.not(q)
                    };
                    return Ok(Some(Val::A(Rc::new(vec![Val::I(r), Val::I(o)]))));
                }
                "fshl" | "fshr" => {
                    let (a, b, s) = (e(0)?, e(1)?, e(2)?);
                    let w = p.w(a);
                    let k = match p.cv(s) {
                        Some(k) => (k % w as u128) as u16,
                        None => {
                            let _ = p;
                            (conc!(2) % w as u64) as u16
                        }
                    };
                    let p = &mut self.pool;
                    if k == 0 {
                        if b_is(name, "fshl") {
                            a
                        } else {
                            b
                        }
                    } else {
                        let l = if b_is(name, "fshl") { k } else { w - k };
                        let (kl, kr) = (p.c(l as u128, w), p.c((w - l) as u128, w));
                        let x = p.shl(a, kl);
                        let y = p.lshr(b, kr);
                        p.or(x, y)
                    }
                }
                "ctpop" => {
                    let a = e(0)?;
                    let w = p.w(a);
                    let mut s = p.c(0, w);
                    for i in 0..w {
                        let x = p.extract(a, i, 1);
                        let x = p.zext(x, w);
                        s = p.add(s, x);
                    }
                    s
                }
                "ctlz" | "cttz" => {
                    let a = e(0)?;
                    let w = p.w(a);
                    let mut r = p.c(w as u128, w);
                    let order: Vec<u16> =
                        if b == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
                    for i in order {
                        let x = p.extract(a, i, 1);
                        let k = if b == "ctlz" { w - 1 - i } else { i };
                        let k = p.c(k as u128, w);
                        r = p.ite(x, k, r);
                    }
                    r
                }
                "ucmp" | "scmp" => {
                    let (a, c) = (e(0)?, e(1)?);
                    let w: u16 = name.split(".i").nth(1).unwrap().parse().unwrap();
                    let (lt, gt) = if b == "ucmp" {
                        (p.ult(a, c), p.ult(c, a))
                    } else {
                        (p.slt(a, c), p.slt(c, a))
                    };
                    let (m, z, o) = (p.c(mask(w), w), p.c(0, w), p.c(1, w));
                    let r = p.ite(gt, o, z);
                    p.ite(lt, m, r)
                }
                "memcpy" | "memmove" | "memcpy.inline" => {
                    let n = conc!(2);
                    if n > 0 {
                        let d = conc!(0);
                        let s = conc!(1);
                        self.copy(st, d, s, n)?;
                    }
                    return Ok(None);
                }
                "memset" => {
                    let n = conc!(2);
                    if n > 0 {
                        let d = conc!(0);
                        let v = e(1)?;
                        for i in 0..n {
                            self.write_bytes(st, d + i, v)?;
                        }
                    }
                    return Ok(None);
                }
                "load.relative" => {
                    let a = conc!(0);
                    let o = conc!(1);
                    let x = self.read_bytes(st, a.wrapping_add(o), 4)?;
                    let x = self.pool.sext(x, 64);
                    let a = self.pool.c(a as u128, 64);
                    self.pool.add(a, x)
                }
                _ => return Err(Stop::Error(format!("unsupported intrinsic {name}"))),
            };
            return Ok(Some(Val::I(r)));
        }
        match name {
            "malloc" | "__rust_alloc" => {
                let n = e(0)?;
                self.request(st, n);
                let hi = self.prange(st, n, 6).1.min(LARGEST as u128);
                let a = self.alloc(st, hi as u64, 16);
                Ok(Some(Val::I(self.pool.c(a as u128, 64))))
            }
            "calloc" => {
                let (a, b) = (e(0)?, e(1)?);
                let n = self.pool.mul(a, b);
                self.request(st, n);
                let hi = self.prange(st, n, 6).1.min(LARGEST as u128);
                let a = self.alloc(st, hi as u64, 16);
                Ok(Some(Val::I(self.pool.c(a as u128, 64))))
            }
            "posix_memalign" => {
                let align = conc!(1);
                let n = e(2)?;
                self.request(st, n);
                let hi = self.prange(st, n, 6).1;
                let out = conc!(0);
                let a = self.alloc(st, hi as u64, align);
                let a = self.pool.c(a as u128, 64);
                self.write_bytes(st, out, a)?;
                Ok(Some(Val::I(self.pool.c(0, 32))))
            }
            "realloc" => {
                let old = conc!(0);
                let n = e(1)?;
                self.request(st, n);
                let hi = self.prange(st, n, 6).1.min(LARGEST as u128);
                let a = self.alloc(st, hi as u64, 16);
                if old != 0 {
                    if let Some(o) = st.objs.remove(&old) {
                        let keep = o.cells.len().min(hi as usize);
                        let cells = o.cells[..keep].to_vec();
                        Rc::make_mut(st.objs.get_mut(&a).unwrap()).cells = cells;
                    }
                }
                Ok(Some(Val::I(self.pool.c(a as u128, 64))))
            }
            "free" => {
                let a = conc!(0);
                if a != 0 && st.objs.remove(&a).is_none() {
                    return Err(Stop::Violation("memory: free of a dead object".into(), 0));
                }
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let n = conc!(2);
                let d = conc!(0);
                let s = conc!(1);
                self.copy(st, d, s, n)?;
                Ok(Some(args[0].clone()))
            }
            "memset" => {
                let n = conc!(2);
                let d = conc!(0);
                let v = e(1)?;
                let v = self.pool.trunc(v, 8);
                for i in 0..n {
                    self.write_bytes(st, d + i, v)?;
                }
                Ok(Some(args[0].clone()))
            }
            "bcmp" | "memcmp" => {
                let n = conc!(2);
                let a = if n > 0 { conc!(0) } else { 0 };
                let b = if n > 0 { conc!(1) } else { 0 };
                let mut r = self.pool.c(0, 32);
                for i in (0..n).rev() {
                    let x = self.read_bytes(st, a + i, 1)?;
                    let y = self.read_bytes(st, b + i, 1)?;
                    let q = self.pool.eq(x, y);
                    let d = if name == "bcmp" {
                        self.pool.c(1, 32)
                    } else {
                        let lt = self.pool.ult(x, y);
                        let (m, o) = (self.pool.c(mask(32), 32), self.pool.c(1, 32));
                        self.pool.ite(lt, m, o)
                    };
                    r = self.pool.ite(q, r, d);
                }
                Ok(Some(Val::I(r)))
            }
            "strlen" => {
                let a = conc!(0);
                let mut n = 0;
                loop {
                    let x = self.read_bytes(st, a + n, 1)?;
                    match self.pool.cv(x) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return Err(Stop::Error("symbolic string".into())),
                    }
                }
                Ok(Some(Val::I(self.pool.c(n as u128, 64))))
            }
            "sym_byte" => {
                let t = conc!(0) as u32;
                let pos = e(1)?;
                let pos = self.substitute(st, pos);
                let ph = st.phase;
                if !st.touched[ph].contains(&pos) {
                    Rc::make_mut(&mut st.touched[ph]).insert(pos);
                }
                let mut b = self.pool.byte(t, pos);
                if let Some(v) = self.known(st, b) {
                    b = self.pool.c(v, 8);
                }
                Ok(Some(Val::I(b)))
            }
            "sym_plain" => {
                let x = e(0)?;
                Ok(Some(Val::I(self.substitute(st, x))))
            }
            "sym_var" => {
                let bits = conc!(0) as u16;
                let lo = conc!(1) as u128;
                let hi = conc!(2) as u128;
                let key = (st.vars.len(), bits, lo, hi);
                let next = self.var_ids.len() as u32;
                let id = *self.var_ids.entry(key).or_insert(next);
                let v = self.pool.var(id, bits, lo, hi);
                st.vars.push(v);
                // make sure that the model is within the range
                let r = if bits < 64 { self.pool.zext(v, 64) } else { v };
                Ok(Some(Val::I(r)))
            }
            "sym_assume" => {
                let c = e(0)?;
                if !st.checks.is_empty() && self.known(st, c) != Some(1) {
                    if let Some(w) = self.flush(st).map_err(Stop::Error)? {
                        return Err(Stop::Violation(format!("check"), w.id));
                    }
                }
                match self.feasible(st, c)? {
                    None => Err(Stop::Assumed),
                    Some(m) => {
                        st.model = m;
                        if self.known(st, c) != Some(1) {
                            self.add(st, c);
                        }
                        Ok(None)
                    }
                }
            }
            "sym_check" => {
                let c = e(0)?;
                let id = conc!(1) as u32;
                self.stats.checks += 1;
                match self.known(st, c) {
                    Some(1) => {
                        self.stats.checks_folded += 1;
                    }
                    Some(_) => {
                        // The earlier ones go first.
                        if let Some(w) = self.flush(st).map_err(Stop::Error)? {
                            return Err(Stop::Violation("check".into(), w.id));
                        }
                        return Err(Stop::Violation("check".into(), id));
                    }
                    None => st.checks.push((c, id)),
                }
                Ok(None)
            }
            "sym_fix" => {
                // One path for each value
                let v = conc!(0);
                Ok(Some(Val::I(self.pool.c(v as u128, 64))))
            }
            "sym_idle" => {
                let limit = conc!(0) as u64;
                st.idle = st.instrs.saturating_add(limit);
                Ok(None)
            }
            "sym_memory" => {
                st.memory = conc!(0) as u64;
                Ok(None)
            }
            "sym_bound" => {
                let id = conc!(0) as u32;
                Err(Stop::Bound(id))
            }
            "sym_stop" => Err(Stop::End),
            "sym_reach" => {
                let id = conc!(0) as u32;
                if self.stats.reached.get(&id) != Some(&true) {
                    // An answer may be easier to find on another path.
                    let ok = matches!(self.witness(st, &[], "reach", id), Ok(Some(_)));
                    self.stats.reached.insert(id, ok);
                }
                Ok(None)
            }
            "sym_trace" => {
                let v = e(0)?;
                st.trace.push(v);
                Ok(None)
            }
            "sym_phase" => {
                st.phase = conc!(0) as usize;
                Ok(None)
            }
            "sym_extent" => {
                // Both phases depend on the same extent of the tape.
                let a = conc!(0) as usize;
                let b = conc!(1) as usize;
                let id = conc!(2) as u32;
                self.stats.checks += 1;
                if st.touched[a] == st.touched[b] {
                    self.stats.checks_folded += 1;
                    return Ok(None);
                }
                let (x, y) = (st.touched[a].clone(), st.touched[b].clone());
                let c1 = self.covered(&x, &y);
                let c2 = self.covered(&y, &x);
                for c in [c1, c2] {
                    match self.known(st, c) {
                        Some(1) => {}
                        _ => st.checks.push((c, id)),
                    }
                }
                Ok(None)
            }
            "sym_param" => {
                let k = conc!(0) as u32;
                let v = *self.opts.params.get(&k).unwrap_or(&0);
                Ok(Some(Val::I(self.pool.c(v as u128, 64))))
            }
            "sym_known" => {
                // 0, 1, or 2 for undecided, without branching
                let c = e(0)?;
                let v = self.known(st, c).unwrap_or(2);
                Ok(Some(Val::I(self.pool.c(v, 32))))
            }
            "abort" => Err(Stop::Violation("abort".into(), 0)),
            // Destructors of thread-local variables are of no interest.
            "__cxa_thread_atexit_impl" => Ok(Some(Val::I(self.pool.c(0, 32)))),
            // The keys of hash maps
            "getrandom" => {
                let a = conc!(0);
                let n = conc!(1);
                let zero = self.pool.c(0, 8);
                for i in 0..n {
                    self.write_bytes(st, a + i, zero)?;
                }
                Ok(Some(Val::I(self.pool.c(n as u128, 64))))
            }
            _ => Err(Stop::Error(format!("unsupported native function {name}"))),
        }
    }

    /// Every position in `x` is at or below some position in `y`.
    fn covered(&mut self, x: &BTreeSet<E>, y: &BTreeSet<E>) -> E {
        let mut all = self.pool.tt;
        for &p in x.iter().filter(|p| !y.contains(p)) {
            // a later position in the same sum makes it trivial
            let mut any = self.pool.ff;
            for &q in y.iter() {
                let c = self.pool.ule(p, q);
                any = self.pool.or(any, c);
                if any == self.pool.tt {
                    break;
                }
            }
            all = self.pool.and(all, any);
        }
        all
    }

    /// Replace the terms that the path makes constant.
    /// The same position with what is known on this path taken into account.
    fn substitute(&mut self, st: &State, e: E) -> E {
        let w = self.pool.w(e);
        if let Node::Const(_) = self.pool.node(e) {
            return e;
        }
        if let Some(v) = self.known(st, e) {
            return self.pool.c(v, w);
        }
        match self.pool.node(e).clone() {
            Node::Sum(t, c) => {
                let mut acc = self.pool.c(c, w);
                let mut changed = false;
                for &(x, k) in t.iter() {
                    let x2 = self.substitute(st, x);
                    changed |= x2 != x;
                    let kk = self.pool.c(k, w);
                    let y = self.pool.mul(x2, kk);
                    acc = self.pool.add(acc, y);
                }
                if changed {
                    return acc;
                }
            }
            Node::Mul(a, b) => {
                let (a2, b2) = (self.substitute(st, a), self.substitute(st, b));
                if (a2, b2) != (a, b) {
                    return self.pool.mul(a2, b2);
                }
            }
            Node::ZExt(a) => {
                let a2 = self.substitute(st, a);
                if a2 != a {
                    return self.pool.zext(a2, w);
                }
            }
            _ => {}
        }
        e
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn b_is(name: &str, op: &str) -> bool {
    name.starts_with("llvm.") && name[5..].starts_with(op)
}

fn insert(a: Val, v: Val, idx: &[u32]) -> X<Val> {
    if idx.is_empty() {
        return Ok(v);
    }
    match a {
        Val::A(x) => {
            let mut y = (*x).clone();
            let i = idx[0] as usize;
            let inner = y[i].clone();
            y[i] = insert(inner, v, &idx[1..])?;
            Ok(Val::A(Rc::new(y)))
        }
        _ => Err(Stop::Error("insertvalue".into())),
    }
}

const NATIVE: &[&str] = &[
    "malloc",
    "calloc",
    "realloc",
    "free",
    "posix_memalign",
    "memcpy",
    "memmove",
    "memset",
    "memcmp",
    "bcmp",
    "strlen",
    "abort",
    "__cxa_thread_atexit_impl",
    "getrandom",
];

pub fn is_panic(name: &str) -> bool {
    const MARKS: &[&str] = &[
        "9panicking",
        "13unwrap_failed",
        "13expect_failed",
        "16slice_index_fail",
        "16slice_error_fail",
        "17len_mismatch_fail",
        "7raw_vec12handle_error",
        "17capacity_overflow",
        "18handle_alloc_error",
        "15panic_",
    ];
    name == "llvm.trap"
        || name == "abort"
        || name.starts_with("_R") && MARKS.iter().any(|m| name.contains(m))
}
