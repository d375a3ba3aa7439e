//! Hash-consed bit-vector expressions with simplification and unsigned ranges.
//!
//! Width-1 expressions are booleans. `Byte(tape, pos)` is an application of an
//! uninterpreted function: the byte at position `pos` of an unbounded tape.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Byte(u32, E),
    /// Modular sum of coefficient * term + constant.
    Sum(Box<[(E, u128)]>, u128),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Not(E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    /// Extract starting at the given bit.
    Extract(E, u16),
    /// Bytes, most significant first.
    Concat(Box<[E]>),
}

pub struct Info {
    pub node: Node,
    pub width: u16,
    pub lo: u128,
    pub hi: u128,
}

pub type Leaves = Rc<Vec<E>>;

#[derive(Default)]
pub struct Pool {
    pub infos: Vec<Info>,
    map: HashMap<(Node, u16), E>,
    leaves: HashMap<E, Leaves>,
    all_leaves: HashMap<E, Leaves>,
    pub var_ranges: HashMap<u32, (u128, u128)>,
    pub tt: E,
    pub ff: E,
}

#[inline]
pub fn mask(width: u16) -> u128 {
    if width >= 128 {
        u128::MAX
    } else {
        (1u128 << width) - 1
    }
}

#[inline]
pub fn sext_val(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool::default();
        // index 0 is reserved for "uninitialised"
        p.infos.push(Info { node: Node::Const(0xdead), width: 8, lo: 0xde, hi: 0xde });
        p.ff = p.c(0, 1);
        p.tt = p.c(1, 1);
        p
    }

    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.infos[e as usize].width
    }
    #[inline]
    pub fn node(&self, e: E) -> &Node {
        &self.infos[e as usize].node
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.infos[e as usize].node {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    #[inline]
    pub fn range(&self, e: E) -> (u128, u128) {
        let i = &self.infos[e as usize];
        (i.lo, i.hi)
    }

    fn intern(&mut self, node: Node, width: u16) -> E {
        if let Some(&e) = self.map.get(&(node.clone(), width)) {
            return e;
        }
        let (lo, hi) = self.static_range(&node, width);
        if lo == hi && !matches!(node, Node::Const(_)) {
            let e = self.c(lo, width);
            self.map.insert((node, width), e);
            return e;
        }
        let e = self.infos.len() as E;
        self.infos.push(Info { node: node.clone(), width, lo, hi });
        self.map.insert((node, width), e);
        e
    }

    fn static_range(&self, node: &Node, width: u16) -> (u128, u128) {
        let m = mask(width);
        let r = |e: &E| self.range(*e);
        match node {
            Node::Const(v) => (*v, *v),
            Node::Var(i) => *self.var_ranges.get(i).unwrap_or(&(0, m)),
            Node::ZExt(a) => r(a),
            Node::Ite(_, a, b) => {
                let (x, y) = (r(a), r(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::And(a, b) => (0, r(a).1.min(r(b).1)),
            Node::Or(a, b) | Node::Xor(a, b) => {
                let h = r(a).1 | r(b).1;
                let bits = 128 - h.leading_zeros() as u16;
                let lo = if matches!(node, Node::Or(..)) { r(a).0.max(r(b).0) } else { 0 };
                (lo, mask(bits).min(m))
            }
            Node::Sum(terms, c) => sum_range(terms, *c, m, |e| self.range(e)),
            Node::Mul(a, b) => {
                let (x, y) = (r(a), r(b));
                match x.1.checked_mul(y.1) {
                    Some(h) if h <= m => (x.0 * y.0, h),
                    _ => (0, m),
                }
            }
            Node::UDiv(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    (0, m)
                }
            }
            Node::URem(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.0 > 0 {
                    (0, x.1.min(y.1 - 1))
                } else {
                    (0, m)
                }
            }
            Node::LShr(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.1 < 128 {
                    (x.0 >> y.1, x.1 >> y.0)
                } else {
                    (0, x.1)
                }
            }
            Node::Shl(a, b) => {
                let (x, y) = (r(a), r(b));
                if y.1 < 64 && x.1.leading_zeros() as u128 > y.1 && (x.1 << y.1) <= m {
                    (x.0 << y.0, x.1 << y.1)
                } else {
                    (0, m)
                }
            }
            Node::Concat(parts) => {
                let (mut lo, mut hi) = (0u128, 0u128);
                for p in parts.iter() {
                    let x = r(p);
                    lo = lo << 8 | x.0;
                    hi = hi << 8 | x.1;
                }
                (lo, hi)
            }
            Node::Extract(a, 0) => {
                let x = r(a);
                if x.1 <= m {
                    x
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        }
    }

    pub fn c(&mut self, v: u128, width: u16) -> E {
        let v = v & mask(width);
        let key = (Node::Const(v), width);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let e = self.infos.len() as E;
        self.infos.push(Info { node: Node::Const(v), width, lo: v, hi: v });
        self.map.insert(key, e);
        e
    }
    pub fn b(&self, v: bool) -> E {
        if v {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn var(&mut self, id: u32, width: u16, lo: u128, hi: u128) -> E {
        self.var_ranges.insert(id, (lo, hi));
        // The range is part of a variable's identity on a path: executor
        // allocates a new id whenever width or range differ.
        self.intern(Node::Var(id), width)
    }
    pub fn byte(&mut self, tape: u32, pos: E) -> E {
        self.intern(Node::Byte(tape, pos), 8)
    }

    // ---- linear sums
    fn as_sum(&self, e: E) -> (Vec<(E, u128)>, u128) {
        match self.node(e) {
            Node::Const(v) => (vec![], *v),
            Node::Sum(t, c) => (t.to_vec(), *c),
            _ => (vec![(e, 1)], 0),
        }
    }
    fn mk_sum(&mut self, mut terms: Vec<(E, u128)>, c: u128, width: u16) -> E {
        let m = mask(width);
        terms.sort_unstable_by_key(|t| t.0);
        let mut out: Vec<(E, u128)> = Vec::with_capacity(terms.len());
        for (e, k) in terms {
            match out.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.wrapping_add(k) & m,
                _ => out.push((e, k & m)),
            }
        }
        out.retain(|t| t.1 != 0);
        let c = c & m;
        if out.is_empty() {
            return self.c(c, width);
        }
        if out.len() == 1 && out[0].1 == 1 && c == 0 {
            return out[0].0;
        }
        self.intern(Node::Sum(out.into_boxed_slice(), c), width)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x.wrapping_add(y), w);
        }
        if self.cv(a) == Some(0) {
            return b;
        }
        if self.cv(b) == Some(0) {
            return a;
        }
        let (mut t, c) = self.as_sum(a);
        let (t2, c2) = self.as_sum(b);
        t.extend(t2);
        self.mk_sum(t, c.wrapping_add(c2), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let m = mask(w);
        let (mut t, c) = self.as_sum(a);
        let (t2, c2) = self.as_sum(b);
        t.extend(t2.into_iter().map(|(e, k)| (e, k.wrapping_neg() & m)));
        self.mk_sum(t, c.wrapping_sub(c2), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x.wrapping_mul(k), w);
            }
            if k == 0 {
                return self.c(0, w);
            }
            let (t, c) = self.as_sum(a);
            let t = t.into_iter().map(|(e, q)| (e, q.wrapping_mul(k))).collect();
            return self.mk_sum(t, c.wrapping_mul(k), w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.intern(Node::Mul(a, b), w)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.c(0, w);
        self.sub(z, a)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            _ => {}
        }
        self.intern(Node::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(y)) if y.is_power_of_two() => {
                let s = self.c(y - 1, w);
                return self.and(a, s);
            }
            _ => {}
        }
        self.intern(Node::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext_val(x, w).wrapping_div(sext_val(y, w)) as u128, w);
            }
        }
        self.intern(Node::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sext_val(x, w).wrapping_rem(sext_val(y, w)) as u128, w);
            }
        }
        self.intern(Node::SRem(a, b), w)
    }

    // ---- bytes
    /// The n-th least significant byte if it is structurally available.
    fn byte_of(&mut self, e: E, n: u16) -> Option<E> {
        match self.node(e).clone() {
            Node::Const(v) => Some(self.c(v >> (8 * n as u32), 8)),
            Node::ZExt(a) => {
                let wa = self.w(a);
                if 8 * n >= wa {
                    Some(self.c(0, 8))
                } else if wa == 8 {
                    Some(a)
                } else if wa < 8 {
                    Some(self.zext(a, 8))
                } else if wa % 8 == 0 {
                    self.byte_of(a, n)
                } else {
                    None
                }
            }
            Node::Concat(p) => Some(p[p.len() - 1 - n as usize]),
            Node::Sum(t, 0) if t.len() == 1 && t[0].1.is_power_of_two() => {
                let s = t[0].1.trailing_zeros() as u16;
                if s % 8 != 0 {
                    return None;
                }
                let k = s / 8;
                if n < k {
                    Some(self.c(0, 8))
                } else {
                    self.byte_of(t[0].0, n - k)
                }
            }
            _ if self.w(e) == 8 && n == 0 => Some(e),
            _ => None,
        }
    }
    pub fn byte_at(&mut self, e: E, n: u16) -> E {
        let w = self.w(e);
        if w == 8 && n == 0 {
            return e;
        }
        if w % 8 != 0 {
            let z = self.zext(e, (w / 8 + 1) * 8);
            return self.byte_at(z, n);
        }
        match self.byte_of(e, n) {
            Some(b) => b,
            None => self.extract_raw(e, n * 8, 8),
        }
    }
    /// Concatenate bytes, most significant first.
    pub fn concat(&mut self, mut parts: Vec<E>) -> E {
        let width = 8 * parts.len() as u16;
        if parts.len() == 1 {
            return parts[0];
        }
        if parts.iter().all(|&p| self.cv(p).is_some()) {
            let v = parts.iter().fold(0u128, |a, &p| a << 8 | self.cv(p).unwrap());
            return self.c(v, width);
        }
        // leading zero bytes
        let z = parts.iter().take_while(|&&p| self.cv(p) == Some(0)).count();
        if z > 0 {
            let low = self.concat(parts.split_off(z));
            return self.zext(low, width);
        }
        // consecutive extracts of one expression
        let n = parts.len();
        let mut whole = None;
        for (i, &p) in parts.iter().enumerate() {
            let k = (n - 1 - i) as u16;
            match self.node(p) {
                Node::Extract(a, o) if *o == 8 * k && whole.map_or(true, |x| x == *a) => {
                    whole = Some(*a)
                }
                _ => {
                    whole = None;
                    break;
                }
            }
        }
        if let Some(a) = whole {
            let wa = self.w(a);
            if wa == width {
                return a;
            }
            if wa > width {
                return self.extract_raw(a, 0, width);
            }
        }
        self.intern(Node::Concat(parts.into_boxed_slice()), width)
    }
    fn try_bytes(&mut self, e: E) -> Option<Vec<E>> {
        let w = self.w(e);
        if w % 8 != 0 || w < 8 {
            return None;
        }
        let n = w / 8;
        let mut v = Vec::with_capacity(n as usize);
        for i in (0..n).rev() {
            v.push(self.byte_of(e, i)?);
        }
        Some(v)
    }
    pub fn bswap(&mut self, e: E) -> E {
        let n = self.w(e) / 8;
        let v: Vec<E> = (0..n).map(|i| self.byte_at(e, i)).collect();
        self.concat(v)
    }

    fn extract_raw(&mut self, e: E, lo: u16, width: u16) -> E {
        if lo == 0 && width == self.w(e) {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.c(v >> lo, width);
        }
        if let Node::Extract(a, o) = *self.node(e) {
            return self.extract_raw(a, o + lo, width);
        }
        self.intern(Node::Extract(e, lo), width)
    }
    pub fn extract(&mut self, e: E, lo: u16, width: u16) -> E {
        if lo == 0 && width == self.w(e) {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.c(v >> lo, width);
        }
        match self.node(e).clone() {
            Node::ZExt(a) => {
                let wa = self.w(a);
                if lo >= wa {
                    return self.c(0, width);
                }
                if lo == 0 && width >= wa {
                    return self.zext(a, width);
                }
                if lo + width <= wa {
                    return self.extract(a, lo, width);
                }
            }
            Node::SExt(a) if lo == 0 => {
                let wa = self.w(a);
                if width <= wa {
                    return self.extract(a, 0, width);
                }
                return self.sext(a, width);
            }
            Node::Ite(c, a, b) if self.cv(a).is_some() && self.cv(b).is_some() => {
                let x = self.extract(a, lo, width);
                let y = self.extract(b, lo, width);
                return self.ite(c, x, y);
            }
            Node::Sum(t, k) if lo == 0 => {
                // truncation distributes over modular sums
                let terms: Vec<(E, u128)> =
                    t.iter().map(|&(x, q)| (self.extract(x, 0, width), q)).collect();
                let mut acc = self.c(k, width);
                for (x, q) in terms {
                    let kq = self.c(q, width);
                    let y = self.mul(x, kq);
                    acc = self.add(acc, y);
                }
                return acc;
            }
            Node::And(a, b) if lo == 0 => {
                let (x, y) = (self.extract(a, 0, width), self.extract(b, 0, width));
                return self.and(x, y);
            }
            _ => {}
        }
        if lo % 8 == 0 && width % 8 == 0 {
            let n = width / 8;
            let mut v = vec![];
            for i in (0..n).rev() {
                match self.byte_of(e, lo / 8 + i) {
                    Some(b) => v.push(b),
                    None => return self.extract_raw(e, lo, width),
                }
            }
            return self.concat(v);
        }
        self.extract_raw(e, lo, width)
    }
    pub fn trunc(&mut self, e: E, width: u16) -> E {
        self.extract(e, 0, width)
    }
    pub fn zext(&mut self, e: E, width: u16) -> E {
        let w = self.w(e);
        if w == width {
            return e;
        }
        debug_assert!(width > w);
        if let Some(v) = self.cv(e) {
            return self.c(v, width);
        }
        match self.node(e).clone() {
            Node::ZExt(a) => return self.zext(a, width),
            // A sum that cannot wrap distributes over the extension.
            Node::Sum(t, k) if sum_no_wrap(&t, k, mask(w), |x| self.range(x)) => {
                let mut acc = self.c(k, width);
                for &(x, q) in t.iter() {
                    let y = self.zext(x, width);
                    let kq = self.c(q, width);
                    let y = self.mul(y, kq);
                    acc = self.add(acc, y);
                }
                return acc;
            }
            Node::Ite(c, a, b) if self.cv(a).is_some() && self.cv(b).is_some() => {
                let x = self.zext(a, width);
                let y = self.zext(b, width);
                return self.ite(c, x, y);
            }
            Node::Extract(a, 0) if self.range(a).1 <= mask(w) => {
                let wa = self.w(a);
                if wa == width {
                    return a;
                } else if wa < width {
                    return self.zext(a, width);
                }
            }
            _ => {}
        }
        self.intern(Node::ZExt(e), width)
    }
    pub fn sext(&mut self, e: E, width: u16) -> E {
        let w = self.w(e);
        if w == width {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.c(sext_val(v, w) as u128, width);
        }
        if self.range(e).1 <= mask(w) >> 1 {
            return self.zext(e, width);
        }
        if let Node::SExt(a) = *self.node(e) {
            return self.sext(a, width);
        }
        self.intern(Node::SExt(e), width)
    }

    // ---- bitwise
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x & k, w);
            }
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            // low mask
            if (k + 1).is_power_of_two() {
                if self.range(a).1 <= k {
                    return a;
                }
                let n = k.trailing_ones() as u16;
                let x = self.extract(a, 0, n);
                return self.zext(x, w);
            }
            if w % 8 == 0 && w > 8 && (0..w / 8).all(|i| matches!((k >> (8 * i)) & 255, 0 | 255)) {
                if let Some(v) = self.try_bytes(a) {
                    let n = v.len();
                    let z = self.c(0, 8);
                    let v = v
                        .into_iter()
                        .enumerate()
                        .map(|(i, x)| if (k >> (8 * (n - 1 - i))) & 255 == 0 { z } else { x })
                        .collect();
                    return self.concat(v);
                }
            }
            if let Node::And(x, y) = *self.node(a) {
                if let Some(k2) = self.cv(y) {
                    let kk = self.c(k & k2, w);
                    return self.and(x, kk);
                }
            }
            if let Node::ZExt(x) = *self.node(a) {
                let wx = self.w(x);
                let kk = self.c(k, wx);
                let y = self.and(x, kk);
                return self.zext(y, w);
            }
        }
        if w == 1 {
            if self.negates(a, b) {
                return self.ff;
            }
        }
        let (x, y) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(Node::And(x, y), w)
    }
    fn negates(&self, a: E, b: E) -> bool {
        matches!(*self.node(a), Node::Not(x) if x == b)
            || matches!(*self.node(b), Node::Not(x) if x == a)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x | k, w);
            }
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
        }
        if w == 1 && self.negates(a, b) {
            return self.tt;
        }
        if w > 8 && w % 8 == 0 {
            let n = w / 8;
            let mut v = vec![];
            for i in (0..n).rev() {
                let (x, y) = (self.byte_of(a, i), self.byte_of(b, i));
                match (x, y) {
                    (Some(x), Some(y)) if self.cv(x) == Some(0) => v.push(y),
                    (Some(x), Some(y)) if self.cv(y) == Some(0) => v.push(x),
                    (Some(x), Some(y)) if self.cv(y).is_some() && self.cv(x).is_some() => {
                        let z = self.or(x, y);
                        v.push(z)
                    }
                    _ => break,
                }
            }
            if v.len() == n as usize {
                return self.concat(v);
            }
        }
        let (x, y) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(Node::Or(x, y), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(x ^ k, w);
            }
            if k == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
        }
        let (x, y) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(Node::Xor(x, y), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let m = self.c(1u128 << k, w);
            // keep the byte structure when it is there
            if k % 8 == 0 && w % 8 == 0 && k > 0 {
                if let Some(v) = self.try_bytes(a) {
                    let s = (k / 8) as usize;
                    let z = self.c(0, 8);
                    let mut out = v[s..].to_vec();
                    out.extend(std::iter::repeat(z).take(s));
                    return self.concat(out);
                }
            }
            return self.mul(a, m);
        }
        self.intern(Node::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let x = self.extract(a, k as u16, w - k as u16);
            return self.zext(x, w);
        }
        self.intern(Node::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(k)) = (self.cv(a), self.cv(b)) {
            return self.c((sext_val(x, w) >> k.min(127)) as u128, w);
        }
        if self.range(a).1 <= mask(w) >> 1 {
            return self.lshr(a, b);
        }
        self.intern(Node::AShr(a, b), w)
    }

    // ---- booleans and comparisons
    pub fn not(&mut self, a: E) -> E {
        if self.w(a) != 1 {
            let m = self.c(mask(self.w(a)), self.w(a));
            return self.xor(a, m);
        }
        match *self.node(a) {
            Node::Const(v) => self.b(v == 0),
            Node::Not(x) => x,
            Node::Ult(x, y) => self.ule(y, x),
            Node::Ule(x, y) => self.ult(y, x),
            Node::Slt(x, y) => self.sle(y, x),
            Node::Sle(x, y) => self.slt(y, x),
            _ => self.intern(Node::Not(a), 1),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt;
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        let w = self.w(a);
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.ff;
        }
        if w == 1 {
            if let Some(k) = self.cv(b) {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        if let Some(k) = self.cv(b) {
            match self.node(a).clone() {
                Node::Const(v) => return self.b(v == k),
                Node::ZExt(x) => {
                    let wx = self.w(x);
                    if k > mask(wx) {
                        return self.ff;
                    }
                    let kk = self.c(k, wx);
                    return self.eq(x, kk);
                }
                Node::Ite(c, x, y) => {
                    if let (Some(u), Some(v)) = (self.cv(x), self.cv(y)) {
                        return match (u == k, v == k) {
                            (true, true) => self.tt,
                            (true, false) => c,
                            (false, true) => self.not(c),
                            _ => self.ff,
                        };
                    }
                }
                Node::Sum(t, c) if t.len() == 1 && t[0].1 == 1 => {
                    let kk = self.c(k.wrapping_sub(c), w);
                    return self.eq(t[0].0, kk);
                }
                Node::SExt(x) => {
                    let wx = self.w(x);
                    let low = self.c(k, wx);
                    let back = sext_val(k & mask(wx), wx) as u128 & mask(w);
                    if back != k {
                        return self.ff;
                    }
                    return self.eq(x, low);
                }
                _ => {}
            }
        } else {
            match (self.node(a).clone(), self.node(b).clone()) {
                (Node::ZExt(x), Node::ZExt(y)) => {
                    let (wx, wy) = (self.w(x), self.w(y));
                    let wm = wx.max(wy);
                    let (x, y) = (self.zext(x, wm), self.zext(y, wm));
                    return self.eq(x, y);
                }
                (Node::Sum(..), _) | (_, Node::Sum(..)) => {
                    let d = self.sub(a, b);
                    match self.node(d).clone() {
                        Node::Const(v) => return self.b(v == 0),
                        Node::Sum(t, c) if t.len() == 1 && t[0].1 == 1 => {
                            let kk = self.c(c.wrapping_neg(), w);
                            return self.eq(t[0].0, kk);
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let (a, b) = if self.cv(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.intern(Node::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff;
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 < rb.0 {
            return self.tt;
        }
        if ra.0 >= rb.1 {
            return self.ff;
        }
        if let Some(1) = self.cv(b) {
            let z = self.c(0, self.w(a));
            return self.eq(a, z);
        }
        if let Some(0) = self.cv(a) {
            let z = self.eq(b, a);
            return self.not(z);
        }
        if let Some((x, y)) = self.strip_zext(a, b) {
            return self.ult(x, y);
        }
        if let Some(r) = self.cmp_sums(a, b, true) {
            return r;
        }
        self.intern(Node::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt;
        }
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= rb.0 {
            return self.tt;
        }
        if ra.0 > rb.1 {
            return self.ff;
        }
        if let Some(k) = self.cv(b) {
            // canonical: x <= k  =>  x < k + 1
            let kk = self.c(k + 1, self.w(a));
            return self.ult(a, kk);
        }
        if let Some(k) = self.cv(a) {
            let kk = self.c(k - 1, self.w(a));
            return self.ult(kk, b);
        }
        if let Some((x, y)) = self.strip_zext(a, b) {
            return self.ule(x, y);
        }
        if let Some(r) = self.cmp_sums(a, b, false) {
            return r;
        }
        self.intern(Node::Ule(a, b), 1)
    }
    /// Compare two sums that provably do not wrap by their difference.
    fn cmp_sums(&mut self, a: E, b: E, strict: bool) -> Option<E> {
        let w = self.w(a);
        let m = mask(w);
        let (ta, ca) = self.as_sum(a);
        let (tb, cb) = self.as_sum(b);
        if ta.len() + tb.len() < 2 {
            return None;
        }
        let safe = |t: &[(E, u128)], c: u128| sum_no_wrap(t, c, m, |x| self.range(x));
        if !safe(&ta, ca) || !safe(&tb, cb) {
            return None;
        }
        // cancel the common parts
        let mut x: Vec<(E, u128)> = vec![];
        let mut y = tb.clone();
        let mut changed = false;
        for (e, k) in ta {
            if let Some(i) = y.iter().position(|t| t.0 == e) {
                changed = true;
                let q = y[i].1;
                if q > k {
                    y[i].1 = q - k;
                } else {
                    y.remove(i);
                    if k > q {
                        x.push((e, k - q));
                    }
                }
            } else {
                x.push((e, k));
            }
        }
        let common = ca.min(cb);
        if common > 0 {
            changed = true;
        }
        if !changed {
            return None;
        }
        let x = self.mk_sum(x, ca - common, w);
        let y = self.mk_sum(y, cb - common, w);
        Some(if strict { self.ult(x, y) } else { self.ule(x, y) })
    }
    fn strip_zext(&mut self, a: E, b: E) -> Option<(E, E)> {
        match (self.node(a).clone(), self.node(b).clone()) {
            (Node::ZExt(x), Node::ZExt(y)) => {
                let wm = self.w(x).max(self.w(y));
                Some((self.zext(x, wm), self.zext(y, wm)))
            }
            (Node::ZExt(x), Node::Const(k)) => {
                // in range because of the range checks
                let wx = self.w(x);
                if k <= mask(wx) {
                    let kk = self.c(k, wx);
                    Some((x, kk))
                } else {
                    None
                }
            }
            (Node::Const(k), Node::ZExt(y)) => {
                let wy = self.w(y);
                if k <= mask(wy) {
                    let kk = self.c(k, wy);
                    Some((kk, y))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.ff;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(sext_val(x, w) < sext_val(y, w));
        }
        let h = mask(w) >> 1;
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= h && rb.1 <= h {
            return self.ult(a, b);
        }
        if ra.0 > h && rb.1 <= h {
            return self.tt;
        }
        if ra.1 <= h && rb.0 > h {
            return self.ff;
        }
        self.intern(Node::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tt;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(sext_val(x, w) <= sext_val(y, w));
        }
        let h = mask(w) >> 1;
        let (ra, rb) = (self.range(a), self.range(b));
        if ra.1 <= h && rb.1 <= h {
            return self.ule(a, b);
        }
        if ra.0 > h && rb.1 <= h {
            return self.tt;
        }
        if ra.1 <= h && rb.0 > h {
            return self.ff;
        }
        self.intern(Node::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(0) => return b,
            _ => {}
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Not(x) = *self.node(c) {
            return self.ite(x, b, a);
        }
        self.intern(Node::Ite(c, a, b), w)
    }

    // ---- leaves
    pub fn leaves(&mut self, e: E) -> Leaves {
        if let Some(l) = self.leaves.get(&e) {
            return l.clone();
        }
        let mut v: Vec<E> = vec![];
        match self.node(e) {
            Node::Var(_) | Node::Byte(..) => v.push(e),
            _ => {
                for k in self.kids(e) {
                    v.extend(self.leaves(k).iter());
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        let r = Rc::new(v);
        self.leaves.insert(e, r.clone());
        r
    }
    /// As `leaves`, with the leaves of the positions of bytes.
    pub fn all_leaves(&mut self, e: E) -> Leaves {
        if let Some(l) = self.all_leaves.get(&e) {
            return l.clone();
        }
        let mut v: Vec<E> = vec![];
        if matches!(self.node(e), Node::Var(_) | Node::Byte(..)) {
            v.push(e);
        }
        for k in self.kids(e) {
            v.extend(self.all_leaves(k).iter());
        }
        v.sort_unstable();
        v.dedup();
        let r = Rc::new(v);
        self.all_leaves.insert(e, r.clone());
        r
    }
    pub fn kids(&self, e: E) -> Vec<E> {
        match self.node(e) {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Byte(_, a)
            | Node::Not(a)
            | Node::ZExt(a)
            | Node::SExt(a)
            | Node::Extract(a, _) => vec![*a],
            Node::Sum(t, _) => t.iter().map(|x| x.0).collect(),
            Node::Mul(a, b)
            | Node::UDiv(a, b)
            | Node::URem(a, b)
            | Node::SDiv(a, b)
            | Node::SRem(a, b)
            | Node::And(a, b)
            | Node::Or(a, b)
            | Node::Xor(a, b)
            | Node::Shl(a, b)
            | Node::LShr(a, b)
            | Node::AShr(a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Ule(a, b)
            | Node::Slt(a, b)
            | Node::Sle(a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Concat(p) => p.to_vec(),
        }
    }

    /// Evaluate under a model; missing variables and bytes read as their
    /// lower bound and zero.
    pub fn eval(&self, e: E, model: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(v) = self.cv(e) {
            return v;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.w(e);
        let m = mask(w);
        macro_rules! ev {
            ($x:expr) => {
                self.eval($x, model, memo)
            };
        }
        let v = match *self.node(e) {
            Node::Const(v) => v,
            Node::Var(i) => match model.vars.get(&i) {
                Some(v) => *v,
                None => self.range(e).0,
            },
            Node::Byte(t, p) => {
                let p = ev!(p);
                *model.bytes.get(&(t, p as u64)).unwrap_or(&0) as u128
            }
            Node::Sum(ref t, c) => {
                let mut a = c;
                for &(x, k) in t.iter() {
                    a = a.wrapping_add(ev!(x).wrapping_mul(k));
                }
                a & m
            }
            Node::Mul(a, b) => ev!(a).wrapping_mul(ev!(b)) & m,
            Node::UDiv(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Node::URem(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Node::SDiv(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), sext_val(ev!(b), w));
                if y == 0 {
                    m
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Node::SRem(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), sext_val(ev!(b), w));
                if y == 0 {
                    x as u128 & m
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Node::And(a, b) => ev!(a) & ev!(b),
            Node::Or(a, b) => ev!(a) | ev!(b),
            Node::Xor(a, b) => ev!(a) ^ ev!(b),
            Node::Shl(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y >= w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Node::LShr(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Node::AShr(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), ev!(b));
                ((x >> y.min(127)) as u128) & m
            }
            Node::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            Node::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            Node::Ule(a, b) => (ev!(a) <= ev!(b)) as u128,
            Node::Slt(a, b) => {
                let q = self.w(a);
                (sext_val(ev!(a), q) < sext_val(ev!(b), q)) as u128
            }
            Node::Sle(a, b) => {
                let q = self.w(a);
                (sext_val(ev!(a), q) <= sext_val(ev!(b), q)) as u128
            }
            Node::Not(a) => 1 - ev!(a),
            Node::Ite(c, a, b) => {
                if ev!(c) == 1 {
                    ev!(a)
                } else {
                    ev!(b)
                }
            }
            Node::ZExt(a) => ev!(a),
            Node::SExt(a) => sext_val(ev!(a), self.w(a)) as u128 & m,
            Node::Extract(a, lo) => (ev!(a) >> lo) & m,
            Node::Concat(ref p) => {
                let mut r = 0;
                for &x in p.iter() {
                    r = r << 8 | ev!(x);
                }
                r
            }
        };
        memo.insert(e, v);
        v
    }

    /// Evaluate under an assignment of variables and bytes, each byte on its
    /// own; the missing ones read as their lower bound.
    pub fn eval_leaves(&self, e: E, model: &HashMap<E, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(v) = self.cv(e) {
            return v;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.w(e);
        let m = mask(w);
        macro_rules! ev {
            ($x:expr) => {
                self.eval_leaves($x, model, memo)
            };
        }
        let v = match *self.node(e) {
            Node::Const(v) => v,
            Node::Var(_) | Node::Byte(..) => match model.get(&e) {
                Some(v) => *v,
                None => self.range(e).0,
            },
            Node::Sum(ref t, c) => {
                let mut a = c;
                for &(x, k) in t.iter() {
                    a = a.wrapping_add(ev!(x).wrapping_mul(k));
                }
                a & m
            }
            Node::Mul(a, b) => ev!(a).wrapping_mul(ev!(b)) & m,
            Node::UDiv(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Node::URem(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Node::SDiv(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), sext_val(ev!(b), w));
                if y == 0 {
                    m
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Node::SRem(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), sext_val(ev!(b), w));
                if y == 0 {
                    x as u128 & m
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Node::And(a, b) => ev!(a) & ev!(b),
            Node::Or(a, b) => ev!(a) | ev!(b),
            Node::Xor(a, b) => ev!(a) ^ ev!(b),
            Node::Shl(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y >= w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Node::LShr(a, b) => {
                let (x, y) = (ev!(a), ev!(b));
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Node::AShr(a, b) => {
                let (x, y) = (sext_val(ev!(a), w), ev!(b));
                ((x >> y.min(127)) as u128) & m
            }
            Node::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            Node::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            Node::Ule(a, b) => (ev!(a) <= ev!(b)) as u128,
            Node::Slt(a, b) => {
                let q = self.w(a);
                (sext_val(ev!(a), q) < sext_val(ev!(b), q)) as u128
            }
            Node::Sle(a, b) => {
                let q = self.w(a);
                (sext_val(ev!(a), q) <= sext_val(ev!(b), q)) as u128
            }
            Node::Not(a) => 1 - ev!(a),
            Node::Ite(c, a, b) => {
                if ev!(c) == 1 {
                    ev!(a)
                } else {
                    ev!(b)
                }
            }
            Node::ZExt(a) => ev!(a),
            Node::SExt(a) => sext_val(ev!(a), self.w(a)) as u128 & m,
            Node::Extract(a, lo) => (ev!(a) >> lo) & m,
            Node::Concat(ref p) => {
                let mut r = 0;
                for &x in p.iter() {
                    r = r << 8 | ev!(x);
                }
                r
            }
        };
        memo.insert(e, v);
        v
    }

    /// Render as SMT-LIB. Width-1 is Bool.
    pub fn smt_node(&self, e: E, name: &dyn Fn(E) -> String) -> String {
        let w = self.w(e);
        let n = |x: E| name(x);
        let bin = |op: &str, a: E, b: E| format!("({} {} {})", op, n(a), n(b));
        match self.node(e) {
            Node::Const(v) => const_smt(*v, w),
            Node::Var(i) => format!("v{}", i),
            Node::Byte(t, p) => format!("(tape{} {})", t, n(*p)),
            Node::Sum(t, c) => {
                let mut s = String::from("(bvadd");
                for &(x, k) in t.iter() {
                    if k == 1 {
                        s += &format!(" {}", n(x));
                    } else {
                        s += &format!(" (bvmul {} {})", n(x), const_smt(k, w));
                    }
                }
                s += &format!(" {})", const_smt(*c, w));
                s
            }
            Node::Mul(a, b) => bin("bvmul", *a, *b),
            Node::UDiv(a, b) => bin("bvudiv", *a, *b),
            Node::URem(a, b) => bin("bvurem", *a, *b),
            Node::SDiv(a, b) => bin("bvsdiv", *a, *b),
            Node::SRem(a, b) => bin("bvsrem", *a, *b),
            Node::And(a, b) => bin(if w == 1 { "and" } else { "bvand" }, *a, *b),
            Node::Or(a, b) => bin(if w == 1 { "or" } else { "bvor" }, *a, *b),
            Node::Xor(a, b) => bin(if w == 1 { "xor" } else { "bvxor" }, *a, *b),
            Node::Shl(a, b) => bin("bvshl", *a, *b),
            Node::LShr(a, b) => bin("bvlshr", *a, *b),
            Node::AShr(a, b) => bin("bvashr", *a, *b),
            Node::Eq(a, b) => bin("=", *a, *b),
            Node::Ult(a, b) => {
                if self.w(*a) == 1 {
                    format!("(and (not {}) {})", n(*a), n(*b))
                } else {
                    bin("bvult", *a, *b)
                }
            }
            Node::Ule(a, b) => {
                if self.w(*a) == 1 {
                    format!("(=> {} {})", n(*a), n(*b))
                } else {
                    bin("bvule", *a, *b)
                }
            }
            Node::Slt(a, b) => {
                assert!(self.w(*a) > 1);
                bin("bvslt", *a, *b)
            }
            Node::Sle(a, b) => {
                assert!(self.w(*a) > 1);
                bin("bvsle", *a, *b)
            }
            Node::Not(a) => format!("(not {})", n(*a)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", n(*c), n(*a), n(*b)),
            Node::ZExt(a) => {
                let wa = self.w(*a);
                if wa == 1 {
                    format!("(ite {} {} {})", n(*a), const_smt(1, w), const_smt(0, w))
                } else {
                    format!("((_ zero_extend {}) {})", w - wa, n(*a))
                }
            }
            Node::SExt(a) => {
                let wa = self.w(*a);
                if wa == 1 {
                    format!("(ite {} {} {})", n(*a), const_smt(mask(w), w), const_smt(0, w))
                } else {
                    format!("((_ sign_extend {}) {})", w - wa, n(*a))
                }
            }
            Node::Extract(a, lo) => {
                let s = format!("((_ extract {} {}) {})", lo + w - 1, lo, n(*a));
                if w == 1 {
                    format!("(= {} #b1)", s)
                } else {
                    s
                }
            }
            Node::Concat(p) => {
                let mut s = String::from("(concat");
                for &x in p.iter() {
                    s += " ";
                    s += &n(x);
                }
                s + ")"
            }
        }
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        if depth == 0 {
            return format!("n{}", e);
        }
        let f = |x: E| self.show(x, depth - 1);
        self.smt_node(e, &f)
    }
}

pub fn const_smt(v: u128, w: u16) -> String {
    if w == 1 {
        return if v == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

pub fn sum_no_wrap(t: &[(E, u128)], c: u128, m: u128, r: impl Fn(E) -> (u128, u128)) -> bool {
    let mut hi = c;
    for &(e, k) in t {
        match r(e).1.checked_mul(k).and_then(|x| hi.checked_add(x)) {
            Some(v) if v <= m => hi = v,
            _ => return false,
        }
    }
    true
}

pub fn sum_range(
    t: &[(E, u128)],
    c: u128,
    m: u128,
    r: impl Fn(E) -> (u128, u128),
) -> (u128, u128) {
    if sum_no_wrap(t, c, m, &r) {
        let (mut lo, mut hi) = (c, c);
        for &(e, k) in t {
            let x = r(e);
            lo += x.0 * k;
            hi += x.1 * k;
        }
        return (lo, hi);
    }
    // Negative coefficients and constants: signed interval arithmetic.
    let h = m >> 1;
    let signed = |k: u128| -> i128 {
        if k > h {
            (k as i128).wrapping_sub(m as i128).wrapping_sub(1)
        } else {
            k as i128
        }
    };
    if m > u64::MAX as u128 {
        return (0, m);
    }
    let (mut lo, mut hi) = (signed(c), signed(c));
    for &(e, k) in t {
        let x = r(e);
        let k = signed(k);
        let (a, b) = match (
            (x.0 as i128).checked_mul(k),
            (x.1 as i128).checked_mul(k),
        ) {
            (Some(a), Some(b)) => (a.min(b), a.max(b)),
            _ => return (0, m),
        };
        lo = match lo.checked_add(a) {
            Some(v) => v,
            None => return (0, m),
        };
        hi = match hi.checked_add(b) {
            Some(v) => v,
            None => return (0, m),
        };
    }
    if lo >= 0 && hi <= m as i128 {
        (lo as u128, hi as u128)
    } else {
        (0, m)
    }
}

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub bytes: HashMap<(u32, u64), u8>,
}
