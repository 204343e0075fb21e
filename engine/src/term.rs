//! Hash-consed value-graph terms with a normal form.
//!
//! A term is a node of the gated-SSA value graph of the analysed function.  Two expressions that the
//! normalisation rules identify are the same node (same id), so equivalence of two functions is equality
//! of node ids.  Rules are equalities of fixed-width bit-vector arithmetic; no solver is involved.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Item {
    pub atom: T,
    pub sh: i16,
    pub mask: u128, // destination bits covered
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Mon {
    pub vars: Vec<T>,
    pub c: u128,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    /// xor of moved slices of atoms and a constant: the GF(2)/bit-movement layer
    Bits { k: u128, items: Box<[Item]> },
    /// polynomial modulo 2^w
    Lin { k: u128, mons: Box<[Mon]> },
    And(Box<[T]>),
    Eq(T, u128),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Sel(T, Box<[(u128, T)]>),
    Udiv(T, T),
    Urem(T, T),
    Sdiv(T, T),
    Srem(T, T),
    Shl(T, T),
    Lshr(T, T),
    Ashr(T, T),
    Sext(T),
    /// opaque function symbol applied to arguments
    App(u32, Box<[T]>),
    /// i-th output byte of an opaque digest
    Byte(T, u32),
    /// element of an opaque array at an index
    Rd(T, T),
    // ---- array terms (width 0) and loop terms: used by the generic (symbolic trip count) mode
    AConst(T),             // array filled with one value
    Store(T, T, T),        // array, index, value
    ASel(T, T, T),         // cond, array, array
    Bound(u32, u32, u8),   // loop level, index of canonical phi, kind (0 scalar, 1 array)
    Iter(u32),             // iteration counter of the loop at that level
    /// exit value of a loop: level, [init..], [next..], continue-condition, selected phi
    Exit { lvl: u32, inits: Box<[T]>, nexts: Box<[T]>, cond: T, val: T },
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub ones: u128,
    pub lo: u128,
    pub hi: u128,
    pub span: u32,
    /// bitmask of loop levels that occur free (Bound/Iter) in the term
    pub free: u64,
}

/// the analysed target: pointer width in bits and byte order
pub static TARGET_PW: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(64);
pub static TARGET_BE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[inline]
pub fn pw() -> u16 { TARGET_PW.load(std::sync::atomic::Ordering::Relaxed) }
#[inline]
pub fn be() -> bool { TARGET_BE.load(std::sync::atomic::Ordering::Relaxed) }
pub fn fm(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
fn shm(m: u128, s: i32) -> u128 {
    if s >= 128 || s <= -128 { 0 } else if s >= 0 { m << s } else { m >> (-s) }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    if v >> (w - 1) & 1 == 1 { (v | !fm(w)) as i128 } else { v as i128 }
}
fn bits_up(hi: u128) -> u128 {
    if hi == 0 { 0 } else { fm((128 - hi.leading_zeros()) as u16) }
}

/// multiplicative hasher (fast on small integer keys)
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0.rotate_left(26) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(w)); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95); }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_i16(&mut self, i: i16) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: HashMap<u64, T, FxB>,
    /// nodes with the same hash
    chain: Vec<T>,
    /// approximate size of the graph in bytes
    pub mem: usize,
    pub names: Vec<String>,
    name_map: HashMap<String, u32>,
    pub cur_span: u32,
    pub interned: u64,
    assumed: HashMap<(T, T, u8), T, FxB>,
    truncs: HashMap<(T, u16), T, std::hash::BuildHasherDefault<Fx>>,
}

/// a sum of at least this many words is not flattened into the sums that use it: keeps long histories linear
const CUT: usize = 64;
impl Arena {
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.name_map.get(s) { return i; }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.name_map.insert(s.to_string(), i);
        i
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 { self.n[t as usize].w }
    #[inline]
    pub fn op(&self, t: T) -> &Op { &self.n[t as usize].op }
    pub fn ones(&self, t: T) -> u128 { self.n[t as usize].ones }
    pub fn free(&self, t: T) -> u64 { self.n[t as usize].free }
    pub fn as_const(&self, t: T) -> Option<u128> {
        if let Op::Const(c) = self.n[t as usize].op { Some(c) } else { None }
    }
    pub fn rng(&self, t: T) -> (u128, u128) { (self.n[t as usize].lo, self.n[t as usize].hi) }

    pub fn children(&self, t: T) -> Vec<T> {
        match self.op(t) {
            Op::Const(_) | Op::Var(_) | Op::Bound(..) | Op::Iter(_) => vec![],
            Op::Bits { items, .. } => items.iter().map(|i| i.atom).collect(),
            Op::Lin { mons, .. } => mons.iter().flat_map(|m| m.vars.iter().copied()).collect(),
            Op::And(v) => v.to_vec(),
            Op::App(_, v) => v.to_vec(),
            Op::Eq(a, _) | Op::Sext(a) | Op::Byte(a, _) | Op::AConst(a) => vec![*a],
            Op::Ult(a, b) | Op::Slt(a, b) | Op::Udiv(a, b) | Op::Urem(a, b) | Op::Sdiv(a, b) | Op::Srem(a, b)
            | Op::Shl(a, b) | Op::Lshr(a, b) | Op::Ashr(a, b) | Op::Rd(a, b) => vec![*a, *b],
            Op::Ite(a, b, c) | Op::Store(a, b, c) | Op::ASel(a, b, c) => vec![*a, *b, *c],
            Op::Sel(x, v) => std::iter::once(*x).chain(v.iter().map(|p| p.1)).collect(),
            Op::Exit { inits, nexts, cond, val, .. } => {
                let mut v = inits.to_vec();
                v.extend_from_slice(nexts);
                v.push(*cond);
                v.push(*val);
                v
            }
        }
    }

    pub fn intern(&mut self, op: Op, w: u16) -> T {
        use std::hash::{Hash, Hasher};
        let mut h = Fx::default();
        op.hash(&mut h);
        w.hash(&mut h);
        let h = h.finish();
        let head = self.map.get(&h).copied().unwrap_or(T::MAX);
        let mut c = head;
        while c != T::MAX {
            let n = &self.n[c as usize];
            if n.w == w && n.op == op { return c; }
            c = self.chain[c as usize];
        }
        self.interned += 1;
        let (ones, lo, hi) = self.info(&op, w);
        let free = self.free_of(&op);
        let t = self.n.len() as T;
        self.mem += 200 + match &op {
            Op::Bits { items, .. } => items.len() * 32,
            Op::Lin { mons, .. } => mons.len() * 80,
            Op::Sel(_, v) => v.len() * 32,
            Op::And(v) | Op::App(_, v) => v.len() * 4,
            _ => 0,
        };
        self.n.push(Node { op, w, ones, lo, hi, span: self.cur_span, free });
        self.chain.push(head);
        self.map.insert(h, t);
        t
    }
    fn free_of(&self, op: &Op) -> u64 {
        let f = |t: &T| self.n[*t as usize].free;
        match op {
            Op::Const(_) | Op::Var(_) => 0,
            Op::Bound(l, ..) | Op::Iter(l) => 1u64 << (*l).min(63),
            Op::Bits { items, .. } => items.iter().fold(0, |a, i| a | f(&i.atom)),
            Op::Lin { mons, .. } => mons.iter().flat_map(|m| m.vars.iter()).fold(0, |a, v| a | f(v)),
            Op::And(v) | Op::App(_, v) => v.iter().fold(0, |a, v| a | f(v)),
            Op::Eq(a, _) | Op::Sext(a) | Op::Byte(a, _) | Op::AConst(a) => f(a),
            Op::Ult(a, b) | Op::Slt(a, b) | Op::Udiv(a, b) | Op::Urem(a, b) | Op::Sdiv(a, b) | Op::Srem(a, b)
            | Op::Shl(a, b) | Op::Lshr(a, b) | Op::Ashr(a, b) | Op::Rd(a, b) => f(a) | f(b),
            Op::Ite(a, b, c) | Op::Store(a, b, c) | Op::ASel(a, b, c) => f(a) | f(b) | f(c),
            Op::Sel(x, v) => v.iter().fold(f(x), |a, p| a | f(&p.1)),
            Op::Exit { lvl, inits, nexts, cond, val } => {
                let i = inits.iter().fold(0, |a, v| a | f(v));
                let b = nexts.iter().fold(f(cond) | f(val), |a, v| a | f(v));
                i | (b & !(1u64 << (*lvl).min(63)))
            }
        }
    }
    fn info(&self, op: &Op, w: u16) -> (u128, u128, u128) {
        let full = fm(w);
        let node = |t: &T| &self.n[*t as usize];
        match op {
            Op::Const(c) => (*c, *c, *c),
            Op::Bits { k, items } => {
                let mut o = *k;
                for i in items.iter() { o |= i.mask & shm(node(&i.atom).ones, i.sh as i32); }
                // exact range for a single right-shifted / zero-extended atom
                if *k == 0 && items.len() == 1 && items[0].sh <= 0 {
                    let a = node(&items[0].atom);
                    let s = -(items[0].sh as i32);
                    let hi = shm(a.hi, -s);
                    if items[0].mask & bits_up(hi) == bits_up(hi) {
                        return (o, shm(a.lo, -s), hi);
                    }
                }
                (o, 0, o)
            }
            Op::Lin { k, mons } => {
                // integer interval with signed coefficients
                let mut tz = k.trailing_zeros().min(127);
                for m in mons.iter() {
                    let mut z = m.c.trailing_zeros();
                    for v in &m.vars { z += node(v).ones.trailing_zeros().min(128); }
                    tz = tz.min(z);
                }
                let tzm = if tz >= 127 { u128::MAX } else { !((1u128 << tz) - 1) } & full;
                if let Some((lo, hi)) = self.lin_interval(*k, mons, w) {
                    if lo >= 0 && (hi as u128) <= full {
                        return (bits_up(hi as u128) & tzm, lo as u128, hi as u128);
                    }
                }
                (tzm, 0, full)
            }
            Op::And(v) => {
                let mut o = full;
                let mut hi = full;
                for t in v.iter() { o &= node(t).ones; hi = hi.min(node(t).hi); }
                (o, 0, hi.min(o))
            }
            Op::Ite(_, a, b) => {
                let (a, b) = (node(a), node(b));
                (a.ones | b.ones, a.lo.min(b.lo), a.hi.max(b.hi))
            }
            Op::Sel(_, v) => {
                let mut o = 0;
                let (mut lo, mut hi) = (u128::MAX, 0);
                for (_, t) in v.iter() { let n = node(t); o |= n.ones; lo = lo.min(n.lo); hi = hi.max(n.hi); }
                (o, lo, hi)
            }
            Op::Udiv(a, b) => {
                let (a, b) = (node(a), node(b));
                let hi = if b.lo > 0 { a.hi / b.lo } else { a.hi };
                let lo = if b.hi > 0 { a.lo / b.hi } else { 0 };
                (bits_up(hi), lo, hi)
            }
            Op::Urem(a, b) => {
                let (a, b) = (node(a), node(b));
                let hi = if b.lo > 0 { a.hi.min(b.hi - 1) } else { a.hi };
                (bits_up(hi), 0, hi)
            }
            Op::Eq(..) | Op::Ult(..) | Op::Slt(..) => (1, 0, 1),
            Op::Lshr(a, _) => { let a = node(a); (bits_up(a.hi), 0, a.hi) }
            _ => (full, 0, full),
        }
    }
    pub fn lin_interval(&self, k: u128, mons: &[Mon], w: u16) -> Option<(i128, i128)> {
        if w > 64 { return None; }
        let mut lo = sx(k, w);
        let mut hi = lo;
        for m in mons {
            let c = sx(m.c, w);
            let (mut a, mut b) = (1i128, 1i128);
            for v in &m.vars {
                let (l, h) = self.irng(*v)?;
                let cand = [a.checked_mul(l)?, a.checked_mul(h)?, b.checked_mul(l)?, b.checked_mul(h)?];
                a = *cand.iter().min().unwrap();
                b = *cand.iter().max().unwrap();
            }
            let (x, y) = (c.checked_mul(a)?, c.checked_mul(b)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    fn irng(&self, t: T) -> Option<(i128, i128)> {
        let n = &self.n[t as usize];
        if n.hi > i128::MAX as u128 { return None; }
        Some((n.lo as i128, n.hi as i128))
    }
    /// signed interval of a term
    pub fn srng(&self, t: T) -> (i128, i128) {
        let w = self.w(t);
        let full = (sx(1u128 << (w - 1), w), (fm(w) >> 1) as i128);
        if let Op::Lin { k, mons } = self.op(t) {
            if let Some((lo, hi)) = self.lin_interval(*k, mons, w) {
                if lo >= full.0 && hi <= full.1 { return (lo, hi); }
            }
        }
        if let Op::Ite(_, a, b) = self.op(t) {
            let (a, b) = (self.srng(*a), self.srng(*b));
            return (a.0.min(b.0), a.1.max(b.1));
        }
        let (lo, hi) = self.rng(t);
        if hi <= fm(w) >> 1 { return (lo as i128, hi as i128); }
        if lo > fm(w) >> 1 { return (sx(lo, w), sx(hi, w)); }
        full
    }

    // ------------------------------------------------------------------ constructors
    pub fn k(&mut self, w: u16, v: u128) -> T { self.intern(Op::Const(v & fm(w)), w) }
    pub fn var(&mut self, w: u16, name: &str) -> T {
        let n = self.name(name);
        self.intern(Op::Var(n), w)
    }
    pub fn tt(&mut self) -> T { self.k(1, 1) }
    pub fn ff(&mut self) -> T { self.k(1, 0) }
    pub fn bool(&mut self, b: bool) -> T { self.k(1, b as u128) }

    fn view_items(&self, t: T, w: u16, shift: i32, mask: u128, out: &mut Vec<Item>, kk: &mut u128) {
        // items of ((zext t) << shift) & mask in width w
        let mask = mask & fm(w);
        match self.op(t) {
            Op::Const(c) => { *kk ^= shm(*c, shift) & mask; return; }
            Op::Bits { k, items } => {
                let moved: Vec<Item> = items.iter()
                    .map(|i| Item { atom: i.atom, sh: i.sh + shift as i16, mask: shm(i.mask, shift) & mask })
                    .filter(|i| i.mask != 0).collect();
                let one_atom = items.iter().all(|i| i.atom == items[0].atom);
                let mut acc = 0u128;
                let mut disj = true;
                for i in &moved { if acc & i.mask != 0 { disj = false; } acc |= i.mask; }
                let whole = shift == 0 && mask & shm(self.ones(t), 0) == self.ones(t) && self.w(t) <= w;
                if one_atom || disj || whole && items.len() < CUT {
                    out.extend(moved);
                    *kk ^= shm(*k, shift) & mask;
                    return;
                }
            }
            _ => {}
        }
        let m = mask & shm(self.ones(t), shift);
        if m != 0 { out.push(Item { atom: t, sh: shift as i16, mask: m }); }
    }
    fn from_items(&mut self, w: u16, mut k: u128, mut items: Vec<Item>) -> T {
        k &= fm(w);
        loop {
            items.sort_by_key(|i| (i.atom, i.sh));
            let mut out: Vec<Item> = Vec::with_capacity(items.len());
            for i in items.iter() {
                if let Some(l) = out.last_mut() {
                    if l.atom == i.atom && l.sh == i.sh { l.mask ^= i.mask; continue; }
                }
                out.push(*i);
            }
            out.retain(|i| i.mask != 0);
            // inline an xor node that is present as a whole
            let mut again = false;
            let mut nxt: Vec<Item> = Vec::with_capacity(out.len());
            for i in out.iter() {
                if i.sh == 0 {
                    if let Op::Bits { k: k2, items: it2 } = self.op(i.atom) {
                        if i.mask == self.ones(i.atom) && self.w(i.atom) <= w && it2.len() < CUT {
                            k ^= *k2;
                            nxt.extend_from_slice(it2);
                            again = true;
                            continue;
                        }
                    }
                }
                nxt.push(*i);
            }
            items = nxt;
            if !again { break; }
        }
        if items.is_empty() { return self.k(w, k); }
        if k == 0 && items.len() == 1 {
            let i = items[0];
            if i.sh == 0 && self.w(i.atom) == w && i.mask == self.ones(i.atom) { return i.atom; }
        }
        self.intern(Op::Bits { k, items: items.into_boxed_slice() }, w)
    }
    /// ((zext t to w) << shift) & mask
    pub fn mov(&mut self, t: T, w: u16, shift: i32, mask: u128) -> T {
        let mut items = vec![];
        let mut k = 0;
        self.view_items(t, w, shift, mask, &mut items, &mut k);
        self.from_items(w, k, items)
    }
    pub fn xor_n(&mut self, w: u16, ts: &[T]) -> T {
        let mut items = vec![];
        let mut k = 0;
        for &t in ts { debug_assert_eq!(self.w(t), w); self.view_items(t, w, 0, fm(w), &mut items, &mut k); }
        self.from_items(w, k, items)
    }
    pub fn xor(&mut self, a: T, b: T) -> T { let w = self.w(a); self.xor_n(w, &[a, b]) }
    pub fn not(&mut self, a: T) -> T { let w = self.w(a); let o = self.k(w, fm(w)); self.xor(a, o) }
    pub fn zext(&mut self, t: T, w: u16) -> T { if self.w(t) == w { t } else { self.mov(t, w, 0, fm(w)) } }
    pub fn trunc(&mut self, t: T, w: u16) -> T {
        if self.w(t) == w { return t; }
        // truncation distributes over polynomials: keep sums canonical
        if let Op::Lin { k, mons } = self.op(t).clone() {
            let k2 = k & fm(w);
            let ms: Vec<Mon> = mons.iter().map(|m| Mon { vars: m.vars.clone(), c: m.c & fm(w) }).filter(|m| m.c != 0).collect();
            if w >= 8 {
                if let Some(&r) = self.truncs.get(&(t, w)) { return r; }
                let mut acc: Vec<(u128, Vec<T>)> = vec![];
                for m in ms { let vs: Vec<T> = m.vars.iter().map(|v| self.trunc(*v, w)).collect(); acc.push((m.c, vs)); }
                let r = self.lin_sum(w, k2, acc);
                self.truncs.insert((t, w), r);
                return r;
            }
        }
        if let Op::Bits { k: 0, items } = self.op(t) {
            if let [i] = items[..] { if i.sh == 0 && i.mask == fm(w) && w >= 8 && matches!(self.op(i.atom), Op::Lin { .. }) { return self.trunc(i.atom, w); } }
        }
        self.mov(t, w, 0, fm(w))
    }
    pub fn extract(&mut self, t: T, lo: u16, len: u16) -> T {
        if lo == 0 { return self.trunc(t, len); }
        self.mov(t, len, -(lo as i32), fm(len))
    }
    /// concatenation, least significant first
    pub fn concat(&mut self, parts: &[T]) -> T {
        let w: u16 = parts.iter().map(|p| self.w(*p)).sum();
        let mut items = vec![];
        let mut k = 0;
        let mut off = 0;
        for &p in parts {
            let pw = self.w(p);
            self.view_items(p, w, off, shm(fm(pw), off), &mut items, &mut k);
            off += pw as i32;
        }
        self.from_items(w, k, items)
    }
    pub fn shl_c(&mut self, t: T, s: u32) -> T { let w = self.w(t); if s as u16 >= w { return self.k(w, 0); } self.mov(t, w, s as i32, fm(w)) }
    pub fn lshr_c(&mut self, t: T, s: u32) -> T { let w = self.w(t); if s as u16 >= w { return self.k(w, 0); } self.mov(t, w, -(s as i32), fm(w)) }
    pub fn rotl_c(&mut self, t: T, s: u32) -> T {
        let w = self.w(t);
        let s = s % w as u32;
        if s == 0 { return t; }
        let mut items = vec![];
        let mut k = 0;
        // do not push a rotation through a proper xor: treat it as an atom
        let movable = match self.op(t) {
            Op::Bits { items, .. } => {
                let mut acc = 0u128; let mut d = true;
                for i in items.iter() { if acc & i.mask != 0 { d = false; } acc |= i.mask; }
                d || items.iter().all(|i| i.atom == items[0].atom)
            }
            _ => true,
        };
        if movable {
            self.view_items(t, w, s as i32, fm(w), &mut items, &mut k);
            self.view_items(t, w, s as i32 - w as i32, fm(w), &mut items, &mut k);
        } else {
            let o = self.ones(t);
            items.push(Item { atom: t, sh: s as i16, mask: shm(o, s as i32) & fm(w) });
            items.push(Item { atom: t, sh: s as i16 - w as i16, mask: shm(o, s as i32 - w as i32) & fm(w) });
            items.retain(|i| i.mask != 0);
        }
        self.from_items(w, k, items)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) { return self.mov(b, w, 0, c); }
        if let Some(c) = self.as_const(b) { return self.mov(a, w, 0, c); }
        if a == b { return a; }
        if self.ones(a) & self.ones(b) == 0 { return self.k(w, 0); }
        let mut v: Vec<T> = vec![];
        for t in [a, b] { if let Op::And(x) = self.op(t) { v.extend_from_slice(x); } else { v.push(t); } }
        v.sort();
        v.dedup();
        for i in 0..v.len() { let n = self.not(v[i]); if v.binary_search(&n).is_ok() { return self.k(w, 0); } }
        if w == 1 {
            // x==c1 & x==c2 with c1 != c2 is false; x==c & x!=d is x==c
            let eqs: Vec<(T, u128)> = v.iter().filter_map(|t| if let Op::Eq(x, c) = self.op(*t) { Some((*x, *c)) } else { None }).collect();
            for i in 0..eqs.len() { for j in 0..i { if eqs[i].0 == eqs[j].0 && eqs[i].1 != eqs[j].1 { return self.k(1, 0); } } }
            let mut drop = vec![];
            for &t in &v {
                let n = self.not(t);
                if let Op::Eq(x, c) = self.op(n) { if eqs.iter().any(|e| e.0 == *x && e.1 != *c) { drop.push(t); } }
            }
            v.retain(|t| !drop.contains(t));
            // an Eq constraint decides comparisons of the same term with constants
            for &(x, c) in &eqs {
                let kc = { let w = self.w(x); self.k(w, c) };
                let mut out = vec![];
                for &t in &v {
                    let neg = self.not(t);
                    let (core, ng) = if matches!(self.op(t), Op::Bits { .. }) { (neg, true) } else { (t, false) };
                    let r = match self.op(core).clone() {
                        Op::Ult(a, b) if a == x && self.as_const(b).is_some() => Some(self.ult(kc, b)),
                        Op::Ult(a, b) if b == x && self.as_const(a).is_some() => Some(self.ult(a, kc)),
                        Op::Slt(a, b) if a == x && self.as_const(b).is_some() => Some(self.slt(kc, b)),
                        Op::Slt(a, b) if b == x && self.as_const(a).is_some() => Some(self.slt(a, kc)),
                        _ => None,
                    };
                    match r {
                        Some(r) => { let r = if ng { self.not(r) } else { r }; match self.as_const(r) { Some(0) => return self.k(1, 0), Some(_) => {}, None => out.push(t) } }
                        None => out.push(t),
                    }
                }
                v = out;
            }
        }
        if v.is_empty() { return self.k(w, fm(w)); }
        if v.len() == 1 { return v[0]; }
        self.intern(Op::And(v.into_boxed_slice()), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b { return a; }
        if self.ones(a) & self.ones(b) == 0 { return self.xor(a, b); }
        let w = self.w(a);
        if let Some(c) = self.as_const(a) { let m = self.mov(b, w, 0, !c & fm(w)); return self.xor(a, m); }
        if let Some(c) = self.as_const(b) { let m = self.mov(a, w, 0, !c & fm(w)); return self.xor(b, m); }
        let (na, nb) = (self.not(a), self.not(b));
        let n = self.and(na, nb);
        self.not(n)
    }

    // ------------------------------------------------------------------ polynomials
    pub fn to_lin(&mut self, t: T) -> (u128, Vec<Mon>) {
        let w = self.w(t);
        if let Op::Lin { mons, .. } = self.op(t) { if mons.len() > 160 { return (0, vec![Mon { vars: vec![t], c: 1 }]); } }
        match self.op(t).clone() {
            Op::Const(c) => (c, vec![]),
            // a very long sum (a word that is only ever added to) is an atom of later sums
            Op::Lin { k, mons } if mons.len() <= 160 => (k, mons.to_vec()),
            Op::Bits { k, items } if items.len() == 1 => {
                let i = items[0];
                if k == fm(w) && i.sh == 0 && i.mask == self.ones(i.atom) && self.w(i.atom) == w {
                    // !x == -x - 1
                    let (ik, im) = self.to_lin(i.atom);
                    let mons = im.into_iter().map(|m| Mon { vars: m.vars, c: m.c.wrapping_neg() & fm(w) }).collect();
                    return (ik.wrapping_neg().wrapping_sub(1) & fm(w), mons);
                }
                if k & i.mask == 0 && (i.sh > 0 || k != 0) {
                    let s = i.sh.max(0) as i32;
                    let base = self.mov_item(i, w, s);
                    return (k, vec![Mon { vars: vec![base], c: shm(1, s) & fm(w) }]);
                }
                (0, vec![Mon { vars: vec![t], c: 1 }])
            }
            _ => (0, vec![Mon { vars: vec![t], c: 1 }]),
        }
    }
    fn mov_item(&mut self, i: Item, w: u16, s: i32) -> T {
        let it = Item { atom: i.atom, sh: i.sh - s as i16, mask: shm(i.mask, -s) };
        // for a left shift that pushed bits out, the lost bits do not matter modulo 2^w
        let full = shm(self.ones(i.atom), it.sh as i32) & fm(w);
        let cut = full & shm(fm(w), -s);
        let mask = if it.mask == cut { full } else { it.mask };
        if it.sh == 0 && mask == self.ones(i.atom) && self.w(i.atom) == w { return i.atom; }
        self.from_items(w, 0, vec![Item { mask, ..it }])
    }
    pub fn from_lin(&mut self, w: u16, k: u128, mut mons: Vec<Mon>) -> T {
        let k = k & fm(w);
        mons.sort_by(|a, b| a.vars.cmp(&b.vars));
        let mut out: Vec<Mon> = vec![];
        for m in mons {
            if let Some(l) = out.last_mut() { if l.vars == m.vars { l.c = l.c.wrapping_add(m.c) & fm(w); continue; } }
            out.push(Mon { c: m.c & fm(w), vars: m.vars });
        }
        out.retain(|m| m.c != 0);
        if out.is_empty() { return self.k(w, k); }
        if out.len() == 1 && out[0].vars.len() == 1 {
            let v = out[0].vars[0];
            if k == 0 && out[0].c == 1 { return v; }
            if k == 0 && out[0].c.is_power_of_two() { let s = out[0].c.trailing_zeros(); return self.shl_c(v, s); }
            if k == fm(w) && out[0].c == fm(w) { return self.not(v); }
        }
        // disjoint sums of powers of two are bit concatenations
        if w > 1 && out.iter().all(|m| m.vars.len() == 1 && m.c.is_power_of_two()) && out.len() <= 16 {
            let mut acc = k;
            let mut ok = true;
            for m in &out {
                let o = shm(self.ones(m.vars[0]), m.c.trailing_zeros() as i32) & fm(w);
                if acc & o != 0 { ok = false; break; }
                acc |= o;
            }
            if ok {
                let kk = self.k(w, k);
                let mut v = vec![kk];
                for m in &out { let s = m.c.trailing_zeros(); let x = self.shl_c(m.vars[0], s); v.push(x); }
                return self.xor_n(w, &v);
            }
        }
        self.intern(Op::Lin { k, mons: out.into_boxed_slice() }, w)
    }
    /// k + sum of products
    fn lin_sum(&mut self, w: u16, mut k: u128, acc: Vec<(u128, Vec<T>)>) -> T {
        let mut all = vec![];
        for (c, vs) in acc {
            let mut p = self.k(w, c);
            for v in vs { p = self.mul(p, v); }
            let (kk, m) = self.to_lin(p);
            k = k.wrapping_add(kk);
            all.extend(m);
        }
        self.from_lin(w, k, all)
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        if self.as_const(a) == Some(0) { return b; }
        if self.as_const(b) == Some(0) { return a; }
        let (k1, mut m1) = self.to_lin(a);
        let (k2, m2) = self.to_lin(b);
        m1.extend(m2);
        self.from_lin(w, k1.wrapping_add(k2), m1)
    }
    pub fn neg(&mut self, a: T) -> T { let w = self.w(a); let m = self.k(w, fm(w)); self.mul(m, a) }
    pub fn sub(&mut self, a: T, b: T) -> T { let n = self.neg(b); self.add(a, n) }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 { return self.and(a, b); }
        let (k1, m1) = self.to_lin(a);
        let (k2, m2) = self.to_lin(b);
        if !m1.is_empty() && !m2.is_empty() && (m1.len() + 1) * (m2.len() + 1) > 64 {
            let mut v = vec![a, b];
            v.sort();
            return self.from_lin(w, 0, vec![Mon { vars: v, c: 1 }]);
        }
        let mut out = vec![];
        for m in &m1 { out.push(Mon { vars: m.vars.clone(), c: m.c.wrapping_mul(k2) & fm(w) }); }
        for m in &m2 { out.push(Mon { vars: m.vars.clone(), c: m.c.wrapping_mul(k1) & fm(w) }); }
        for x in &m1 { for y in &m2 {
            let mut v = x.vars.clone();
            v.extend_from_slice(&y.vars);
            v.sort();
            out.push(Mon { vars: v, c: x.c.wrapping_mul(y.c) & fm(w) });
        } }
        self.from_lin(w, k1.wrapping_mul(k2), out)
    }

    // ------------------------------------------------------------------ comparisons
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.tt(); }
        if w == 0 { // arrays / digests: only syntactic
            let n = self.name("array_eq");
            let (x, y) = (a.min(b), a.max(b));
            return self.intern(Op::App(n, vec![x, y].into_boxed_slice()), 1);
        }
        if w == 1 { let x = self.xor(a, b); return self.not(x); }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.bool(x == y); }
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 { return self.ff(); }
        if let (Some(_), Some(_)) = (self.unzext(a), self.unzext(b)) { if let Some((x, y)) = self.unzext2(a, b) { return self.eq(x, y); } }
        // ite with constant arms against a constant
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(y) {
                if c & !self.ones(x) != 0 { return self.ff(); }
                if let Op::Ite(cc, p, q) = *self.op(x) {
                    let (pc, qc) = (self.as_const(p), self.as_const(q));
                    if pc.is_some() || qc.is_some() {
                        let ky = self.k(w, c);
                        let (e1, e2) = (self.eq(p, ky), self.eq(q, ky));
                        return self.ite(cc, e1, e2);
                    }
                }
            }
        }
        let d = self.sub(a, b);
        let (k, mons) = self.to_lin(d);
        if mons.is_empty() { return self.bool(k == 0); }
        if mons.len() == 1 && mons[0].vars.len() == 1 {
            // c*x + k == 0
            let (c, x) = (mons[0].c, mons[0].vars[0]);
            let tz = c.trailing_zeros();
            let odd = c >> tz;
            let nk = k.wrapping_neg() & fm(w);
            if nk & ((1u128 << tz) - 1) != 0 { return self.ff(); }
            // inverse of odd modulo 2^w
            let mut inv = 1u128;
            for _ in 0..7 { inv = inv.wrapping_mul(2u128.wrapping_sub(odd.wrapping_mul(inv))); }
            if tz == 0 {
                let v = nk.wrapping_mul(inv) & fm(w);
                if v & !self.ones(x) != 0 { return self.ff(); }
                let r = self.rng(x);
                if v < r.0 || v > r.1 { return self.ff(); }
                return self.eq_atom(x, v);
            }
            let sg = if c >> (w - 1) & 1 == 1 { c.wrapping_neg() & fm(w) } else { c };
            let nk2 = if c >> (w - 1) & 1 == 1 { k } else { nk };
            if let Some(m) = self.rng(x).1.checked_mul(sg) {
                if m <= fm(w) {
                    if nk2 % sg != 0 { return self.ff(); }
                    let v = nk2 / sg;
                    let r = self.rng(x);
                    if v < r.0 || v > r.1 || v & !self.ones(x) != 0 { return self.ff(); }
                    return self.eq_atom(x, v);
                }
            }
        }
        let nd = self.neg(d);
        let d2 = d.min(nd);
        // move the constant to the other side
        let (k, mons) = self.to_lin(d2);
        let x = self.from_lin(w, 0, mons);
        self.eq_atom(x, k.wrapping_neg() & fm(w))
    }
    /// the low bits of a sum or product do not depend on the width in which it is computed: a slice that uses few
    /// low bits of a wide linear form becomes one of the form computed in the narrowest width
    fn narrow(&mut self, x: T) -> T {
        let Op::Bits { k: 0, items } = self.op(x).clone() else { return x };
        if items.len() != 1 || items[0].sh != 0 { return x; }
        let i = items[0];
        if !matches!(self.op(i.atom), Op::Lin { .. }) { return x; }
        let nw: u16 = if i.mask < 1 << 8 { 8 } else if i.mask < 1 << 16 { 16 } else if i.mask < 1 << 32 { 32 } else { return x };
        if nw >= self.w(i.atom) { return x; }
        let y = self.trunc(i.atom, nw);
        self.mov(y, nw, 0, i.mask)
    }
    fn eq_atom(&mut self, x: T, c: u128) -> T {
        let x = self.narrow(x);
        if let Some(v) = self.as_const(x) { return self.bool(v == c); }
        let y = self.unzext(x).unwrap_or(x);
        if self.w(y) == 1 { return if c == 1 { y } else if c == 0 { self.not(y) } else { self.ff() }; }
        match self.op(x).clone() {
            Op::Ite(cc, p, q) if self.as_const(p).is_some() || self.as_const(q).is_some() => {
                let w = self.w(x);
                if c & !fm(w) != 0 { return self.ff(); }
                let ky = self.k(w, c);
                let (e1, e2) = (self.eq(p, ky), self.eq(q, ky));
                return self.ite(cc, e1, e2);
            }
            Op::And(v) if c == fm(self.w(x)) && v.len() <= 64 => {
                let ky = self.k(self.w(x), c);
                let mut r = self.tt();
                for y in v.iter() { let e = self.eq(*y, ky); r = self.and(r, e); }
                return r;
            }
            // a concatenation of slices of different words: slice by slice
            Op::Bits { k, items } if items.len() > 1 && items.len() <= 64 => {
                let w = self.w(x);
                let mut acc = 0u128;
                let mut ok = true;
                for (n, i) in items.iter().enumerate() { if acc & i.mask != 0 || items[..n].iter().any(|j| j.atom == i.atom) { ok = false; break; } acc |= i.mask; }
                if ok {
                    let c2 = c ^ k;
                    if c2 & !acc & fm(w) != 0 { return self.ff(); }
                    let mut r = self.tt();
                    for i in items.iter() {
                        let y = self.from_items(w, 0, vec![*i]);
                        let e = self.eq_atom(y, c2 & i.mask);
                        r = self.and(r, e);
                    }
                    return r;
                }
            }
            _ => {}
        }
        // strip a constant xor
        if let Op::Bits { k, items } = self.op(x).clone() {
            let w = self.w(x);
            if c & !self.ones(x) != 0 { return self.ff(); }
            if items.len() == 1 {
                let i = items[0];
                let c2 = (c ^ k) & fm(w);
                if c2 & !i.mask != 0 { return self.ff(); }
                if k != 0 || i.sh != 0 {
                    // compare the slice at its original position
                    let m = shm(i.mask, -(i.sh as i32));
                    let aw = self.w(i.atom);
                    let y = self.mov(i.atom, aw, 0, m);
                    let c3 = shm(c2, -(i.sh as i32));
                    if y != x { return self.eq_atom(y, c3); }
                } else if self.w(i.atom) != w {
                    let aw = self.w(i.atom);
                    let y = self.mov(i.atom, aw, 0, i.mask);
                    return self.eq_atom(y, c2);
                }
                if i.mask.count_ones() == 1 && items.len() == 1 {
                    // single bit test
                    let b = self.mov(x, 1, -(i.mask.trailing_zeros() as i32), 1);
                    return if c2 == 0 { self.not(b) } else { b };
                }
            } else if k != 0 {
                let y = self.from_items(w, 0, items.to_vec());
                return self.eq_atom(y, c ^ k);
            }
        }
        self.intern(Op::Eq(x, c), 1)
    }
    /// the value a zero extension extends
    fn unzext(&self, t: T) -> Option<T> {
        if let Op::Bits { k: 0, items } = self.op(t) {
            if let [i] = &items[..] { if i.sh == 0 && self.w(i.atom) < self.w(t) && i.mask == self.ones(i.atom) { return Some(i.atom); } }
        }
        None
    }
    /// both terms at the width they were extended from
    fn unzext2(&mut self, a: T, b: T) -> Option<(T, T)> {
        match (self.unzext(a), self.unzext(b)) {
            (Some(x), Some(y)) => {
                let n = self.w(x).max(self.w(y));
                let (x, y) = (self.zext(x, n), self.zext(y, n));
                Some((x, y))
            }
            (Some(x), None) => { let (c, n) = (self.as_const(b)?, self.w(x)); if c <= fm(n) { let k = self.k(n, c); Some((x, k)) } else { None } }
            (None, Some(y)) => { let (c, n) = (self.as_const(a)?, self.w(y)); if c <= fm(n) { let k = self.k(n, c); Some((k, y)) } else { None } }
            _ => None,
        }
    }
    /// b is a masked or right-shifted part of a, a quotient or a remainder of it: b <= a
    fn part_of(&self, b: T, a: T) -> bool {
        match self.op(b) {
            Op::Bits { k: 0, items } => items.len() == 1 && items[0].atom == a && items[0].sh <= 0,
            Op::Udiv(x, _) | Op::Urem(x, _) => *x == a,
            _ => false,
        }
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.ff(); }
        if let (Some(_), Some(_)) = (self.unzext(a), self.unzext(b)) { if let Some((x, y)) = self.unzext2(a, b) { return self.ult(x, y); } }
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 { return self.tt(); }
        if ra.0 >= rb.1 { return self.ff(); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        if let Some(c) = self.as_const(b) {
            if c == 1 { let z = self.k(w, 0); return self.eq(a, z); }
            if ra.1 == c { let kb = self.k(w, c); let e = self.eq(a, kb); return self.not(e); }
            // ult(zext x, c) at the narrow width
            if let Op::Bits { k: 0, items } = self.op(a).clone() {
                if items.len() == 1 && items[0].sh == 0 && self.w(items[0].atom) < w {
                    let aw = self.w(items[0].atom);
                    let y = self.mov(items[0].atom, aw, 0, items[0].mask);
                    if c <= fm(aw) { let kc = self.k(aw, c); return self.ult(y, kc); }
                }
            }
        }
        if let Some(c) = self.as_const(a) {
            // c < b  ==  !(b < c+1)
            if c == fm(w) { return self.ff(); }
            let kc = self.k(w, c + 1);
            let u = self.ult(b, kc);
            return self.not(u);
        }
        if self.part_of(b, a) { return self.ff(); }
        // both small: the sign of the difference decides
        if w <= 64 && ra.1 <= fm(w) >> 1 && rb.1 <= fm(w) >> 1 && (matches!(self.op(a), Op::Lin { .. }) || matches!(self.op(b), Op::Lin { .. })) {
            let d = self.sub(a, b);
            let (lo, hi) = self.srng(d);
            if hi < 0 { return self.tt(); }
            if lo >= 0 { return self.ff(); }
        }
        self.intern(Op::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.ff(); }
        let (ra, rb) = (self.srng(a), self.srng(b));
        if ra.1 < rb.0 { return self.tt(); }
        if ra.0 >= rb.1 { return self.ff(); }
        if ra.0 >= 0 && rb.0 >= 0 { return self.ult(a, b); }
        if let Some(c) = self.as_const(a) {
            if c == fm(w) >> 1 { return self.ff(); }
            let kc = self.k(w, c.wrapping_add(1));
            let u = self.slt(b, kc);
            return self.not(u);
        }
        if self.as_const(b) == Some(0) {
            let s = self.extract(a, w - 1, 1);
            return s;
        }
        let q = (fm(w) >> 2) as i128;
        if w <= 64 && ra.0 >= -q && ra.1 <= q && rb.0 >= -q && rb.1 <= q && (matches!(self.op(a), Op::Lin { .. }) || matches!(self.op(b), Op::Lin { .. })) {
            let d = self.sub(a, b);
            let (lo, hi) = self.srng(d);
            if hi < 0 { return self.tt(); }
            if lo >= 0 { return self.ff(); }
        }
        self.intern(Op::Slt(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let u = self.ult(b, a); self.not(u) }

    // ------------------------------------------------------------------ selection
    fn xitems(&self, t: T) -> (u128, Vec<Item>) {
        let mut v = vec![];
        let mut k = 0;
        let w = self.w(t);
        match self.op(t) {
            Op::Bits { k: kk, items } => { k = *kk; v.extend_from_slice(items); }
            Op::Const(c) => k = *c,
            _ => v.push(Item { atom: t, sh: 0, mask: self.ones(t) & fm(w) }),
        }
        (k, v)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 0 { // arrays
            return self.intern(Op::ASel(c, a, b), 0);
        }
        // canonical polarity: conditions carry no negation
        if let Op::Bits { k, .. } = self.op(c) { if *k == 1 { let nc = self.not(c); return self.ite(nc, b, a); } }
        let a = self.assume(a, c, true, 3);
        let b = self.assume(b, c, false, 3);
        if a == b { return a; }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, b); }
                (Some(1), None) => return self.or(c, b),
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, a); }
                _ => {}
            }
        }
        // one narrow choice, extended
        if w > 8 { if let Some((x, y)) = self.unzext2(a, b) { let r = self.ite(c, x, y); return self.zext(r, w); } }
        // one condition where nested choices share an arm
        if let Op::Ite(d, p, q) = *self.op(a) {
            if q == b { let cd = self.and(c, d); return self.ite(cd, p, b); }
            if p == b { let nd = self.not(d); let cd = self.and(c, nd); return self.ite(cd, q, b); }
        }
        if let Op::Ite(d, p, q) = *self.op(b) {
            if p == a { let nc = self.not(c); let nd = self.not(d); let cd = self.and(nc, nd); return self.ite(cd, q, a); }
            if q == a { let nc = self.not(c); let cd = self.and(nc, d); return self.ite(cd, p, a); }
        }
        // minimum / maximum of two terms: one spelling
        if let Op::Ult(x, y) = *self.op(c) {
            if a == x && b == y || a == y && b == x {
                if x > y && self.as_const(y).is_none() || self.as_const(x).is_some() {
                    // (x<y ? p : q) = (y<x ? q' : p') where both arms agree on equality
                    let c2 = self.ult(y, x);
                    return if a == x { self.intern(Op::Ite(c2, y, x), w) } else { self.intern(Op::Ite(c2, x, y), w) };
                }
            }
            // (x < k+1 ? x : k) = (x < k ? x : k)
            if let Some(k) = self.as_const(y) {
                let is = |s: &Self, t: T| s.as_const(t) == Some(k.wrapping_sub(1)) && k > 0 && s.w(t) == s.w(x);
                if a == x && is(self, b) || b == x && is(self, a) {
                    let k1 = self.k(w, k - 1);
                    let c2 = self.ult(x, k1);
                    return self.ite(c2, a, b);
                }
            }
        }
        // factor common xor operands
        let (ka, ia) = self.xitems(a);
        let (kb, ib) = self.xitems(b);
        if !ia.is_empty() && !ib.is_empty() {
            // both are sorted by (atom, shift)
            let has = |v: &[Item], i: &Item| v.binary_search_by_key(&(i.atom, i.sh), |x| (x.atom, x.sh)).map_or(false, |p| v[p] == *i);
            let common: Vec<Item> = ia.iter().filter(|i| has(&ib, i)).copied().collect();
            if !common.is_empty() {
                let ra: Vec<Item> = ia.iter().filter(|i| !has(&common, i)).copied().collect();
                let rb: Vec<Item> = ib.iter().filter(|i| !has(&common, i)).copied().collect();
                let (ta, tb) = (self.from_items(w, ka, ra), self.from_items(w, kb, rb));
                let cm = self.from_items(w, 0, common);
                let r = self.ite(c, ta, tb);
                return self.xor(cm, r);
            }
        }
        self.intern(Op::Ite(c, a, b), w)
    }
    /// shallow simplification of `t` under the assumption that condition `c` is `val`
    pub fn assume(&mut self, t: T, c: T, val: bool, depth: u32) -> T {
        // a node can only mention nodes made before it
        let lim = match *self.op(c) { Op::Eq(x, _) if val => x, _ => c };
        if t < lim { return t; }
        if self.w(t) == 1 && t == c { return self.bool(val); }
        if depth == 0 { return t; }
        if matches!(self.op(t), Op::Bits { .. } | Op::Lin { .. } | Op::And(..)) {
            let key = (t, c, depth as u8 * 2 + val as u8);
            if let Some(&r) = self.assumed.get(&key) { return r; }
            let r = self.assume_slow(t, c, val, depth);
            if self.assumed.len() > 4_000_000 { self.assumed.clear(); }
            self.assumed.insert(key, r);
            return r;
        }
        self.assume_slow(t, c, val, depth)
    }
    fn assume_slow(&mut self, t: T, c: T, val: bool, depth: u32) -> T {
        if val {
            if let Op::Eq(x, v) = *self.op(c) {
                if t == x { let w = self.w(t); return self.k(w, v); }
            }
        }
        if !matches!(self.op(t), Op::Ite(..) | Op::Sel(..) | Op::Bits { .. } | Op::Lin { .. } | Op::And(..)) { return t; }
        match self.op(t).clone() {
            Op::Ite(cc, p, q) => {
                if cc == c { return if val { self.assume(p, c, val, depth - 1) } else { self.assume(q, c, val, depth - 1) }; }
                if val {
                    if let (Op::Eq(x, v), Op::Eq(y, u)) = (self.op(c), self.op(cc)) {
                        if x == y && v != u { return self.assume(q, c, val, depth - 1); }
                    }
                }
                t
            }
            Op::Sel(x, vs) => {
                if let Op::Eq(y, v) = *self.op(c) {
                    if x == y && val { if let Some(p) = vs.iter().find(|p| p.0 == v) { return p.1; } }
                }
                // the selector is a slice and the condition tests the same slice elsewhere: handled by canonical position
                t
            }
            Op::Bits { k, items } => {
                let new: Vec<T> = items.iter().map(|i| self.assume(i.atom, c, val, depth - 1)).collect();
                if items.iter().zip(&new).all(|(i, a)| i.atom == *a) { return t; }
                let w = self.w(t);
                let mut out = vec![self.k(w, k)];
                for (i, a2) in items.iter().zip(new) {
                    let m = self.mov(a2, w, i.sh as i32, i.mask);
                    out.push(m);
                }
                self.xor_n(w, &out)
            }
            Op::Lin { k, mons } => {
                let w = self.w(t);
                let mut ch = false;
                let mut acc: Vec<(u128, Vec<T>)> = vec![];
                for m in mons.iter() {
                    let vs: Vec<T> = m.vars.iter().map(|v| { let v2 = self.assume(*v, c, val, depth - 1); if v2 != *v { ch = true; } v2 }).collect();
                    acc.push((m.c, vs));
                }
                if !ch { return t; }
                self.lin_sum(w, k, acc)
            }
            Op::And(v) if self.w(t) == 1 => {
                let mut ch = false;
                let nv: Vec<T> = v.iter().map(|x| { let y = self.assume(*x, c, val, depth - 1); if y != *x { ch = true; } y }).collect();
                if !ch { return t; }
                let mut r = self.tt();
                for x in nv { r = self.and(r, x); }
                r
            }
            _ => t,
        }
    }
    pub fn sel(&mut self, x: T, vs: Vec<(u128, T)>) -> T {
        if vs.iter().all(|p| p.1 == vs[0].1) { return vs[0].1; }
        if let Some(c) = self.as_const(x) { return vs.iter().find(|p| p.0 == c).unwrap().1; }
        let w = self.w(vs[0].1);
        if vs.len() == 2 {
            let kx = { let w = self.w(x); self.k(w, vs[1].0) };
            let c = self.eq(x, kx);
            return self.ite(c, vs[1].1, vs[0].1);
        }
        self.intern(Op::Sel(x, vs.into_boxed_slice()), w)
    }

    // ------------------------------------------------------------------ division, variable shifts
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.k(w, x / y); } }
        if let Some(y) = self.as_const(b) {
            if y.is_power_of_two() { return self.lshr_c(a, y.trailing_zeros()); }
            if y != 0 && self.rng(a).1 < y { return self.k(w, 0); }
            // exact division of a non-wrapping multiple
            if let Op::Lin { k, mons } = self.op(a).clone() {
                if y != 0 && k % y == 0 && mons.iter().all(|m| m.c % y == 0) && self.lin_interval(k, &mons, w).map_or(false, |(lo, hi)| lo >= 0 && hi as u128 <= fm(w)) {
                    let ms = mons.iter().map(|m| Mon { vars: m.vars.clone(), c: m.c / y }).collect();
                    return self.from_lin(w, k / y, ms);
                }
            }
        }
        self.intern(Op::Udiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.k(w, x % y); } }
        if let Some(y) = self.as_const(b) {
            if y.is_power_of_two() { return self.mov(a, w, 0, y - 1); }
            if y != 0 && self.rng(a).1 < y { return a; }
        }
        self.intern(Op::Urem(a, b), w)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.k(w, (sx(x, w).wrapping_div(sx(y, w))) as u128); } }
        if self.srng(a).0 >= 0 && self.srng(b).0 >= 0 { return self.udiv(a, b); }
        self.intern(Op::Sdiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { if y != 0 { return self.k(w, (sx(x, w).wrapping_rem(sx(y, w))) as u128); } }
        if self.srng(a).0 >= 0 && self.srng(b).0 >= 0 { return self.urem(a, b); }
        self.intern(Op::Srem(a, b), w)
    }
    fn shamt(&mut self, b: T, w: u16) -> Result<u32, T> {
        if let Some(c) = self.as_const(b) { return Ok((c % w as u128) as u32); }
        let bw = self.w(b);
        Err(self.mov(b, bw, 0, w as u128 - 1))
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.shamt(b, w) { Ok(s) => self.shl_c(a, s), Err(s) => if self.as_const(a) == Some(0) { a } else { self.intern(Op::Shl(a, s), w) } }
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.shamt(b, w) { Ok(s) => self.lshr_c(a, s), Err(s) => if self.as_const(a) == Some(0) { a } else { self.intern(Op::Lshr(a, s), w) } }
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.srng(a).0 >= 0 { return self.lshr(a, b); }
        match self.shamt(b, w) {
            Ok(s) => {
                if let Some(c) = self.as_const(a) { return self.k(w, (sx(c, w) >> s) as u128); }
                let ks = self.k(w, s as u128);
                if s == 0 { a } else { self.intern(Op::Ashr(a, ks), w) }
            }
            Err(s) => self.intern(Op::Ashr(a, s), w),
        }
    }
    pub fn sext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w { return t; }
        if let Some(c) = self.as_const(t) { return self.k(w, sx(c, tw) as u128); }
        if self.srng(t).0 >= 0 { return self.zext(t, w); }
        self.intern(Op::Sext(t), w)
    }
    pub fn app(&mut self, name: &str, args: Vec<T>, w: u16) -> T {
        let n = self.name(name);
        self.intern(Op::App(n, args.into_boxed_slice()), w)
    }
    pub fn byte(&mut self, d: T, i: u32) -> T { self.intern(Op::Byte(d, i), 8) }

    // ------------------------------------------------------------------ small value sets
    /// If `t` can only take few values, a selector term and the value of `t` for each selector value.
    pub fn small(&mut self, t: T, limit: usize) -> Option<(T, Vec<(u128, u128)>)> {
        let w = self.w(t);
        let (k, mons) = self.to_lin(t);
        if mons.len() != 1 || mons[0].vars.len() != 1 { return None; }
        let x = mons[0].vars[0];
        let c = mons[0].c;
        let (x, vs) = self.atom_vals(x, limit)?;
        Some((x, vs.into_iter().map(|(s, v)| (s, v.wrapping_mul(c).wrapping_add(k) & fm(w))).collect()))
    }
    /// selector, [(selector value, value of x)]
    fn atom_vals(&mut self, x: T, limit: usize) -> Option<(T, Vec<(u128, u128)>)> {
        let (lo, hi) = self.rng(x);
        match self.op(x).clone() {
            Op::Bits { k, items } if items.len() == 1 => {
                let i = items[0];
                let n = i.mask.count_ones();
                if n > 12 || (1usize << n) > limit { 
                    if hi - lo < limit as u128 && k == 0 { return Some((x, (lo..=hi).map(|v| (v, v)).collect())); }
                    return None;
                }
                // selector at the original position of the slice
                let m = shm(i.mask, -(i.sh as i32));
                let aw = self.w(i.atom);
                let s = self.mov(i.atom, aw, 0, m);
                let s = self.narrow(s);
                let mut out = vec![];
                let mut sub = 0u128;
                loop {
                    let v = shm(sub, i.sh as i32) ^ k;
                    out.push((sub, v));
                    if sub == m { break; }
                    sub = (sub.wrapping_sub(m)) & m;
                }
                Some((s, out))
            }
            _ => {
                let o = self.ones(x);
                let n = o.count_ones();
                if hi - lo < limit as u128 {
                    return Some((x, (lo..=hi).filter(|v| v & !o == 0).map(|v| (v, v)).collect()));
                }
                if n <= 10 && (1usize << n) <= limit {
                    let mut out = vec![];
                    let mut sub = 0u128;
                    loop {
                        if sub >= lo && sub <= hi { out.push((sub, sub)); }
                        if sub == o { break; }
                        sub = (sub.wrapping_sub(o)) & o;
                    }
                    return Some((x, out));
                }
                None
            }
        }
    }

    // ------------------------------------------------------------------ printing
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = &self.n[t as usize];
        if let Op::Const(c) = n.op { return if c < 1024 { format!("{c}") } else { format!("{c:#x}") }; }
        if let Op::Var(v) = n.op { return self.names[v as usize].clone(); }
        if depth == 0 { return format!("%{t}"); }
        let d = depth - 1;
        let s = |x: T| self.show(x, d);
        match &n.op {
            Op::Const(_) | Op::Var(_) => unreachable!(),
            Op::Bits { k, items } => {
                let mut v: Vec<String> = vec![];
                if *k != 0 { v.push(format!("{k:#x}")); }
                for i in items.iter().take(6) {
                    let full = i.mask == fm(n.w);
                    let mut x = s(i.atom);
                    if i.sh > 0 { x = format!("({x}<<{})", i.sh); }
                    if i.sh < 0 { x = format!("({x}>>{})", -i.sh); }
                    if !full && !(i.sh != 0 && i.mask == shm(fm(n.w), i.sh as i32) & fm(n.w)) { x = format!("({x}&{:#x})", i.mask); }
                    v.push(x);
                }
                if items.len() > 6 { v.push(format!("..+{}", items.len() - 6)); }
                format!("({})", v.join("^"))
            }
            Op::Lin { k, mons } => {
                let mut v: Vec<String> = vec![];
                for m in mons.iter().take(6) {
                    let vs: Vec<String> = m.vars.iter().map(|x| s(*x)).collect();
                    let c = sx(m.c, n.w);
                    v.push(if c == 1 { vs.join("*") } else { format!("{}*{}", c, vs.join("*")) });
                }
                if *k != 0 { v.push(format!("{}", sx(*k, n.w))); }
                format!("({})", v.join("+"))
            }
            Op::And(v) => format!("({})", v.iter().map(|x| s(*x)).collect::<Vec<_>>().join("&")),
            Op::Eq(a, c) => format!("({}=={})", s(*a), c),
            Op::Ult(a, b) => format!("({}<u{})", s(*a), s(*b)),
            Op::Slt(a, b) => format!("({}<s{})", s(*a), s(*b)),
            Op::Ite(c, a, b) => format!("({}?{}:{})", s(*c), s(*a), s(*b)),
            Op::Sel(x, v) => format!("sel({};{})", s(*x), v.iter().take(8).map(|p| format!("{}:{}", p.0, s(p.1))).collect::<Vec<_>>().join(",")),
            Op::App(f, a) => format!("{}({})", self.names[*f as usize], a.iter().take(8).map(|x| s(*x)).collect::<Vec<_>>().join(",")),
            Op::Byte(a, i) => format!("{}[{}]", s(*a), i),
            o => format!("{:?}", o).chars().take(160).collect(),
        }
    }

    /// hash of the shape of terms, independent of node numbering (operands of commutative nodes are summed)
    pub fn shape_hash(&self, ts: &[T]) -> u64 {
        fn mix(a: u64, b: u64) -> u64 { (a.rotate_left(23) ^ b).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31) }
        let mut h: HashMap<T, u64, FxB> = HashMap::default();
        let mut stack: Vec<(T, bool)> = ts.iter().map(|t| (*t, false)).collect();
        while let Some((t, done)) = stack.pop() {
            if h.contains_key(&t) { continue; }
            if !done { stack.push((t, true)); for c in self.children(t) { if !h.contains_key(&c) { stack.push((c, false)); } } continue; }
            let m128 = |x: u128| mix(x as u64, (x >> 64) as u64);
            let name = |i: u32| self.names[i as usize].bytes().fold(7u64, |a, b| mix(a, b as u64));
            let g = |x: &T| h[x];
            let v = match self.op(t) {
                Op::Const(c) => mix(1, m128(*c)),
                Op::Var(n) => mix(2, name(*n)),
                Op::Bits { k, items } => mix(mix(3, m128(*k)), items.iter().fold(0u64, |a, i| a.wrapping_add(mix(mix(g(&i.atom), i.sh as u64), m128(i.mask))))),
                Op::Lin { k, mons } => mix(mix(4, m128(*k)), mons.iter().fold(0u64, |a, m| a.wrapping_add(mix(m.vars.iter().fold(0u64, |a, v| a.wrapping_add(mix(5, g(v)))), m128(m.c))))),
                Op::And(v) => mix(6, v.iter().fold(0u64, |a, x| a.wrapping_add(mix(7, g(x))))),
                Op::Eq(a, k) => mix(mix(8, g(a)), m128(*k)),
                Op::Sel(x, v) => mix(mix(9, g(x)), v.iter().fold(0u64, |a, p| a.wrapping_add(mix(m128(p.0), g(&p.1))))),
                Op::App(n, v) => v.iter().fold(mix(10, name(*n)), |a, x| mix(a, g(x))),
                Op::Byte(a, i) => mix(mix(11, g(a)), *i as u64),
                o => {
                    let tag = match o { Op::Ult(..) => 20, Op::Slt(..) => 21, Op::Ite(..) => 22, Op::Udiv(..) => 23, Op::Urem(..) => 24, Op::Sdiv(..) => 25, Op::Srem(..) => 26, Op::Shl(..) => 27, Op::Lshr(..) => 28, Op::Ashr(..) => 29, Op::Sext(..) => 30, Op::Rd(..) => 31, _ => 32 };
                    self.children(t).iter().fold(tag, |a, x| mix(a, g(x)))
                }
            };
            h.insert(t, mix(v, self.w(t) as u64));
        }
        ts.iter().fold(0, |a, t| mix(a, h[t]))
    }

    // ------------------------------------------------------------------ random interpretation of graphs
    /// all nodes below `ts`, operands first
    pub fn below(&self, ts: &[T]) -> Vec<T> {
        let mut seen: std::collections::HashSet<T, FxB> = Default::default();
        let mut q = ts.to_vec();
        while let Some(t) = q.pop() { if seen.insert(t) { q.extend(self.children(t)); } }
        let mut v: Vec<T> = seen.into_iter().collect();
        v.sort();
        v
    }
    /// the value of every node in `order` under the valuation `seed` of the free symbols (opaque functions are
    /// random functions); `force` fixes the value of some nodes
    /// part of an opaque byte string: offset and length
    pub fn piece(&mut self, arr: T, off: T, len: T) -> T { self.app("piece", vec![arr, off, len], 0) }
    fn run_of(&self, t: T) -> Option<(T, T, Option<T>)> {
        match self.op(t) {
            Op::App(n, l) if self.names[*n as usize] == "piece" => Some((l[0], l[1], Some(l[2]))),
            Op::Rd(a, i) => Some((*a, *i, None)),
            _ => None,
        }
    }
    /// normal form of a concatenation of bytes and parts: adjacent parts of one string are one part
    pub fn pieces(&mut self, parts: Vec<T>) -> Vec<T> {
        let mut out: Vec<T> = Vec::with_capacity(parts.len());
        for t in parts {
            let Some((a, o, l)) = self.run_of(t) else { out.push(t); continue };
            if l.map_or(false, |l| self.as_const(l) == Some(0)) { continue; }
            if let Some((b, o2, l2)) = out.last().and_then(|x| self.run_of(*x)) {
                if a == b {
                    let w = self.w(o);
                    let one = self.k(w, 1);
                    let l2 = l2.unwrap_or(one);
                    let end = self.add(o2, l2);
                    if end == o {
                        let n = self.add(l2, l.unwrap_or(one));
                        out.pop();
                        let p = self.piece(a, o2, n);
                        out.push(p);
                        continue;
                    }
                }
            }
            let t = match l { Some(l) if self.as_const(l) == Some(1) => self.intern(Op::Rd(a, o), 8), _ => t };
            out.push(t);
        }
        out
    }
    pub fn valuation(&self, order: &[T], seed: u64, force: &HashMap<T, u128, FxB>) -> Option<HashMap<T, u128, FxB>> {
        fn mix(a: u64, b: u64) -> u64 { let z = (a ^ b.wrapping_mul(0xbf58_476d_1ce4_e5b9)).wrapping_mul(0x94d0_49bb_1331_11eb); (z ^ z >> 29).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ z >> 32 }
        let m128 = |a: u64, x: u128| mix(mix(a, x as u64), (x >> 64) as u64);
        let name = |i: u32| self.names[i as usize].bytes().fold(7u64, |a, b| mix(a, b as u64));
        let wide = |h: u64| (mix(h, 1) as u128) << 64 | mix(h, 2) as u128;
        let mut v: HashMap<T, u128, FxB> = HashMap::with_capacity_and_hasher(order.len(), Default::default());
        for &t in order {
            if let Some(x) = force.get(&t) { v.insert(t, *x); continue; }
            let w = self.w(t);
            let m = if w == 0 { u128::MAX } else { fm(w) };
            let g = |x: &T| v[x];
            let x = match self.op(t) {
                Op::Const(c) => *c,
                Op::Var(n) => {
                    let h = wide(mix(name(*n), seed));
                    if w == 0 { wide(mix(name(*n), 3)) }
                    else if self.names[*n as usize].ends_with(".len") {
                        // every third valuation has a long string
                        if seed >= 16 && seed % 3 == 0 { h % (1 << ((h >> 70) % if w == 32 { 26 } else { 40 })) + ((h >> 80) & 1) } else { h % 300 }
                    }
                    else { match seed { 0 => 0, 1 => m, 2 => h & 1, 3 => h & 0x81, _ => h } }
                }
                Op::Bits { k, items } => items.iter().fold(*k, |a, i| a ^ (shm(g(&i.atom), i.sh as i32) & i.mask)),
                Op::Lin { k, mons } => mons.iter().fold(*k, |a, q| a.wrapping_add(q.vars.iter().fold(q.c, |p, y| p.wrapping_mul(g(y))))),
                Op::And(l) => l.iter().fold(u128::MAX, |a, y| a & g(y)),
                Op::Eq(a, k) => (g(a) == *k) as u128,
                Op::Ult(a, b) => (g(a) < g(b)) as u128,
                Op::Slt(a, b) => { let aw = self.w(*a); (sx(g(a), aw) < sx(g(b), aw)) as u128 }
                Op::Ite(c, a, b) => if g(c) == 1 { g(a) } else { g(b) },
                Op::Sel(x, l) => { let s = g(x); l.iter().find(|p| p.0 == s).map(|p| g(&p.1))? }
                Op::Udiv(a, b) => g(a).checked_div(g(b)).unwrap_or(0),
                Op::Urem(a, b) => g(a).checked_rem(g(b)).unwrap_or(0),
                Op::Sdiv(a, b) => sx(g(a), w).checked_div(sx(g(b), w)).unwrap_or(0) as u128,
                Op::Srem(a, b) => sx(g(a), w).checked_rem(sx(g(b), w)).unwrap_or(0) as u128,
                Op::Shl(a, b) => { let s = g(b) % w as u128; g(a) << s }
                Op::Lshr(a, b) => { let s = g(b) % w as u128; g(a) >> s }
                Op::Ashr(a, b) => { let s = g(b) % w as u128; (sx(g(a), w) >> s) as u128 }
                Op::Sext(a) => sx(g(a), self.w(*a)) as u128,
                Op::App(n, l) => {
                    let nm = &self.names[*n as usize];
                    if nm.starts_with("overflow_") {
                        let aw = self.w(l[0]);
                        if aw > 64 { return None; }
                        let sg = nm.as_bytes()[nm.len() - 2..].iter().any(|c| *c == b'i') || nm.contains("_i");
                        let (a, b) = if sg { (sx(g(&l[0]), aw), sx(g(&l[1]), aw)) } else { (g(&l[0]) as i128, g(&l[1]) as i128) };
                        let r = if nm.contains("Add") { a + b } else if nm.contains("Sub") { a - b } else { a.checked_mul(b)? };
                        let (lo, hi) = if sg { (-(1i128 << (aw - 1)), (1i128 << (aw - 1)) - 1) } else { (0, fm(aw) as i128) };
                        (r < lo || r > hi) as u128
                    } else if nm == "is_power_of_two" { g(&l[0]).is_power_of_two() as u128 }
                    else if nm == "lossy_len" { l.iter().fold(name(*n), |a, y| m128(a, g(y))) as u128 % 100 + 3 }
                    else if nm == "utf8_valid" || l.iter().any(|y| matches!(self.op(*y), Op::App(p, _) if ["piece", "take"].contains(&&*self.names[*p as usize]))) && nm != "piece" && nm != "take" {
                        // a concatenation: compared as the bytes it consists of, or as maximal parts when it is long
                        let take = |y: &T| match self.op(*y) { Op::App(p, q) if self.names[*p as usize] == "take" => Some(q), _ => None };
                        let (mut tot, mut mixed) = (0u128, false);
                        for y in l.iter() {
                            tot += if let Some(q) = take(y) { mixed = true; g(&q[1]) } else { match self.run_of(*y) { Some((_, _, Some(n))) => g(&n), Some(_) => 1, None => { mixed |= self.w(*y) == 8; 1 } } };
                        }
                        let mut h = name(*n);
                        if tot <= 700 {
                            let mut by: Vec<u8> = vec![];
                            for y in l.iter() {
                                if let Some(q) = take(y) { for i in 0..g(&q[1]) { let b = g(q.get((g(&q[0]) + i) as usize + 2)?); by.push(b as u8); h = m128(h, b); } continue; }
                                match self.run_of(*y) {
                                    Some((a, o, Some(n))) => for i in 0..g(&n) { let mm = fm(self.w(o)); let b = wide(m128(m128(5, g(&a)), g(&o).wrapping_add(i) & mm)) & 0xff; by.push(b as u8); h = m128(h, b); },
                                    _ => { by.push(g(y) as u8); h = m128(h, g(y)) }
                                }
                            }
                            if nm == "utf8_valid" { std::str::from_utf8(&by).is_ok() as u128 } else { wide(h) }
                        } else if mixed || nm == "utf8_valid" { return None; } else {
                            let mut last: Option<(u128, u128, u128)> = None;
                            for y in l.iter() {
                                match self.run_of(*y) {
                                    Some((a, o, n)) => {
                                        let (a, o, n) = (g(&a), g(&o), n.map_or(1, |n| g(&n)));
                                        if n == 0 { continue; }
                                        last = match last {
                                            Some((b, o2, n2)) if a == b && o2 + n2 == o => Some((b, o2, n2 + n)),
                                            x => { if let Some((b, o2, n2)) = x { h = m128(m128(m128(h, b), o2), n2); } Some((a, o, n)) }
                                        };
                                    }
                                    None => { if let Some((b, o2, n2)) = last.take() { h = m128(m128(m128(h, b), o2), n2); } h = m128(h, g(y)); }
                                }
                            }
                            if let Some((b, o2, n2)) = last { h = m128(m128(m128(h, b), o2), n2); }
                            wide(h)
                        }
                    }
                    else { wide(l.iter().fold(name(*n), |a, y| m128(a, g(y)))) }
                }
                Op::Byte(a, i) => wide(m128(*i as u64 + 77, g(a))),
                Op::Rd(a, i) => wide(m128(m128(5, g(a)), g(i))),
                _ => return None,
            };
            v.insert(t, x & m);
        }
        Some(v)
    }
}
