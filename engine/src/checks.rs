//! Tasks: each compares a function of the crate with its reference (value-graph equality), or asks whether a
//! function can return / panic, for arguments given as free symbols and constants.
use crate::interp::*;
use crate::lower::{succs, Tm, RET};
use crate::term::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::*;
use std::ops::ControlFlow;
use std::rc::Rc;

pub fn local_fns() -> BTreeMap<String, CrateItem> {
    let mut m = BTreeMap::new();
    for it in all_local_items() {
        if matches!(it.kind(), ItemKind::Fn) { m.insert(it.name().to_string(), it); }
    }
    m
}
pub fn repo_fns() -> BTreeMap<String, FnDef> {
    let mut m = BTreeMap::new();
    for c in find_crates("lyra2") { for f in c.fn_defs() { m.insert(f.name().to_string(), f); } }
    m
}
pub fn inst_of(f: FnDef) -> Option<Instance> { Instance::resolve(f, &GenericArgs(vec![])).ok() }

pub fn new_interp() -> Interp {
    let mut ip = Interp::new();
    for (n, it) in local_fns() {
        if let Some(x) = n.strip_prefix("spec::models::") {
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() { ip.models.insert(x.to_string(), d); }
        }
    }
    ip
}
pub fn bytes_of(v: &Val) -> Option<Vec<T>> {
    match v {
        Val::Vec(s) | Val::Seq(s) => match &**s {
            Sq::Conc(e) => e.iter().map(|x| if let Val::Int(t) = x { Some(*t) } else { None }).collect(),
            _ => None,
        },
        _ => None,
    }
}
// ---------------------------------------------------------------------- json
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

// ---------------------------------------------------------------------- tasks
pub struct Task {
    pub line: String,
    pub kv: BTreeMap<String, String>,
}
impl Task {
    fn parse(l: &str) -> Task {
        let kv = l.split_whitespace().filter_map(|p| p.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        Task { line: l.to_string(), kv }
    }
    fn get(&self, k: &str) -> &str { self.kv.get(k).map_or("", |s| s.as_str()) }
}
/// `v:N:name` N free bytes; `v:?:name` byte string of any length; `k:V` constant u64; `s:name` free u64
fn mk_arg(ip: &mut Interp, s: &str) -> Val {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "v" if p[1] == "?" => {
            let len = ip.a.var(pw(), &format!("{}.len", p[2]));
            let arr = ip.a.var(0, p[2]);
            Val::Vec(Rc::new(Sq::Sym { arr, len }))
        }
        "v" => {
            let n: usize = p[1].parse().unwrap();
            Val::vec((0..n).map(|i| Val::Int(ip.a.var(8, &format!("{}[{i}]", p[2])))).collect())
        }
        "k" => { let v: u64 = p[1].parse().unwrap(); Val::Int(ip.a.k(64, v as u128)) }
        _ => Val::Int(ip.a.var(64, p[1])),
    }
}
pub fn find_fn(n: &str) -> Option<Instance> {
    if let Some(x) = n.strip_prefix("spec::") { return local_fns().get(&format!("spec::{x}")).and_then(|i| Instance::try_from(*i).ok()); }
    repo_fns().get(n).and_then(|f| inst_of(*f))
}
pub struct Outcome {
    pub exits: Vec<(Vec<T>, Vec<T>)>, // path facts, bytes
    pub panics: Vec<Panic>,
    pub unsup: Option<String>,
    pub steps: u64,
}
pub fn analyse(ip: &mut Interp, f: Instance, args: &[Val], pc: Vec<T>) -> Outcome {
    ip.panics.clear();
    ip.a.cur_span = 0;
    ip.depth = 0;
    let s0 = ip.steps;
    let mut st = St { pc, ..Default::default() };
    // adapt byte strings to the parameter types (vector, array, reference to either, slice)
    let mut args = args.to_vec();
    if let Some(b) = f.body() {
        for (i, l) in b.arg_locals().iter().enumerate() {
            let Some(Val::Vec(q)) = args.get(i).cloned() else { continue };
            match l.ty.kind() {
                TyKind::RigidTy(RigidTy::Array(..)) => args[i] = Val::Seq(q),
                TyKind::RigidTy(RigidTy::Ref(_, inner, _)) => {
                    let slice = matches!(inner.kind(), TyKind::RigidTy(RigidTy::Slice(_)));
                    let arr = matches!(inner.kind(), TyKind::RigidTy(RigidTy::Array(..)));
                    let v = if arr { Val::Seq(q) } else { Val::Vec(q) };
                    let n = ip.seq_len(&v).unwrap();
                    let z = ip.us(0);
                    let o = ip.alloc(&mut st, v);
                    args[i] = Val::rf(o, vec![], if slice { Some((z, n)) } else { None });
                }
                _ => {}
            }
        }
    }
    let r = ip.entry(f, args, st);
    let mut o = Outcome { exits: vec![], panics: std::mem::take(&mut ip.panics), unsup: None, steps: ip.steps - s0 };
    match r {
        Ok(v) => for (s, x) in v {
            match bytes_of(&x) {
                Some(b) => o.exits.push((s.pc.clone(), b)),
                None => o.unsup = Some(format!("result is not a byte vector of known length: {}", kind(&x))),
            }
        },
        Err(E::Unsup(s)) => o.unsup = Some(s),
        Err(E::Dead) => {}
    }
    o
}
pub fn span_str(ip: &Interp, sp: u32) -> String {
    let s = &ip.spans[sp as usize];
    if s.0.is_empty() { "?".into() } else { format!("{} ({}:{})", s.2, s.0.trim_start_matches("/repo/"), s.1) }
}
/// nodes of the crate's result that the reference does not contain although it contains all their operands
pub fn divergence(ip: &Interp, spec: &[T], imp: &[T]) -> Vec<String> {
    let mut seen: HashSet<T> = HashSet::new();
    let mut q: Vec<T> = spec.to_vec();
    while let Some(t) = q.pop() { if seen.insert(t) { q.extend(ip.a.children(t)); } }
    let mut vis: HashSet<T> = HashSet::new();
    let mut q: Vec<T> = imp.to_vec();
    let mut front: Vec<T> = vec![];
    while let Some(t) = q.pop() {
        if seen.contains(&t) || !vis.insert(t) { continue; }
        let ch = ip.a.children(t);
        if ip.a.as_const(t).is_none() && ip.a.n[t as usize].span != 0 && ch.iter().all(|c| seen.contains(c) || ip.a.as_const(*c).is_some()) { front.push(t); }
        q.extend(ch);
    }
    front.sort();
    let mut out: Vec<String> = vec![];
    let mut sites = BTreeSet::new();
    for t in front {
        let s = span_str(ip, ip.a.n[t as usize].span);
        if sites.insert(s.clone()) { out.push(format!("{s}: computes {}", ip.a.show(t, 3).chars().take(160).collect::<String>())); }
        if out.len() >= 4 { break; }
    }
    if out.is_empty() {
        for (i, (a, b)) in spec.iter().zip(imp).enumerate() { if a != b { out.push(format!("output byte {i}: node of {} where the reference has another value", span_str(ip, ip.a.n[*b as usize].span))); break; } }
        if spec.len() != imp.len() { out.push(format!("output length {} instead of {}", imp.len(), spec.len())); }
    }
    out
}
type Force = HashMap<T, u128, crate::term::FxB>;
/// Do two graphs with different nodes really differ?  Random valuations first; then, for every condition that only
/// the second graph has and that no valuation has switched, a valuation in which its operands are such that it is switched.
/// A condition is never set itself: only terms that it compares are, and it has to follow from them.
fn distinguish(ip: &Interp, spec: &[T], imp: &[T], pc: &[T]) -> Option<String> {
    if spec.len() != imp.len() { return Some("different lengths".into()); }
    let os = ip.a.below(spec);
    let oi = ip.a.below(imp);
    let inspec: HashSet<T> = os.iter().copied().collect();
    let mut all: Vec<T> = os.iter().chain(oi.iter()).copied().chain(ip.a.below(pc)).collect();
    all.sort();
    all.dedup();
    let none = Force::default();
    let mut conds: BTreeMap<T, (u32, u32)> = BTreeMap::new();
    for &t in &oi { if let Op::Ite(c, ..) = ip.a.op(t) { if !inspec.contains(c) { conds.insert(*c, (0, 0)); } } }
    let big = all.len() > 200_000;
    let mut hits = 0;
    for seed in 0..if big { 200 } else { 1500 } {
        if hits >= if big { 24 } else { 120 } { break; }
        // the path condition is cheap to test on its own
        let v = ip.a.valuation(&all, seed, &none)?;
        if pc.iter().any(|c| v[c] != 1) { continue; }
        hits += 1;
        for (i, (a, b)) in spec.iter().zip(imp).enumerate() { if v[a] != v[b] { return Some(format!("output byte {i} differs under valuation {seed}")); } }
        for (c, e) in conds.iter_mut() { if v[c] == 1 { e.0 += 1 } else { e.1 += 1 } }
    }
    let mut force = Force::default();
    for p in pc { goal(ip, *p, true, &mut force, 0); }
    if hits == 0 && !force.is_empty() {
        let force = settle(ip, &force);
        // an exit reached only under a rare condition
        for seed in 10..26 {
            let Some(v) = ip.a.valuation(&all, seed, &force) else { continue };
            if pc.iter().any(|c| v[c] != 1) { continue; }
            hits += 1;
            if spec.iter().zip(imp).any(|(a, b)| v[a] != v[b]) { return Some("differs on an exit of its own".into()); }
            for (c, e) in conds.iter_mut() { if v[c] == 1 { e.0 += 1 } else { e.1 += 1 } }
        }
    }
    if hits < 12 { return None; }
    for (c, (t, f)) in &conds {
        if *t > 0 && *f > 0 { continue; }
        let want = *t == 0;
        let mut fc = force.clone();
        goal(ip, *c, want, &mut fc, 0);
        if fc.len() == force.len() { continue; }
        let fc = settle(ip, &fc);
        for seed in 10..16 {
            let Some(v) = ip.a.valuation(&all, seed, &fc) else { continue };
            if v[c] != want as u128 || pc.iter().any(|c| v[c] != 1) { continue; }
            if spec.iter().zip(imp).any(|(a, b)| v[a] != v[b]) { return Some(format!("differs when {}{}", if want { "" } else { "not " }, ip.a.show(*c, 3))); }
        }
    }
    // several conditions together: each on its rarer side, by values of free symbols only
    for rarer in [10, 3] {
        let mut fc = force.clone();
        let (n0, mut l) = (fc.len(), vec![]);
        for (c, (t, f)) in &conds {
            if l.len() >= 600 || (*t).min(*f) * rarer > t + f { continue; }
            goal(ip, *c, t < f, &mut fc, 0);
            l.push((*c, t < f));
        }
        if l.len() < 2 || fc.len() == n0 { continue; }
        let fc: Force = settle(ip, &fc).into_iter().filter(|(t, _)| leaf(ip, *t)).collect();
        for seed in 10..18 {
            let Some(v) = ip.a.valuation(&all, seed, &fc) else { continue };
            if pc.iter().any(|c| v[c] != 1) { continue; }
            if spec.iter().zip(imp).any(|(a, b)| v[a] != v[b]) {
                let w: Vec<String> = l.iter().filter(|(c, w)| v[c] == *w as u128).take(3).map(|(c, w)| format!("{}{}", if *w { "" } else { "not " }, ip.a.show(*c, 2))).collect();
                return Some(format!("differs when {}", w.join(" and ")));
            }
        }
    }
    None
}
/// Does a term depend on the input other than through a value that the reference, too, uses as an index?
fn on_input(ip: &Interp, t: T, allowed: &[T], clean: &mut HashSet<T>) -> bool {
    let mut seen = HashSet::new();
    let mut q = vec![t];
    while let Some(t) = q.pop() {
        if clean.contains(&t) || !seen.insert(t) || allowed.iter().any(|d| part_of(ip, t, *d)) { continue; }
        match ip.a.op(t) {
            Op::Var(n) => if ip.a.names[*n as usize].ends_with(']') { return true; },
            Op::App(n, _) if { let n = &ip.a.names[*n as usize]; !n.starts_with("overflow_") && n != "is_power_of_two" } => return true,
            Op::Byte(..) | Op::Rd(..) => return true,
            _ => q.extend(ip.a.children(t)),
        }
    }
    clean.extend(seen);
    false
}
/// is t the value d, or made of bits of it?
fn part_of(ip: &Interp, t: T, d: T) -> bool {
    if t == d { return true; }
    let (Op::Bits { items: a, .. }, Op::Bits { items: b, .. }) = (ip.a.op(t), ip.a.op(d)) else { return false };
    let at = |i: &crate::term::Item| if i.sh >= 0 { i.mask >> i.sh } else { i.mask << -i.sh };
    let mut by = None;
    a.iter().all(|i| b.iter().any(|j| {
        let s = i.sh as i32 - j.sh as i32;
        let ok = i.atom == j.atom && at(i) & !at(j) == 0 && by.map_or(true, |x| x == s);
        if ok { by = Some(s); }
        ok
    }))
}
/// does the term take several values?
fn varies(ip: &Interp, t: T) -> bool {
    let order = ip.a.below(&[t]);
    let none = Force::default();
    let mut first = None;
    for seed in 0..if order.len() > 100_000 { 30 } else { 300 } {
        let Some(v) = ip.a.valuation(&order, seed, &none) else { return false };
        match first { None => first = Some(v[&t]), Some(x) if x != v[&t] => return true, _ => {} }
    }
    let Some(x) = first else { return false };
    if ip.a.w(t) != 1 { return false; }
    let mut force = Force::default();
    goal(ip, t, x == 0, &mut force, 0);
    if force.is_empty() { return false; }
    let force = settle(ip, &force);
    (10..26).any(|seed| ip.a.valuation(&order, seed, &force).map_or(false, |v| v[&t] != x))
}
/// values for the terms that a condition compares which give it the wanted value
fn goal(ip: &Interp, c: T, want: bool, force: &mut Force, d: u32) {
    if d > 8 { return; }
    match ip.a.op(c) {
        Op::Eq(x, k) if want => set(ip, *x, *k, force),
        Op::And(l) if want => for x in l.iter() { goal(ip, *x, true, force, d + 1); },
        Op::And(l) => if let Some(x) = l.iter().find(|x| !matches!(ip.a.op(**x), Op::Eq(..))) { goal(ip, *x, false, force, d + 1); },
        Op::Bits { k, items } if ip.a.w(c) == 1 && items.len() == 1 && ip.a.w(items[0].atom) == 1 => goal(ip, items[0].atom, want ^ (*k & 1 == 1), force, d + 1),
        Op::Ult(x, y) => match (ip.a.as_const(*x), ip.a.as_const(*y)) {
            (None, Some(k)) => set(ip, *x, if want { k - 1 } else { k }, force),
            (Some(k), None) => set(ip, *y, if want { k + 1 } else { k }, force),
            _ => {}
        },
        _ => {}
    }
}
fn set(ip: &Interp, x: T, k: u128, force: &mut Force) {
    // a value made of moved slices fixes the slices, when they do not overlap and cover the value
    if let Op::Bits { k: k0, items } = ip.a.op(x) {
        let mut sum = 0u128;
        let apart = items.iter().all(|i| { let o = sum & i.mask == 0; sum |= i.mask; o });
        if apart && items.iter().all(|i| i.sh >= 0 && ip.a.w(i.atom) <= 16) {
            for i in items.iter() { force.insert(i.atom, ((k ^ *k0) & i.mask) >> i.sh); }
            return;
        }
    }
    force.insert(x, k);
}
/// the free symbols below a term, up to a limit of nodes; None beyond it
fn leaves(ip: &Interp, t: T, cap: usize) -> Option<(Vec<T>, u32)> {
    let mut seen: HashSet<T> = HashSet::new();
    let mut q = vec![t];
    let (mut l, mut bits) = (vec![], 0);
    while let Some(x) = q.pop() {
        if !seen.insert(x) { continue; }
        if seen.len() > cap { return None; }
        if leaf(ip, x) { l.push(x); bits += ip.a.w(x) as u32; } else { q.extend(ip.a.children(x)); }
    }
    Some((l, bits))
}
fn leaf(ip: &Interp, t: T) -> bool {
    match ip.a.op(t) {
        Op::Var(_) | Op::Byte(..) | Op::Rd(..) => true,
        Op::App(n, _) => { let n = &ip.a.names[*n as usize]; !n.starts_with("overflow_") && n != "is_power_of_two" && n != "utf8_valid" && n != "lossy_len" }
        _ => false,
    }
}
/// values of free symbols under which the term has the value, added to `fixed`
fn invert(ip: &Interp, t: T, val: u128, fixed: &mut Force, d: u32) -> bool {
    if let Some(x) = fixed.get(&t) { return *x == val; }
    let w = ip.a.w(t);
    if w > 0 && val & !crate::term::fm(w) != 0 { return false; }
    if let Some(c) = ip.a.as_const(t) { return c == val; }
    if leaf(ip, t) { fixed.insert(t, val); return true; }
    if d > 12 { return false; }
    match ip.a.op(t) {
        Op::Bits { k, items } => {
            let mut sum = 0u128;
            if !items.iter().all(|i| { let o = sum & i.mask == 0; sum |= i.mask; o }) || (val ^ k) & !sum != 0 { return false; }
            let mut need: BTreeMap<T, (u128, u128)> = BTreeMap::new();
            let mv = |x: u128, s: i32| if s >= 0 { x >> s } else { x << -s };
            for i in items.iter() {
                let (m, v) = (mv(i.mask, i.sh as i32), mv((val ^ k) & i.mask, i.sh as i32));
                let e = need.entry(i.atom).or_default();
                if (e.1 ^ v) & e.0 & m != 0 { return false; }
                *e = (e.0 | m, e.1 | v);
            }
            need.iter().all(|(a, (m, v))| {
                let rest = match fixed.get(a) { Some(x) => { if x & m != *v { return false; } *x } None => (*a as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835) & crate::term::fm(ip.a.w(*a)) };
                invert(ip, *a, (rest & !m) | v, fixed, d + 1)
            })
        }
        Op::Lin { k, mons } => {
            let m = crate::term::fm(w);
            for (j, c) in mons.iter().enumerate().filter(|(_, q)| q.vars.len() == 1 && q.c & 1 == 1).take(6) {
                let mut f = fixed.clone();
                let others: Vec<T> = mons.iter().enumerate().filter(|(i, _)| *i != j).flat_map(|(_, q)| q.vars.iter().copied()).collect();
                let order = ip.a.below(&others);
                let Some(v) = ip.a.valuation(&order, 40 + j as u64, &f) else { continue };
                for o in &others { if let Some((l, _)) = leaves(ip, *o, 5000) { for x in l { if let Some(y) = v.get(&x) { f.insert(x, *y); } } } else { f.insert(*o, v[o]); } }
                let sum = mons.iter().enumerate().filter(|(i, _)| *i != j).fold(*k, |a, (_, q)| a.wrapping_add(q.vars.iter().fold(q.c, |p, y| p.wrapping_mul(v[y]))));
                let mut inv = 1u128;
                for _ in 0..7 { inv = inv.wrapping_mul(2u128.wrapping_sub(c.c.wrapping_mul(inv))); }
                if invert(ip, c.vars[0], val.wrapping_sub(sum).wrapping_mul(inv) & m, &mut f, d + 1) { *fixed = f; return true; }
            }
            false
        }
        _ => false,
    }
}
/// The wanted values of compared terms, traced back to free symbols.  A term that cannot be traced back is set itself only if
/// it mixes many more free bits than it has; otherwise it is left alone.
fn settle(ip: &Interp, force: &Force) -> Force {
    let mut l: Vec<(usize, T, u128, Option<(Vec<T>, u32)>)> = force.iter().map(|(t, v)| { let x = leaves(ip, *t, 3000); (x.as_ref().map_or(usize::MAX, |y| y.0.len()), *t, *v, x) }).collect();
    l.sort_by_key(|x| (x.0, x.1));
    let mut fixed = Force::default();
    for (_, t, val, lv) in l {
        let (lo, hi) = ip.a.rng(t);
        if ip.a.w(t) > 0 && (val < lo || val > hi || val & !ip.a.ones(t) != 0) { continue; }
        let mut f = fixed.clone();
        if lv.is_some() && invert(ip, t, val, &mut f, 0) {
            // what follows must agree with the values given before
            let order = ip.a.below(&[t]);
            if ip.a.valuation(&order, 11, &f).map_or(false, |v| v[&t] == val) { fixed = f; continue; }
        }
        if let Some((lv, bits)) = &lv {
            let order = ip.a.below(&[t]);
            let open: Vec<T> = lv.iter().copied().filter(|x| !fixed.contains_key(x)).collect();
            let mut ok = false;
            if *bits <= 16 && open.len() <= 2 && !open.is_empty() {
                let n: u32 = open.iter().map(|x| ip.a.w(*x) as u32).sum();
                for x in 0..1u128 << n {
                    let x = x.wrapping_mul(0x9e35) & ((1 << n) - 1);
                    let mut f = fixed.clone();
                    let w0 = ip.a.w(open[0]);
                    f.insert(open[0], x & crate::term::fm(w0));
                    if open.len() > 1 { f.insert(open[1], x >> w0); }
                    if ip.a.valuation(&order, 11, &f).map_or(false, |v| v[&t] == val) { fixed = f; ok = true; break; }
                }
            } else if order.len() < 2000 {
                for seed in 40..240 {
                    let Some(v) = ip.a.valuation(&order, seed, &fixed) else { break };
                    if v[&t] == val { for x in &open { fixed.insert(*x, v[x]); } ok = true; break; }
                }
            }
            if ok || *bits < 128.max(ip.a.w(t) as u32 + 96) { continue; }
        }
        fixed.insert(t, val);
    }
    fixed
}
/// is there a valuation that satisfies the condition of a recorded panic?
fn reachable(ip: &Interp, p: &Panic) -> bool {
    if p.certain || p.pc.is_empty() { return true; }
    let order = ip.a.below(&p.pc);
    let none = Force::default();
    for seed in 0..if order.len() > 100_000 { 30 } else { 300 } {
        let Some(v) = ip.a.valuation(&order, seed, &none) else { return true };
        if p.pc.iter().all(|c| v[c] == 1) { return true; }
    }
    let mut force = Force::default();
    for c in &p.pc { goal(ip, *c, true, &mut force, 0); }
    let force = settle(ip, &force);
    for seed in 10..26 {
        if let Some(v) = ip.a.valuation(&order, seed, &force) { if p.pc.iter().all(|c| v[c] == 1) { return true; } }
    }
    false
}
fn panic_list(ip: &Interp, p: &[Panic]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in p.iter() {
        let c = if x.pc.is_empty() { "always".to_string() } else { x.pc.iter().rev().take(2).map(|t| ip.a.show(*t, 3).chars().take(100).collect::<String>()).collect::<Vec<_>>().join(" and ") };
        let s = format!("{}: {} [when {}]", span_str(ip, x.span), x.what, c);
        if !v.contains(&s) { v.push(s); }
        if v.len() >= 4 { break; }
    }
    v
}
fn opaque_core(ip: &mut Interp, st: &mut St, a: &[Val], _cx: &CallCx) -> R<Val> {
    let mut parts = vec![];
    let k = ip.int(&a[0])?;
    parts.push(k);
    for i in [1, 2] {
        let n = match &a[i] { Val::Ref(_) => return un("opaque argument"), v => ip.seq_len(v)? };
        parts.push(n);
        let mut q = vec![];
        ip.hash_input(st, &a[i], &mut q)?;
        parts.extend(ip.a.pieces(q));
    }
    for i in 3..6 { let t = ip.int(&a[i])?; parts.push(t); }
    let Some(n) = ip.a.as_const(k) else { return un("opaque call with unknown output size") };
    if n > 1 << 16 { return un("opaque call with huge output size"); }
    let d = ip.a.app("lyra2", parts, 0);
    Ok(Val::vec((0..n).map(|i| Val::Int(ip.a.byte(d, i as u32))).collect()))
}
fn run_task(ip: &mut Interp, t: &Task) -> String {
    let t0 = std::time::Instant::now();
    ip.fn_seen.clear();
    ip.obligations = 0;
    ip.discharged = 0;
    ip.switches = 0;
    ip.joins = 0;
    ip.opaque.clear();
    let n0 = ip.a.n.len();
    let args: Vec<Val> = t.get("args").split(',').filter(|s| !s.is_empty()).map(|s| mk_arg(ip, s)).collect();
    let mut pc = vec![];
    for f in t.get("assume").split(',').filter(|s| !s.is_empty()) {
        // name>=const
        if let Some((n, v)) = f.split_once(">=") {
            let x = ip.a.var(64, n);
            let k = ip.a.k(64, v.parse::<u64>().unwrap() as u128);
            let c = ip.a.ult(x, k);
            pc.push(ip.a.not(c));
        } else if let Some((n, v)) = f.split_once("<=") {
            let x = ip.a.var(64, n);
            let k = ip.a.k(64, v.parse::<u64>().unwrap() as u128 + 1);
            pc.push(ip.a.ult(x, k));
        }
    }
    if t.get("opaque") == "core" { ip.opaque.insert("lyra2::lyra2::lyra2".into(), opaque_core); }
    ip.edges.clear();
    let mut verdict;
    let mut detail: Vec<String> = vec![];
    let Some(imp) = find_fn(t.get("impl")) else {
        return format!("{{\"task\":{},\"verdict\":\"MISSING\",\"detail\":{}}}", js(&t.line), jl(&[t.get("impl").to_string()]));
    };
    // analyses that may be long: their own limits
    let mem = t.get("mem").parse::<usize>().ok();
    let max_mem = ip.max_mem;
    if let Some(m) = mem { ip.max_mem = m << 20; }
    let mut spec_steps = 0;
    let mut outlen: i64 = -1;
    let mut hash = 0u64;
    let mut env = false;
    match t.get("kind") {
        "equal" => {
            let mut specs = vec![];
            let mut tool = None;
            for k in ["spec", "alt"] {
                if t.get(k).is_empty() { continue; }
                let f = find_fn(t.get(k)).expect("reference function");
                ip.max_steps = u64::MAX;
                let o = analyse(ip, f, &args, pc.clone());
                if o.unsup.is_some() || o.exits.len() != 1 || !o.panics.is_empty() { tool = Some(format!("reference {}: {:?} exits {} panics {:?}", t.get(k), o.unsup, o.exits.len(), panic_list(ip, &o.panics))); break; }
                spec_steps = spec_steps.max(o.steps);
                specs.push(o.exits[0].1.clone());
            }
            ip.fn_seen.clear();
            ip.obligations = 0;
            ip.discharged = 0;
            ip.switches = 0;
            ip.joins = 0;
            if let Some(x) = tool { verdict = "UNDECIDED".to_string(); detail.push(x); } else {
                ip.max_steps = ip.steps + 60 * spec_steps + 3_000_000;
                let o = analyse(ip, imp, &args, pc);
                if let Some(e) = o.exits.get(0) { outlen = e.1.len() as i64; hash = ip.a.shape_hash(&e.1); }
                if o.exits.iter().any(|e| e.1.len() as i64 != outlen) { outlen = -2; }
                let roots: Vec<T> = o.exits.iter().flat_map(|e| e.0.iter().chain(&e.1)).chain(o.panics.iter().flat_map(|p| &p.pc)).copied().collect();
                env = ip.a.below(&roots).iter().any(|t| matches!(ip.a.op(*t), Op::Var(n) if ip.a.names[*n as usize] == "excess capacity"));
                if let Some(u) = &o.unsup {
                    verdict = if u.starts_with("STEPS") { "HANG".into() } else { "UNDECIDED".into() };
                    detail.push(u.clone());
                    let certain: Vec<Panic> = o.panics.iter().filter(|p| p.certain).cloned().collect();
                    if !certain.is_empty() { verdict = "PANIC".into(); detail.extend(panic_list(ip, &certain)); }
                } else if !o.panics.is_empty() {
                    let real: Vec<Panic> = o.panics.iter().take(40).filter(|p| reachable(ip, p)).cloned().collect();
                    verdict = if real.is_empty() { "UNPROVED".into() } else { "PANIC".into() };
                    detail = panic_list(ip, if real.is_empty() { &o.panics } else { &real });
                    if real.is_empty() {
                        // whether or not these can happen: does it return another value?
                        let best = specs.last().unwrap();
                        for e in &o.exits {
                            if specs.iter().any(|s| *s == e.1) { continue; }
                            if let Some(w) = distinguish(ip, best, &e.1, &e.0) { verdict = "DIFF".into(); detail.insert(0, w); break; }
                        }
                    }
                } else if o.exits.is_empty() {
                    verdict = "PANIC".into();
                    detail.push("no path returns".into());
                } else if o.exits.iter().all(|e| e.1 == specs[0]) { verdict = "EQUAL".into(); }
                else if specs.len() > 1 && o.exits.iter().all(|e| e.1 == specs[1]) { verdict = "ALT".into(); detail = divergence(ip, &specs[0], &o.exits[0].1); }
                else {
                    verdict = "UNPROVED".into();
                    for e in &o.exits {
                        let best = specs.last().unwrap();
                        if e.1 != *best {
                            match distinguish(ip, best, &e.1, &e.0) { Some(w) => { verdict = "DIFF".into(); detail.push(w); } None => {} }
                        }
                    }
                    for e in &o.exits {
                        let best = specs.last().unwrap();
                        if e.1 != *best { detail.extend(divergence(ip, best, &e.1)); if e.1.len() != best.len() { detail.insert(0, format!("output length {} instead of {}", e.1.len(), best.len())); } break; }
                    }
                }
            }
        }
        "refuse" => {
            ip.max_steps = ip.steps + 50_000_000;
            let o = analyse(ip, imp, &args, pc);
            if !o.exits.is_empty() { verdict = "RETURNS".into(); }
            else if let Some(u) = o.unsup { verdict = if u.starts_with("STEPS") { "HANG".into() } else { "UNDECIDED".into() }; detail.push(u); }
            else { verdict = "REFUSED".into(); detail = panic_list(ip, &o.panics); }
        }
        // arguments so large that the specified computation cannot finish here: returning within the budget is wrong
        "huge" => {
            ip.max_steps = ip.steps + if mem.is_some() { 1 << 40 } else { 3_000_000 };
            let o = analyse(ip, imp, &args, pc);
            if let Some(e) = o.exits.get(0) { outlen = e.1.len() as i64; }
            let certain: Vec<Panic> = o.panics.iter().filter(|p| p.certain).cloned().collect();
            if !o.exits.is_empty() { verdict = "RETURNS".into(); }
            else if !certain.is_empty() { verdict = "PANIC".into(); detail = panic_list(ip, &certain); }
            else if let Some(u) = o.unsup { verdict = if u.starts_with("STEPS") { "BUSY".into() } else { "UNDECIDED".into() }; detail.push(u); }
            else { verdict = "PANIC".into(); detail = panic_list(ip, &o.panics); }
        }
        // is a panic reachable in what can be analysed before a loop of unknown length?
        "prefix" => {
            ip.max_steps = ip.steps + 2_000_000;
            let lim = std::mem::replace(&mut ip.loop_limit, 14);
            let o = analyse(ip, imp, &args, pc);
            ip.loop_limit = lim;
            let real: Vec<Panic> = o.panics.iter().take(60).filter(|p| reachable(ip, p)).cloned().collect();
            if !real.is_empty() { verdict = "PANIC".into(); detail = panic_list(ip, &real); } else { verdict = "EQUAL".into(); detail.extend(o.unsup); }
        }
        // do branches and addresses depend on the input in another way than in the reference?
        "trace" => {
            let f = find_fn(t.get("spec")).expect("reference function");
            ip.max_steps = u64::MAX;
            ip.indexed.clear();
            let o = analyse(ip, f, &args, pc.clone());
            spec_steps = o.steps;
            let allowed: Vec<T> = ip.indexed.keys().copied().collect();
            ip.indexed.clear();
            ip.branched.clear();
            ip.fn_seen.clear();
            ip.obligations = 0;
            ip.discharged = 0;
            ip.max_steps = ip.steps + 60 * spec_steps + 3_000_000;
            let o2 = analyse(ip, imp, &args, pc);
            let mut memo = HashSet::new();
            let sites: Vec<(T, u32, &str)> = ip.branched.iter().map(|x| (*x.0, *x.1, "a branch depends on")).chain(ip.indexed.iter().map(|x| (*x.0, *x.1, "an address or size depends on"))).collect();
            ip.obligations = sites.len() as u64;
            let bad: Vec<&(T, u32, &str)> = sites.iter().filter(|x| on_input(ip, x.0, &allowed, &mut memo) && varies(ip, x.0)).collect();
            ip.discharged = (sites.len() - bad.len()) as u64;
            outlen = allowed.len() as i64;
            if !bad.is_empty() { verdict = "LEAK".into(); for (x, s, w) in bad.into_iter().take(4) { detail.push(format!("{}: {w} {}", span_str(ip, *s), ip.a.show(*x, 3).chars().take(160).collect::<String>())); } }
            else if let Some(u) = o.unsup.or(o2.unsup) { verdict = "UNDECIDED".into(); detail.push(u); }
            else { verdict = "EQUAL".into(); }
        }
        "accept" => {
            ip.max_steps = ip.steps + 150_000;
            let o = analyse(ip, imp, &args, pc);
            let certain: Vec<Panic> = o.panics.iter().filter(|p| p.certain).cloned().collect();
            let busy = o.unsup.as_ref().map_or(false, |u| u.starts_with("STEPS"));
            if !certain.is_empty() || o.exits.is_empty() && o.unsup.is_none() { verdict = "PANIC".into(); detail = panic_list(ip, &o.panics); }
            else if o.unsup.is_none() || busy { verdict = "EQUAL".into(); }
            else { verdict = "UNDECIDED".into(); detail.extend(o.unsup); }
        }
        k => { verdict = "UNDECIDED".into(); detail.push(format!("unknown task kind {k}")); }
    }
    ip.max_mem = max_mem;
    if verdict.is_empty() { verdict = "UNDECIDED".into(); }
    let (mined, taken, untaken) = survey(ip);
    let fns: Vec<String> = ip.fn_seen.iter().filter(|x| x.1 .0).map(|x| x.0.clone()).collect();
    let calls: u64 = ip.fn_seen.iter().filter(|x| x.1 .0).map(|x| x.1 .1).sum();
    format!(
        "{{\"task\":{},\"verdict\":{},\"outlen\":{outlen},\"hash\":\"{hash:016x}\",\"env\":{env},\"detail\":{},\"functions\":{},\"calls\":{},\"obligations\":{},\"discharged\":{},\"nodes\":{},\"joins\":{},\"switches\":{},\"mined\":[{}],\"edges\":{},\"untaken\":{},\"ms\":{}}}",
        js(&t.line), js(&verdict), jl(&detail), jl(&fns), calls, ip.obligations, ip.discharged, ip.a.n.len() - n0, ip.joins, ip.switches, mined.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), jl(&taken), jl(&untaken), t0.elapsed().as_millis()
    )
}

/// Crate functions of this task and those they call: the constants they mention and their branch edges.
fn survey(ip: &mut Interp) -> (BTreeSet<u128>, Vec<String>, Vec<String>) {
    let seen: HashSet<String> = ip.fn_seen.iter().filter(|x| x.1 .0).map(|x| x.0.clone()).collect();
    let mut work: Vec<Instance> = ip.bodies.iter().filter(|(_, b)| b.as_ref().map_or(false, |b| b.in_repo && seen.contains(&b.name))).map(|(i, _)| *i).collect();
    let mut done: HashSet<Instance> = HashSet::new();
    let (mut mined, mut taken, mut untaken) = (BTreeSet::new(), vec![], vec![]);
    while let Some(i) = work.pop() {
        if !done.insert(i) { continue; }
        let Some(b) = ip.lower(i) else { continue };
        if !b.in_repo { continue; }
        if let Some(m) = ip.mined.get(&b.name) { mined.extend(m.iter().copied()); }
        for (k, bl) in b.blocks.iter().enumerate() {
            if let Tm::Call(c, ..) = &bl.tm { if let Some(j) = c.inst { if c.local { work.push(j); } } }
            if !b.reach[k] { continue; }
            if let Tm::Switch(..) = &bl.tm {
                for t in succs(&bl.tm) {
                    if t != RET && !b.reach[t] { continue; }
                    let s = format!("{} bb{k}->bb{t} line {}", b.name, ip.spans[bl.span as usize].1);
                    if ip.edges.contains(&(i, k, t)) { taken.push(s) } else { untaken.push(s) }
                }
            }
        }
    }
    taken.sort();
    untaken.sort();
    (mined, taken, untaken)
}
fn selftest() -> String {
    let fns = local_fns();
    let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in fns.keys() {
        if let Some(x) = n.split("idioms::").nth(1) {
            if x.contains("::") { continue; }
            if let Some((g, _)) = x.rsplit_once('_') { groups.entry(g.to_string()).or_default().push(n.clone()); }
        }
    }
    let only = std::env::var("ONLY").ok();
    let mut bad = vec![];
    let mut n_ok = 0;
    for (g, v) in groups {
        if only.as_ref().map_or(false, |o| !g.contains(o.as_str())) { continue; }
        let mut ip = new_interp();
        let inp: Vec<Val> = (0..32).map(|i| { let x = ip.a.var(8, &format!("x{i}")); Val::Int(x) }).collect();
        let mut first: Option<Vec<T>> = None;
        for n in v {
            let inst = Instance::try_from(fns[&n]).unwrap();
            ip.max_steps = ip.steps + 2_000_000;
            let o = analyse(&mut ip, inst, &[Val::vec(inp.clone())], vec![]);
            if o.unsup.is_some() || o.exits.len() != 1 || !o.panics.is_empty() { bad.push(format!("{n}: {:?} exits {} panics {:?}", o.unsup, o.exits.len(), panic_list(&ip, &o.panics))); continue; }
            let b = o.exits[0].1.clone();
            match &first {
                None => first = Some(b),
                Some(f) => {
                    if (*f == b) == g.starts_with("bad_") { bad.push(format!("{n}: same={}: {:?}", *f == b, f.iter().zip(&b).position(|(x, y)| x != y).map(|i| (ip.a.show(f[i], 6), ip.a.show(b[i], 6))))); } else { n_ok += 1; }
                }
            }
        }
    }
    format!("{{\"task\":\"selftest\",\"verdict\":{},\"pairs\":{n_ok},\"detail\":{}}}", js(if bad.is_empty() { "EQUAL" } else { "DIFF" }), jl(&bad))
}
pub fn go() -> ControlFlow<()> {
    let job = std::env::var("LYRA_SA_JOB").unwrap_or_default();
    let out = std::env::var("LYRA_SA_OUT").unwrap_or_default();
    let Ok(txt) = std::fs::read_to_string(&job) else { return ControlFlow::Break(()) };
    {
        use rustc_public::target::*;
        use std::sync::atomic::Ordering::Relaxed;
        let m = MachineInfo::target();
        TARGET_PW.store(m.pointer_width.bits() as u16, Relaxed);
        TARGET_BE.store(matches!(m.endian, Endian::Big), Relaxed);
    }
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).expect("output file");
    let mut ip = new_interp();
    for l in txt.lines() {
        let t = Task::parse(l);
        let r = match t.get("kind") {
            "" => continue,
            "selftest" => selftest(),
            "effects" => rustc_middle::ty::tls::with(|tcx| crate::effects::scan(tcx, t.get("filter"))),
            _ => {
                if ip.a.mem > 500 << 20 { ip = new_interp(); }
                run_task(&mut ip, &t)
            }
        };
        writeln!(f, "{r}").unwrap();
    }
    ControlFlow::Break(())
}
