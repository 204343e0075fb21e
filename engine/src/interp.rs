//! Value-graph construction: abstract evaluation of lowered MIR over the term domain.
//!
//! Every MIR local holds a value made of value-graph nodes.  At a branch whose condition is not a known
//! constant both arms are analysed up to the immediate post-dominator and joined with gating (ite) nodes;
//! loops whose control is a known constant are expanded.  No input is chosen, no path is enumerated towards
//! a solver: what results is one node per output byte.
use crate::lower::*;
use crate::term::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::*;
use std::rc::Rc;

pub const HEAP: u32 = 1 << 30;
pub const KONST: u32 = 1 << 31;

#[derive(Clone, Debug, PartialEq)]
pub enum Pe {
    F(u32),
    V(u32, u32),
    I(T),
}
#[derive(Clone, Debug, PartialEq)]
pub struct RefV {
    pub obj: u32,
    pub path: Vec<Pe>,
    pub win: Option<(T, T)>,
    /// concrete type behind a trait object
    pub dt: Option<Ty>,
}
#[derive(Clone, Debug)]
pub enum Sq {
    Conc(Vec<Val>),
    /// opaque byte string: array term and length term
    Sym { arr: T, len: T },
    /// copy of a part of a sequence whose bounds are not constant
    Win { base: Val, off: T, len: T },
}
#[derive(Clone, Debug)]
pub enum Val {
    Uninit,
    Int(T),
    Agg(Rc<Vec<Val>>),
    Enum(T, Rc<Vec<Vec<Val>>>),
    Seq(Rc<Sq>),
    Vec(Rc<Sq>),
    Ref(Rc<RefV>),
    Fn(Instance),
    Hasher(Rc<(String, Vec<T>)>),
    Poison(Rc<String>),
}
impl Val {
    pub fn unit() -> Val { Val::Agg(Rc::new(vec![])) }
    pub fn seq(v: Vec<Val>) -> Val { Val::Seq(Rc::new(Sq::Conc(v))) }
    pub fn vec(v: Vec<Val>) -> Val { Val::Vec(Rc::new(Sq::Conc(v))) }
    pub fn agg(v: Vec<Val>) -> Val { Val::Agg(Rc::new(v)) }
    pub fn rf(obj: u32, path: Vec<Pe>, win: Option<(T, T)>) -> Val { Val::Ref(Rc::new(RefV { obj, path, win, dt: None })) }
}
#[derive(Clone, Debug)]
pub enum E {
    /// the path ended (a panic was recorded)
    Dead,
    Unsup(String),
}
pub type R<X> = Result<X, E>;
pub fn un<X>(s: impl Into<String>) -> R<X> { Err(E::Unsup(s.into())) }

pub type Native = fn(&mut Interp, &mut St, &[Val], &CallCx) -> R<Val>;
pub struct CallCx<'a> {
    pub c: &'a Callee,
    pub ret: Ty,
}

#[derive(Clone, Default)]
pub struct St {
    pub loc: Vec<Val>,
    pub heap: Vec<Val>,
    pub pc: Vec<T>,
}
#[derive(Clone, Debug)]
pub struct Panic {
    pub pc: Vec<T>,
    pub certain: bool,
    pub span: u32,
    pub what: String,
}

#[derive(Default)]
pub struct Interp {
    pub a: Arena,
    pub bodies: HashMap<Instance, Option<Rc<Bod>>>,
    pub callees: HashMap<(Instance, bool), Rc<Callee>>,
    pub consts: Vec<Val>,
    pub const_cache: HashMap<(rustc_public::mir::alloc::AllocId, usize, Ty), u32>,
    pub spans: Vec<(String, usize, String)>,
    pub span_map: HashMap<(String, usize, String), u32>,
    pub statics_seen: BTreeSet<String>,
    pub models: HashMap<String, FnDef>,
    pub panics: Vec<Panic>,
    pub steps: u64,
    pub max_steps: u64,
    pub max_mem: usize,
    pub depth: usize,
    pub fn_seen: BTreeMap<String, (bool, u64)>,
    pub switches: u64,
    pub joins: u64,
    pub splits: u64,
    pub obligations: u64,
    pub discharged: u64,
    /// functions replaced by an uninterpreted symbol: def name -> symbol
    pub opaque: HashMap<String, Native>,
    pub opaque_sizes: HashMap<String, u32>,
    pub ctx_span: u32,
    /// constants compared with / used in branch conditions of the analysed crate
    pub mined: BTreeMap<String, BTreeSet<u128>>,
    /// branch edges taken, per function of the crate
    pub edges: HashSet<(Instance, usize, usize)>,
    pub notes: BTreeSet<String>,
    /// what branches and addresses depended on: (discriminant, span) and (selector, span)
    pub branched: BTreeMap<T, u32>,
    pub indexed: BTreeMap<T, u32>,
    pub loop_limit: usize,
}

impl Interp {
    pub fn new() -> Self {
        let mut s = Interp { max_steps: 400_000_000, max_mem: 5 << 29, loop_limit: 600, ..Default::default() };
        s.spans.push(("".into(), 0, "".into()));
        s
    }
    pub fn const_obj(&mut self, v: Val) -> u32 {
        self.consts.push(v);
        KONST | (self.consts.len() as u32 - 1)
    }
    pub fn mk_enum(&mut self, idx: u32, n: u32, f: Vec<Val>) -> Val {
        let d = self.a.k(16, idx as u128);
        let mut v = vec![vec![]; n.max(idx + 1) as usize];
        v[idx as usize] = f;
        Val::Enum(d, Rc::new(v))
    }
    pub fn some_if(&mut self, c: T, v: Val) -> Val {
        let d = self.a.zext(c, 16);
        Val::Enum(d, Rc::new(vec![vec![], vec![v]]))
    }
    pub fn none(&mut self) -> Val { self.mk_enum(0, 2, vec![]) }
    pub fn some(&mut self, v: Val) -> Val { self.mk_enum(1, 2, vec![v]) }
    pub fn us(&mut self, v: usize) -> T { self.a.k(pw(), v as u128) }
    pub fn usv(&mut self, v: usize) -> Val { Val::Int(self.a.k(pw(), v as u128)) }

    // ------------------------------------------------------------------ memory
    fn root<'a>(&'a self, st: &'a St, obj: u32) -> R<&'a Val> {
        if obj & KONST != 0 { return Ok(&self.consts[(obj & !KONST) as usize]); }
        if obj & HEAP != 0 { return st.heap.get((obj & !HEAP) as usize).ok_or(E::Unsup("dangling heap reference".into())); }
        st.loc.get(obj as usize).ok_or(E::Unsup("dangling stack reference".into()))
    }
    pub fn alloc(&mut self, st: &mut St, v: Val) -> u32 {
        st.heap.push(v);
        HEAP | (st.heap.len() as u32 - 1)
    }
    pub fn read(&mut self, st: &St, r: &RefV) -> R<Val> {
        let root = self.root(st, r.obj)?.clone();
        if let Some((off, len)) = r.win {
            // through an unknown index: only the elements of the window
            let sym = r.path.iter().any(|p| matches!(p, Pe::I(t) if self.a.as_const(*t).is_none()));
            if let (true, Some(l)) = (sym, self.a.as_const(len)) {
                if l > 1 << 22 { return un("huge slice"); }
                let mut p = r.path.clone();
                let mut out = Vec::with_capacity(l as usize);
                for i in 0..l as usize {
                    let k = self.us(i);
                    let ix = self.a.add(off, k);
                    p.push(Pe::I(ix));
                    out.push(self.get(&root, &p)?);
                    p.pop();
                }
                return Ok(Val::seq(out));
            }
        }
        let v = self.get(&root, &r.path)?;
        match r.win {
            None => Ok(v),
            Some((off, len)) => {
                let n = self.seq_len(&v)?;
                if self.a.as_const(off) == Some(0) && n == len {
                    return Ok(match v { Val::Vec(s) => Val::Seq(s), x => x });
                }
                if self.a.as_const(len).is_none() { return Ok(Val::Seq(Rc::new(Sq::Win { base: v, off, len }))); }
                let els = self.window(&v, off, len)?;
                Ok(Val::seq(els))
            }
        }
    }
    pub fn window(&mut self, v: &Val, off: T, len: T) -> R<Vec<Val>> {
        let Some(l) = self.a.as_const(len) else { return un("whole-slice use with a length that is not a known constant") };
        if l > 1 << 22 { return un("huge slice"); }
        if let (Some(o), Val::Seq(s) | Val::Vec(s)) = (self.a.as_const(off), v) {
            if let Sq::Conc(e) = &**s {
                if o + l <= e.len() as u128 { return Ok(e[o as usize..(o + l) as usize].to_vec()); }
                return un("slice window out of range");
            }
        }
        let mut out = Vec::with_capacity(l as usize);
        for i in 0..l {
            let k = self.a.k(pw(), i);
            let ix = self.a.add(off, k);
            out.push(self.get(v, &[Pe::I(ix)])?);
        }
        Ok(out)
    }
    pub fn seq_len(&mut self, v: &Val) -> R<T> {
        match v {
            Val::Seq(s) | Val::Vec(s) => match &**s { Sq::Conc(e) => Ok(self.us(e.len())), Sq::Sym { len, .. } | Sq::Win { len, .. } => Ok(*len) },
            Val::Uninit => un("use of an uninitialised sequence"),
            Val::Poison(p) => un(p.to_string()),
            x => un(format!("length of {}", kind(x))),
        }
    }
    pub fn get(&mut self, v: &Val, path: &[Pe]) -> R<Val> {
        let mut cur = v.clone();
        let mut i = 0;
        while i < path.len() {
            cur = match (&path[i], &cur) {
                (Pe::F(f), Val::Agg(a)) => match a.get(*f as usize) { Some(x) => x.clone(), None => return un("field of a partly initialised aggregate") },
                (Pe::F(_), Val::Ref(_)) => cur.clone(),
                (Pe::F(0), Val::Vec(_) | Val::Seq(_) | Val::Int(_)) => cur.clone(),
                (Pe::V(v, f), Val::Enum(_, p)) => match p.get(*v as usize).and_then(|x| x.get(*f as usize)) { Some(x) => x.clone(), None => return un("payload of an absent variant") },
                (Pe::I(t), Val::Seq(s) | Val::Vec(s)) => match &**s {
                    Sq::Conc(e) => match self.a.as_const(*t) {
                        Some(c) => match e.get(c as usize) { Some(x) => x.clone(), None => return un(format!("index {c} of {}", e.len())) },
                        None => {
                            let n = e.len();
                            let Some((x, cands)) = self.a.small(*t, n.max(1) * 64) else { return un(format!("index with an unbounded set of values: {}", self.a.show(*t, 3))) };
                            self.saw_index(x);
                            let mut vals = vec![];
                            for (s, ix) in cands {
                                if ix >= n as u128 { continue; }
                                vals.push((s, self.get(&e[ix as usize], &path[i + 1..])?));
                            }
                            if vals.is_empty() { return un("index without a candidate in range"); }
                            return self.sel_vals(x, vals);
                        }
                    },
                    Sq::Sym { arr, .. } => { let (a, t) = (*arr, *t); Val::Int(self.a.intern(Op::Rd(a, t), 8)) }
                    Sq::Win { base, off, .. } => {
                        let (b, o) = (base.clone(), *off);
                        let ix = self.a.add(o, *t);
                        let mut p = vec![Pe::I(ix)];
                        p.extend_from_slice(&path[i + 1..]);
                        return self.get(&b, &p);
                    }
                },
                (_, Val::Uninit) => return un("use of an uninitialised or moved value"),
                (_, Val::Poison(p)) => return un(p.to_string()),
                (p, x) => return un(format!("projection {p:?} of {}", kind(x))),
            };
            i += 1;
        }
        Ok(cur)
    }
    pub fn saw_size(&mut self, v: &Val) { if let Val::Int(t) = v { if self.a.as_const(*t).is_none() { self.saw_index(*t); } } }
    fn saw_index(&mut self, x: T) {
        let span = if self.a.cur_span != 0 { self.a.cur_span } else { self.ctx_span };
        self.indexed.entry(x).or_insert(span);
    }
    fn sel_vals(&mut self, x: T, vs: Vec<(u128, Val)>) -> R<Val> {
        if vs.len() == 1 { return Ok(vs[0].1.clone()); }
        match &vs[0].1 {
            Val::Int(_) => {
                let mut o = vec![];
                for (s, v) in &vs { if let Val::Int(t) = v { o.push((*s, *t)); } else { return un("mixed table"); } }
                Ok(Val::Int(self.a.sel(x, o)))
            }
            Val::Agg(a) => {
                let n = a.len();
                let mut out = vec![];
                for i in 0..n {
                    let mut col = vec![];
                    for (s, v) in &vs { match v { Val::Agg(b) if b.len() == n => col.push((*s, b[i].clone())), _ => return un("mixed table") } }
                    out.push(self.sel_vals(x, col)?);
                }
                Ok(Val::agg(out))
            }
            Val::Seq(s) | Val::Vec(s) => {
                let isv = matches!(&vs[0].1, Val::Vec(_));
                let Sq::Conc(e) = &**s else { return un("symbolic table of symbolic sequences") };
                let n = e.len();
                let mut out = vec![];
                for i in 0..n {
                    let mut col = vec![];
                    for (s, v) in &vs {
                        match v {
                            Val::Seq(b) | Val::Vec(b) => match &**b { Sq::Conc(b) if b.len() == n => col.push((*s, b[i].clone())), _ => return un("table of sequences of different lengths") },
                            _ => return un("mixed table"),
                        }
                    }
                    out.push(self.sel_vals(x, col)?);
                }
                Ok(if isv { Val::vec(out) } else { Val::seq(out) })
            }
            _ => {
                let mut acc = vs[0].1.clone();
                for (s, v) in &vs[1..] {
                    let w = self.a.w(x);
                    let ks = self.a.k(w, *s);
                    let c = self.a.eq(x, ks);
                    acc = self.merge(c, v, &acc)?;
                }
                Ok(acc)
            }
        }
    }
    pub fn write(&mut self, st: &mut St, r: &RefV, new: Val) -> R<()> {
        if r.obj & KONST != 0 { return un("write to a constant"); }
        let mut root = {
            let slot = if r.obj & HEAP != 0 { st.heap.get_mut((r.obj & !HEAP) as usize) } else { st.loc.get_mut(r.obj as usize) };
            match slot { Some(s) => std::mem::replace(s, Val::Uninit), None => return un("dangling write") }
        };
        let res = match r.win {
            None => self.set(&mut root, &r.path, new, None),
            Some((off, len)) => self.set_win(&mut root, &r.path, off, len, new),
        };
        let slot = if r.obj & HEAP != 0 { &mut st.heap[(r.obj & !HEAP) as usize] } else { &mut st.loc[r.obj as usize] };
        *slot = root;
        res
    }
    fn set_win(&mut self, root: &mut Val, path: &[Pe], off: T, len: T, new: Val) -> R<()> {
        let els = match new { Val::Seq(s) | Val::Vec(s) => match &*s { Sq::Conc(e) => e.clone(), _ => return un("symbolic copy") }, x => return un(format!("slice store of {}", kind(&x))) };
        if self.a.as_const(len) != Some(els.len() as u128) { return un("slice store of different length"); }
        let mut p = path.to_vec();
        for (i, e) in els.into_iter().enumerate() {
            let k = self.us(i);
            let ix = self.a.add(off, k);
            p.push(Pe::I(ix));
            self.set(root, &p, e, None)?;
            p.pop();
        }
        Ok(())
    }
    pub fn set(&mut self, v: &mut Val, path: &[Pe], new: Val, cond: Option<T>) -> R<()> {
        if path.is_empty() {
            match cond {
                None => *v = new,
                Some(c) => { let m = self.merge(c, &new, v)?; *v = m; }
            }
            return Ok(());
        }
        match &path[0] {
            Pe::F(f) => {
                if let Val::Uninit = v { *v = Val::agg(vec![]); }
                match v {
                    Val::Agg(a) => {
                        let a = Rc::make_mut(a);
                        while a.len() <= *f as usize { a.push(Val::Uninit); }
                        self.set(&mut a[*f as usize], &path[1..], new, cond)
                    }
                    Val::Seq(_) | Val::Vec(_) if *f == 0 => self.set(v, &path[1..], new, cond),
                    x => un(format!("field store into {}", kind(x))),
                }
            }
            Pe::V(vi, f) => {
                if let Val::Uninit = v { let d = self.a.k(16, *vi as u128); *v = Val::Enum(d, Rc::new(vec![])); }
                match v {
                    Val::Enum(_, p) => {
                        let p = Rc::make_mut(p);
                        while p.len() <= *vi as usize { p.push(vec![]); }
                        let q = &mut p[*vi as usize];
                        while q.len() <= *f as usize { q.push(Val::Uninit); }
                        self.set(&mut q[*f as usize], &path[1..], new, cond)
                    }
                    x => un(format!("variant store into {}", kind(x))),
                }
            }
            Pe::I(t) => match v {
                Val::Seq(s) | Val::Vec(s) => {
                    let Sq::Conc(e) = Rc::make_mut(s) else { return un("store into a symbolic sequence") };
                    match self.a.as_const(*t) {
                        Some(c) => match e.get_mut(c as usize) { Some(x) => self.set(x, &path[1..], new, cond), None => un(format!("store index {c} of {}", e.len())) },
                        None => {
                            let n = e.len();
                            let Some((x, cands)) = self.a.small(*t, n.max(1) * 64) else { return un(format!("store index with an unbounded set of values: {}", self.a.show(*t, 3))) };
                            self.saw_index(x);
                            let w = self.a.w(x);
                            for (s, ix) in cands {
                                if ix >= n as u128 { continue; }
                                let ks = self.a.k(w, s);
                                let c = self.a.eq(x, ks);
                                let c2 = match cond { Some(c0) => self.a.and(c0, c), None => c };
                                let nv = self.assume_val(&new, c);
                                self.set(&mut e[ix as usize], &path[1..], nv, Some(c2))?;
                            }
                            Ok(())
                        }
                    }
                }
                x => un(format!("index store into {}", kind(x))),
            },
        }
    }
    fn assume_val(&mut self, v: &Val, c: T) -> Val {
        match v {
            Val::Int(t) => Val::Int(self.a.assume(*t, c, true, 3)),
            x => x.clone(),
        }
    }
    // ------------------------------------------------------------------ joins
    pub fn merge(&mut self, c: T, a: &Val, b: &Val) -> R<Val> {
        Ok(match (a, b) {
            (Val::Int(x), Val::Int(y)) => { if self.a.w(*x) != self.a.w(*y) { return un("join of different widths"); } Val::Int(self.a.ite(c, *x, *y)) }
            (Val::Uninit, _) | (_, Val::Uninit) => Val::Uninit,
            (Val::Poison(_), _) => a.clone(),
            (_, Val::Poison(_)) => b.clone(),
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) { return Ok(a.clone()); }
                if x.len() != y.len() { return un("join of aggregates"); }
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() { o.push(self.merge(c, &x[i], &y[i])?); }
                Val::agg(o)
            }
            (Val::Seq(x), Val::Seq(y)) | (Val::Vec(x), Val::Vec(y)) => {
                if Rc::ptr_eq(x, y) { return Ok(a.clone()); }
                match (&**x, &**y) {
                    (Sq::Conc(p), Sq::Conc(q)) if p.len() == q.len() => {
                        let mut o = Vec::with_capacity(p.len());
                        for i in 0..p.len() { o.push(self.merge(c, &p[i], &q[i])?); }
                        if let Val::Vec(_) = a { Val::vec(o) } else { Val::seq(o) }
                    }
                    (Sq::Sym { arr: a1, len: l1 }, Sq::Sym { arr: a2, len: l2 }) if a1 == a2 && l1 == l2 => a.clone(),
                    _ => return un("join of sequences of different lengths"),
                }
            }
            (Val::Enum(d1, p1), Val::Enum(d2, p2)) => {
                let d = self.a.ite(c, *d1, *d2);
                if Rc::ptr_eq(p1, p2) { return Ok(Val::Enum(d, p1.clone())); }
                let n = p1.len().max(p2.len());
                let mut out = vec![];
                for i in 0..n {
                    let e = vec![];
                    let (x, y) = (p1.get(i).unwrap_or(&e), p2.get(i).unwrap_or(&e));
                    // a payload matters only when its variant can be current
                    let cx = self.a.as_const(*d1).map_or(true, |k| k == i as u128);
                    let cy = self.a.as_const(*d2).map_or(true, |k| k == i as u128);
                    if x.is_empty() || !cx { out.push(y.clone()); continue; }
                    if y.is_empty() || !cy { out.push(x.clone()); continue; }
                    if x.len() != y.len() { return un("join of enum payloads"); }
                    let mut o = vec![];
                    for j in 0..x.len() { o.push(self.merge(c, &x[j], &y[j])?); }
                    out.push(o);
                }
                Val::Enum(d, Rc::new(out))
            }
            (Val::Ref(x), Val::Ref(y)) => {
                if x == y { return Ok(a.clone()); }
                if x.obj != y.obj || x.path.len() != y.path.len() || x.win.is_some() != y.win.is_some() { return un("join of references to different objects"); }
                let mut path = vec![];
                for (p, q) in x.path.iter().zip(&y.path) {
                    match (p, q) {
                        (Pe::I(s), Pe::I(t)) => path.push(Pe::I(self.a.ite(c, *s, *t))),
                        (p, q) if p == q => path.push(p.clone()),
                        _ => return un("join of references to different places"),
                    }
                }
                let win = match (x.win, y.win) { (Some((o1, l1)), Some((o2, l2))) => Some((self.a.ite(c, o1, o2), self.a.ite(c, l1, l2))), _ => None };
                Val::rf(x.obj, path, win)
            }
            (Val::Fn(x), Val::Fn(y)) if x == y => a.clone(),
            (Val::Hasher(x), Val::Hasher(y)) if x == y => a.clone(),
            (x, y) => return un(format!("join of {} and {}", kind(x), kind(y))),
        })
    }
    fn merge_states(&mut self, c: T, a: &St, b: &St, dead: &dyn Fn(usize) -> bool) -> R<St> {
        if a.loc.len() != b.loc.len() { return un("join of different frames"); }
        let mut loc = Vec::with_capacity(a.loc.len());
        for i in 0..a.loc.len() {
            if dead(i) { loc.push(Val::Uninit); continue; }
            loc.push(self.merge(c, &a.loc[i], &b.loc[i])?);
        }
        let n = a.heap.len().max(b.heap.len());
        let mut heap = Vec::with_capacity(n);
        for i in 0..n {
            match (a.heap.get(i), b.heap.get(i)) {
                (Some(x), Some(y)) => heap.push(self.merge(c, x, y)?),
                (Some(x), None) | (None, Some(x)) => heap.push(x.clone()),
                _ => unreachable!(),
            }
        }
        let pc: Vec<T> = a.pc.iter().filter(|t| b.pc.contains(t)).copied().collect();
        Ok(St { loc, heap, pc })
    }

    // ------------------------------------------------------------------ facts
    /// decide a condition from its ranges and from the facts on the path
    pub fn decide(&mut self, st: &St, c: T) -> Option<bool> {
        if let Some(v) = self.a.as_const(c) { return Some(v == 1); }
        if st.pc.contains(&c) { return Some(true); }
        let nc = self.a.not(c);
        if st.pc.contains(&nc) { return Some(false); }
        // interval facts about one term
        let (core, neg) = if let Op::Bits { k, .. } = self.a.op(c) { if *k == 1 { (nc, true) } else { (c, false) } } else { (c, false) };
        let q = match *self.a.op(core) {
            Op::Ult(x, y) => match (self.a.as_const(x), self.a.as_const(y)) {
                (None, Some(k)) => { let (lo, hi) = self.frange(st, x); if hi < k { Some(true) } else if lo >= k { Some(false) } else { None } }
                (None, None) => { let (rx, ry) = (self.frange(st, x), self.frange(st, y)); if rx.1 < ry.0 { Some(true) } else if rx.0 >= ry.1 { Some(false) } else { None } }
                _ => None,
            },
            Op::Eq(x, k) => { let (lo, hi) = self.frange(st, x); if k < lo || k > hi { Some(false) } else if lo == hi { Some(true) } else { None } }
            _ => None,
        };
        q.map(|b| b ^ neg)
    }
    /// unsigned range of a term, refined by the path facts that mention it directly
    pub fn frange(&mut self, st: &St, x: T) -> (u128, u128) {
        let (mut lo, mut hi) = self.a.rng(x);
        for &f in &st.pc {
            let nf = self.a.not(f);
            let (core, neg) = if let Op::Bits { k: 1, .. } = self.a.op(f) { (nf, true) } else { (f, false) };
            match *self.a.op(core) {
                Op::Ult(a, b) if a == x => if let Some(k) = self.a.as_const(b) { if neg { lo = lo.max(k) } else { hi = hi.min(k.saturating_sub(1)) } },
                Op::Eq(a, k) if a == x => if !neg { lo = k; hi = k; } else if lo == k { lo += 1 } else if hi == k { hi -= 1 },
                _ => {}
            }
        }
        (lo, hi)
    }
    pub fn record_panic(&mut self, st: &St, extra: Option<T>, what: &str) {
        let mut pc = st.pc.clone();
        if let Some(x) = extra { pc.push(x); }
        let span = if self.a.cur_span != 0 { self.a.cur_span } else { self.ctx_span };
        self.panics.push(Panic { certain: pc.is_empty(), pc, span, what: what.to_string() });
    }
    pub fn require(&mut self, st: &mut St, c: T, what: &str) -> R<()> {
        self.obligations += 1;
        match self.decide(st, c) {
            Some(true) => { self.discharged += 1; Ok(()) }
            Some(false) => { self.record_panic(st, None, what); Err(E::Dead) }
            None => {
                let nc = self.a.not(c);
                self.record_panic(st, Some(nc), what);
                st.pc.push(c);
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------------ places and operands
    pub fn place(&mut self, st: &St, base: usize, p: &Pl) -> R<RefV> {
        let mut l = RefV { obj: (base + p.local) as u32, path: vec![], win: None, dt: None };
        for e in &p.pj {
            match e {
                Pj::Deref => match self.read(st, &l)? {
                    Val::Ref(r) => l = (*r).clone(),
                    Val::Uninit => return un("dereference of an uninitialised reference"),
                    Val::Poison(p) => return un(p.to_string()),
                    x => return un(format!("dereference of {}", kind(&x))),
                },
                Pj::F(i) => l.path.push(Pe::F(*i)),
                Pj::VF(v, i) => l.path.push(Pe::V(*v, *i)),
                Pj::Idx(loc) => {
                    let i = match &st.loc[base + loc] { Val::Int(t) => *t, _ => return un("index operand") };
                    let i = match l.win.take() { Some((o, _)) => self.a.add(o, i), None => i };
                    l.path.push(Pe::I(i));
                }
                Pj::CIdx(o, from_end) => {
                    let i = if *from_end {
                        let n = self.place_len(st, &l)?;
                        let k = self.us(*o as usize);
                        self.a.sub(n, k)
                    } else { self.us(*o as usize) };
                    let i = match l.win.take() { Some((o, _)) => self.a.add(o, i), None => i };
                    l.path.push(Pe::I(i));
                }
                Pj::Sub(f, t, from_end) => {
                    let n = self.place_len(st, &l)?;
                    let (kf, kt) = (self.us(*f as usize), self.us(*t as usize));
                    let end = if *from_end { self.a.sub(n, kt) } else { kt };
                    let len = self.a.sub(end, kf);
                    let off = match l.win { Some((o, _)) => self.a.add(o, kf), None => kf };
                    l.win = Some((off, len));
                }
            }
        }
        Ok(l)
    }
    /// the length of the sequence at a place, when it is the same for all values of unknown indices in the path
    pub fn quick_len(&mut self, st: &St, r: &RefV) -> Option<T> {
        fn go(s: &Interp, v: &Val, path: &[Pe]) -> Option<usize> {
            let Some(p) = path.first() else {
                return match v { Val::Seq(q) | Val::Vec(q) => match &**q { Sq::Conc(e) => Some(e.len()), _ => None }, _ => None };
            };
            match (p, v) {
                (Pe::F(f), Val::Agg(a)) => go(s, a.get(*f as usize)?, &path[1..]),
                (Pe::I(t), Val::Seq(q) | Val::Vec(q)) => {
                    let Sq::Conc(e) = &**q else { return None };
                    if let Some(c) = s.a.as_const(*t) { return go(s, e.get(c as usize)?, &path[1..]); }
                    let n = go(s, e.first()?, &path[1..])?;
                    for x in &e[1..] { if go(s, x, &path[1..])? != n { return None; } }
                    Some(n)
                }
                _ => None,
            }
        }
        let n = go(self, self.root(st, r.obj).ok()?, &r.path)?;
        Some(self.us(n))
    }
    pub fn place_len(&mut self, st: &St, l: &RefV) -> R<T> {
        if let Some((_, n)) = l.win { return Ok(n); }
        if let Some(n) = self.quick_len(st, l) { return Ok(n); }
        let v = self.read(st, l)?;
        self.seq_len(&v)
    }
    pub fn opd(&mut self, st: &St, base: usize, o: &Opd) -> R<Val> {
        match o {
            Opd::K(v) => Ok(v.clone()),
            Opd::Pl(p) => {
                if p.pj.is_empty() { return Ok(st.loc[base + p.local].clone()); }
                let l = self.place(st, base, p)?;
                self.read(st, &l)
            }
        }
    }
    pub fn int(&self, v: &Val) -> R<T> {
        match v {
            Val::Int(t) => Ok(*t),
            Val::Agg(a) if a.len() == 1 => self.int(&a[0]),
            Val::Poison(p) => un(p.to_string()),
            Val::Uninit => un("use of an uninitialised integer"),
            x => un(format!("integer expected, found {}", kind(x))),
        }
    }
    fn opi(&mut self, st: &St, base: usize, o: &Opd) -> R<T> { let v = self.opd(st, base, o)?; self.int(&v) }

    pub fn bin(&mut self, op: BinOp, a: T, b: T, s: bool) -> R<T> {
        use BinOp::*;
        let w = self.a.w(a);
        Ok(match op {
            Add | AddUnchecked => self.a.add(a, b),
            Sub | SubUnchecked => self.a.sub(a, b),
            Mul | MulUnchecked => self.a.mul(a, b),
            Div => if s { self.a.sdiv(a, b) } else { self.a.udiv(a, b) },
            Rem => if s { self.a.srem(a, b) } else { self.a.urem(a, b) },
            BitXor => self.a.xor(a, b),
            BitAnd => self.a.and(a, b),
            BitOr => self.a.or(a, b),
            Shl | ShlUnchecked => self.a.shl(a, b),
            Shr | ShrUnchecked => if s { self.a.ashr(a, b) } else { self.a.lshr(a, b) },
            Eq => self.a.eq(a, b),
            Ne => { let e = self.a.eq(a, b); self.a.not(e) }
            Lt => if s { self.a.slt(a, b) } else { self.a.ult(a, b) },
            Ge => { let e = if s { self.a.slt(a, b) } else { self.a.ult(a, b) }; self.a.not(e) }
            Gt => if s { self.a.slt(b, a) } else { self.a.ult(b, a) },
            Le => { let e = if s { self.a.slt(b, a) } else { self.a.ult(b, a) }; self.a.not(e) }
            _ => return un(format!("operator {op:?} at width {w}")),
        })
    }
    /// (result, overflow flag)
    pub fn chk(&mut self, op: BinOp, a: T, b: T, it: It) -> R<(T, T)> {
        use BinOp::*;
        let w = it.w;
        match op {
            Shl | Shr => {
                let bw = self.a.w(b);
                let kw = self.a.k(bw, w as u128);
                let lt = self.a.ult(b, kw);
                let f = self.a.not(lt);
                let r = self.bin(op, a, b, it.s)?;
                return Ok((r, f));
            }
            Add | Sub | Mul => {}
            _ => return un("checked operator"),
        }
        let r = self.bin(op, a, b, it.s)?;
        // interval argument first
        let (ra, rb) = if it.s { (self.a.srng(a), self.a.srng(b)) } else {
            let (x, y) = (self.a.rng(a), self.a.rng(b));
            if w > 64 {
                let f = |p: u128, q: u128| match op { Add => p.checked_add(q).map_or(true, |v| v > fm(w)), Sub => p < q, _ => p.checked_mul(q).map_or(true, |v| v > fm(w)) };
                let (worst, best) = if op == Sub { (f(x.0, y.1), f(x.1, y.0)) } else { (f(x.1, y.1), f(x.0, y.0)) };
                if !worst { return Ok((r, self.a.ff())); }
                if best { return Ok((r, self.a.tt())); }
                return Ok((r, match op { Add => self.a.ult(r, a), Sub => self.a.ult(a, b), _ => self.ovf_app(op, a, b, it) }));
            }
            ((x.0 as i128, x.1 as i128), (y.0 as i128, y.1 as i128))
        };
        if w > 64 { return Ok((r, self.ovf_app(op, a, b, it))); }
        let (mn, mx) = if it.s { (sx(1u128 << (w - 1), w), (fm(w) >> 1) as i128) } else { (0, fm(w) as i128) };
        let iv = match op {
            Add => (ra.0.saturating_add(rb.0), ra.1.saturating_add(rb.1)),
            Sub => (ra.0.saturating_sub(rb.1), ra.1.saturating_sub(rb.0)),
            _ => {
                let c = [ra.0.saturating_mul(rb.0), ra.0.saturating_mul(rb.1), ra.1.saturating_mul(rb.0), ra.1.saturating_mul(rb.1)];
                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
        };
        if iv.0 >= mn && iv.1 <= mx { return Ok((r, self.a.ff())); }
        if iv.1 < mn || iv.0 > mx { return Ok((r, self.a.tt())); }
        if !it.s {
            match op {
                Add => { let f = self.a.ult(r, a); return Ok((r, f)); }
                Sub => { let f = self.a.ult(a, b); return Ok((r, f)); }
                _ => {}
            }
        }
        Ok((r, self.ovf_app(op, a, b, it)))
    }
    fn ovf_app(&mut self, op: BinOp, a: T, b: T, it: It) -> T {
        self.a.app(&format!("overflow_{op:?}_{}{}", if it.s { "i" } else { "u" }, it.w), vec![a, b], 1)
    }
    pub fn cast(&mut self, t: T, from: It, to: It) -> T {
        let tw = self.a.w(t);
        let from = It { w: tw, s: from.s };
        if to.w <= from.w { self.a.trunc(t, to.w) } else if from.s { self.a.sext(t, to.w) } else { self.a.zext(t, to.w) }
    }

    fn rv(&mut self, st: &mut St, base: usize, r: &Rv) -> R<Val> {
        Ok(match r {
            Rv::Use(o) => self.opd(st, base, o)?,
            Rv::Ref(p) => { let l = self.place(st, base, p)?; Val::Ref(Rc::new(l)) }
            Rv::Bin(op, a, b, it) => {
                let (x, y) = (self.opd(st, base, a)?, self.opd(st, base, b)?);
                if let (BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge, Val::Ref(p), Val::Ref(q)) = (op, &x, &y) {
                    return match (op, p == q) {
                        (BinOp::Eq, e) if e || p.obj != q.obj => Ok(Val::Int(self.a.bool(e))),
                        (BinOp::Ne, e) if e || p.obj != q.obj => Ok(Val::Int(self.a.bool(!e))),
                        _ => un("pointer comparison"),
                    };
                }
                if let (BinOp::Offset, Val::Ref(p)) = (op, &x) { let t = self.int(&y)?; return self.ptr_add(p, t); }
                let (x, y) = (self.int(&x)?, self.int(&y)?);
                let s = it.map_or(false, |i| i.s);
                if let BinOp::Cmp = op {
                    let lt = if s { self.a.slt(x, y) } else { self.a.ult(x, y) };
                    let e = self.a.eq(x, y);
                    return Ok(self.ordering(lt, e));
                }
                Val::Int(self.bin(*op, x, y, s)?)
            }
            Rv::Chk(op, a, b, it) => {
                let (x, y) = (self.opi(st, base, a)?, self.opi(st, base, b)?);
                let (r, f) = self.chk(*op, x, y, *it)?;
                Val::agg(vec![Val::Int(r), Val::Int(f)])
            }
            Rv::Un(op, a, _) => match op {
                UnOp::Not => { let x = self.opi(st, base, a)?; Val::Int(self.a.not(x)) }
                UnOp::Neg => { let x = self.opi(st, base, a)?; Val::Int(self.a.neg(x)) }
                UnOp::PtrMetadata => match self.opd(st, base, a)? {
                    Val::Ref(r) => { let r2 = r.clone(); Val::Int(self.place_len(st, &r2)?) }
                    _ => return un("pointer metadata"),
                },
            },
            Rv::Cast(k, o) => {
                let v = self.opd(st, base, o)?;
                match k {
                    Ck::Int(f, t) => {
                        let x = match &v { Val::Enum(d, _) => *d, v => self.int(v)? };
                        Val::Int(self.cast(x, *f, *t))
                    }
                    Ck::Keep => v,
                    Ck::Unsize(n) => match (v, n) {
                        (Val::Ref(r), Some(n)) => {
                            if r.win.is_some() { return Ok(Val::Ref(r)); }
                            let (z, l) = (self.us(0), self.us(*n as usize));
                            Val::rf(r.obj, r.path.clone(), Some((z, l)))
                        }
                        (v, _) => v,
                    },
                    Ck::Dyn(t) => match v {
                        Val::Ref(r) if r.dt.is_none() => Val::Ref(Rc::new(RefV { dt: Some(*t), ..(*r).clone() })),
                        _ => return un("trait object"),
                    },
                    Ck::FnPtr(i) => Val::Fn(*i),
                    Ck::Transmute(f, t) => self.transmute(v, *f, *t)?,
                    Ck::Bad(s) => return un(s.clone()),
                }
            }
            Rv::Discr(p, tab, w) => {
                let l = self.place(st, base, p)?;
                match self.read(st, &l)? {
                    Val::Enum(d, _) => Val::Int(self.discr(d, tab, *w)),
                    Val::Uninit => return un("discriminant of an uninitialised value"),
                    Val::Poison(p) => return un(p.to_string()),
                    x => return un(format!("discriminant of {}", kind(&x))),
                }
            }
            Rv::Len(p) => { let l = self.place(st, base, p)?; Val::Int(self.place_len(st, &l)?) }
            Rv::Repeat(o, n) => { let v = self.opd(st, base, o)?; Val::seq(vec![v; *n as usize]) }
            Rv::Agg(v) => { let mut o = vec![]; for x in v { o.push(self.opd(st, base, x)?); } Val::agg(o) }
            Rv::Arr(v) => { let mut o = vec![]; for x in v { o.push(self.opd(st, base, x)?); } Val::seq(o) }
            Rv::Enum(i, n, v) => { let mut o = vec![]; for x in v { o.push(self.opd(st, base, x)?); } self.mk_enum(*i, *n, o) }
            Rv::RawPtr(v) => {
                let p = self.opd(st, base, &v[0])?;
                match (&p, v.len()) {
                    (Val::Ref(r), 2) => match self.opd(st, base, &v[1])? {
                        Val::Int(n) => self.mk_slice(r, n)?,
                        _ => p,
                    },
                    _ => p,
                }
            }
            Rv::Bad(s) => return un(s.clone()),
        })
    }
    /// slice reference from an element pointer and a length
    pub fn mk_slice(&mut self, r: &RefV, n: T) -> R<Val> {
        if r.win.is_some() { let (o, _) = r.win.unwrap(); return Ok(Val::rf(r.obj, r.path.clone(), Some((o, n)))); }
        match r.path.last() {
            Some(Pe::I(o)) => Ok(Val::rf(r.obj, r.path[..r.path.len() - 1].to_vec(), Some((*o, n)))),
            _ => { let z = self.us(0); Ok(Val::rf(r.obj, r.path.clone(), Some((z, n)))) }
        }
    }
    pub fn ptr_add(&mut self, r: &RefV, n: T) -> R<Val> {
        if self.a.as_const(n) == Some(0) { return Ok(Val::Ref(Rc::new(r.clone()))); }
        let mut r = r.clone();
        if let Some((o, _)) = r.win.take() { r.path.push(Pe::I(o)); }
        match r.path.last_mut() {
            Some(Pe::I(o)) => { *o = self.a.add(*o, n); Ok(Val::Ref(Rc::new(r))) }
            _ => un("pointer arithmetic"),
        }
    }
    pub fn ordering(&mut self, lt: T, eq: T) -> Val {
        let (k0, k1, k2) = (self.a.k(16, 0), self.a.k(16, 1), self.a.k(16, 2));
        let r = self.a.ite(eq, k1, k2);
        let d = self.a.ite(lt, k0, r);
        Val::Enum(d, Rc::new(vec![vec![], vec![], vec![]]))
    }
    fn map_leaves(&mut self, d: T, tab: &[u128], w: u16, depth: u32) -> Option<T> {
        if let Some(c) = self.a.as_const(d) { return Some(self.a.k(w, *tab.get(c as usize)?)); }
        if depth == 0 { return None; }
        let Op::Ite(c, p, q) = *self.a.op(d) else { return None };
        let (x, y) = (self.map_leaves(p, tab, w, depth - 1)?, self.map_leaves(q, tab, w, depth - 1)?);
        Some(self.a.ite(c, x, y))
    }
    fn discr(&mut self, d: T, tab: &[u128], w: u16) -> T {
        if let Some(c) = self.a.as_const(d) { return self.a.k(w, *tab.get(c as usize).unwrap_or(&c)); }
        if tab.iter().enumerate().all(|(i, v)| *v == i as u128) { return if w >= 16 { self.a.zext(d, w) } else { self.a.trunc(d, w) }; }
        if let Some(r) = self.map_leaves(d, tab, w, 6) { return r; }
        let mut r = self.a.k(w, tab[0]);
        for i in 1..tab.len() {
            let k = self.a.k(16, i as u128);
            let c = self.a.eq(d, k);
            let v = self.a.k(w, tab[i]);
            r = self.a.ite(c, v, r);
        }
        r
    }
    pub fn le_bytes(&mut self, t: T) -> R<Vec<T>> {
        let w = self.a.w(t);
        if w % 8 != 0 { return un("byte view of a bool"); }
        Ok((0..w / 8).map(|i| self.a.extract(t, 8 * i, 8)).collect())
    }
    pub fn bswap(&mut self, t: T) -> T {
        let w = self.a.w(t);
        let b: Vec<T> = (0..w / 8).rev().map(|i| self.a.extract(t, 8 * i, 8)).collect();
        self.a.concat(&b)
    }
    /// the value's bytes as they lie in the target's memory
    pub fn flat_bytes(&mut self, v: &Val, out: &mut Vec<T>) -> R<()> {
        match v {
            Val::Int(t) => {
                let w = self.a.w(*t);
                if w % 8 != 0 { return un("byte view of a bool"); }
                let mut b = self.le_bytes(*t)?;
                if be() { b.reverse(); }
                out.extend(b);
                Ok(())
            }
            Val::Seq(s) => match &**s { Sq::Conc(e) => { for x in e { self.flat_bytes(x, out)?; } Ok(()) } _ => un("byte view") },
            Val::Agg(a) if a.len() == 1 => { let x = a[0].clone(); self.flat_bytes(&x, out) }
            x => un(format!("byte view of {}", kind(x))),
        }
    }
    fn unflat(&mut self, ty: Ty, b: &[T], pos: &mut usize) -> R<Val> {
        if let Some(it) = int_info(ty) {
            let n = (it.w / 8) as usize;
            if n == 0 || *pos + n > b.len() { return un("byte view"); }
            let mut bs = b[*pos..*pos + n].to_vec();
            if be() { bs.reverse(); }
            let v = self.a.concat(&bs);
            *pos += n;
            return Ok(Val::Int(v));
        }
        if let TyKind::RigidTy(RigidTy::Array(el, n)) = ty.kind() {
            let n = n.eval_target_usize().unwrap_or(0);
            let mut o = vec![];
            for _ in 0..n { o.push(self.unflat(el, b, pos)?); }
            return Ok(Val::seq(o));
        }
        un(format!("transmute to {ty}"))
    }
    fn transmute(&mut self, v: Val, f: Ty, t: Ty) -> R<Val> {
        if f == t { return Ok(v); }
        if let Val::Ref(_) | Val::Fn(_) = v {
            // pointer-to-pointer transmutes keep the pointee type or are wrappers
            return Ok(v);
        }
        if let (Some(a), Some(b)) = (int_info(f), int_info(t)) { if a.w == b.w { return Ok(v); } }
        let mut b = vec![];
        match self.flat_bytes(&v, &mut b) {
            Ok(()) => {
                let mut p = 0;
                let r = self.unflat(t, &b, &mut p);
                if let Ok(x) = r { self.notes.insert(format!("transmute between integers: {f} -> {t}")); return Ok(x); }
                // wrapper types around the same content
                let (fs, ts) = (format!("{f}"), format!("{t}"));
                if ts.contains("MaybeUninit") || fs.contains("MaybeUninit") || ts.contains("ManuallyDrop") || fs.contains("ManuallyDrop") || ts.contains("NonZero") || fs.contains("NonZero") { return Ok(v); }
                r
            }
            Err(e) => {
                let (fs, ts) = (format!("{f}"), format!("{t}"));
                if ts.contains("MaybeUninit") || fs.contains("MaybeUninit") || ts.contains("ManuallyDrop") || fs.contains("ManuallyDrop") { return Ok(v); }
                Err(e)
            }
        }
    }

    // ------------------------------------------------------------------ control flow
    fn stmt(&mut self, st: &mut St, base: usize, s: &Stm) -> R<()> {
        self.steps += 1;
        match &s.k {
            Stk::Assign(p, r) => {
                let v = self.rv(st, base, r)?;
                if p.pj.is_empty() { st.loc[base + p.local] = v; return Ok(()); }
                let l = self.place(st, base, p)?;
                self.write(st, &l, v)
            }
            Stk::SetDiscr(p, v) => {
                let l = self.place(st, base, p)?;
                let d = self.a.k(16, *v as u128);
                let cur = self.read(st, &l).unwrap_or(Val::Uninit);
                let nv = match cur { Val::Enum(_, p) => Val::Enum(d, p), _ => Val::Enum(d, Rc::new(vec![])) };
                self.write(st, &l, nv)
            }
            Stk::Dead(l) => { st.loc[base + l] = Val::Uninit; Ok(()) }
            Stk::CopyNonOv(s, d, n) => {
                let (s, d, n) = (self.opd(st, base, s)?, self.opd(st, base, d)?, self.opi(st, base, n)?);
                self.copy_range(st, &s, &d, n)
            }
            Stk::Nop => Ok(()),
        }
    }
    pub fn copy_range(&mut self, st: &mut St, s: &Val, d: &Val, n: T) -> R<()> {
        let (Val::Ref(s), Val::Ref(d)) = (s, d) else { return un("raw copy") };
        if self.a.as_const(n) == Some(0) { return Ok(()); }
        if self.a.as_const(n) == Some(1) && s.win.is_none() && d.win.is_none() { let v = self.read(st, s)?; return self.write(st, d, v); }
        let (Val::Ref(s), Val::Ref(d)) = (self.mk_slice(s, n)?, self.mk_slice(d, n)?) else { unreachable!() };
        let v = self.read(st, &s)?;
        self.write(st, &d, v)
    }

    /// analyse from `blk` until `stop`; returns the states that reach `stop`
    fn run(&mut self, b: &Rc<Bod>, base: usize, blk: usize, stop: usize, st: St) -> R<Vec<St>> {
        self.depth += 1;
        if self.depth > self.loop_limit { self.depth -= 1; let w = st.pc.last().map_or(String::new(), |c| self.a.show(*c, 4).chars().take(120).collect()); return un(format!("loop or recursion without a constant bound in {} under {w}", b.name)); }
        let r = self.run_inner(b, base, blk, stop, st);
        self.depth -= 1;
        r
    }
    fn run_inner(&mut self, b: &Rc<Bod>, base: usize, blk0: usize, stop: usize, st0: St) -> R<Vec<St>> {
        let mut work: Vec<(usize, St)> = vec![(blk0, st0)];
        let mut out: Vec<St> = vec![];
        'w: while let Some((mut blk, mut st)) = work.pop() {
            loop {
                if blk == stop { out.push(st); continue 'w; }
                if self.steps > self.max_steps { return un(format!("STEPS: the loop in {} does not end within the analysis budget", b.name)); }
                if self.a.mem > self.max_mem { return un("value graph too large"); }
                if blk != RET && !b.reach[blk] {
                    let mut x = blk;
                    // an unreachable terminator is a compiler guarantee; anything else is a panic or a hang
                    loop {
                        if b.in_repo && b.blocks[x].span != 0 { self.a.cur_span = b.blocks[x].span; }
                        match &b.blocks[x].tm {
                            Tm::Diverge(s) if s == "unreachable" && b.blocks[x].st.is_empty() => continue 'w,
                            Tm::Goto(y) => { x = *y; if x == blk { break; } continue; }
                            _ => break,
                        }
                    }
                    self.obligations += 1;
                    let what = match &b.blocks[x].tm { Tm::Call(c, ..) => format!("call of {}", short(&c.name)), Tm::Diverge(s) => s.clone(), Tm::Goto(_) => "endless loop".into(), _ => "path that never returns".into() };
                    self.record_panic(&st, None, &what);
                    continue 'w;
                }
                let bb = &b.blocks[blk];
                let mut dead = false;
                for s in &bb.st {
                    if b.in_repo && s.span != 0 { self.a.cur_span = s.span; }
                    match self.stmt(&mut st, base, s) {
                        Ok(()) => {}
                        Err(E::Dead) => { dead = true; break; }
                        Err(e) => return Err(self.locate(e, b)),
                    }
                }
                if dead { continue 'w; }
                if b.in_repo && bb.span != 0 { self.a.cur_span = bb.span; }
                self.steps += 1;
                match &bb.tm {
                    Tm::Goto(t) => blk = *t,
                    Tm::Drop(t, None) => blk = *t,
                    Tm::Drop(t, Some((pl, c))) => {
                        let r = self.place(&st, base, pl).and_then(|l| self.call(c, &mut st, vec![Val::Ref(Rc::new(l))], Ty::usize_ty()));
                        match r {
                            Ok(Ret::One(_)) => blk = *t,
                            Ok(Ret::Many(v)) => {
                                let mut v: Vec<St> = v.into_iter().map(|x| x.0).collect();
                                let Some(l) = v.pop() else { continue 'w };
                                st = l;
                                for s in v { work.push((*t, s)); }
                                blk = *t;
                            }
                            Err(E::Dead) => continue 'w,
                            Err(e) => return Err(self.locate(e, b)),
                        }
                    }
                    Tm::Return => blk = RET,
                    Tm::Bad(s) => return Err(self.locate(E::Unsup(s.clone()), b)),
                    Tm::Diverge(s) => { self.record_panic(&st, None, s); continue 'w; }
                    Tm::Assert(c, exp, t, msg) => {
                        let c = match self.opi(&st, base, c) { Ok(c) => c, Err(e) => return Err(self.locate(e, b)) };
                        let c = if *exp { c } else { self.a.not(c) };
                        match self.require(&mut st, c, msg) { Ok(()) => blk = *t, Err(E::Dead) => continue 'w, Err(e) => return Err(e) }
                    }
                    Tm::Call(c, fp, args, dest, t, _) => {
                        let Some(t) = t else { self.record_panic(&st, None, &format!("call of {}", short(&c.name))); continue 'w };
                        let r = self.call_term(b, base, &mut st, c, fp.as_ref(), args, dest);
                        match r {
                            Ok(None) => blk = *t,
                            Ok(Some(mut v)) => {
                                if v.is_empty() { continue 'w; }
                                st = v.pop().unwrap();
                                for s in v { work.push((*t, s)); }
                                blk = *t;
                            }
                            Err(E::Dead) => continue 'w,
                            Err(e) => return Err(self.locate(e, b)),
                        }
                    }
                    Tm::Switch(o, br, other, w) => {
                        let v = match self.opi(&st, base, o) { Ok(v) => v, Err(e) => return Err(self.locate(e, b)) };
                        if let Some(c) = self.a.as_const(v) {
                            let t = br.iter().find(|x| x.0 == c).map_or(*other, |x| x.1);
                            if b.in_repo { self.edges.insert((b.inst, blk, t)); }
                            blk = t;
                            continue;
                        }
                        let vw = self.a.w(v);
                        let _ = w;
                        // arms with their conditions
                        let mut arms: Vec<(usize, T)> = vec![];
                        let mut rest = self.a.tt();
                        for (k, t) in br {
                            let kk = self.a.k(vw, *k & fm(vw));
                            let c = self.a.eq(v, kk);
                            let c2 = c;
                            let nc = self.a.not(c);
                            rest = self.a.and(rest, nc);
                            arms.push((*t, c2));
                        }
                        arms.push((*other, rest));
                        // same target: disjunction
                        let mut m: Vec<(usize, T)> = vec![];
                        for (t, c) in arms {
                            if let Some(x) = m.iter_mut().find(|x| x.0 == t) { x.1 = self.a.or(x.1, c); } else { m.push((t, c)); }
                        }
                        let mut live: Vec<(usize, T)> = vec![];
                        let mut sure = None;
                        for (t, c) in m {
                            match self.decide(&st, c) { Some(false) => {} Some(true) => { sure = Some(t); } None => live.push((t, c)) }
                        }
                        if let Some(t) = sure { if b.in_repo { self.edges.insert((b.inst, blk, t)); } blk = t; continue; }
                        if live.is_empty() { continue 'w; }
                        // unreachable arms carry no information to record
                        live.retain(|(t, _)| !is_unreachable(b, *t));
                        if b.in_repo { for (t, _) in &live { self.edges.insert((b.inst, blk, *t)); } }
                        if live.len() == 1 { blk = live[0].0; continue; }
                        self.switches += 1;
                        let span = if self.a.cur_span != 0 { self.a.cur_span } else { self.ctx_span };
                        self.branched.entry(v).or_insert(span);
                        let ip = b.ipdom[blk];
                        let mut ends: Vec<St> = vec![];
                        for (t, c) in &live {
                            let mut s2 = st.clone();
                            s2.pc.push(*c);
                            self.refine(&mut s2, base, *c);
                            let r = self.run(b, base, *t, ip, s2)?;
                            ends.extend(r);
                        }
                        if ends.is_empty() { continue 'w; }
                        let merged = self.join(b, base, ip, ends)?;
                        let mut it = merged.into_iter();
                        st = it.next().unwrap();
                        for s in it { work.push((ip, s)); }
                        blk = ip;
                    }
                }
            }
        }
        // several states at the same stop: join what can be joined
        if out.len() > 1 { out = self.join(b, base, stop, out)?; }
        Ok(out)
    }
    /// in a branch taken under `c`, locals that were merged on `c` before have one of the merged values
    fn refine(&mut self, st: &mut St, base: usize, c: T) {
        let mut facts = vec![c];
        if let Op::And(l) = self.a.op(c) { facts.extend(l.iter().copied()); }
        let mut known: Vec<(T, bool)> = vec![];
        for f in facts { let n = self.a.not(f); known.push((f, true)); known.push((n, false)); }
        fn go(a: &crate::term::Arena, known: &[(T, bool)], v: &Val, d: u32) -> Option<Val> {
            match v {
                Val::Int(t) => {
                    let Op::Ite(c, x, y) = a.op(*t) else { return None };
                    known.iter().find(|k| k.0 == *c).map(|k| Val::Int(if k.1 { *x } else { *y }))
                }
                Val::Agg(f) if d < 4 && f.len() <= 8 => {
                    let n: Vec<Option<Val>> = f.iter().map(|x| go(a, known, x, d + 1)).collect();
                    if n.iter().all(|x| x.is_none()) { return None; }
                    Some(Val::agg(f.iter().zip(n).map(|(o, n)| n.unwrap_or_else(|| o.clone())).collect()))
                }
                _ => None,
            }
        }
        for i in base..st.loc.len() { if let Some(v) = go(&self.a, &known, &st.loc[i], 0) { st.loc[i] = v; } }
    }
    fn join(&mut self, b: &Rc<Bod>, base: usize, ip: usize, ends: Vec<St>) -> R<Vec<St>> {
        let mut res: Vec<St> = vec![];
        for s in ends {
            let mut done = false;
            for k in (0..res.len()).rev() {
                let r = &res[k];
                // condition separating r from s
                let common = r.pc.iter().zip(&s.pc).take_while(|(x, y)| x == y).count();
                let (ra, sa) = (r.pc[common..].to_vec(), s.pc[common..].to_vec());
                if sa.is_empty() || ra.is_empty() { continue; }
                let n0 = self.a.not(sa[0]);
                let c = if ra.contains(&n0) { sa[0] } else {
                    let mut c = self.a.tt();
                    for x in &sa { c = self.a.and(c, *x); }
                    c
                };
                let r = res[k].clone();
                let b2 = b.clone();
                let dead = move |i: usize| i >= base && i < base + b2.nloc && !b2.live(ip, i - base);
                match self.merge_states(c, &s, &r, &dead) {
                    Ok(mut m) => {
                        self.joins += 1;
                        // keep what is known on both sides
                        let (cr, cs) = (self.conj(&ra), self.conj(&sa));
                        let o = self.a.or(cr, cs);
                        if self.a.as_const(o).is_none() { m.pc.push(o); }
                        m.pc.dedup();
                        res[k] = m;
                        done = true;
                        break;
                    }
                    Err(_) => {}
                }
            }
            if !done { if !res.is_empty() { self.splits += 1; } res.push(s); }
            if res.len() > 64 { return un(format!("more than 64 unjoinable states in {}", b.name)); }
        }
        Ok(res)
    }
    fn conj(&mut self, v: &[T]) -> T { let mut c = self.a.tt(); for x in v { c = self.a.and(c, *x); } c }
    fn locate(&self, e: E, b: &Bod) -> E {
        match e {
            E::Unsup(s) if !s.contains(" [in ") => {
                let sp = &self.spans[self.a.cur_span as usize];
                E::Unsup(format!("{s} [in {}; from {}:{} {}]", short(&b.name), sp.0, sp.1, short(&sp.2)))
            }
            e => e,
        }
    }

    fn call_term(&mut self, b: &Rc<Bod>, base: usize, st: &mut St, c: &Rc<Callee>, fp: Option<&Opd>, args: &[Opd], dest: &Pl) -> R<Option<Vec<St>>> {
        let mut av = Vec::with_capacity(args.len());
        for a in args { av.push(self.opd(st, base, a)?); }
        let ret = b.dest_ty(dest);
        let save = self.a.cur_span;
        let r = match fp {
            Some(o) => match self.opd(st, base, o)? {
                Val::Fn(i) => self.call_fn(i, st, av, ret)?,
                _ => return un("call of an unknown function pointer"),
            },
            None => self.call(c, st, av, ret)?,
        };
        self.a.cur_span = save;
        match r {
            Ret::One(v) => { self.store(st, base, dest, v)?; Ok(None) }
            Ret::Many(ss) => {
                let mut out = vec![];
                for (mut s, v) in ss { self.store(&mut s, base, dest, v)?; out.push(s); }
                Ok(Some(out))
            }
        }
    }
    /// call of a function value: a capture-free closure is called with an empty environment
    fn call_fn(&mut self, i: Instance, st: &mut St, args: Vec<Val>, ret: Ty) -> R<Ret> {
        let c = self.callee_of(i);
        if let CalleeKind::Closure { .. } = c.kind { return self.call(&c, st, vec![Val::agg(vec![]), Val::agg(args)], ret); }
        let Some(b) = self.lower(i) else { return self.call(&c, st, args, ret) };
        if c.native.is_none() && b.nargs == 2 && c.name.contains("{closure") && c.name.ends_with("::call_once") {
            return self.call(&c, st, vec![Val::agg(vec![]), Val::agg(args)], ret);
        }
        // the shim of a closure takes its arguments as they are; the closure's own body takes an environment first
        if c.native.is_none() && b.nargs == args.len() + 1 && c.name.contains("{closure") {
            let o = self.alloc(st, Val::agg(vec![]));
            let mut v = vec![Val::rf(o, vec![], None)];
            v.extend(args);
            return self.call(&c, st, v, ret);
        }
        self.call(&c, st, args, ret)
    }
    /// a tuple struct or enum variant used as a function
    fn ctor(&mut self, c: &Callee, args: &[Val]) -> Option<Val> {
        let sig = c.inst?.ty().kind().fn_sig()?.skip_binder();
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = sig.output().kind() else { return None };
        let nm = c.name.rsplit("::").next()?;
        match d.kind() {
            AdtKind::Struct if rustc_public::CrateDef::trimmed_name(&d).rsplit("::").next() == Some(nm) => Some(Val::agg(args.to_vec())),
            AdtKind::Enum => {
                let i = d.variants().iter().position(|v| v.name() == nm)?;
                Some(self.mk_enum(i as u32, d.num_variants() as u32, args.to_vec()))
            }
            _ => None,
        }
    }
    fn store(&mut self, st: &mut St, base: usize, dest: &Pl, v: Val) -> R<()> {
        if dest.pj.is_empty() { st.loc[base + dest.local] = v; return Ok(()); }
        let l = self.place(st, base, dest)?;
        self.write(st, &l, v)
    }
    pub fn call(&mut self, c: &Rc<Callee>, st: &mut St, mut args: Vec<Val>, ret: Ty) -> R<Ret> {
        self.steps += 1;
        if c.kind == CalleeKind::FnItem {
            let tup = args.pop();
            args = match tup { Some(Val::Agg(t)) => t.to_vec(), _ => return un("function arguments") };
        }
        if let Some(n) = self.opaque.get(&c.name).copied() {
            return Ok(Ret::One(n(self, st, &args, &CallCx { c, ret })?));
        }
        if let Some(n) = c.native {
            return Ok(Ret::One(n(self, st, &args, &CallCx { c, ret })?));
        }
        if let Some(i) = &c.intrinsic {
            match crate::native::intrinsic(self, st, i, &args, &CallCx { c, ret })? { Some(v) => return Ok(Ret::One(v)), None => {} }
        }
        match &c.kind {
            CalleeKind::Normal => {}
            CalleeKind::Closure { by_ref } => {
                // self argument: the closure value or a reference to it
                let mut me = args.remove(0);
                loop {
                    let Val::Ref(r) = &me else { break };
                    let inner = self.read(st, r)?;
                    if let Val::Ref(_) = inner { me = inner; } else { break; }
                }
                let me = match (&me, by_ref) {
                    (Val::Ref(_), true) => me,
                    (Val::Ref(r), false) => self.read(st, r)?,
                    (_, true) => { let o = self.alloc(st, me); Val::rf(o, vec![], None) }
                    (_, false) => me,
                };
                let mut rest = args;
                args = vec![me];
                if let [Val::Agg(t)] = &rest[..] { args.extend(t.iter().cloned()); } else { args.append(&mut rest); }
            }
            CalleeKind::FnItem => {}
            CalleeKind::Virtual(def, ga) => {
                let mut t = None;
                for _ in 0..8 {
                    let Val::Ref(r) = &args[0] else { break };
                    if let Some(d) = r.dt { t = Some((d, Val::Ref(Rc::new(RefV { dt: None, ..(**r).clone() })))); break; }
                    args[0] = self.read(st, &r.clone())?;
                }
                let Some((t, me)) = t else { return un("call through an unknown trait object") };
                args[0] = me;
                let mut ga = ga.clone();
                ga.0[0] = GenericArgKind::Type(t);
                let c2 = match self.call_target(*def, &ga) { Ok(c) => c, Err(e) => return un(e) };
                return self.call(&c2, st, args, ret);
            }
            CalleeKind::FnPtr => {
                let mut me = args.remove(0);
                while let Val::Ref(r) = &me { me = self.read(st, r)?; }
                let Val::Fn(i) = me else { return un("call of an unknown function value") };
                let tup = args.pop();
                args = match tup { Some(Val::Agg(t)) => t.to_vec(), _ => return un("function arguments") };
                return self.call_fn(i, st, args, ret);
            }
        }
        let Some(inst) = c.inst else { return un("call without an instance") };
        let Some(b) = self.lower(inst) else {
            if let Some(v) = self.ctor(c, &args) { return Ok(Ret::One(v)); }
            return un(format!("no MIR for {}", c.name))
        };
        let e = self.fn_seen.entry(b.name.clone()).or_insert((b.in_repo, 0));
        e.1 += 1;
        let base = st.loc.len();
        if args.len() != b.nargs { return un(format!("argument count of {}", c.name)); }
        let mut s = std::mem::take(st);
        s.loc.push(Val::Uninit);
        s.loc.extend(args);
        s.loc.resize(base + b.nloc, Val::Uninit);
        let states = self.run(&b, base, 0, RET, s)?;
        let mut outs = vec![];
        for mut s in states {
            let v = std::mem::replace(&mut s.loc[base], Val::Uninit);
            s.loc.truncate(base);
            // result references must not point into the popped frame
            outs.push((s, v));
        }
        if outs.is_empty() { return Err(E::Dead); }
        if outs.len() == 1 { let (s, v) = outs.pop().unwrap(); *st = s; return Ok(Ret::One(v)); }
        Ok(Ret::Many(outs))
    }
    /// analyse a function from given arguments; the state after the call and the result, one per unjoinable exit
    pub fn entry(&mut self, inst: Instance, args: Vec<Val>, st: St) -> R<Vec<(St, Val)>> {
        let c = self.callee_of(inst);
        let mut s = st;
        let ret = Ty::usize_ty();
        match self.call(&c, &mut s, args, ret) {
            Ok(Ret::One(v)) => Ok(vec![(s, v)]),
            Ok(Ret::Many(v)) => Ok(v),
            Err(E::Dead) => Ok(vec![]),
            Err(e) => Err(e),
        }
    }
}
pub enum Ret {
    One(Val),
    Many(Vec<(St, Val)>),
}
fn is_unreachable(b: &Bod, mut t: usize) -> bool {
    for _ in 0..4 {
        if t == RET { return false; }
        match &b.blocks[t].tm {
            Tm::Diverge(s) if s == "unreachable" => return b.blocks[t].st.is_empty(),
            Tm::Goto(x) if b.blocks[t].st.is_empty() => t = *x,
            _ => return false,
        }
    }
    false
}
pub fn short(s: &str) -> String { if s.len() > 110 { let mut e = 107; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) } else { s.to_string() } }
pub fn kind(v: &Val) -> String {
    match v {
        Val::Uninit => "an uninitialised value".into(),
        Val::Int(_) => "an integer".into(),
        Val::Agg(a) => format!("an aggregate of {}", a.len()),
        Val::Enum(..) => "an enum".into(),
        Val::Seq(_) => "an array".into(),
        Val::Vec(_) => "a vector".into(),
        Val::Ref(_) => "a reference".into(),
        Val::Fn(_) => "a function".into(),
        Val::Hasher(_) => "a hasher".into(),
        Val::Poison(p) => p.to_string(),
    }
}
