//! Semantics of library functions that are not analysed through their MIR: vectors, slices, integers,
//! iterators over slices and ranges, byte conversions, the digest crates (uninterpreted symbols).
use crate::interp::*;
use crate::lower::*;
use crate::term::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

type N = Native;

// ---------------------------------------------------------------------- redirections to models in Rust
/// (trait method as written, type arguments) -> model function of the spec crate with its type arguments
pub fn redirect(dn: &str, krate: &str, ga: &[GenericArgKind]) -> Option<(&'static str, Vec<GenericArgKind>)> {
    if !["core", "alloc", "std"].contains(&krate) { return None; }
    let ty = |i: usize| match ga.get(i) { Some(GenericArgKind::Type(t)) => Some(*t), _ => None };
    let adt = |i: usize| ty(i).and_then(|t| match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) => Some((d.trimmed_name(), a)), _ => None });
    let types = |a: &GenericArgs| -> Vec<GenericArgKind> { a.0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).cloned().collect() };
    let last2 = { let v: Vec<&str> = dn.rsplitn(3, "::").collect(); if v.len() >= 2 { format!("{}::{}", v[1], v[0]) } else { dn.to_string() } };
    let all = ga.to_vec();
    let m: &'static str = match last2.as_str() {
        "Iterator::fold" => "fold",
        "Iterator::reduce" => "reduce",
        "Iterator::for_each" => "for_each",
        "Iterator::all" => "all",
        "Iterator::any" => "any",
        "Iterator::position" => "position",
        "Iterator::find" => "find",
        "Iterator::find_map" => "find_map",
        "Iterator::count" => "count",
        "Iterator::last" => "last",
        "Iterator::nth" => "nth",
        "Iterator::max" => "max",
        "Iterator::min" => "min",
        "Iterator::eq" => "iter_eq",
        "Iterator::zip" => "zip",
        "Iterator::step_by" => "step_by",
        "Iterator::try_fold" => "try_fold",
        "Iterator::try_for_each" => "try_for_each",
        "Iterator::collect" | "Iterator::sum" | "Iterator::product" => return None,
        "DoubleEndedIterator::rfold" => "rfold",
        "DoubleEndedIterator::nth_back" => "nth_back",
        "DoubleEndedIterator::rfind" => "rfind",
        "Iterator::rposition" => "rposition",
        "Iterator::next" => match adt(0)? {
            (n, a) if n == "Zip" => return Some(("zip_next", types(&a))),
            (n, a) if n == "StepBy" => return Some(("step_by_next", types(&a))),
            _ => return None,
        },
        "Iterator::size_hint" => match adt(0)? {
            (n, a) if n == "Zip" => return Some(("zip_size_hint", types(&a))),
            _ => return None,
        },
        "DoubleEndedIterator::next_back" => match adt(0)? {
            (n, a) if n == "Zip" => return Some(("zip_next_back", types(&a))),
            (n, a) if n == "StepBy" => return Some(("step_by_next_back", types(&a))),
            _ => return None,
        },
        "ExactSizeIterator::len" => match adt(0)? {
            (n, a) if n == "Zip" => return Some(("zip_len", types(&a))),
            (n, a) if n == "StepBy" => return Some(("step_by_len", types(&a))),
            _ => return None,
        },
        "FromIterator::from_iter" => match adt(0)? {
            (n, a) if n == "Vec" => { let t = types(&a); return Some(("vec_from_iter", vec![t[0].clone(), ga.get(2)?.clone()])); }
            _ => return None,
        },
        "Extend::extend" => match adt(0)? {
            (n, a) if n == "Vec" => {
                let t = types(&a);
                let by_ref = GenericArgKind::Type(ty(1)?) != t[0];
                let mut v = vec![t[0].clone()];
                if by_ref { v.push(GenericArgKind::Type(ty(1)?)); }
                v.push(ga.get(2)?.clone());
                return Some((if by_ref { "vec_extend_ref" } else { "vec_extend" }, v));
            }
            _ => return None,
        },
        "array::from_fn" => "array_from_fn",
        _ => {
            if dn.contains("array") && dn.ends_with("::map") && ga.len() == 4 { "array_map" }
            else if dn.contains("Vec") && dn.ends_with("::retain") { return Some(("vec_retain", vec![ga.first()?.clone(), ga.last()?.clone()])) }
            else if dn.contains("Vec") && dn.ends_with("::resize_with") { return Some(("vec_resize_with", vec![ga.first()?.clone(), ga.last()?.clone()])) }
            else if dn.contains("Vec") && dn.ends_with("::splice") && ga.len() == 4 { return Some(("vec_splice", vec![ga[0].clone(), ga[2].clone(), ga[3].clone()])) }
            else if dn.contains("slice") && dn.ends_with("::fill_with") { "fill_with" }
            else { return None }
        }
    };
    Some((m, all))
}

// ---------------------------------------------------------------------- helpers
impl Interp {
    pub fn deref(&mut self, st: &St, v: &Val) -> R<Val> {
        let mut v = v.clone();
        while let Val::Ref(r) = &v { v = self.read(st, r)?; }
        Ok(v)
    }
    /// reference to a sequence, with its window
    pub fn slice(&mut self, st: &St, v: &Val) -> R<RefV> {
        let Val::Ref(r) = v else { return un(format!("slice expected, found {}", kind(v))) };
        if r.win.is_some() { return Ok((**r).clone()); }
        if let Some(n) = self.quick_len(st, r) {
            let z = self.us(0);
            return Ok(RefV { obj: r.obj, path: r.path.clone(), win: Some((z, n)), dt: None });
        }
        let inner = self.read(st, r)?;
        match &inner {
            Val::Ref(_) => self.slice(st, &inner),
            Val::Agg(a) if a.len() == 1 => { let mut r2 = (**r).clone(); r2.path.push(Pe::F(0)); self.slice(st, &Val::Ref(Rc::new(r2))) }
            _ => {
                let n = self.seq_len(&inner)?;
                let z = self.us(0);
                Ok(RefV { obj: r.obj, path: r.path.clone(), win: Some((z, n)), dt: None })
            }
        }
    }
    pub fn els(&mut self, st: &St, v: &Val) -> R<Vec<Val>> {
        match v {
            Val::Ref(_) => {
                let r = self.slice(st, v)?;
                match self.read(st, &r)? { Val::Seq(s) | Val::Vec(s) => match &*s { Sq::Conc(e) => Ok(e.clone()), _ => un("elements of a byte string of unknown length") }, x => un(format!("elements of {}", kind(&x))) }
            }
            Val::Seq(s) | Val::Vec(s) => match &**s { Sq::Conc(e) => Ok(e.clone()), _ => un("elements of a byte string of unknown length") },
            x => un(format!("elements of {}", kind(x))),
        }
    }
    fn len_of(&mut self, st: &St, v: &Val) -> R<T> {
        match v {
            Val::Ref(_) => { let r = self.slice(st, v)?; Ok(r.win.unwrap().1) }
            x => self.seq_len(x),
        }
    }
    fn clen(&mut self, st: &St, v: &Val) -> R<usize> {
        let n = self.len_of(st, v)?;
        self.cu(n, "length")
    }
    pub fn cu(&mut self, t: T, what: &str) -> R<usize> {
        match self.a.as_const(t) { Some(c) if c <= 1 << 24 => Ok(c as usize), Some(_) => un(format!("{what} is huge")), None => un(format!("{what} is not a known constant: {}", self.a.show(t, 3))) }
    }
    fn elem_ref(&mut self, r: &RefV, i: T) -> Val {
        let mut path = r.path.clone();
        let ix = match r.win { Some((o, _)) => self.a.add(o, i), None => i };
        path.push(Pe::I(ix));
        Val::rf(r.obj, path, None)
    }
    fn sub_ref(&mut self, r: &RefV, off: T, len: T) -> Val {
        let o = match r.win { Some((o, _)) => self.a.add(o, off), None => off };
        Val::rf(r.obj, r.path.clone(), Some((o, len)))
    }
    /// (start, end) of a range value of the given type text, for a sequence of length n; emits the checks
    fn range(&mut self, st: &mut St, v: &Val, ty: &str, n: T, check: bool) -> R<(T, T, T)> {
        let f = |s: &Interp, v: &Val, i: usize| -> R<T> { match v { Val::Agg(a) => s.int(&a[i]), _ => un("range value") } };
        let h = head(ty);
        let one = self.us(1);
        let z = self.us(0);
        let (s, e) = match h.as_str() {
            "RangeFull" => (z, n),
            "Range" => (f(self, v, 0)?, f(self, v, 1)?),
            "RangeTo" => (z, f(self, v, 0)?),
            "RangeFrom" => (f(self, v, 0)?, n),
            "RangeInclusive" => { let e = f(self, v, 1)?; (f(self, v, 0)?, self.a.add(e, one)) }
            "RangeToInclusive" => { let e = f(self, v, 0)?; (z, self.a.add(e, one)) }
            _ => return un(format!("index by {ty}")),
        };
        let c1 = self.a.ule(s, e);
        let c2 = self.a.ule(e, n);
        let ok = self.a.and(c1, c2);
        if check {
            self.require(st, c1, "slice index starts after its end")?;
            self.require(st, c2, "slice index out of range")?;
        }
        Ok((s, e, ok))
    }
    fn index(&mut self, st: &mut St, v: &Val, ix: &Val, ty: &str) -> R<Val> {
        let r = self.slice(st, v)?;
        let n = r.win.unwrap().1;
        if head(ty) == "int" || matches!(ix, Val::Int(_)) {
            let i = self.int(ix)?;
            let c = self.a.ult(i, n);
            self.require(st, c, "index out of bounds")?;
            return Ok(self.elem_ref(&r, i));
        }
        let (s, e, _) = self.range(st, ix, ty, n, true)?;
        let l = self.a.sub(e, s);
        Ok(self.sub_ref(&r, s, l))
    }
    pub fn hash_input(&mut self, st: &St, v: &Val, out: &mut Vec<T>) -> R<()> {
        let (x, win) = match v {
            Val::Ref(_) => { let r = self.slice(st, v)?; let mut r2 = r.clone(); r2.win = None; (self.read(st, &r2)?, r.win) }
            x => (x.clone(), None),
        };
        match &x {
            Val::Seq(s) | Val::Vec(s) => match &**s {
                Sq::Sym { .. } | Sq::Win { .. } => {
                    let (mut o, l) = match win { Some(w) => w, None => (self.us(0), self.seq_len(&x)?) };
                    let mut b = x.clone();
                    loop {
                        let (Val::Seq(q) | Val::Vec(q)) = &b else { return un("hash of a part") };
                        match &**q {
                            Sq::Sym { arr, .. } => { let p = self.a.piece(*arr, o, l); out.push(p); return Ok(()); }
                            Sq::Win { base, off, .. } => { o = self.a.add(o, *off); let n = base.clone(); b = n; }
                            Sq::Conc(e) => {
                                let mut q = vec![o, l];
                                for b in e { let Val::Int(t) = b else { return un("hash of non-bytes") }; q.push(*t); }
                                let p = self.a.app("take", q, 0);
                                out.push(p);
                                return Ok(());
                            }
                        }
                    }
                }
                Sq::Conc(_) => {
                    if let Some((o, l)) = win {
                        if self.a.as_const(l).is_none() || self.a.as_const(o).is_none() {
                            // a part of known bytes whose bounds are not known
                            let mut q = vec![o, l];
                            for b in self.els(st, &x)? { let t = self.int(&b)?; if self.a.w(t) != 8 { return un("hash of non-bytes"); } q.push(t); }
                            let p = self.a.app("take", q, 0);
                            out.push(p);
                            return Ok(());
                        }
                    }
                    let e = match win { Some((o, l)) => self.window(&x, o, l)?, None => self.els(st, &x)? };
                    for b in e { let t = self.int(&b)?; if self.a.w(t) != 8 { return un("hash of non-bytes"); } out.push(t); }
                    Ok(())
                }
            },
            x => un(format!("hash of {}", kind(x))),
        }
    }
    /// is a byte string valid UTF-8?  (a constant, or an uninterpreted condition that valuations evaluate exactly)
    fn utf8(&mut self, st: &St, v: &Val) -> R<T> {
        let mut p = vec![];
        self.hash_input(st, v, &mut p)?;
        let p = self.a.pieces(p);
        if let Some(b) = p.iter().map(|t| self.a.as_const(*t).map(|c| c as u8)).collect::<Option<Vec<u8>>>() { return Ok(self.a.bool(std::str::from_utf8(&b).is_ok())); }
        if p.iter().all(|t| self.a.w(*t) == 8 && self.a.rng(*t).1 < 128) { return Ok(self.a.tt()); }
        Ok(self.a.app("utf8_valid", p, 1))
    }
    fn hash_out(&mut self, alg: &str, parts: Vec<T>, ret: Ty) -> R<Val> {
        let n = ret.layout().map(|l| l.shape().size.bytes()).unwrap_or(32);
        let parts = self.a.pieces(parts);
        let d = self.a.app(&format!("digest:{alg}"), parts, 0);
        Ok(Val::seq((0..n).map(|i| Val::Int(self.a.byte(d, i as u32))).collect()))
    }
    fn val_eq(&mut self, st: &St, a: &Val, b: &Val) -> R<T> {
        let (x, y) = (self.peel(st, a)?, self.peel(st, b)?);
        match (&x, &y) {
            (Val::Int(p), Val::Int(q)) => Ok(self.a.eq(*p, *q)),
            (Val::Seq(_) | Val::Vec(_), Val::Seq(_) | Val::Vec(_)) => {
                let (n, m) = (self.seq_len(&x)?, self.seq_len(&y)?);
                let le = self.a.eq(n, m);
                if self.a.as_const(le) == Some(0) { return Ok(le); }
                let (p, q) = (self.els(st, &x)?, self.els(st, &y)?);
                let mut c = self.a.tt();
                for i in 0..p.len() { let e = self.val_eq(st, &p[i], &q[i])?; c = self.a.and(c, e); }
                Ok(c)
            }
            (Val::Agg(p), Val::Agg(q)) if p.len() == q.len() => {
                let mut c = self.a.tt();
                for i in 0..p.len() { let e = self.val_eq(st, &p[i], &q[i])?; c = self.a.and(c, e); }
                Ok(c)
            }
            (x, y) => un(format!("equality of {} and {}", kind(x), kind(y))),
        }
    }
    /// follow references down to a value (slices become sequences)
    fn peel(&mut self, st: &St, v: &Val) -> R<Val> {
        let mut v = v.clone();
        while let Val::Ref(r) = &v { v = self.read(st, r)?; }
        Ok(v)
    }
    fn upd_vec<X>(&mut self, st: &mut St, r: &Val, f: impl FnOnce(&mut Interp, &mut St, &mut Vec<Val>) -> R<X>) -> R<X> {
        let Val::Ref(r) = r else { return un("vector reference") };
        let mut r = r.clone();
        loop { match self.read(st, &r)? { Val::Ref(q) => r = q, _ => break } }
        let v = self.read(st, &r)?;
        let Val::Vec(s) = v else { return un(format!("vector expected, found {}", kind(&v))) };
        // release the slot so that the update is in place
        self.write(st, &r, Val::Uninit)?;
        let mut s = s;
        let x = match Rc::make_mut(&mut s) {
            Sq::Conc(e) => f(self, st, e),
            _ => un("update of a byte string of unknown length"),
        };
        self.write(st, &r, Val::Vec(s))?;
        x
    }
    fn ity(&self, s: &str) -> It {
        let t = s.trim();
        let t = if let Some(i) = t.find('<') { &t[i + 1..t.len() - 1] } else { t };
        match t {
            "u8" => It { w: 8, s: false }, "u16" => It { w: 16, s: false }, "u32" => It { w: 32, s: false }, "u64" => It { w: 64, s: false }, "usize" => It { w: pw(), s: false }, "u128" => It { w: 128, s: false },
            "i8" => It { w: 8, s: true }, "i16" => It { w: 16, s: true }, "i32" => It { w: 32, s: true }, "i64" => It { w: 64, s: true }, "isize" => It { w: pw(), s: true }, "i128" => It { w: 128, s: true },
            "bool" => It { w: 1, s: false }, "char" => It { w: 32, s: false },
            _ => It { w: 0, s: false },
        }
    }
}
/// length N in "[T; N]" or "&[T; N]"
fn arr_len(ty: &str) -> Option<usize> {
    let t = ty.trim_start_matches('&').trim_start_matches("mut ").trim();
    let t = if t.starts_with('\'') { t.splitn(2, ' ').nth(1)? } else { t };
    let t = t.strip_prefix('[')?.strip_suffix(']')?;
    t.rsplit("; ").next()?.trim_end_matches("usize").trim_end_matches('_').parse().ok()
}
fn u() -> R<Val> { Ok(Val::unit()) }

// ---------------------------------------------------------------------- table
pub fn lookup(cn: &Canon, krate: &str, inst: &Instance) -> Option<N> {
    let k = cn.key.as_str();
    if krate == "spec" {
        return Some(match k {
            "models::mk_array" => |s, st, a, _| { let e = s.els(st, &a[0])?; Ok(Val::seq(e)) },
            "models::mk_write_array" => |_, _, _, _| un("marker"),
            _ => return None,
        });
    }
    let hashc = ["digest", "sha3", "blake_hash", "groestl", "skein_hash", "keccak", "block_buffer", "crypto_common", "groestl_aesni"].contains(&krate);
    if hashc || k.starts_with("Digest::") { if let Some(n) = hash_lookup(cn) { return Some(n); } }
    if krate == "generic_array" { return ga_lookup(cn); }
    if !["core", "alloc", "std"].contains(&krate) { return None; }
    if let Some(n) = int_lookup(cn) { return Some(n); }
    if k.starts_with("Clone::clone@") {
        let h = &k[13..];
        if matches!(inst.kind, InstanceKind::Shim) || ["Vec", "[;]", "int", "bool", "&", "*", "Range", "RangeInclusive", "Iter", "Box"].contains(&h) {
            if h == "Box" {
                return Some(|s, st, a, _| {
                    let Val::Ref(r) = &a[0] else { return un("box clone") };
                    let Val::Ref(inner) = s.read(st, r)? else { return un("box clone") };
                    let v = s.read(st, &inner)?;
                    let o = s.alloc(st, v);
                    Ok(Val::rf(o, vec![], inner.win))
                });
            }
            return Some(|s, st, a, _| { let Val::Ref(r) = &a[0] else { return un("clone") }; s.read(st, r) });
        }
    }
    Some(match k {
        // ---- vectors
        "Vec::new" | "Default::default@Vec" => |_, _, _, _| Ok(Val::vec(vec![])),
        "Vec::with_capacity" => |ip, _, a, _| { ip.saw_size(&a[0]); Ok(Val::vec(vec![])) },
        "vec::from_elem" => |s, _, a, _| {
            let n = s.int(&a[1])?;
            let n = s.cu(n, "vector size")?;
            Ok(Val::vec(vec![a[0].clone(); n]))
        },
        "Vec::len" | "len@[]" => |s, st, a, _| Ok(Val::Int(s.len_of(st, &a[0])?)),
        "Vec::is_empty" | "is_empty@[]" => |s, st, a, _| { let n = s.len_of(st, &a[0])?; let z = s.us(0); Ok(Val::Int(s.a.eq(n, z))) },
        "Vec::push" => |s, st, a, _| { let x = a[1].clone(); s.upd_vec(st, &a[0], |_, _, v| { v.push(x); u() }) },
        "Vec::pop" => |s, st, a, _| s.upd_vec(st, &a[0], |s, _, v| Ok(match v.pop() { Some(x) => s.some(x), None => s.none() })),
        "Vec::clear" => |s, st, a, _| s.upd_vec(st, &a[0], |_, _, v| { v.clear(); u() }),
        "Vec::truncate" => |s, st, a, _| { let n = s.int(&a[1])?; let n = s.cu(n, "length")?; s.upd_vec(st, &a[0], |_, _, v| { v.truncate(n); u() }) },
        "Vec::resize" => |s, st, a, _| { let n = s.int(&a[1])?; let n = s.cu(n, "length")?; let x = a[2].clone(); s.upd_vec(st, &a[0], |_, _, v| { v.resize(n, x); u() }) },
        "Vec::extend_from_slice" => |s, st, a, _| { let e = s.els(st, &a[1])?; s.upd_vec(st, &a[0], |_, _, v| { v.extend(e); u() }) },
        "Vec::extend_from_within" => |s, st, a, cx| {
            let n = s.len_of(st, &a[0])?;
            let (b, e, _) = s.range(st, &a[1], &cx.c.canon.meth_args, n, true)?;
            let (b, e) = (s.cu(b, "range")?, s.cu(e, "range")?);
            s.upd_vec(st, &a[0], |_, _, v| { let x = v[b..e].to_vec(); v.extend(x); u() })
        },
        "Vec::insert" => |s, st, a, _| {
            let i = s.int(&a[1])?; let i = s.cu(i, "index")?; let x = a[2].clone();
            let n = s.clen(st, &a[0])?;
            let c = s.a.bool(i <= n);
            s.require(st, c, "insert out of range")?;
            s.upd_vec(st, &a[0], |_, _, v| { v.insert(i, x); u() })
        },
        "Vec::remove" | "Vec::swap_remove" => |s, st, a, cx| {
            let i = s.int(&a[1])?; let i = s.cu(i, "index")?;
            let n = s.clen(st, &a[0])?;
            let c = s.a.bool(i < n);
            s.require(st, c, "remove out of range")?;
            let sw = cx.c.canon.key.ends_with("swap_remove");
            s.upd_vec(st, &a[0], |_, _, v| Ok(if sw { v.swap_remove(i) } else { v.remove(i) }))
        },
        "Vec::append" => |s, st, a, _| { let e = s.upd_vec(st, &a[1], |_, _, v| Ok(std::mem::take(v)))?; s.upd_vec(st, &a[0], |_, _, v| { v.extend(e); u() }) },
        "Vec::split_off" => |s, st, a, _| {
            let i = s.int(&a[1])?; let i = s.cu(i, "index")?;
            let n = s.clen(st, &a[0])?;
            let c = s.a.bool(i <= n);
            s.require(st, c, "split_off out of range")?;
            s.upd_vec(st, &a[0], |_, _, v| Ok(Val::vec(v.split_off(i))))
        },
        "Vec::drain" => |s, st, a, cx| {
            let n = s.len_of(st, &a[0])?;
            let (b, e, _) = s.range(st, &a[1], &cx.c.canon.meth_args, n, true)?;
            let (b, e) = (s.cu(b, "range")?, s.cu(e, "range")?);
            let x = s.upd_vec(st, &a[0], |_, _, v| Ok(v.drain(b..e).collect::<Vec<_>>()))?;
            own_iter(s, x)
        },
        "Vec::reserve" | "Vec::reserve_exact" => |ip, _, a, _| { ip.saw_size(&a[1]); u() },
        "Vec::shrink_to_fit" | "Vec::shrink_to" => |_, _, _, _| u(),
        // not a function of the contents: a length and an unknown excess
        "String::into_bytes" | "String::from_utf8_unchecked" => |_, _, a, _| Ok(a[0].clone()),
        "Vec::capacity" => |s, st, a, _| {
            let n = s.len_of(st, &a[0])?;
            let x = s.a.var(24, "excess capacity");
            let x = s.a.zext(x, pw());
            Ok(Val::Int(s.a.add(n, x)))
        },
        "Vec::as_slice" | "Vec::as_mut_slice" | "Deref::deref@Vec" | "DerefMut::deref_mut@Vec" | "AsRef::as_ref@Vec" | "AsMut::as_mut@Vec" | "Borrow::borrow@Vec" | "BorrowMut::borrow_mut@Vec"
        | "as_slice@[;]" | "as_mut_slice@[;]" | "AsRef::as_ref@[;]" | "AsRef::as_ref@[]" | "AsMut::as_mut@[;]" | "AsMut::as_mut@[]" | "Borrow::borrow@[;]" | "as_bytes@str" | "AsRef::as_ref@str" | "Deref::deref@String" | "Borrow::borrow@String" | "AsRef::as_ref@String" | "String::as_str" | "String::as_bytes"
        | "as_array@[]" | "into_slice@[;]"
            if k != "as_array@[]" => |s, st, a, _| { let r = s.slice(st, &a[0])?; Ok(Val::Ref(Rc::new(r))) },
        "Vec::into_boxed_slice" => |s, st, a, _| {
            let Val::Vec(v) = &a[0] else { return un("into_boxed_slice") };
            let n = s.seq_len(&a[0])?;
            let o = s.alloc(st, Val::Seq(v.clone()));
            let z = s.us(0);
            Ok(Val::rf(o, vec![], Some((z, n))))
        },
        "Vec::leak" => |_, _, _, _| un("leaked vector"),
        "into_vec@[]" | "Box::into_vec" => |s, st, a, _| { let e = s.els(st, &a[0])?; Ok(Val::vec(e)) },
        "From::from@Vec" | "From::from@Box" if cn.key.ends_with("Vec") => |s, st, a, _| { let e = s.els(st, &a[0])?; Ok(Val::vec(e)) },
        "Box::new" => |s, st, a, _| { let o = s.alloc(st, a[0].clone()); Ok(Val::rf(o, vec![], None)) },
        "Box::new_uninit" | "boxed::box_new_uninit" => |s, st, _, _| { let o = s.alloc(st, Val::Uninit); Ok(Val::rf(o, vec![], None)) },
        "Box::assume_init" | "Box::from_raw" | "Box::into_raw" | "Box::as_ref" | "Box::as_ptr" | "Box::as_mut_ptr" => |_, _, a, _| Ok(a[0].clone()),
        "boxed::box_assume_init_into_vec_unsafe" | "slice::box_assume_init_into_vec_unsafe" => |s, st, a, _| {
            let Val::Ref(r) = &a[0] else { return un("boxed array") };
            let mut v = s.read(st, r)?;
            while let Val::Agg(x) = &v { if x.len() != 1 { return un("boxed array"); } v = x[0].clone(); }
            if r.obj & HEAP != 0 && (r.obj & !HEAP) as usize + 1 == st.heap.len() { st.heap.pop(); }
            let e = s.els(st, &v)?;
            Ok(Val::vec(e))
        },
        // ---- indexing
        "Index::index@Vec" | "IndexMut::index_mut@Vec" | "Index::index@[]" | "IndexMut::index_mut@[]" | "Index::index@[;]" | "IndexMut::index_mut@[;]" => |s, st, a, cx| {
            let ta = cx.c.canon.trait_args.clone();
            s.index(st, &a[0], &a[1], &ta)
        },
        "get@[]" | "get_mut@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let n = r.win.unwrap().1;
            if let Val::Int(i) = a[1] {
                let c = s.a.ult(i, n);
                if s.a.as_const(c) == Some(0) { return Ok(s.none()); }
                let e = s.elem_ref(&r, i);
                return Ok(s.some_if(c, e));
            }
            let (b, e, ok) = s.range(st, &a[1], &cx.c.canon.meth_args, n, false)?;
            if s.a.as_const(ok) == Some(0) { return Ok(s.none()); }
            let l = s.a.sub(e, b);
            let v = s.sub_ref(&r, b, l);
            Ok(s.some_if(ok, v))
        },
        "get_unchecked@[]" | "get_unchecked_mut@[]" => |s, st, a, cx| { let ma = cx.c.canon.meth_args.clone(); s.index(st, &a[0], &a[1], &ma) },
        "first@[]" | "first_mut@[]" | "last@[]" | "last_mut@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let n = s.cu(r.win.unwrap().1, "length")?;
            if n == 0 { return Ok(s.none()); }
            let i = s.us(if cx.c.canon.key.starts_with("first") { 0 } else { n - 1 });
            let e = s.elem_ref(&r, i);
            Ok(s.some(e))
        },
        "split_at@[]" | "split_at_mut@[]" => |s, st, a, _| {
            let r = s.slice(st, &a[0])?;
            let n = r.win.unwrap().1;
            let m = s.int(&a[1])?;
            let c = s.a.ule(m, n);
            s.require(st, c, "split_at out of range")?;
            let z = s.us(0);
            let l = s.a.sub(n, m);
            let (x, y) = (s.sub_ref(&r, z, m), s.sub_ref(&r, m, l));
            Ok(Val::agg(vec![x, y]))
        },
        "split_first@[]" | "split_first_mut@[]" | "split_last@[]" | "split_last_mut@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let n = s.cu(r.win.unwrap().1, "length")?;
            if n == 0 { return Ok(s.none()); }
            let (z, one, l) = (s.us(0), s.us(1), s.us(n - 1));
            let (e, rest) = if cx.c.canon.key.starts_with("split_first") { (s.elem_ref(&r, z), s.sub_ref(&r, one, l)) } else { (s.elem_ref(&r, l), s.sub_ref(&r, z, l)) };
            Ok(s.some(Val::agg(vec![e, rest])))
        },
        "to_vec@[]" | "ToOwned::to_owned@[]" | "to_vec_in@[]" => |s, st, a, _| {
            let r = s.slice(st, &a[0])?;
            let mut r2 = r.clone();
            r2.win = None;
            if let Val::Seq(q) | Val::Vec(q) = s.read(st, &r2)? { if let Sq::Sym { len, .. } = &*q { let (o, l) = r.win.unwrap(); if s.a.as_const(o) == Some(0) && l == *len { return Ok(Val::Vec(q)); } } }
            let w = r.win.unwrap();
            if s.a.as_const(w.1).is_none() { if let Val::Seq(q) = s.read(st, &r)? { return Ok(Val::Vec(q)); } }
            let e = s.els(st, &a[0])?;
            Ok(Val::vec(e))
        },
        "copy_from_slice@[]" | "clone_from_slice@[]" => |s, st, a, _| {
            let (x, y) = (s.len_of(st, &a[0])?, s.len_of(st, &a[1])?);
            let c = s.a.eq(x, y);
            s.require(st, c, "copy between slices of different lengths")?;
            let r = s.slice(st, &a[0])?;
            let e = s.els(st, &a[1])?;
            s.write(st, &r, Val::seq(e))?;
            u()
        },
        "swap_with_slice@[]" => |s, st, a, _| {
            let (x, y) = (s.len_of(st, &a[0])?, s.len_of(st, &a[1])?);
            let c = s.a.eq(x, y);
            s.require(st, c, "swap of slices of different lengths")?;
            let (r, q) = (s.slice(st, &a[0])?, s.slice(st, &a[1])?);
            let (e, f) = (s.els(st, &a[0])?, s.els(st, &a[1])?);
            s.write(st, &r, Val::seq(f))?;
            s.write(st, &q, Val::seq(e))?;
            u()
        },
        "copy_within@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let n = r.win.unwrap().1;
            let (b, e, _) = s.range(st, &a[1], &cx.c.canon.meth_args, n, true)?;
            let l = s.a.sub(e, b);
            let d = s.int(&a[2])?;
            let lim = s.a.sub(n, l);
            let c = s.a.ule(d, lim);
            s.require(st, c, "copy_within out of range")?;
            let src = s.sub_ref(&r, b, l);
            let dst = s.sub_ref(&r, d, l);
            let els = s.els(st, &src)?;
            let Val::Ref(dst) = dst else { unreachable!() };
            s.write(st, &dst, Val::seq(els))?;
            u()
        },
        "fill@[]" => |s, st, a, _| { let r = s.slice(st, &a[0])?; let n = s.cu(r.win.unwrap().1, "length")?; s.write(st, &r, Val::seq(vec![a[1].clone(); n]))?; u() },
        "swap@[]" => |s, st, a, _| {
            let r = s.slice(st, &a[0])?;
            let n = r.win.unwrap().1;
            let (i, j) = (s.int(&a[1])?, s.int(&a[2])?);
            for x in [i, j] { let c = s.a.ult(x, n); s.require(st, c, "swap out of bounds")?; }
            let (Val::Ref(p), Val::Ref(q)) = (s.elem_ref(&r, i), s.elem_ref(&r, j)) else { unreachable!() };
            let (x, y) = (s.read(st, &p)?, s.read(st, &q)?);
            s.write(st, &p, y)?;
            s.write(st, &q, x)?;
            u()
        },
        "str::from_utf8" | "converts::from_utf8" | "String::from_utf8" => |s, st, a, _| {
            let c = s.utf8(st, &a[0])?;
            let nc = s.a.not(c);
            let d = s.a.zext(nc, 16);
            Ok(Val::Enum(d, Rc::new(vec![vec![a[0].clone()], vec![Val::agg(vec![Val::unit()])]])))
        },
        "String::from_utf8_lossy" => |s, st, a, _| {
            let c = s.utf8(st, &a[0])?;
            let nc = s.a.not(c);
            let d = s.a.zext(nc, 16);
            let mut p = vec![];
            s.hash_input(st, &a[0], &mut p)?;
            let p = s.a.pieces(p);
            let (arr, len) = (s.a.app("lossy", p.clone(), 0), s.a.app("lossy_len", p, pw()));
            Ok(Val::Enum(d, Rc::new(vec![vec![a[0].clone()], vec![Val::Vec(Rc::new(Sq::Sym { arr, len }))]])))
        },
        "sort@[]" | "sort_unstable@[]" => |s, st, a, cx| {
            let it = s.ity(cx.c.canon.self_ty.trim_start_matches('[').trim_end_matches(']'));
            let r = s.slice(st, &a[0])?;
            let e = s.els(st, &a[0])?;
            if it.w == 0 || e.len() > 64 { return un("sort"); }
            let mut v = vec![];
            for x in &e { v.push(s.int(x)?); }
            for i in 1..v.len() {
                for j in (1..=i).rev() {
                    let c = if it.s { s.a.slt(v[j], v[j - 1]) } else { s.a.ult(v[j], v[j - 1]) };
                    let (x, y) = (s.a.ite(c, v[j], v[j - 1]), s.a.ite(c, v[j - 1], v[j]));
                    v[j - 1] = x;
                    v[j] = y;
                }
            }
            s.write(st, &r, Val::seq(v.into_iter().map(Val::Int).collect()))?;
            u()
        },
        "reverse@[]" => |s, st, a, _| { let r = s.slice(st, &a[0])?; let mut e = s.els(st, &a[0])?; e.reverse(); s.write(st, &r, Val::seq(e))?; u() },
        "rotate_left@[]" | "rotate_right@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let mut e = s.els(st, &a[0])?;
            let k = s.int(&a[1])?;
            let k = s.cu(k, "rotation")?;
            let c = s.a.bool(k <= e.len());
            s.require(st, c, "rotation beyond the slice")?;
            if cx.c.canon.key.starts_with("rotate_left") { e.rotate_left(k) } else { e.rotate_right(k) }
            s.write(st, &r, Val::seq(e))?;
            u()
        },
        "concat@[]" => |s, st, a, _| { let mut o = vec![]; for e in s.els(st, &a[0])? { o.extend(s.els(st, &e)?); } Ok(Val::vec(o)) },
        "repeat@[]" => |s, st, a, _| { let e = s.els(st, &a[0])?; let n = s.int(&a[1])?; let n = s.cu(n, "count")?; let mut o = vec![]; for _ in 0..n { o.extend(e.iter().cloned()); } Ok(Val::vec(o)) },
        "as_ptr@[]" | "as_mut_ptr@[]" | "Vec::as_ptr" | "Vec::as_mut_ptr" => |s, st, a, _| {
            let r = s.slice(st, &a[0])?;
            let z = s.us(0);
            Ok(s.elem_ref(&r, z))
        },
        "contains@[]" => |s, st, a, _| {
            let e = s.els(st, &a[0])?;
            let x = s.peel(st, &a[1])?;
            let mut c = s.a.ff();
            for y in e { let q = s.val_eq(st, &x, &y)?; c = s.a.or(c, q); }
            Ok(Val::Int(c))
        },
        "starts_with@[]" | "ends_with@[]" => |s, st, a, cx| {
            let (x, y) = (s.els(st, &a[0])?, s.els(st, &a[1])?);
            if y.len() > x.len() { return Ok(Val::Int(s.a.ff())); }
            let o = if cx.c.canon.key.starts_with("starts") { 0 } else { x.len() - y.len() };
            let mut c = s.a.tt();
            for i in 0..y.len() { let q = s.val_eq(st, &x[o + i], &y[i])?; c = s.a.and(c, q); }
            Ok(Val::Int(c))
        },
        "slice::from_ref" | "array::from_ref" => |s, st, a, _| {
            let v = s.peel(st, &a[0])?;
            let o = s.alloc(st, Val::seq(vec![v]));
            let (z, one) = (s.us(0), s.us(1));
            Ok(Val::rf(o, vec![], Some((z, one))))
        },
        // ---- iterators over slices: the value is the remaining window
        "iter@[]" | "iter_mut@[]" | "IntoIterator::into_iter@&" => |s, st, a, _| { let r = s.slice(st, &a[0])?; Ok(Val::Ref(Rc::new(r))) },
        "Iterator::next@Iter" | "Iterator::next@IterMut" | "DoubleEndedIterator::next_back@Iter" | "DoubleEndedIterator::next_back@IterMut" => |s, st, a, cx| {
            let Val::Ref(me) = &a[0] else { return un("iterator") };
            let Val::Ref(r) = s.read(st, me)? else { return un("iterator over an unsupported collection") };
            let Some((o, l)) = r.win else { return un("iterator without a window") };
            let z = s.us(0);
            let one = s.us(1);
            let e = s.a.eq(l, z);
            let has = s.a.not(e);
            if s.a.as_const(has) == Some(0) { return Ok(s.none()); }
            let l2 = s.a.sub(l, one);
            let back = cx.c.canon.key.starts_with("Double");
            let el = if back { s.elem_ref(&r, l2) } else { s.elem_ref(&r, z) };
            let step = s.a.ite(has, one, z);
            let nl = s.a.sub(l, step);
            let no = if back { o } else { s.a.add(o, step) };
            s.write(st, me, Val::rf(r.obj, r.path.clone(), Some((no, nl))))?;
            Ok(s.some_if(has, el))
        },
        "ExactSizeIterator::len@Iter" | "ExactSizeIterator::len@IterMut" | "Iter::len" | "IterMut::len" => |s, st, a, _| { let v = s.deref1(st, &a[0])?; let Val::Ref(r) = v else { return un("iterator") }; Ok(Val::Int(r.win.unwrap().1)) },
        "Iterator::size_hint@Iter" | "Iterator::size_hint@IterMut" => |s, st, a, _| { let v = s.deref1(st, &a[0])?; let Val::Ref(r) = v else { return un("iterator") }; let n = Val::Int(r.win.unwrap().1); let sm = s.some(n.clone()); Ok(Val::agg(vec![n, sm])) },
        "Iter::as_slice" | "IterMut::as_slice" | "AsRef::as_ref@Iter" => |s, st, a, _| s.deref1(st, &a[0]),
        "IterMut::into_slice" => |_, _, a, _| Ok(a[0].clone()),
        "IntoIterator::into_iter@Vec" => |s, st, a, _| { let e = s.els(st, &a[0])?; own_iter(s, e) },
        "IntoIterator::into_iter@[;]" => |s, st, a, _| { let e = s.els(st, &a[0])?; own_iter(s, e) },
        "IntoIterator::into_iter@Box" => |s, st, a, _| { let e = s.els(st, &a[0])?; own_iter(s, e) },
        "Iterator::next@IntoIter" | "DoubleEndedIterator::next_back@IntoIter" | "Iterator::next@Drain" | "DoubleEndedIterator::next_back@Drain" if !cn.self_ty.contains("option::") && !cn.self_ty.contains("result::") => |s, st, a, cx| {
            let Val::Ref(me) = &a[0] else { return un("iterator") };
            let Val::Agg(v) = s.read(st, me)? else { return un("owned iterator") };
            let (i, j) = (s.int(&v[1])?, s.int(&v[2])?);
            let (i, j) = (s.cu(i, "position")?, s.cu(j, "position")?);
            if i >= j { return Ok(s.none()); }
            let back = cx.c.canon.key.starts_with("Double");
            let at = if back { j - 1 } else { i };
            let k = s.us(at);
            let el = s.get(&v[0], &[Pe::I(k)])?;
            let (ni, nj) = if back { (s.usv(i), s.usv(j - 1)) } else { (s.usv(i + 1), s.usv(j)) };
            s.write(st, me, Val::agg(vec![v[0].clone(), ni, nj]))?;
            Ok(s.some(el))
        },
        "ExactSizeIterator::len@IntoIter" | "ExactSizeIterator::len@Drain" => |s, st, a, _| { let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("owned iterator") }; let (i, j) = (s.int(&v[1])?, s.int(&v[2])?); Ok(Val::Int(s.a.sub(j, i))) },
        "Iterator::size_hint@IntoIter" if !cn.self_ty.contains("option::") => |s, st, a, _| { let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("owned iterator") }; let (i, j) = (s.int(&v[1])?, s.int(&v[2])?); let n = Val::Int(s.a.sub(j, i)); let sm = s.some(n.clone()); Ok(Val::agg(vec![n, sm])) },
        // ---- chunked iterators: [remaining window, chunk size, exact flag, remainder]
        "chunks@[]" | "chunks_mut@[]" | "chunks_exact@[]" | "chunks_exact_mut@[]" | "windows@[]" | "rchunks@[]" => |s, st, a, cx| {
            let r = s.slice(st, &a[0])?;
            let k = s.int(&a[1])?;
            let z = s.us(0);
            let e = s.a.eq(k, z);
            let c = s.a.not(e);
            s.require(st, c, "chunk size must be non-zero")?;
            let (o, l) = r.win.unwrap();
            let _ = o;
            if cx.c.canon.key.starts_with("chunks_exact") {
                let rem = s.a.urem(l, k);
                let m = s.a.sub(l, rem);
                let (x, y) = (s.sub_ref(&r, z, m), s.sub_ref(&r, m, rem));
                return Ok(Val::agg(vec![x, Val::Int(k), y]));
            }
            Ok(Val::agg(vec![Val::Ref(Rc::new(r)), Val::Int(k)]))
        },
        "ChunksExact::remainder" | "ChunksExactMut::into_remainder" => |s, st, a, _| { let v = match &a[0] { Val::Ref(_) => s.deref1(st, &a[0])?, x => x.clone() }; let Val::Agg(v) = v else { return un("chunks") }; Ok(v[2].clone()) },
        "Iterator::next@Chunks" | "Iterator::next@ChunksMut" | "Iterator::next@ChunksExact" | "Iterator::next@ChunksExactMut" | "Iterator::next@Windows" | "Iterator::next@RChunks"
        | "DoubleEndedIterator::next_back@Chunks" | "DoubleEndedIterator::next_back@ChunksMut" | "DoubleEndedIterator::next_back@ChunksExact" | "DoubleEndedIterator::next_back@ChunksExactMut" | "DoubleEndedIterator::next_back@Windows" => |s, st, a, cx| {
            let Val::Ref(me) = &a[0] else { return un("iterator") };
            let Val::Agg(v) = s.read(st, me)? else { return un("chunks") };
            let Val::Ref(r) = &v[0] else { return un("chunks") };
            let l = s.cu(r.win.unwrap().1, "length")?;
            let k = s.int(&v[1])?;
            let k = s.cu(k, "chunk size")?;
            let key = cx.c.canon.key.as_str();
            let wnd = key.ends_with("Windows");
            if l == 0 || (wnd && l < k) { return Ok(s.none()); }
            let back = key.starts_with("Double") || key.ends_with("RChunks");
            let (eo, el, no, nl) = if wnd {
                if back { (l - k, k, 0, l - 1) } else { (0, k, 1, l - 1) }
            } else if key.ends_with("RChunks") { let n = k.min(l); (l - n, n, 0, l - n) }
            else if back { let n = if l % k == 0 { k } else { l % k }; (l - n, n, 0, l - n) } else { let n = k.min(l); (0, n, n, l - n) };
            let (eo, el, no, nl) = (s.us(eo), s.us(el), s.us(no), s.us(nl));
            let e = s.sub_ref(r, eo, el);
            let nr = s.sub_ref(r, no, nl);
            let mut nv = v.to_vec();
            nv[0] = nr;
            s.write(st, me, Val::agg(nv))?;
            Ok(s.some(e))
        },
        "ExactSizeIterator::len@Chunks" | "ExactSizeIterator::len@ChunksMut" | "ExactSizeIterator::len@ChunksExact" | "ExactSizeIterator::len@ChunksExactMut" | "ExactSizeIterator::len@Windows" => |s, st, a, cx| {
            let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("chunks") };
            let Val::Ref(r) = &v[0] else { return un("chunks") };
            let l = s.cu(r.win.unwrap().1, "length")?;
            let k = s.int(&v[1])?;
            let k = s.cu(k, "chunk size")?;
            Ok(s.usv(if cx.c.canon.key.ends_with("Windows") { if l < k { 0 } else { l - k + 1 } } else { l.div_ceil(k) }))
        },
        "Iterator::size_hint@Chunks" | "Iterator::size_hint@ChunksMut" | "Iterator::size_hint@ChunksExact" | "Iterator::size_hint@ChunksExactMut" => |s, st, a, _| {
            let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("chunks") };
            let Val::Ref(r) = &v[0] else { return un("chunks") };
            let l = s.cu(r.win.unwrap().1, "length")?;
            let k = s.int(&v[1])?;
            let k = s.cu(k, "chunk size")?;
            let n = s.usv(l.div_ceil(k));
            let sm = s.some(n.clone());
            Ok(Val::agg(vec![n, sm]))
        },
        // ---- integer ranges
        "Iterator::next@Range" | "DoubleEndedIterator::next_back@Range" => |s, st, a, cx| {
            let it = s.ity(&cx.c.canon.self_ty);
            let Val::Ref(me) = &a[0] else { return un("range") };
            let Val::Agg(v) = s.read(st, me)? else { return un("range") };
            let (x, y) = (s.int(&v[0])?, s.int(&v[1])?);
            let has = if it.s { s.a.slt(x, y) } else { s.a.ult(x, y) };
            let has = match s.decide(st, has) { Some(b) => s.a.bool(b), None => has };
            if s.a.as_const(has) == Some(0) { return Ok(s.none()); }
            let w = s.a.w(x);
            let one = s.a.k(w, 1);
            if cx.c.canon.key.starts_with("Double") {
                let y1 = s.a.sub(y, one);
                let ny = s.a.ite(has, y1, y);
                s.write(st, me, Val::agg(vec![Val::Int(x), Val::Int(ny)]))?;
                return Ok(s.some_if(has, Val::Int(y1)));
            }
            let x1 = s.a.add(x, one);
            let nx = s.a.ite(has, x1, x);
            s.write(st, me, Val::agg(vec![Val::Int(nx), Val::Int(y)]))?;
            Ok(s.some_if(has, Val::Int(x)))
        },
        "Iterator::next@RangeInclusive" | "DoubleEndedIterator::next_back@RangeInclusive" => |s, st, a, cx| {
            let it = s.ity(&cx.c.canon.self_ty);
            let Val::Ref(me) = &a[0] else { return un("range") };
            let Val::Agg(v) = s.read(st, me)? else { return un("range") };
            let (x, y, ex) = (s.int(&v[0])?, s.int(&v[1])?, s.int(&v[2])?);
            let gt = if it.s { s.a.slt(y, x) } else { s.a.ult(y, x) };
            let done = s.a.or(gt, ex);
            let has = s.a.not(done);
            if s.a.as_const(has) == Some(0) { return Ok(s.none()); }
            let last = s.a.eq(x, y);
            let w = s.a.w(x);
            let one = s.a.k(w, 1);
            let nex = s.a.and(has, last);
            let nex = s.a.or(nex, ex);
            let nl = s.a.not(last);
            let adv = s.a.and(has, nl);
            if cx.c.canon.key.starts_with("Double") {
                let y1 = s.a.sub(y, one);
                let ny = s.a.ite(adv, y1, y);
                s.write(st, me, Val::agg(vec![Val::Int(x), Val::Int(ny), Val::Int(nex)]))?;
                return Ok(s.some_if(has, Val::Int(y)));
            }
            let x1 = s.a.add(x, one);
            let nx = s.a.ite(adv, x1, x);
            s.write(st, me, Val::agg(vec![Val::Int(nx), Val::Int(y), Val::Int(nex)]))?;
            Ok(s.some_if(has, Val::Int(x)))
        },
        "Iterator::next@RangeFrom" => |s, st, a, _| {
            let Val::Ref(me) = &a[0] else { return un("range") };
            let Val::Agg(v) = s.read(st, me)? else { return un("range") };
            let x = s.int(&v[0])?;
            let w = s.a.w(x);
            let one = s.a.k(w, 1);
            let x1 = s.a.add(x, one);
            s.write(st, me, Val::agg(vec![Val::Int(x1)]))?;
            Ok(s.some(Val::Int(x)))
        },
        "ExactSizeIterator::len@Range" => |s, st, a, _| {
            let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("range") };
            let (x, y) = (s.int(&v[0])?, s.int(&v[1])?);
            let lt = s.a.ult(x, y);
            let d = s.a.sub(y, x);
            let z = { let w = s.a.w(x); s.a.k(w, 0) };
            let n = s.a.ite(lt, d, z);
            Ok(Val::Int(s.a.zext(n, pw())))
        },
        "Iterator::size_hint@Range" => |s, st, a, _| {
            let Val::Agg(v) = s.deref1(st, &a[0])? else { return un("range") };
            let (x, y) = (s.int(&v[0])?, s.int(&v[1])?);
            let lt = s.a.ult(x, y);
            let d = s.a.sub(y, x);
            let z = { let w = s.a.w(x); s.a.k(w, 0) };
            let n = s.a.ite(lt, d, z);
            let n = Val::Int(s.a.zext(n, pw()));
            let sm = s.some(n.clone());
            Ok(Val::agg(vec![n, sm]))
        },
        "IntoIterator::into_iter@Range" | "IntoIterator::into_iter@RangeInclusive" => |_, _, a, _| Ok(a[0].clone()),
        "RangeInclusive::new" => |s, _, a, _| { let f = s.a.ff(); Ok(Val::agg(vec![a[0].clone(), a[1].clone(), Val::Int(f)])) },
        "RangeInclusive::start" | "RangeInclusive::end" => |_, _, a, cx| { let Val::Ref(r) = &a[0] else { return un("range") }; let mut r2 = (**r).clone(); r2.path.push(Pe::F(if cx.c.canon.key.ends_with("start") { 0 } else { 1 })); Ok(Val::Ref(Rc::new(r2))) },
        // ---- conversions between sequences
        "TryFrom::try_from@[;]" | "TryFrom::try_from@&" => |s, st, a, cx| {
            let Some(n) = arr_len(&cx.c.canon.self_ty) else { return un(format!("conversion to {}", cx.c.canon.self_ty)) };
            let l = s.len_of(st, &a[0])?;
            let kn = s.us(n);
            let c = s.a.eq(l, kn);
            let c = match s.decide(st, c) { Some(b) => s.a.bool(b), None => c };
            match s.a.as_const(c) {
                Some(0) => Ok(s.mk_enum(1, 2, vec![a[0].clone()])),
                Some(_) => {
                    let v = if cx.c.canon.key.ends_with('&') { let mut r = s.slice(st, &a[0])?; r.win = r.win.map(|w| (w.0, kn)); Val::Ref(Rc::new(r)) } else { let e = s.els(st, &a[0])?; Val::seq(e) };
                    Ok(s.mk_enum(0, 2, vec![v]))
                }
                None => un("conversion of a slice of unknown length to an array"),
            }
        },
        "first_chunk@[]" | "last_chunk@[]" | "first_chunk_mut@[]" | "as_array@[]" => |s, st, a, cx| {
            let Ok(n) = cx.c.canon.meth_args.trim_end_matches("usize").trim_end_matches('_').parse::<usize>() else { return un("chunk") };
            let l = s.clen(st, &a[0])?;
            if l < n || (cx.c.canon.key.starts_with("as_array") && l != n) { return Ok(s.none()); }
            let r = s.slice(st, &a[0])?;
            let (o, k) = (s.us(if cx.c.canon.key.starts_with("last") { l - n } else { 0 }), s.us(n));
            let v = s.sub_ref(&r, o, k);
            Ok(s.some(v))
        },
        // ---- memory
        "mem::swap" => |s, st, a, _| { let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) else { return un("swap") }; let (x, y) = (s.read(st, p)?, s.read(st, q)?); s.write(st, p, y)?; s.write(st, q, x)?; u() },
        "mem::replace" | "ptr::replace" => |s, st, a, _| { let Val::Ref(p) = &a[0] else { return un("replace") }; let x = s.read(st, p)?; s.write(st, p, a[1].clone())?; Ok(x) },
        "mem::take" if ["Vec<", "std::vec::Vec<", "alloc::vec::Vec<", "[", "u", "i", "Option<", "std::option::Option<"].iter().any(|p| cn.meth_args.trim_start_matches("::").trim_start_matches('<').starts_with(p)) => |s, st, a, _| {
            let Val::Ref(p) = &a[0] else { return un("take") };
            let x = s.read(st, p)?;
            let d = match &x { Val::Vec(_) => Val::vec(vec![]), Val::Int(t) => { let w = s.a.w(*t); Val::Int(s.a.k(w, 0)) }, Val::Enum(..) => s.none(), Val::Seq(q) => match &**q { Sq::Conc(e) if e.iter().all(|v| matches!(v, Val::Int(_))) => { let mut o = vec![]; for v in e { let t = s.int(v)?; let w = s.a.w(t); o.push(Val::Int(s.a.k(w, 0))); } Val::seq(o) } _ => return un("take") }, v => return un(format!("take of {}", kind(v))) };
            s.write(st, p, d)?;
            Ok(x)
        },
        "hint::black_box" => |_, _, a, _| Ok(a[0].clone()),
        "mem::forget" => |_, _, _, _| u(),
        "ptr::read" | "ptr::read_unaligned" | "read@*" | "read_unaligned@*" => |s, st, a, _| { let Val::Ref(p) = &a[0] else { return un("ptr read") }; s.read(st, p) },
        "ptr::write" | "ptr::write_unaligned" | "write@*" => |s, st, a, _| { let Val::Ref(p) = &a[0] else { return un("ptr write") }; s.write(st, p, a[1].clone())?; u() },
        "ptr::copy_nonoverlapping" | "ptr::copy" => |s, st, a, _| { let n = s.int(&a[2])?; s.copy_range(st, &a[0], &a[1], n)?; u() },
        "add@*" | "offset@*" | "wrapping_add@*" => |s, _, a, _| { let Val::Ref(p) = &a[0] else { return un("ptr add") }; let n = s.int(&a[1])?; s.ptr_add(p, n) },
        "sub@*" => |s, _, a, _| { let Val::Ref(p) = &a[0] else { return un("ptr sub") }; let n = s.int(&a[1])?; let m = s.a.neg(n); s.ptr_add(p, m) },
        "cast@*" | "cast_mut@*" | "cast_const@*" | "as_ptr@*" => |_, _, a, _| Ok(a[0].clone()),
        "slice::from_raw_parts" | "slice::from_raw_parts_mut" => |s, _, a, _| { let Val::Ref(p) = &a[0] else { return un("raw slice") }; let n = s.int(&a[1])?; s.mk_slice(p, n) },
        "NonNull::as_ptr" | "NonNull::new_unchecked" | "Unique::as_ptr" => |_, _, a, _| Ok(a[0].clone()),
        // ---- comparisons
        _ if k.starts_with("PartialEq::eq@") || k.starts_with("PartialEq::ne@") || k.starts_with("SlicePartialEq::equal@") => {
            let h = k.split('@').nth(1).unwrap();
            if !["Vec", "[]", "[;]", "&", "str", "int", "bool"].contains(&h) { return None; }
            if k.contains("::ne@") { |s, st, a, _| { let e = s.val_eq(st, &a[0], &a[1])?; Ok(Val::Int(s.a.not(e))) } } else { |s, st, a, _| Ok(Val::Int(s.val_eq(st, &a[0], &a[1])?)) }
        }
        _ => return None,
    })
}
impl Interp {
    pub fn deref1(&mut self, st: &St, v: &Val) -> R<Val> { match v { Val::Ref(r) => self.read(st, r), x => Ok(x.clone()) } }
}
fn own_iter(s: &mut Interp, e: Vec<Val>) -> R<Val> {
    let n = e.len();
    let (z, n) = (s.usv(0), s.usv(n));
    Ok(Val::agg(vec![Val::seq(e), z, n]))
}

// ---------------------------------------------------------------------- digests
fn hash_lookup(cn: &Canon) -> Option<N> {
    let k = cn.key.as_str();
    let m = k.split('@').next().unwrap().rsplit("::").next().unwrap();
    let tr = k.split("::").next().unwrap();
    Some(match m {
        "digest" if tr == "Digest" => |s, st, a, cx| { let mut p = vec![]; s.hash_input(st, &a[0], &mut p)?; let alg = alg(cx); s.hash_out(&alg, p, cx.ret) },
        "new" | "default" if tr == "Digest" || tr == "Default" => |_, _, _, cx| Ok(Val::Hasher(Rc::new((alg(cx), vec![])))),
        "update" | "input" | "consume" if ["Digest", "Update", "Input"].contains(&tr) => |s, st, a, _| {
            let Val::Ref(r) = &a[0] else { return un("hasher") };
            let Val::Hasher(h) = s.read(st, r)? else { return un("hasher") };
            let mut p = h.1.clone();
            s.hash_input(st, &a[1], &mut p)?;
            s.write(st, r, Val::Hasher(Rc::new((h.0.clone(), p))))?;
            u()
        },
        "chain" | "chain_update" | "new_with_prefix" if ["Digest", "Update", "Input"].contains(&tr) => |s, st, a, cx| {
            let (name, mut p, d) = if a.len() == 2 { let Val::Hasher(h) = &a[0] else { return un("hasher") }; (h.0.clone(), h.1.clone(), &a[1]) } else { (alg(cx), vec![], &a[0]) };
            s.hash_input(st, d, &mut p)?;
            Ok(Val::Hasher(Rc::new((name, p))))
        },
        "finalize" | "finalize_fixed" | "result" | "fixed_result" => |s, _, a, cx| { let Val::Hasher(h) = &a[0] else { return un("hasher") }; s.hash_out(&h.0, h.1.clone(), cx.ret) },
        "finalize_reset" | "finalize_fixed_reset" => |s, st, a, cx| {
            let Val::Ref(r) = &a[0] else { return un("hasher") };
            let Val::Hasher(h) = s.read(st, r)? else { return un("hasher") };
            s.write(st, r, Val::Hasher(Rc::new((h.0.clone(), vec![]))))?;
            s.hash_out(&h.0, h.1.clone(), cx.ret)
        },
        "reset" => |s, st, a, _| {
            let Val::Ref(r) = &a[0] else { return un("hasher") };
            let Val::Hasher(h) = s.read(st, r)? else { return un("hasher") };
            s.write(st, r, Val::Hasher(Rc::new((h.0.clone(), vec![]))))?;
            u()
        },
        "clone" => |s, st, a, _| { let Val::Ref(r) = &a[0] else { return un("clone") }; s.read(st, r) },
        _ => return None,
    })
}
fn alg(cx: &CallCx) -> String {
    match cx.c.targs.first() { Some(GenericArgKind::Type(t)) => format!("{t}"), _ => cx.c.canon.self_ty.clone() }
}
fn ga_lookup(cn: &Canon) -> Option<N> {
    let k = cn.key.as_str();
    let m = k.split('@').next().unwrap().rsplit("::").next().unwrap();
    Some(match m {
        "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" => |s, st, a, _| { let r = s.slice(st, &a[0])?; Ok(Val::Ref(Rc::new(r))) },
        "into_iter" => |s, st, a, _| match &a[0] { Val::Ref(_) => { let r = s.slice(st, &a[0])?; Ok(Val::Ref(Rc::new(r))) } v => { let e = s.els(st, v)?; own_iter(s, e) } },
        "clone" => |s, st, a, _| { let Val::Ref(r) = &a[0] else { return un("clone") }; s.read(st, r) },
        "from" | "into" => |_, _, a, _| Ok(a[0].clone()),
        "clone_from_slice" => |s, st, a, cx| {
            let e = s.els(st, &a[0])?;
            let n = cx.ret.layout().map(|l| l.shape().size.bytes()).unwrap_or(e.len());
            let c = s.a.bool(n == e.len());
            s.require(st, c, "GenericArray length")?;
            Ok(Val::seq(e))
        },
        "from_slice" => |s, st, a, _| { let r = s.slice(st, &a[0])?; Ok(Val::Ref(Rc::new(r))) },
        "default" => |s, _, _, cx| { let n = cx.ret.layout().map(|l| l.shape().size.bytes()).unwrap_or(32); let z = s.a.k(8, 0); Ok(Val::seq(vec![Val::Int(z); n])) },
        "next" | "next_back" => |s, st, a, cx| {
            let Val::Ref(me) = &a[0] else { return un("iterator") };
            let Val::Agg(v) = s.read(st, me)? else { return un("owned iterator") };
            let (i, j) = (s.int(&v[1])?, s.int(&v[2])?);
            let (i, j) = (s.cu(i, "position")?, s.cu(j, "position")?);
            if i >= j { return Ok(s.none()); }
            let back = cx.c.canon.key.starts_with("Double");
            let k = s.us(if back { j - 1 } else { i });
            let el = s.get(&v[0], &[Pe::I(k)])?;
            let (ni, nj) = if back { (s.usv(i), s.usv(j - 1)) } else { (s.usv(i + 1), s.usv(j)) };
            s.write(st, me, Val::agg(vec![v[0].clone(), ni, nj]))?;
            Ok(s.some(el))
        },
        _ => return None,
    })
}

// ---------------------------------------------------------------------- integers
fn i2(s: &Interp, a: &[Val]) -> R<(T, T)> { Ok((s.int(&a[0])?, s.int(&a[1])?)) }
fn deref_int(s: &mut Interp, st: &St, v: &Val) -> R<T> { let x = s.deref(st, v)?; s.int(&x) }
fn int_lookup(cn: &Canon) -> Option<N> {
    let k = cn.key.as_str();
    let (m, h) = match k.split_once('@') { Some(x) => x, None => return None };
    if h == "int" || h == "bool" {
        let n: Option<N> = match m {
            "wrapping_add" | "unchecked_add" => Some(|s, _, a, _| { let (x, y) = i2(s, a)?; Ok(Val::Int(s.a.add(x, y))) }),
            "wrapping_sub" | "unchecked_sub" => Some(|s, _, a, _| { let (x, y) = i2(s, a)?; Ok(Val::Int(s.a.sub(x, y))) }),
            "wrapping_mul" | "unchecked_mul" => Some(|s, _, a, _| { let (x, y) = i2(s, a)?; Ok(Val::Int(s.a.mul(x, y))) }),
            "wrapping_neg" => Some(|s, _, a, _| { let x = s.int(&a[0])?; Ok(Val::Int(s.a.neg(x))) }),
            "wrapping_add_signed" | "wrapping_add_unsigned" => Some(|s, _, a, _| { let (x, y) = i2(s, a)?; Ok(Val::Int(s.a.add(x, y))) }),
            "wrapping_shl" | "unchecked_shl" => Some(|s, _, a, _| { let (x, y) = i2(s, a)?; Ok(Val::Int(s.a.shl(x, y))) }),
            "wrapping_shr" | "unchecked_shr" => Some(|s, _, a, cx| { let (x, y) = i2(s, a)?; let sg = s.ity(&cx.c.canon.self_ty).s; Ok(Val::Int(if sg { s.a.ashr(x, y) } else { s.a.lshr(x, y) })) }),
            "rotate_left" | "rotate_right" => Some(|s, _, a, cx| {
                let (x, y) = i2(s, a)?;
                let w = s.a.w(x) as u32;
                let Some(n) = s.a.as_const(y) else { return un("rotation by an unknown amount") };
                let n = (n as u32) % w;
                Ok(Val::Int(s.a.rotl_c(x, if cx.c.canon.key.starts_with("rotate_left") { n } else { (w - n) % w })))
            }),
            "swap_bytes" => Some(|s, _, a, _| { let x = s.int(&a[0])?; Ok(Val::Int(s.bswap(x))) }),
            "to_be" | "from_be" => Some(|s, _, a, _| { let x = s.int(&a[0])?; Ok(Val::Int(if be() { x } else { s.bswap(x) })) }),
            "to_le" | "from_le" => Some(|s, _, a, _| { let x = s.int(&a[0])?; Ok(Val::Int(if be() { s.bswap(x) } else { x })) }),
            "to_le_bytes" => Some(|s, _, a, _| { let x = s.int(&a[0])?; let b = s.le_bytes(x)?; Ok(Val::seq(b.into_iter().map(Val::Int).collect())) }),
            "to_ne_bytes" => Some(|s, _, a, _| { let x = s.int(&a[0])?; let mut b = s.le_bytes(x)?; s.notes.insert("to_ne_bytes".into()); if be() { b.reverse(); } Ok(Val::seq(b.into_iter().map(Val::Int).collect())) }),
            "to_be_bytes" => Some(|s, _, a, _| { let x = s.int(&a[0])?; let mut b = s.le_bytes(x)?; b.reverse(); Ok(Val::seq(b.into_iter().map(Val::Int).collect())) }),
            "from_le_bytes" => Some(|s, _, a, _| { let mut b = vec![]; s.flat_bytes(&a[0], &mut b)?; Ok(Val::Int(s.a.concat(&b))) }),
            "from_ne_bytes" => Some(|s, _, a, _| { let mut b = vec![]; s.flat_bytes(&a[0], &mut b)?; if be() { b.reverse(); } Ok(Val::Int(s.a.concat(&b))) }),
            "from_be_bytes" => Some(|s, _, a, _| { let mut b = vec![]; s.flat_bytes(&a[0], &mut b)?; b.reverse(); Ok(Val::Int(s.a.concat(&b))) }),
            "Ord::max" | "Ord::min" => Some(|s, _, a, cx| {
                let (x, y) = i2(s, a)?;
                let sg = s.ity(&cx.c.canon.self_ty).s;
                let lt = if sg { s.a.slt(y, x) } else { s.a.ult(y, x) };
                Ok(Val::Int(if cx.c.canon.key.contains("max") { s.a.ite(lt, x, y) } else { s.a.ite(lt, y, x) }))
            }),
            "Ord::cmp" => Some(|s, st, a, cx| {
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let sg = s.ity(&cx.c.canon.self_ty).s;
                let lt = if sg { s.a.slt(x, y) } else { s.a.ult(x, y) };
                let e = s.a.eq(x, y);
                Ok(s.ordering(lt, e))
            }),
            "PartialOrd::lt" | "PartialOrd::le" | "PartialOrd::gt" | "PartialOrd::ge" => Some(|s, st, a, cx| {
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let sg = s.ity(&cx.c.canon.self_ty).s;
                let op = if cx.c.canon.key.contains("::lt@") { BinOp::Lt } else if cx.c.canon.key.contains("::le@") { BinOp::Le } else if cx.c.canon.key.contains("::gt@") { BinOp::Gt } else { BinOp::Ge };
                Ok(Val::Int(s.bin(op, x, y, sg)?))
            }),
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "checked_add" | "checked_sub" | "checked_mul" | "saturating_add" | "saturating_sub" | "saturating_mul" | "strict_add" | "strict_sub" | "strict_mul" => Some(|s, st, a, cx| {
                let (x, y) = i2(s, a)?;
                let it = s.ity(&cx.c.canon.self_ty);
                let kk = cx.c.canon.key.clone();
                let op = if kk.contains("_add@") { BinOp::Add } else if kk.contains("_sub@") { BinOp::Sub } else { BinOp::Mul };
                let (r, f) = s.chk(op, x, y, it)?;
                let nf = s.a.not(f);
                if kk.starts_with("overflowing") { return Ok(Val::agg(vec![Val::Int(r), Val::Int(f)])); }
                if kk.starts_with("checked") { let v = s.some_if(nf, Val::Int(r)); return Ok(v); }
                if kk.starts_with("strict") { s.require(st, nf, "arithmetic overflow")?; return Ok(Val::Int(r)); }
                if it.s && s.a.as_const(f) != Some(0) { return un("signed saturation"); }
                let sat = s.a.k(it.w, if op == BinOp::Sub { 0 } else { fm(it.w) });
                Ok(Val::Int(s.a.ite(f, sat, r)))
            }),
            "pow" | "wrapping_pow" => Some(|s, st, a, cx| {
                let (x, y) = i2(s, a)?;
                let n = s.cu(y, "exponent")?;
                if n > 128 { return un("exponent"); }
                let it = s.ity(&cx.c.canon.self_ty);
                let mut r = s.a.k(it.w, 1);
                for _ in 0..n {
                    let (q, f) = s.chk(BinOp::Mul, r, x, it)?;
                    if !cx.c.canon.key.starts_with("wrapping") { let nf = s.a.not(f); s.require(st, nf, "overflow in pow")?; }
                    r = q;
                }
                Ok(Val::Int(r))
            }),
            "div_ceil" => Some(|s, st, a, _| {
                let (x, y) = i2(s, a)?;
                let w = s.a.w(x);
                let z = s.a.k(w, 0);
                let e = s.a.eq(y, z);
                let ne = s.a.not(e);
                s.require(st, ne, "division by zero")?;
                let (q, r) = (s.a.udiv(x, y), s.a.urem(x, y));
                let rz = s.a.eq(r, z);
                let one = s.a.k(w, 1);
                let q1 = s.a.add(q, one);
                Ok(Val::Int(s.a.ite(rz, q, q1)))
            }),
            "is_power_of_two" => Some(|s, _, a, _| { let x = s.int(&a[0])?; match s.a.as_const(x) { Some(c) => Ok(Val::Int(s.a.bool(c.is_power_of_two()))), None => Ok(Val::Int(s.a.app("is_power_of_two", vec![x], 1))) } }),
            "abs_diff" => Some(|s, _, a, cx| { let (x, y) = i2(s, a)?; let sg = s.ity(&cx.c.canon.self_ty).s; let lt = if sg { s.a.slt(x, y) } else { s.a.ult(x, y) }; let (p, q) = (s.a.sub(y, x), s.a.sub(x, y)); Ok(Val::Int(s.a.ite(lt, p, q))) }),
            "rem_euclid" | "div_euclid" | "wrapping_rem" | "wrapping_div" | "wrapping_rem_euclid" => Some(|s, st, a, cx| {
                let (x, y) = i2(s, a)?;
                let w = s.a.w(x);
                let z = s.a.k(w, 0);
                let e = s.a.eq(y, z);
                let ne = s.a.not(e);
                s.require(st, ne, "division by zero")?;
                let sg = s.ity(&cx.c.canon.self_ty).s;
                let isd = cx.c.canon.key.contains("div");
                if !sg { return Ok(Val::Int(if isd { s.a.udiv(x, y) } else { s.a.urem(x, y) })); }
                if !cx.c.canon.key.contains("euclid") { return Ok(Val::Int(if isd { s.a.sdiv(x, y) } else { s.a.srem(x, y) })); }
                if isd { return un("div_euclid"); }
                if let Some(c) = s.a.as_const(y) { if c.is_power_of_two() && c < 1u128 << (w - 1) { return Ok(Val::Int(s.a.mov(x, w, 0, c - 1))); } }
                let r = s.a.srem(x, y);
                let neg = s.a.slt(r, z);
                if s.a.srng(y).0 < 0 { return un("rem_euclid by a negative number"); }
                let r2 = s.a.add(r, y);
                Ok(Val::Int(s.a.ite(neg, r2, r)))
            }),
            "unsigned_abs" | "abs" | "wrapping_abs" => Some(|s, _, a, _| { let x = s.int(&a[0])?; let w = s.a.w(x); let z = s.a.k(w, 0); let neg = s.a.slt(x, z); let m = s.a.neg(x); Ok(Val::Int(s.a.ite(neg, m, x))) }),
            "reverse_bits" => Some(|s, _, a, _| {
                let x = s.int(&a[0])?;
                let w = s.a.w(x);
                let b: Vec<T> = (0..w).rev().map(|i| s.a.extract(x, i, 1)).collect();
                Ok(Val::Int(s.a.concat(&b)))
            }),
            "count_ones" | "leading_zeros" | "trailing_zeros" | "count_zeros" | "ilog2" | "next_power_of_two" | "reverse_bits" => Some(|s, _, a, cx| {
                let x = s.int(&a[0])?;
                let w = s.a.w(x) as u32;
                let kk = cx.c.canon.key.split('@').next().unwrap().to_string();
                match s.a.as_const(x) {
                    Some(c) => {
                        let v = match kk.as_str() {
                            "count_ones" => c.count_ones() as u128, "count_zeros" => (w - c.count_ones()) as u128,
                            "leading_zeros" => (c.leading_zeros() - (128 - w)) as u128, "trailing_zeros" => c.trailing_zeros().min(w) as u128,
                            "ilog2" => if c == 0 { return un("ilog2(0)") } else { c.ilog2() as u128 },
                            "next_power_of_two" => c.next_power_of_two(),
                            _ => c.reverse_bits() >> (128 - w),
                        };
                        let ow = if kk == "next_power_of_two" || kk == "reverse_bits" { w as u16 } else { 32 };
                        Ok(Val::Int(s.a.k(ow, v)))
                    }
                    None => un(format!("{kk} of an unknown value")),
                }
            }),
            "From::from" => Some(|s, _, a, cx| {
                let x = match &a[0] { Val::Int(t) => *t, _ => return un("integer conversion") };
                let (f, t) = (s.ity(&cx.c.canon.trait_args), s.ity(&cx.c.canon.self_ty));
                if t.w == 0 { return un("integer conversion"); }
                Ok(Val::Int(s.cast(x, f, t)))
            }),
            "TryFrom::try_from" => Some(|s, _, a, cx| {
                let x = s.int(&a[0])?;
                let (f, t) = (s.ity(&cx.c.canon.trait_args), s.ity(&cx.c.canon.self_ty));
                if t.w == 0 || f.w == 0 || f.w > 64 || t.w > 64 { return un("integer conversion"); }
                // compare in 128 bits
                let wide = s.cast(x, f, It { w: 128, s: true });
                let c = s.cast(x, f, t);
                let back = s.cast(c, t, It { w: 128, s: true });
                let r = if f.s { s.a.srng(x) } else { let r = s.a.rng(x); (r.0 as i128, r.1 as i128) };
                let (mn, mx) = if t.s { (sx(1u128 << (t.w - 1), t.w), (fm(t.w) >> 1) as i128) } else { (0, fm(t.w) as i128) };
                let ok = if r.0 >= mn && r.1 <= mx { s.a.tt() } else if r.1 < mn || r.0 > mx { s.a.ff() } else { s.a.eq(wide, back) };
                let nok = s.a.not(ok);
                let d = s.a.zext(nok, 16);
                Ok(Val::Enum(d, Rc::new(vec![vec![Val::Int(c)], vec![Val::agg(vec![Val::unit()])]])))
            }),
            "Default::default" => Some(|s, _, _, cx| { let it = s.ity(&cx.c.canon.self_ty); Ok(Val::Int(s.a.k(it.w, 0))) }),
            _ => None,
        };
        if n.is_some() { return n; }
    }
    // operator traits on integers and references to integers
    if h == "int" || h == "&" || h == "bool" {
        let tr = m.split("::").next().unwrap();
        let ok = h != "&" || { let t = cn.self_ty.trim_start_matches('&'); let t = if t.starts_with('\'') { t.splitn(2, ' ').nth(1).unwrap_or("") } else { t }; head(t) == "int" || t == "bool" };
        if !ok { return None; }
        return Some(match tr {
            "Add" | "Sub" | "Mul" | "Shl" | "Shr" => |s, st, a, cx| {
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let t = cx.c.canon.self_ty.trim_start_matches('&').to_string();
                let t = if t.starts_with('\'') { t.splitn(2, ' ').nth(1).unwrap_or("").to_string() } else { t };
                let it = s.ity(&t);
                let op = match cx.c.canon.key.split("::").next().unwrap() { "Add" => BinOp::Add, "Sub" => BinOp::Sub, "Mul" => BinOp::Mul, "Shl" => BinOp::Shl, _ => BinOp::Shr };
                let (r, f) = s.chk(op, x, y, it)?;
                let nf = s.a.not(f);
                s.require(st, nf, "arithmetic overflow")?;
                Ok(Val::Int(r))
            },
            "AddAssign" | "SubAssign" | "MulAssign" | "ShlAssign" | "ShrAssign" if h == "int" => |s, st, a, cx| {
                let Val::Ref(p) = &a[0] else { return un("compound assignment") };
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let it = s.ity(&cx.c.canon.self_ty);
                let op = match cx.c.canon.key.split("::").next().unwrap() { "AddAssign" => BinOp::Add, "SubAssign" => BinOp::Sub, "MulAssign" => BinOp::Mul, "ShlAssign" => BinOp::Shl, _ => BinOp::Shr };
                let (r, f) = s.chk(op, x, y, it)?;
                let nf = s.a.not(f);
                s.require(st, nf, "arithmetic overflow")?;
                s.write(st, p, Val::Int(r))?;
                u()
            },
            "BitXor" | "BitAnd" | "BitOr" => |s, st, a, cx| {
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let r = match cx.c.canon.key.split("::").next().unwrap() { "BitXor" => s.a.xor(x, y), "BitAnd" => s.a.and(x, y), _ => s.a.or(x, y) };
                Ok(Val::Int(r))
            },
            "BitXorAssign" | "BitAndAssign" | "BitOrAssign" if h != "&" => |s, st, a, cx| {
                let Val::Ref(p) = &a[0] else { return un("compound assignment") };
                let (x, y) = (deref_int(s, st, &a[0])?, deref_int(s, st, &a[1])?);
                let r = match cx.c.canon.key.split("::").next().unwrap() { "BitXorAssign" => s.a.xor(x, y), "BitAndAssign" => s.a.and(x, y), _ => s.a.or(x, y) };
                s.write(st, p, Val::Int(r))?;
                u()
            },
            "Not" => |s, st, a, _| { let x = deref_int(s, st, &a[0])?; Ok(Val::Int(s.a.not(x))) },
            _ => return None,
        });
    }
    None
}

// ---------------------------------------------------------------------- compiler intrinsics
pub fn intrinsic(s: &mut Interp, st: &mut St, name: &str, a: &[Val], cx: &CallCx) -> R<Option<Val>> {
    let ty0 = || cx.c.targs.first().and_then(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None });
    let sg = ty0().and_then(int_info).map_or(false, |i| i.s);
    Ok(Some(match name {
        "wrapping_add" | "unchecked_add" => { let (x, y) = i2(s, a)?; Val::Int(s.a.add(x, y)) }
        "wrapping_sub" | "unchecked_sub" => { let (x, y) = i2(s, a)?; Val::Int(s.a.sub(x, y)) }
        "wrapping_mul" | "unchecked_mul" => { let (x, y) = i2(s, a)?; Val::Int(s.a.mul(x, y)) }
        "unchecked_shl" => { let (x, y) = i2(s, a)?; Val::Int(s.a.shl(x, y)) }
        "unchecked_shr" => { let (x, y) = i2(s, a)?; Val::Int(if sg { s.a.ashr(x, y) } else { s.a.lshr(x, y) }) }
        "unchecked_div" | "exact_div" => { let (x, y) = i2(s, a)?; Val::Int(if sg { s.a.sdiv(x, y) } else { s.a.udiv(x, y) }) }
        "unchecked_rem" => { let (x, y) = i2(s, a)?; Val::Int(if sg { s.a.srem(x, y) } else { s.a.urem(x, y) }) }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (x, y) = i2(s, a)?;
            let it = It { w: s.a.w(x), s: sg };
            let op = match &name[..3] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
            let (r, f) = s.chk(op, x, y, it)?;
            Val::agg(vec![Val::Int(r), Val::Int(f)])
        }
        "rotate_left" | "rotate_right" => {
            let (x, y) = i2(s, a)?;
            let w = s.a.w(x) as u32;
            let Some(n) = s.a.as_const(y) else { return un("rotation by an unknown amount") };
            let n = n as u32 % w;
            Val::Int(s.a.rotl_c(x, if name == "rotate_left" { n } else { (w - n) % w }))
        }
        "bswap" => { let mut b = vec![]; s.flat_bytes(&a[0], &mut b)?; b.reverse(); Val::Int(s.a.concat(&b)) }
        "likely" | "unlikely" | "black_box" => a[0].clone(),
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" => Val::unit(),
        "size_of" | "min_align_of" | "align_of" | "needs_drop" => {
            let Some(t) = ty0() else { return un("size_of") };
            let sh = t.layout().map_err(|_| E::Unsup("layout".into()))?.shape();
            match name { "size_of" => s.usv(sh.size.bytes()), "needs_drop" => { let f = s.a.ff(); Val::Int(f) } _ => s.usv(sh.abi_align as usize) }
        }
        "three_way_compare" => {
            let (x, y) = i2(s, a)?;
            let lt = if sg { s.a.slt(x, y) } else { s.a.ult(x, y) };
            let e = s.a.eq(x, y);
            s.ordering(lt, e)
        }
        "discriminant_value" => return un("discriminant_value"),
        "read_via_copy" | "volatile_load" => { let Val::Ref(r) = &a[0] else { return un("read") }; s.read(st, r)? }
        "write_via_move" | "volatile_store" => { let Val::Ref(r) = &a[0] else { return un("write") }; s.write(st, r, a[1].clone())?; Val::unit() }
        "copy_nonoverlapping" | "copy" => { let n = s.int(&a[2])?; s.copy_range(st, &a[0], &a[1], n)?; Val::unit() }
        "compare_bytes" => {
            let n = s.int(&a[2])?;
            let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) else { return un("compare_bytes") };
            let (x, y) = (s.mk_slice(p, n)?, s.mk_slice(q, n)?);
            let (x, y) = (s.els(st, &x)?, s.els(st, &y)?);
            let mut r = s.a.k(32, 0);
            let (less, more) = (s.a.k(32, 0xffff_ffff), s.a.k(32, 1));
            for (u, v) in x.iter().zip(y.iter()).rev() {
                let (u, v) = (s.int(u)?, s.int(v)?);
                let (e, l) = (s.a.eq(u, v), s.a.ult(u, v));
                let d = s.a.ite(l, less, more);
                r = s.a.ite(e, r, d);
            }
            Val::Int(r)
        }
        "offset" | "arith_offset" => { let Val::Ref(p) = &a[0] else { return un("offset") }; let n = s.int(&a[1])?; s.ptr_add(p, n)? }
        "ptr_offset_from_unsigned" | "ptr_offset_from" => {
            let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) else { return un("pointer difference") };
            let at = |s: &mut Interp, r: &RefV| -> (Vec<Pe>, T) {
                let mut path = r.path.clone();
                if let Some((o, _)) = r.win { return (path, o); }
                match path.pop() { Some(Pe::I(o)) => (path, o), Some(x) => { path.push(x); (path, s.us(0)) } None => (path, s.us(0)) }
            };
            let ((pp, i), (qp, j)) = (at(s, p), at(s, q));
            if p.obj != q.obj || pp != qp { return un("difference of unrelated pointers"); }
            Val::Int(s.a.sub(i, j))
        }
        "ptr_metadata" => { let r = s.slice(st, &a[0])?; Val::Int(r.win.unwrap().1) }
        "ub_checks" | "overflow_checks" | "contract_checks" | "is_val_statically_known" => { let f = s.a.ff(); Val::Int(f) }
        "select_unpredictable" => { let c = s.int(&a[0])?; s.merge(c, &a[1], &a[2])? }
        "saturating_add" | "saturating_sub" => {
            let (x, y) = i2(s, a)?;
            let it = It { w: s.a.w(x), s: sg };
            let op = if name.ends_with("add") { BinOp::Add } else { BinOp::Sub };
            let (r, f) = s.chk(op, x, y, it)?;
            if sg && s.a.as_const(f) != Some(0) { return un("signed saturation"); }
            let sat = s.a.k(it.w, if op == BinOp::Sub { 0 } else { fm(it.w) });
            Val::Int(s.a.ite(f, sat, r))
        }
        _ => return Ok(None),
    }))
}
