//! Lowering of monomorphic MIR (rustc_public) to a compact IR with widths, constants and callees resolved.
use crate::interp::*;
use crate::term::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::rc::Rc;

pub const RET: usize = usize::MAX - 1;

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    F(u32),
    VF(u32, u32),
    Idx(usize),
    CIdx(u64, bool),
    Sub(u64, u64, bool),
}
#[derive(Clone, Debug)]
pub struct Pl {
    pub local: usize,
    pub pj: Vec<Pj>,
}
#[derive(Clone)]
pub enum Opd {
    Pl(Pl),
    K(Val),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct It {
    pub w: u16,
    pub s: bool,
}
#[derive(Clone)]
pub enum Ck {
    Int(It, It),
    Keep,
    Unsize(Option<u64>),
    Dyn(Ty),
    FnPtr(Instance),
    Transmute(Ty, Ty),
    Bad(String),
}
#[derive(Clone)]
pub enum Rv {
    Use(Opd),
    Ref(Pl),
    Bin(BinOp, Opd, Opd, Option<It>),
    Chk(BinOp, Opd, Opd, It),
    Un(UnOp, Opd, Option<It>),
    Cast(Ck, Opd),
    Discr(Pl, Vec<u128>, u16),
    Len(Pl),
    Repeat(Opd, u64),
    Agg(Vec<Opd>),
    Arr(Vec<Opd>),
    Enum(u32, u32, Vec<Opd>),
    RawPtr(Vec<Opd>),
    Bad(String),
}
pub enum Stk {
    Assign(Pl, Rv),
    SetDiscr(Pl, u32),
    Dead(usize),
    CopyNonOv(Opd, Opd, Opd),
    Nop,
}
pub struct Stm {
    pub k: Stk,
    pub span: u32,
}
#[derive(Clone, PartialEq, Debug)]
pub enum CalleeKind {
    Normal,
    Closure { by_ref: bool },
    FnItem,
    FnPtr,
    Virtual(FnDef, GenericArgs),
}
pub struct Callee {
    pub inst: Option<Instance>,
    pub canon: Canon,
    pub native: Option<Native>,
    pub local: bool,
    pub kind: CalleeKind,
    pub intrinsic: Option<String>,
    pub name: String,
    /// type arguments of the call as written (trait methods: Self first)
    pub targs: Vec<GenericArgKind>,
}
pub enum Tm {
    Goto(usize),
    Switch(Opd, Vec<(u128, usize)>, usize, u16),
    Return,
    Diverge(String),
    /// not analysable (inline assembly, unresolved callee)
    Bad(String),
    Assert(Opd, bool, usize, String),
    Call(Rc<Callee>, Option<Opd>, Vec<Opd>, Pl, Option<usize>, u32),
    /// target; when dropping runs code that matters, the place and the drop glue
    Drop(usize, Option<(Pl, Rc<Callee>)>),
}
pub struct Blk {
    pub st: Vec<Stm>,
    pub tm: Tm,
    pub span: u32,
}
pub struct Bod {
    pub inst: Instance,
    pub name: String,
    pub blocks: Vec<Blk>,
    pub nloc: usize,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub reach: Vec<bool>,
    pub ipdom: Vec<usize>,
    pub in_repo: bool,
    /// natural-loop headers: header -> blocks of the loop (live blocks only)
    pub loops: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>>,
    pub locals: Vec<Ty>,
    /// live-in locals per block
    pub livein: Vec<Vec<bool>>,
}
impl Bod {
    pub fn live(&self, blk: usize, l: usize) -> bool {
        if blk == RET { return l == 0; }
        self.livein[blk][l]
    }
    pub fn dest_ty(&self, p: &Pl) -> Ty { self.locals[p.local] }
}

/// generic-free description of a callee name
#[derive(Clone, Debug, Default)]
pub struct Canon {
    pub key: String,       // e.g. "Index::index@Vec", "Vec::push", "rotate_left@int"
    pub self_ty: String,   // textual self type
    pub trait_args: String,
    pub meth_args: String,
}

fn split_top(s: &str, sep: &str) -> Vec<String> {
    let mut d = 0i32;
    let mut out = vec![];
    let mut cur = String::new();
    let b: Vec<char> = s.chars().collect();
    let sepc: Vec<char> = sep.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if d == 0 && b[i..].starts_with(&sepc) { out.push(std::mem::take(&mut cur)); i += sepc.len(); continue; }
        match c {
            '<' | '(' | '[' | '{' => d += 1,
            '>' if i > 0 && b[i - 1] == '-' => {}
            '>' | ')' | ']' | '}' => d -= 1,
            _ => {}
        }
        cur.push(c);
        i += 1;
    }
    out.push(cur);
    out
}
pub fn head(ty: &str) -> String {
    let t = ty.trim();
    if t.starts_with('&') { return "&".into(); }
    if t.starts_with("*const") || t.starts_with("*mut") { return "*".into(); }
    if t.starts_with('[') {
        return if split_top(&t[1..t.len() - 1], "; ").len() > 1 { "[;]".into() } else { "[]".into() };
    }
    if t.starts_with('(') { return "()".into(); }
    if t.starts_with("{closure") { return "closure".into(); }
    if t.starts_with("fn(") || t.starts_with("for<") || t.starts_with("unsafe fn") { return "fn".into(); }
    if t.starts_with("dyn ") { return "dyn".into(); }
    let t = t.split('<').next().unwrap();
    let t = t.trim_end_matches("::");
    let last = t.rsplit("::").next().unwrap();
    match last {
        "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" if !t.contains("::") => "int".into(),
        x => x.into(),
    }
}
fn targs(ty: &str) -> String {
    match ty.find('<') { Some(i) if ty.ends_with('>') => ty[i + 1..ty.len() - 1].to_string(), _ => String::new() }
}
pub fn canon(name: &str) -> Canon {
    let mut segs = split_top(name, "::");
    let mut c = Canon::default();
    // trailing method generics
    if segs.len() > 1 && segs.last().unwrap().starts_with('<') {
        let l = segs.pop().unwrap();
        c.meth_args = l[1..l.len() - 1].to_string();
    }
    let meth = segs.pop().unwrap_or_default();
    // find a qualified segment
    if let Some(q) = segs.iter().find(|s| s.starts_with('<') && s.ends_with('>')) {
        let inner = &q[1..q.len() - 1];
        if let Some(rest) = inner.strip_prefix("impl ") {
            let parts = split_top(rest, " for ");
            if parts.len() == 2 {
                c.trait_args = targs(&parts[0]);
                c.self_ty = parts[1].clone();
                c.key = format!("{}::{}@{}", head(&parts[0]), meth, head(&parts[1]));
            } else {
                c.self_ty = rest.to_string();
                c.key = format!("{}@{}", meth, head(rest));
            }
            return c;
        }
        let parts = split_top(inner, " as ");
        if parts.len() == 2 {
            c.trait_args = targs(&parts[1]);
            c.self_ty = parts[0].clone();
            c.key = format!("{}::{}@{}", head(&parts[1]), meth, head(&parts[0]));
            return c;
        }
        // Type::<args>::method
        let ty = segs.iter().take_while(|s| !s.starts_with('<')).last().cloned().unwrap_or_default();
        c.self_ty = format!("{}{}", ty, q);
        c.key = format!("{}::{}", ty, meth);
        return c;
    }
    let ty = segs.last().cloned().unwrap_or_default();
    c.key = format!("{}::{}", ty, meth);
    c
}

pub fn int_info(ty: Ty) -> Option<It> {
    match ty.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => Some(It { w: 1, s: false }),
            RigidTy::Char => Some(It { w: 32, s: false }),
            RigidTy::Int(i) => Some(It { w: (i.num_bytes() * 8) as u16, s: true }),
            RigidTy::Uint(i) => Some(It { w: (i.num_bytes() * 8) as u16, s: false }),
            RigidTy::Pat(t, _) => int_info(t),
            _ => None,
        },
        _ => None,
    }
}
/// types whose value is represented by the pointer they wrap
pub fn ptr_wrapper(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => { let n = d.trimmed_name(); ["Box", "BoxRaw", "Unique", "NonNull"].contains(&n.as_str()) || ty.kind().is_box() }
        _ => false,
    }
}
fn is_union(ty: Ty) -> bool { ty.kind().is_union() }

impl Interp {
    fn lplace(&mut self, p: &Place, locals: &[LocalDecl]) -> Pl {
        let mut pj = vec![];
        let mut ty = locals[p.local].ty;
        let mut down: Option<u32> = None;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => pj.push(Pj::Deref),
                ProjectionElem::Field(i, _) => match down.take() {
                    Some(v) => pj.push(Pj::VF(v, *i as u32)),
                    None => if !ptr_wrapper(ty) { pj.push(Pj::F(if is_union(ty) { 0 } else { *i as u32 })) },
                },
                ProjectionElem::Index(l) => pj.push(Pj::Idx(*l)),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => pj.push(Pj::CIdx(*offset, *from_end)),
                ProjectionElem::Subslice { from, to, from_end } => pj.push(Pj::Sub(*from, *to, *from_end)),
                ProjectionElem::Downcast(v) => {
                    down = Some(v.to_index() as u32);
                    continue;
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
            ty = e.ty(ty).unwrap_or(ty);
        }
        Pl { local: p.local, pj }
    }
    fn lop(&mut self, o: &Operand, locals: &[LocalDecl]) -> Opd {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Opd::Pl(self.lplace(p, locals)),
            Operand::Constant(c) => Opd::K(self.lconst(&c.const_)),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Opd::K(Val::Int(self.a.k(1, 0))),
            Operand::RuntimeChecks(_) => Opd::K(Val::Int(self.a.k(1, 0))),
        }
    }
    pub fn lconst(&mut self, c: &MirConst) -> Val {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                k => Val::Poison(Rc::new(format!("const {k:?}"))),
            },
            k => Val::Poison(Rc::new(format!("unevaluated constant {k:?}"))),
        }
    }
    fn zst(&mut self, ty: Ty) -> Val {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Array(..)) => Val::Seq(Rc::new(Sq::Conc(vec![]))),
            TyKind::RigidTy(RigidTy::FnDef(d, args)) => match Instance::resolve(d, &args) {
                Ok(i) => Val::Fn(i),
                Err(_) => Val::unit(),
            },
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                let fs = def.variants()[0].fields();
                let v: Vec<Val> = fs.iter().map(|f| self.zst(f.ty_with_args(&args))).collect();
                Val::Agg(Rc::new(v))
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => { let v: Vec<Val> = ts.iter().map(|t| self.zst(*t)).collect(); Val::Agg(Rc::new(v)) }
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Enum => match ty.layout().map(|l| l.shape().variants.clone()) {
                Ok(rustc_public::abi::VariantsShape::Single { index }) if index.to_index() < def.num_variants() => {
                    let i = index.to_index();
                    let fs = def.variants()[i].fields();
                    let v: Vec<Val> = fs.iter().map(|f| self.zst(f.ty_with_args(&args))).collect();
                    self.mk_enum(i as u32, def.num_variants() as u32, v)
                }
                _ => Val::unit(),
            },
            _ => Val::unit(),
        }
    }
    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in 0..n { v |= ((*a.bytes.get(off + i)?)? as u128) << (8 * if be() { n - 1 - i } else { i }); }
        Some(v)
    }
    pub fn decode(&mut self, al: &Allocation, off: usize, ty: Ty) -> Val {
        if let Some(it) = int_info(ty) {
            let n = if it.w == 1 { 1 } else { it.w as usize / 8 };
            return match Self::rd(al, off, n) { Some(v) => Val::Int(self.a.k(it.w, v)), None => Val::Uninit };
        }
        let bad = |s: String| Val::Poison(Rc::new(s));
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Array(el, n) => {
                    let n = n.eval_target_usize().unwrap() as usize;
                    let sz = el.layout().unwrap().shape().size.bytes();
                    let v: Vec<Val> = (0..n).map(|i| self.decode(al, off + i * sz, el)).collect();
                    Val::Seq(Rc::new(Sq::Conc(v)))
                }
                RigidTy::Tuple(ts) => {
                    let offs = field_offsets(ty);
                    Val::Agg(Rc::new(ts.iter().enumerate().map(|(i, t)| self.decode(al, off + offs[i], *t)).collect()))
                }
                RigidTy::Adt(def, args) => match def.kind() {
                    AdtKind::Struct => {
                        let offs = field_offsets(ty);
                        let fs = def.variants()[0].fields();
                        Val::Agg(Rc::new(fs.iter().enumerate().map(|(i, f)| self.decode(al, off + offs[i], f.ty_with_args(&args))).collect()))
                    }
                    AdtKind::Enum => self.decode_enum(al, off, ty, &def, &args).unwrap_or_else(|| bad(format!("enum constant of type {ty}"))),
                    AdtKind::Union => bad("union constant".into()),
                },
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let Some((_, prov)) = al.provenance.ptrs.iter().find(|p| p.0 == off) else { return bad("pointer without provenance".into()) };
                    let delta = Self::rd(al, off, pw() as usize / 8).unwrap_or(0) as usize;
                    let key = (prov.0, delta, inner);
                    let meta = Self::rd(al, off + pw() as usize / 8, pw() as usize / 8);
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Memory(m) => {
                            let (isl, el) = match inner.kind() {
                                TyKind::RigidTy(RigidTy::Slice(e)) => (true, e),
                                TyKind::RigidTy(RigidTy::Str) => (true, Ty::unsigned_ty(UintTy::U8)),
                                _ => (false, inner),
                            };
                            if isl {
                                let n = meta.unwrap_or(0) as usize;
                                let sz = el.layout().unwrap().shape().size.bytes();
                                let v: Vec<Val> = (0..n).map(|i| self.decode(&m, delta + i * sz, el)).collect();
                                let o = self.const_obj(Val::Seq(Rc::new(Sq::Conc(v))));
                                let z = self.a.k(pw(), 0);
                                let l = self.a.k(pw(), n as u128);
                                return Val::Ref(Rc::new(RefV { obj: o, path: vec![], win: Some((z, l)), dt: None }));
                            }
                            if let Some(o) = self.const_cache.get(&key) { return Val::Ref(Rc::new(RefV { obj: *o, path: vec![], win: None, dt: None })); }
                            let v = self.decode(&m, delta, inner);
                            let o = self.const_obj(v);
                            self.const_cache.insert(key, o);
                            Val::Ref(Rc::new(RefV { obj: o, path: vec![], win: None, dt: None }))
                        }
                        GlobalAlloc::Static(s) => {
                            let nm = s.name();
                            if let Some(o) = self.const_cache.get(&key) { return Val::Ref(Rc::new(RefV { obj: *o, path: vec![], win: None, dt: None })); }
                            self.statics_seen.insert(nm.clone());
                            if self.static_mutable(s) { return bad(format!("mutable or interior-mutable static `{nm}`")); }
                            let v = match s.eval_initializer() { Ok(m) => self.decode(&m, delta, inner), Err(_) => bad(format!("static {nm}")) };
                            let o = self.const_obj(v);
                            self.const_cache.insert(key, o);
                            Val::Ref(Rc::new(RefV { obj: o, path: vec![], win: None, dt: None }))
                        }
                        GlobalAlloc::Function(i) => Val::Fn(i),
                        _ => bad("pointer constant".into()),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let Some((_, prov)) = al.provenance.ptrs.iter().find(|p| p.0 == off) else { return bad("fn ptr".into()) };
                    match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => Val::Fn(i), _ => bad("fn ptr".into()) }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(ty),
                _ => bad(format!("constant of type {ty}")),
            },
            _ => bad(format!("constant of type {ty}")),
        }
    }
    fn decode_enum(&mut self, al: &Allocation, off: usize, ty: Ty, def: &AdtDef, args: &GenericArgs) -> Option<Val> {
        use rustc_public::abi::*;
        let sh = ty.layout().ok()?.shape();
        match &sh.variants {
            VariantsShape::Single { index } => {
                let offs: Vec<usize> = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                let v = &def.variants()[index.to_index()];
                let f = v.fields().iter().enumerate().map(|(i, f)| self.decode(al, off + offs[i], f.ty_with_args(args))).collect();
                Some(self.mk_enum(index.to_index() as u32, def.num_variants() as u32, f))
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                let (Scalar::Initialized { value, .. } | Scalar::Union { value }) = tag;
                let n = match value { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => pw() as usize / 8, _ => return None };
                if al.provenance.ptrs.iter().any(|p| p.0 == off + toff) {
                    // niche in a pointer: dataful variant
                    if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                        let idx = untagged_variant.to_index();
                        let offs: Vec<usize> = variants[idx].offsets.iter().map(|o| o.bytes()).collect();
                        let v = &def.variants()[idx];
                        let f = v.fields().iter().enumerate().map(|(i, f)| self.decode(al, off + offs[i], f.ty_with_args(args))).collect();
                        return Some(self.mk_enum(idx as u32, def.num_variants() as u32, f));
                    }
                    return None;
                }
                let tagv = Self::rd(al, off + toff, n)?;
                let w = (n * 8) as u16;
                let idx = match tag_encoding {
                    TagEncoding::Direct => (0..def.num_variants()).find(|i| {
                        def.discriminant_for_variant(VariantIdx::to_val(*i)).val & fm(w) == tagv
                    })?,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let rel = tagv.wrapping_sub(*niche_start) & fm(w);
                        let (s, e) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                        if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                    }
                };
                let offs: Vec<usize> = variants[idx].offsets.iter().map(|o| o.bytes()).collect();
                let v = &def.variants()[idx];
                let f = v.fields().iter().enumerate().map(|(i, f)| self.decode(al, off + offs[i], f.ty_with_args(args))).collect();
                Some(self.mk_enum(idx as u32, def.num_variants() as u32, f))
            }
            _ => None,
        }
    }
    pub fn static_mutable(&self, s: StaticDef) -> bool {
        let ty = format!("{}", s.ty());
        let m = match s.eval_initializer() { Ok(a) => a.mutability == Mutability::Mut, Err(_) => true };
        m || ["Cell<", "Mutex<", "RwLock<", "Atomic", "OnceLock<", "LazyLock<", "OnceCell<", "LazyCell<"].iter().any(|x| ty.contains(x))
    }

    pub fn span_id(&mut self, sp: &rustc_public::ty::Span, fname: &str) -> u32 {
        // position in the crate's own text, also for code that a macro expanded to
        let key = rustc_middle::ty::tls::with(|tcx| {
            let s = rustc_public::rustc_internal::internal(tcx, *sp).source_callsite();
            let l = tcx.sess.source_map().lookup_char_pos(s.lo());
            (format!("{}", l.file.name.prefer_local_unconditionally()), l.line, fname.to_string())
        });
        if let Some(i) = self.span_map.get(&key) { return *i; }
        let i = self.spans.len() as u32;
        self.spans.push(key.clone());
        self.span_map.insert(key, i);
        i
    }

    fn callee(&mut self, inst: Instance, kind: CalleeKind, targs: Vec<GenericArgKind>) -> Rc<Callee> {
        let flag = kind != CalleeKind::Normal;
        if let Some(c) = self.callees.get(&(inst, flag)) { return c.clone(); }
        let name = inst.name();
        let cn = canon(&name);
        let krate = inst.def.krate().name;
        let local = krate == "lyra2" || krate == "spec";
        let intrinsic = if kind == CalleeKind::Normal { inst.intrinsic_name() } else { None };
        let marker = krate == "spec" && name.contains("spec::models::mk_");
        let native = if (local && !marker) || intrinsic.is_some() || kind != CalleeKind::Normal && kind != CalleeKind::FnItem { None } else { crate::native::lookup(&cn, &krate, &inst) };
        let c = Rc::new(Callee { inst: Some(inst), canon: cn, native, local, kind, intrinsic, name, targs });
        self.callees.insert((inst, flag), c.clone());
        c
    }
    pub fn callee_of(&mut self, inst: Instance) -> Rc<Callee> { self.callee(inst, CalleeKind::Normal, vec![]) }
    pub fn call_target(&mut self, def: FnDef, ga: &GenericArgs) -> Result<Rc<Callee>, String> {
        let dn = def.name();
        if dn.ends_with("::Fn::call") || dn.ends_with("FnMut::call_mut") || dn.ends_with("FnOnce::call_once") {
            let mut t = match ga.0.first() { Some(GenericArgKind::Type(t)) => *t, _ => return Err("Fn call".into()) };
            loop {
                if let TyKind::RigidTy(RigidTy::Ref(_, i, _)) = t.kind() { t = i; } else if let Some(i) = box_inner(t) { t = i; } else { break; }
            }
            match t.kind() {
                TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::Fn).map_err(|e| format!("{e:?}"))?;
                    let by_ref = inst.body().map_or(false, |b| matches!(b.locals()[1].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..))));
                    return Ok(self.callee(inst, CalleeKind::Closure { by_ref }, vec![]));
                }
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    // a function item called through Fn: apply redirections to it as well
                    let inner = self.call_target(d, &a)?;
                    let Some(i) = inner.inst else { return Err("fn item".into()) };
                    return Ok(self.callee(i, CalleeKind::FnItem, inner.targs.clone()));
                }
                TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                    return Ok(Rc::new(Callee { inst: None, canon: Canon::default(), native: None, local: false, kind: CalleeKind::FnPtr, intrinsic: None, name: "fn pointer".into(), targs: vec![] }));
                }
                TyKind::RigidTy(RigidTy::Dynamic(..)) => return Ok(virt(def, ga)),
                _ => {}
            }
        }
        if let Some(GenericArgKind::Type(t)) = ga.0.first() { if is_dyn(*t) && Instance::resolve(def, ga).map_or(true, |i| matches!(i.kind, InstanceKind::Virtual { .. })) { return Ok(virt(def, ga)); } }
        let types: Vec<GenericArgKind> = ga.0.iter().filter(|a| !matches!(a, GenericArgKind::Lifetime(_))).cloned().collect();
        if let Some((model, args)) = crate::native::redirect(&dn, &def.krate().name, &types) {
            if let Some(md) = self.models.get(model).copied() {
                if let Ok(i) = Instance::resolve(md, &GenericArgs(args)) { return Ok(self.callee(i, CalleeKind::Normal, types)); }
            }
        }
        match Instance::resolve(def, ga) {
            Ok(i) => Ok(self.callee(i, CalleeKind::Normal, types)),
            Err(e) => Err(format!("unresolved callee {dn}: {e:?}")),
        }
    }

    fn lrv(&mut self, r: &Rvalue, loc: &[LocalDecl]) -> Rv {
        match r {
            Rvalue::Use(o, _) => Rv::Use(self.lop(o, loc)),
            Rvalue::CopyForDeref(p) => Rv::Use(Opd::Pl(self.lplace(p, loc))),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.lplace(p, loc)),
            Rvalue::Reborrow(_, _, p) => Rv::Use(Opd::Pl(self.lplace(p, loc))),
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(loc).ok().and_then(int_info);
                Rv::Bin(*op, self.lop(a, loc), self.lop(b, loc), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => match a.ty(loc).ok().and_then(int_info) {
                Some(t) => Rv::Chk(*op, self.lop(a, loc), self.lop(b, loc), t),
                None => Rv::Bad("checked op on non-integer".into()),
            },
            Rvalue::UnaryOp(op, a) => { let t = a.ty(loc).ok().and_then(int_info); Rv::Un(*op, self.lop(a, loc), t) }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(loc).unwrap();
                let it = r.ty(loc).ok().and_then(int_info).unwrap_or(It { w: 64, s: false });
                let tab = match ty.kind() {
                    TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
                        (0..def.num_variants()).map(|i| def.discriminant_for_variant(VariantIdx::to_val(i)).val & fm(it.w)).collect()
                    }
                    _ => vec![],
                };
                // a type with one inhabited variant has a constant discriminant (its values may be optimised away)
                if let Ok(sh) = ty.layout().map(|l| l.shape()) {
                    if let rustc_public::abi::VariantsShape::Single { index } = &sh.variants {
                        let t: &Vec<u128> = &tab;
                        if let Some(d) = t.get(index.to_index()) { let k = self.a.k(it.w, *d); return Rv::Use(Opd::K(Val::Int(k))); }
                    }
                }
                Rv::Discr(self.lplace(p, loc), tab, it.w)
            }
            Rvalue::Len(p) => Rv::Len(self.lplace(p, loc)),
            Rvalue::Repeat(o, n) => Rv::Repeat(self.lop(o, loc), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(c) => Rv::Bad(format!("thread local {}", c.name())),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<Opd> = ops.iter().map(|o| self.lop(o, loc)).collect();
                match k {
                    AggregateKind::Array(_) => Rv::Arr(v),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(v),
                    AggregateKind::Adt(def, vi, _, _, _) => match def.kind() {
                        AdtKind::Enum => Rv::Enum(vi.to_index() as u32, def.num_variants() as u32, v),
                        _ => Rv::Agg(v),
                    },
                    AggregateKind::RawPtr(..) => Rv::RawPtr(v),
                    _ => Rv::Bad("aggregate".into()),
                }
            }
            Rvalue::Cast(k, o, ty) => {
                let from = o.ty(loc).unwrap();
                let op = self.lop(o, loc);
                let ck = match k {
                    CastKind::IntToInt => match (int_info(from).or_else(|| enum_int(from)), int_info(*ty)) { (Some(a), Some(b)) => Ck::Int(a, b), _ => Ck::Bad(format!("int cast {from} -> {ty}")) },
                    CastKind::PtrToPtr | CastKind::Subtype | CastKind::BoxDerefTransmute => Ck::Keep,
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::Unsize => {
                            let inner = from.kind().builtin_deref(true).map(|t| t.ty);
                            match inner.map(|t| t.kind()) {
                                Some(TyKind::RigidTy(RigidTy::Array(_, n))) => Ck::Unsize(n.eval_target_usize().ok()),
                                Some(t) if ty.kind().builtin_deref(true).map_or(false, |d| is_dyn(d.ty)) => if matches!(t, TyKind::RigidTy(RigidTy::Dynamic(..))) { Ck::Keep } else { Ck::Dyn(inner.unwrap()) },
                                _ => if from.kind().is_box() { match (box_inner(from), box_inner(*ty)) { (Some(a), Some(b)) if is_dyn(b) && !is_dyn(a) => Ck::Dyn(a), _ => Ck::Keep } } else { Ck::Bad(format!("unsize {from} -> {ty}")) },
                            }
                        }
                        PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) { Ok(i) => Ck::FnPtr(i), Err(_) => Ck::Bad("fn ptr".into()) },
                            _ => Ck::Bad("reify".into()),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { Ok(i) => Ck::FnPtr(i), Err(_) => Ck::Bad("closure fn ptr".into()) },
                            _ => Ck::Bad("closure".into()),
                        },
                        PointerCoercion::ArrayToPointer => Ck::Keep,
                        _ => Ck::Keep,
                    },
                    CastKind::Transmute => Ck::Transmute(from, *ty),
                    k => Ck::Bad(format!("{k:?}")),
                };
                Rv::Cast(ck, op)
            }
        }
    }

    pub fn lower(&mut self, inst: Instance) -> Option<Rc<Bod>> {
        if let Some(b) = self.bodies.get(&inst) { return b.clone(); }
        let r = inst.body().map(|b| Rc::new(self.lower_body(inst, b)));
        self.bodies.insert(inst, r.clone());
        r
    }
    /// integer constants that a body mentions, and the bounds of its narrowing casts
    fn mine_body(&mut self, blocks: &[Blk]) -> std::collections::BTreeSet<u128> {
        let mut m = std::collections::BTreeSet::new();
        let a = &self.a;
        let mut op = |o: &Opd, m: &mut std::collections::BTreeSet<u128>| {
            fn val(a: &Arena, v: &Val, m: &mut std::collections::BTreeSet<u128>) {
                match v {
                    Val::Int(t) => { if let Some(k) = a.as_const(*t) { if a.w(*t) > 1 { m.insert(k); } } }
                    Val::Agg(x) if x.len() <= 4 => for y in x.iter() { val(a, y, m) },
                    _ => {}
                }
            }
            if let Opd::K(v) = o { val(a, v, m) }
        };
        for b in blocks {
            for s in &b.st {
                if let Stk::Assign(_, r) = &s.k {
                    match r {
                        Rv::Use(o) | Rv::Un(_, o, _) | Rv::Repeat(o, _) => op(o, &mut m),
                        Rv::Bin(_, x, y, t) => {
                            op(x, &mut m);
                            op(y, &mut m);
                            if let Some(t) = t { if t.w == 16 { m.insert(1 << 15); m.insert(1 << 16); } }
                        }
                        Rv::Chk(_, x, y, t) => {
                            op(x, &mut m);
                            op(y, &mut m);
                            if t.w == 16 { m.insert(1 << 15); m.insert(1 << 16); }
                        }
                        Rv::Cast(Ck::Int(f, t), o) => { op(o, &mut m); if t.w < f.w && t.w >= 8 { m.insert(1u128 << t.w); } }
                        Rv::Agg(v) | Rv::Enum(_, _, v) => for o in v { op(o, &mut m) },
                        _ => {}
                    }
                }
            }
            match &b.tm {
                Tm::Switch(_, br, _, w) if *w > 1 => for x in br { m.insert(x.0); },
                Tm::Call(_, _, args, ..) => for o in args { op(o, &mut m) },
                _ => {}
            }
        }
        m
    }
    fn lower_body(&mut self, inst: Instance, b: Body) -> Bod {
        let name = inst.name();
        let krate = inst.def.krate().name;
        let in_repo = krate == "lyra2";
        let locals = b.locals().to_vec();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let k = match &s.kind {
                    StatementKind::Assign(p, r) => { let p2 = self.lplace(p, &locals); let r2 = self.lrv(r, &locals); Stk::Assign(p2, r2) }
                    StatementKind::SetDiscriminant { place, variant_index } => Stk::SetDiscr(self.lplace(place, &locals), variant_index.to_index() as u32),
                    StatementKind::StorageDead(l) => Stk::Dead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        Stk::CopyNonOv(self.lop(&c.src, &locals), self.lop(&c.dst, &locals), self.lop(&c.count, &locals))
                    }
                    _ => Stk::Nop,
                };
                if let Stk::Nop = k { continue; }
                let span = if in_repo { self.span_id(&s.source_info.span, &name) } else { 0 };
                st.push(Stm { k, span });
            }
            let span = if in_repo { self.span_id(&bb.terminator.source_info.span, &name) } else { 0 };
            let tm = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Tm::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let w = discr.ty(&locals).ok().and_then(int_info).map_or(64, |t| t.w);
                    let d = self.lop(discr, &locals);
                    Tm::Switch(d, targets.branches().collect(), targets.otherwise(), w)
                }
                TerminatorKind::Return => Tm::Return,
                TerminatorKind::Resume | TerminatorKind::Abort => Tm::Diverge("resume".into()),
                TerminatorKind::Unreachable => Tm::Diverge("unreachable".into()),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&locals).unwrap();
                    let glue = user_drop(ty).map(|i| (self.lplace(place, &locals), self.callee(i, CalleeKind::Normal, vec![])));
                    if glue.is_none() { if let Some(n) = odd_drop(ty, 0) { Tm::Bad(format!("drop of {n}")) } else { Tm::Drop(*target, None) } } else { Tm::Drop(*target, glue) }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().unwrap_or("assertion").to_string();
                    Tm::Assert(self.lop(cond, &locals), *expected, *target, m)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).unwrap();
                    let a: Vec<Opd> = args.iter().map(|o| self.lop(o, &locals)).collect();
                    let d = self.lplace(destination, &locals);
                    match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                            match self.call_target(def, &ga) {
                                Ok(c) => Tm::Call(c, None, a, d, *target, span),
                                Err(e) => Tm::Bad(e),
                            }
                        }
                        _ => {
                            let f = self.lop(func, &locals);
                            let c = Rc::new(Callee { inst: None, canon: Canon::default(), native: None, local: false, kind: CalleeKind::Normal, intrinsic: None, name: "fn pointer".into(), targs: vec![] });
                            Tm::Call(c, Some(f), a, d, *target, span)
                        }
                    }
                }
                TerminatorKind::InlineAsm { .. } => Tm::Bad("inline assembly".into()),
            };
            blocks.push(Blk { st, tm, span });
        }
        let n = blocks.len();
        let succ: Vec<Vec<usize>> = blocks.iter().map(|b| succs(&b.tm)).collect();
        // blocks that can reach a return
        let mut reach = vec![false; n];
        let mut ch = true;
        while ch {
            ch = false;
            for i in 0..n {
                if !reach[i] && succ[i].iter().any(|s| *s == RET || reach[*s]) { reach[i] = true; ch = true; }
            }
        }
        let ipdom = postdom(n, &succ, &reach);
        let loops = natural_loops(n, &succ, &reach);
        let livein = liveness(&blocks, &succ, locals.len());
        let ltys = locals.iter().map(|l| l.ty).collect();
        if in_repo {
            let m = self.mine_body(&blocks);
            self.mined.insert(name.clone(), m);
        }
        Bod { inst, name, blocks, nloc: locals.len(), nargs: b.arg_locals().len(), spread: b.spread_arg(), reach, ipdom, in_repo, loops, locals: ltys, livein }
    }
}

fn liveness(blocks: &[Blk], succ: &[Vec<usize>], n: usize) -> Vec<Vec<bool>> {
    fn upl(p: &Pl, u: &mut dyn FnMut(usize)) { u(p.local); for e in &p.pj { if let Pj::Idx(l) = e { u(*l) } } }
    fn uop(o: &Opd, u: &mut dyn FnMut(usize)) { if let Opd::Pl(p) = o { upl(p, u) } }
    fn urv(r: &Rv, u: &mut dyn FnMut(usize)) {
        match r {
            Rv::Use(o) | Rv::Un(_, o, _) | Rv::Cast(_, o) | Rv::Repeat(o, _) => uop(o, u),
            Rv::Ref(p) | Rv::Discr(p, _, _) | Rv::Len(p) => upl(p, u),
            Rv::Bin(_, a, b, _) | Rv::Chk(_, a, b, _) => { uop(a, u); uop(b, u) }
            Rv::Agg(v) | Rv::Arr(v) | Rv::Enum(_, _, v) | Rv::RawPtr(v) => for o in v { uop(o, u) },
            Rv::Bad(_) => {}
        }
    }
    let mut taken = vec![false; n];
    for b in blocks { for s in &b.st { if let Stk::Assign(_, Rv::Ref(p)) = &s.k { if !matches!(p.pj.first(), Some(Pj::Deref)) { taken[p.local] = true; } } } }
    let mut live = vec![vec![false; n]; blocks.len()];
    let mut ch = true;
    while ch {
        ch = false;
        for bi in (0..blocks.len()).rev() {
            let b = &blocks[bi];
            let mut l = vec![false; n];
            for s in &succ[bi] { if *s == RET { l[0] = true; } else { for i in 0..n { l[i] |= live[*s][i]; } } }
            match &b.tm {
                Tm::Switch(o, ..) | Tm::Assert(o, ..) => uop(o, &mut |x| l[x] = true),
                Tm::Call(_, f, a, d, _, _) => {
                    if d.pj.is_empty() { l[d.local] = false; } else { upl(d, &mut |x| l[x] = true); }
                    if let Some(f) = f { uop(f, &mut |x| l[x] = true); }
                    for o in a { uop(o, &mut |x| l[x] = true); }
                }
                _ => {}
            }
            for s in b.st.iter().rev() {
                match &s.k {
                    Stk::Assign(p, r) => {
                        if p.pj.is_empty() { l[p.local] = false; } else { upl(p, &mut |x| l[x] = true); }
                        urv(r, &mut |x| l[x] = true);
                    }
                    Stk::SetDiscr(p, _) => upl(p, &mut |x| l[x] = true),
                    Stk::CopyNonOv(a, b, c) => { for o in [a, b, c] { uop(o, &mut |x| l[x] = true); } }
                    Stk::Dead(x) => l[*x] = false,
                    Stk::Nop => {}
                }
            }
            for i in 0..n { if taken[i] { l[i] = true; } }
            if l != live[bi] { live[bi] = l; ch = true; }
        }
    }
    live
}
fn enum_int(ty: Ty) -> Option<It> {
    if ty.kind().is_enum() { Some(It { w: 64, s: false }) } else { None }
}
pub fn field_offsets(ty: Ty) -> Vec<usize> {
    use rustc_public::abi::*;
    match ty.layout().map(|l| l.shape().fields) {
        Ok(FieldsShape::Arbitrary { offsets }) => offsets.iter().map(|o| o.bytes()).collect(),
        _ => vec![0; 16],
    }
}
/// drop glue that runs code of the analysed crate, or releases a RefCell borrow
pub fn is_dyn(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) }
pub fn box_inner(t: Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) if t.kind().is_box() => match a.0.first() { Some(GenericArgKind::Type(t)) => Some(*t), _ => None },
        _ => None,
    }
}
fn virt(def: FnDef, ga: &GenericArgs) -> Rc<Callee> {
    Rc::new(Callee { inst: None, canon: Canon::default(), native: None, local: false, kind: CalleeKind::Virtual(def, ga.clone()), intrinsic: None, name: "trait object method".into(), targs: vec![] })
}
/// a standard-library type with a destructor that does more than release memory
fn odd_drop(ty: Ty, depth: usize) -> Option<String> {
    thread_local! { static SEEN: std::cell::RefCell<std::collections::HashMap<Ty, Option<String>>> = Default::default(); }
    if let Some(r) = SEEN.with(|s| s.borrow().get(&ty).cloned()) { return r; }
    if depth > 12 || is_dyn(ty) { return None; }
    SEEN.with(|s| s.borrow_mut().insert(ty, None));
    const OK: [&str; 24] = ["Vec", "RawVec", "RawVecInner", "Box", "Rc", "Arc", "Weak", "IntoIter", "Drain", "Splice", "String", "RawTable", "RawIntoIter", "RawDrain", "BTreeMap", "VecDeque", "LinkedList", "BinaryHeap", "CString", "UniqueRc", "GenericArray", "ArrayVec", "BTreeSet", "Handle"];
    let inst = Instance::resolve_drop_in_place(ty);
    let mut r = None;
    if !inst.is_empty_shim() {
        let name = match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.trimmed_name()), _ => None };
        let known = name.as_ref().map_or(false, |n| OK.contains(&n.as_str()));
        if known {
            if let TyKind::RigidTy(RigidTy::Adt(_, a)) = ty.kind() { for g in &a.0 { if let GenericArgKind::Type(t) = g { r = r.or(odd_drop(*t, depth + 1)); } } }
        } else if let Some(b) = inst.body() {
            let loc = b.locals().to_vec();
            for k in &b.blocks {
                match &k.terminator.kind {
                    TerminatorKind::Call { func, .. } => if let Ok(t) = func.ty(&loc) { if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
                        if d.name().ends_with("Drop::drop") { r = r.or(Some(format!("{ty}"))); }
                    } },
                    TerminatorKind::Drop { place, .. } => if let Ok(t) = place.ty(&loc) { if t != ty { r = r.or(odd_drop(t, depth + 1)); } },
                    _ => {}
                }
            }
        }
    }
    SEEN.with(|s| s.borrow_mut().insert(ty, r.clone()));
    r
}
pub fn user_drop(ty: Ty) -> Option<Instance> {
    let s = format!("{ty}");
    if s.contains("dyn ") { return None; }
    let inst = Instance::resolve_drop_in_place(ty);
    if inst.is_empty_shim() { return None; }
    // only types of the analysed crate can bring in crate code
    if ["lyra2::", "spec::", "cell::Ref<", "cell::RefMut<", "cell::BorrowRef"].iter().any(|x| s.contains(x)) { Some(inst) } else { None }
}
pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(b) | Tm::Drop(b, _) | Tm::Assert(_, _, b, _) => vec![*b],
        Tm::Switch(_, v, o, _) => { let mut r: Vec<usize> = v.iter().map(|x| x.1).collect(); r.push(*o); r.sort(); r.dedup(); r }
        Tm::Return | Tm::Bad(_) => vec![RET],
        Tm::Diverge(_) => vec![],
        Tm::Call(_, _, _, _, t, _) => t.iter().copied().collect(),
    }
}
fn postdom(n: usize, succ: &[Vec<usize>], reach: &[bool]) -> Vec<usize> {
    // iterative set-based post-dominators on the live subgraph; RET is index n
    let full: Vec<bool> = vec![true; n + 1];
    let mut pd: Vec<Vec<bool>> = vec![full; n + 1];
    pd[n] = vec![false; n + 1];
    pd[n][n] = true;
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            if !reach[b] { continue; }
            let mut s: Option<Vec<bool>> = None;
            for x in &succ[b] {
                let x = if *x == RET { n } else { *x };
                if x < n && !reach[x] { continue; }
                s = Some(match s { None => pd[x].clone(), Some(v) => v.iter().zip(&pd[x]).map(|(a, b)| *a && *b).collect() });
            }
            let mut s = s.unwrap_or(vec![false; n + 1]);
            s[b] = true;
            if s != pd[b] { pd[b] = s; ch = true; }
        }
    }
    (0..n).map(|b| {
        if !reach[b] { return RET; }
        // immediate: the strict post-dominator with the most post-dominators
        let mut best = RET;
        let mut bestc = 0;
        for c in 0..n {
            if c != b && pd[b][c] && reach[c] {
                let cnt = pd[c].iter().filter(|x| **x).count();
                if cnt > bestc { bestc = cnt; best = c; }
            }
        }
        best
    }).collect()
}
fn natural_loops(n: usize, succ: &[Vec<usize>], reach: &[bool]) -> std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> {
    // dominators
    let mut dom: Vec<Vec<bool>> = vec![vec![true; n]; n];
    dom[0] = vec![false; n];
    dom[0][0] = true;
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 0..n { if reach[b] { for s in &succ[b] { if *s < n && reach[*s] { preds[*s].push(b); } } } }
    let mut ch = true;
    while ch {
        ch = false;
        for b in 1..n {
            if !reach[b] { continue; }
            let mut s: Option<Vec<bool>> = None;
            for p in &preds[b] { s = Some(match s { None => dom[*p].clone(), Some(v) => v.iter().zip(&dom[*p]).map(|(a, b)| *a && *b).collect() }); }
            let mut s = s.unwrap_or(vec![false; n]);
            s[b] = true;
            if s != dom[b] { dom[b] = s; ch = true; }
        }
    }
    let mut out: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
    for b in 0..n {
        if !reach[b] { continue; }
        for h in &succ[b] {
            if *h < n && reach[*h] && dom[b][*h] {
                let set = out.entry(*h).or_default();
                set.insert(*h);
                let mut w = vec![b];
                while let Some(x) = w.pop() { if set.insert(x) { w.extend(preds[x].iter().copied()); } }
            }
        }
    }
    out
}
