//! Whole-crate scan of the type-checked program: unsafe code, state that outlives a call, environment, addresses.
//! Runs in the compilation of the crate under analysis, so every body of it is seen (dead code as well).
use crate::checks::{jl, js};
use rustc_hir as hir;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir;
use rustc_middle::mir::visit::Visitor as MirVisitor;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::Span;
use std::collections::*;

pub struct Found {
    pub kind: &'static str, // unsafe | effect | open
    pub rule: &'static str,
    pub owner: String,
    pub what: String,
    pub at: String,
    id: Option<LocalDefId>,
}
pub struct Scan<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<Found>,
    bodies: BTreeSet<String>,
    calls: u64,
    sites: BTreeMap<String, u64>,
    items: u64,
    owner: Vec<LocalDefId>,
    edges: HashMap<LocalDefId, HashSet<LocalDefId>>,
}
fn at(tcx: TyCtxt<'_>, sp: Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}
pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String { ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)) }

impl<'tcx> Scan<'tcx> {
    fn add(&mut self, kind: &'static str, rule: &'static str, what: String, sp: Span) {
        let owner = self.owner.last().map_or("crate".into(), |o| path(self.tcx, o.to_def_id()));
        let at = at(self.tcx, sp);
        let id = self.owner.last().map(|o| self.root(*o));
        self.out.push(Found { kind, rule, owner, what, at, id });
    }
    fn root(&self, d: LocalDefId) -> LocalDefId { self.tcx.typeck_root_def_id(d.to_def_id()).expect_local() }
    fn edge(&mut self, d: DefId) {
        if let (Some(o), Some(l)) = (self.owner.last().copied(), d.as_local()) {
            let (o, l) = (self.root(o), self.root(l));
            self.edges.entry(o).or_default().insert(l);
        }
    }
    /// bodies that some public function (or an implementation of a foreign trait) can reach
    fn reachable(&self) -> HashSet<LocalDefId> {
        let tcx = self.tcx;
        let mut work: Vec<LocalDefId> = vec![];
        for d in tcx.mir_keys(()).iter().copied() {
            let public = tcx.effective_visibilities(()).is_reachable(d);
            let trait_impl = tcx.opt_associated_item(d.to_def_id()).map_or(false, |a| a.trait_container(tcx).is_some() || a.impl_container(tcx).map_or(false, |i| tcx.impl_opt_trait_ref(i).is_some()));
            if public || trait_impl { work.push(self.root(d)); }
        }
        let mut seen = HashSet::new();
        while let Some(d) = work.pop() {
            if seen.insert(d) { if let Some(e) = self.edges.get(&d) { work.extend(e.iter().copied()); } }
        }
        seen
    }
}
// ------------------------------------------------------------------ unsafe code (HIR, after type checking)
impl<'tcx> Visitor<'tcx> for Scan<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        self.items += 1;
        self.owner.push(i.owner_id.def_id);
        match i.kind {
            hir::ItemKind::ForeignMod { items, .. } => for f in items { let _ = f; self.add("unsafe", "foreign function or static", "extern block".into(), i.span) },
            hir::ItemKind::GlobalAsm { .. } => self.add("unsafe", "assembly", "global_asm!".into(), i.span),
            hir::ItemKind::Static(m, ..) if m.is_mut() => self.add("unsafe", "mutable static", "static mut".into(), i.span),
            hir::ItemKind::Union(..) => self.add("unsafe", "union", "a union reinterprets memory".into(), i.span),
            hir::ItemKind::Trait { safety: hir::Safety::Unsafe, .. } => self.add("unsafe", "unsafe trait", "unsafe trait".into(), i.span),
            hir::ItemKind::Impl(im) => if let Some(t) = im.of_trait { if matches!(t.safety, hir::Safety::Unsafe) { self.add("unsafe", "unsafe impl", "unsafe impl".into(), i.span) } },
            _ => {}
        }
        intravisit::walk_item(self, i);
        self.owner.pop();
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: Span, id: LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() && !sp.allows_unsafe() { self.owner.push(id); self.add("unsafe", "unsafe fn", "declaration of an unsafe function".into(), sp); self.owner.pop(); }
        }
        if !matches!(k, intravisit::FnKind::Closure) && self.tcx.codegen_fn_attrs(id).contains_extern_indicator() {
            self.owner.push(id);
            self.add("unsafe", "exported symbol", "symbol name exported without mangling".into(), sp);
            self.owner.pop();
        }
        self.owner.push(id);
        intravisit::walk_fn(self, k, d, b, id);
        self.owner.pop();
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.allows_unsafe() { self.add("unsafe", "unsafe block", "unsafe block".into(), b.span); }
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind { self.add("unsafe", "assembly", "inline assembly".into(), e.span); }
        intravisit::walk_expr(self, e);
    }
}
// ------------------------------------------------------------------ effects (MIR, resolved callees)
/// functions whose result or effect is not determined by their arguments
const DENY: &[(&str, &str)] = &[
    ("std::thread::LocalKey", "thread-local state"),
    ("std::thread::available_parallelism", "machine configuration"),
    ("std::thread::current", "thread identity"),
    ("std::thread::sleep", "clock"),
    ("std::thread::panicking", "thread state"),
    ("std::thread::Thread", "thread identity"),
    ("std::time::", "clock"),
    ("std::env::", "process environment"),
    ("std::fs::", "file system"),
    ("std::io::", "input/output"),
    ("std::net::", "network"),
    ("std::process::", "process control"),
    ("std::os::", "operating system"),
    ("std::sys::", "operating system"),
    ("std::random::", "randomness"),
    ("std::hash::random::", "randomness"),
    ("std::hash::RandomState", "randomness"),
    ("std::collections::hash_map::RandomState", "randomness"),
    ("std::panic::set_hook", "process-wide panic hook"),
    ("std::panic::take_hook", "process-wide panic hook"),
    ("std::panic::update_hook", "process-wide panic hook"),
    ("std::panic::Location::<'_>::caller", "call site identity"),
    ("std::panic::Location::<'a>::caller", "call site identity"),
    ("core::panic::Location", "call site identity"),
    ("std::backtrace::", "call stack"),
    ("std::alloc::set_alloc_error_hook", "process-wide hook"),
    ("std::ptr::eq", "address"),
    ("std::ptr::addr_eq", "address"),
    ("std::ptr::fn_addr_eq", "address"),
    ("std::ptr::hash", "address"),
];
/// (type prefix, method, reason)
const DENY_M: &[(&str, &str, &str)] = &[
    ("ptr_eq", "std::rc::Rc", "address"),
    ("ptr_eq", "std::sync::Arc", "address"),
    ("set", "std::sync::OnceLock", "state that outlives the call"),
    ("take", "std::sync::OnceLock", "state that outlives the call"),
    ("try_insert", "std::sync::OnceLock", "state that outlives the call"),
    ("call_once", "std::sync::Once", "state that outlives the call"),
    ("call_once_force", "std::sync::Once", "state that outlives the call"),
    ("is_completed", "std::sync::Once", "call history"),
    ("iter", "std::collections::HashMap", "randomised iteration order"),
    ("iter_mut", "std::collections::HashMap", "randomised iteration order"),
    ("keys", "std::collections::HashMap", "randomised iteration order"),
    ("values", "std::collections::HashMap", "randomised iteration order"),
    ("values_mut", "std::collections::HashMap", "randomised iteration order"),
    ("drain", "std::collections::HashMap", "randomised iteration order"),
    ("into_keys", "std::collections::HashMap", "randomised iteration order"),
    ("into_values", "std::collections::HashMap", "randomised iteration order"),
    ("into_iter", "std::collections::HashMap", "randomised iteration order"),
    ("iter", "std::collections::HashSet", "randomised iteration order"),
    ("drain", "std::collections::HashSet", "randomised iteration order"),
    ("into_iter", "std::collections::HashSet", "randomised iteration order"),
    ("exists", "std::path::Path", "file system"),
    ("try_exists", "std::path::Path", "file system"),
    ("is_file", "std::path::Path", "file system"),
    ("is_dir", "std::path::Path", "file system"),
    ("is_symlink", "std::path::Path", "file system"),
    ("metadata", "std::path::Path", "file system"),
    ("symlink_metadata", "std::path::Path", "file system"),
    ("canonicalize", "std::path::Path", "file system"),
    ("read_link", "std::path::Path", "file system"),
    ("read_dir", "std::path::Path", "file system"),
    ("absolute", "std::path::absolute", "working directory"),
    ("hash_one", "std::hash::BuildHasher", "randomness"),
    ("build_hasher", "std::hash::BuildHasher", "randomness"),
];
const PTR_METHODS: &[&str] = &["addr", "expose_provenance", "align_offset", "is_aligned", "is_aligned_to", "to_bits", "guaranteed_eq", "guaranteed_ne", "offset_from", "byte_offset_from", "offset_from_unsigned"];

struct MirScan<'a, 'tcx> {
    s: &'a mut Scan<'tcx>,
    body: &'a mir::Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
    statics: HashSet<DefId>,
}
impl<'a, 'tcx> MirScan<'a, 'tcx> {
    fn ptr_like(&self, t: ty::Ty<'tcx>) -> bool { t.is_raw_ptr() || t.is_fn_ptr() }
    fn callee(&mut self, d: DefId, ga: ty::GenericArgsRef<'tcx>, sp: Span, called: bool) {
        let tcx = self.s.tcx;
        let inst = ty::Instance::try_resolve(tcx, self.env, d, ga).ok().flatten();
        let r = inst.map_or(d, |i| i.def_id());
        let (p, q) = (path(tcx, r), path(tcx, d));
        self.s.edge(r);
        self.s.edge(d);
        if called { self.s.calls += 1; }
        let krate = tcx.crate_name(r.krate).to_string();
        *self.s.sites.entry(krate.clone()).or_default() += 1;
        let name = tcx.opt_item_name(r).map_or(String::new(), |s| s.to_string());
        let selfty = match tcx.opt_associated_item(d) {
            Some(_) if !ga.is_empty() => ga.types().next().map_or(String::new(), |t| format!("{t}")),
            _ => String::new(),
        };
        if ["to_be_bytes", "from_be_bytes", "to_ne_bytes", "from_ne_bytes", "swap_bytes", "to_be", "from_be", "to_le", "from_le", "reverse_bits"].contains(&name.as_str()) && ["core", "std"].contains(&krate.as_str()) {
            self.s.add("order", "byte order", format!("uses {p}"), sp);
        }
        if name == "capacity" && ["core", "std", "alloc"].contains(&krate.as_str()) { self.s.add("flow", "capacity", format!("uses {p}"), sp); return; }
        // readers and writers in memory are not input/output
        let in_memory = (p.contains("std::io::") || q.contains("std::io::"))
            && (["std::io::Cursor", "std::io::Error", "std::io::error", "std::io::cursor", "std::io::Empty", "std::io::Sink"].iter().any(|x| p.trim_start_matches('<').starts_with(x) || selfty.starts_with(x))
                || ga.types().next().map_or(false, |t| { let t = format!("{}", t.peel_refs()); t.starts_with("std::vec::Vec<u8") || t == "[u8]" || t.starts_with("std::io::Cursor") || t.starts_with("std::collections::VecDeque<u8") }));
        for x in [&p, &q] {
            if in_memory { break; }
            let x = x.replace("core::", "std::").replace("alloc::", "std::");
            let x = x.trim_start_matches('<');
            for (pre, why) in DENY {
                if x.starts_with(pre) { self.s.add("effect", why, format!("uses {p}"), sp); return; }
            }
            for (m, t, why) in DENY_M {
                if name == *m && x.starts_with(t) { self.s.add("effect", why, format!("uses {p}"), sp); return; }
            }
        }
        if name == "into_iter" && (selfty.starts_with("std::collections::Hash") || selfty.contains("HashMap<") || selfty.contains("HashSet<")) {
            self.s.add("effect", "randomised iteration order", format!("iterates over {selfty}"), sp);
            return;
        }
        if PTR_METHODS.contains(&name.as_str()) && (p.contains("ptr::const_ptr") || p.contains("ptr::mut_ptr") || p.contains("NonNull") || p.contains("<impl *const") || p.contains("<impl *mut")) {
            self.s.add("effect", "address", format!("uses {p}"), sp);
            return;
        }
        if p.contains("fmt::Pointer") || p.contains("Argument::<'_>::new_pointer") || name == "new_pointer" { self.s.add("effect", "address", format!("formats an address: {p}"), sp); return; }
        if ["_rdtsc", "__rdtscp", "_rdrand16_step", "_rdrand32_step", "_rdrand64_step", "_rdseed64_step", "__cpuid", "__cpuid_count"].contains(&name.as_str()) { self.s.add("effect", "machine state", format!("uses {p}"), sp); return; }
        if p.starts_with("std_detect::") || p.starts_with("std::std_detect") { self.s.add("open", "machine features", format!("uses {p}"), sp); return; }
        if p.starts_with("std::thread::") { self.s.add("open", "threads", format!("uses {p}"), sp); return; }
        // comparing or hashing pointers through the operator traits
        if let Some(t) = ga.types().next() {
            if self.ptr_like(t.peel_refs()) && ["eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "hash", "max", "min"].contains(&tcx.opt_item_name(d).map_or(String::new(), |s| s.to_string()).as_str()) {
                self.s.add("effect", "address", format!("compares addresses: {q}"), sp);
                return;
            }
        }
        // initialisers of once-cells must not see arguments of the call
        if ["get_or_init", "get_or_try_init", "get_mut_or_init"].contains(&name.as_str()) {
            let captures = ga.types().any(|t| match t.kind() { ty::Closure(_, a) => !a.as_closure().upvar_tys().is_empty(), _ => false });
            let ptr = ga.types().any(|t| t.is_fn_ptr());
            if captures || ptr { self.s.add("effect", "state that outlives the call", format!("{p} with an initialiser that captures values of the call"), sp); }
            return;
        }
        if !["core", "alloc", "std"].contains(&krate.as_str()) && r.krate != rustc_hir::def_id::LOCAL_CRATE
            && !["digest", "sha3", "blake_hash", "groestl", "skein_hash", "generic_array", "typenum", "crypto_common", "block_buffer", "hybrid_array"].contains(&krate.as_str()) {
            self.s.add("open", "unknown dependency", format!("uses {p} of crate {krate}"), sp);
        }
    }
    fn static_used(&mut self, d: DefId, sp: Span) {
        self.s.edge(d);
        if !self.statics.insert(d) { return; }
        let tcx = self.s.tcx;
        let p = path(tcx, d);
        *self.s.sites.entry("static".into()).or_default() += 1;
        if tcx.is_mutable_static(d) { self.s.add("effect", "state that outlives the call", format!("uses the mutable static {p}"), sp); return; }
        if tcx.is_thread_local_static(d) { self.s.add("effect", "thread-local state", format!("uses the thread-local static {p}"), sp); return; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        if t.is_freeze(tcx, self.env) { return; }
        if let ty::Adt(a, ga) = t.kind() {
            let n = path(tcx, a.did());
            if n.ends_with("::OnceLock") || n.ends_with("::LazyLock") {
                let inner = ga.type_at(0);
                if inner.is_freeze(tcx, self.env) { return; } // initialisers are checked at their use
            }
        }
        self.s.add("effect", "state that outlives the call", format!("uses the static {p} of the interior-mutable type {t}"), sp);
    }
}
impl<'a, 'tcx> MirVisitor<'tcx> for MirScan<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, loc: mir::Location) {
        let tcx = self.s.tcx;
        let sp = c.span;
        if let ty::FnDef(d, ga) = c.const_.ty().kind() { self.callee(*d, ga.skip_binder(), sp, false); }
        if let mir::Const::Unevaluated(u, _) = c.const_ { self.s.edge(u.def); }
        if let Some(d) = c.check_static_ptr(tcx) { self.static_used(d, sp); }
        self.super_const_operand(c, loc);
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, loc: mir::Location) {
        match &t.kind {
            mir::TerminatorKind::Call { .. } => self.s.calls += 1,
            mir::TerminatorKind::InlineAsm { .. } => self.s.add("unsafe", "assembly", "inline assembly".into(), t.source_info.span),
            _ => {}
        }
        self.super_terminator(t, loc);
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, loc: mir::Location) {
        let sp = self.body.source_info(loc).span;
        match r {
            mir::Rvalue::ThreadLocalRef(d) => self.static_used(*d, sp),
            mir::Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => self.s.add("effect", "address", "casts an address to an integer".into(), sp),
            mir::Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(self.body, self.s.tcx);
                if self.ptr_like(t) && !matches!(op, mir::BinOp::Offset) { self.s.add("effect", "address", "compares addresses".into(), sp); }
            }
            _ => {}
        }
        self.super_rvalue(r, loc);
    }
}
pub fn scan(tcx: TyCtxt<'_>, filter: &str) -> String {
    let mut s = Scan { tcx, out: vec![], bodies: BTreeSet::new(), calls: 0, sites: BTreeMap::new(), items: 0, owner: vec![], edges: HashMap::new() };
    tcx.hir_walk_toplevel_module(&mut s);
    let mut n_stmts = 0u64;
    for d in tcx.mir_keys(()).iter().copied() {
        let did = d.to_def_id();
        let name = path(tcx, did);
        if !name.starts_with(filter) { continue; }
        use rustc_hir::def::DefKind::*;
        let body: &mir::Body<'_> = match tcx.def_kind(d) {
            Fn | AssocFn | Closure | SyntheticCoroutineBody => tcx.optimized_mir(did),
            Ctor(..) => continue,
            _ => tcx.mir_for_ctfe(did),
        };
        s.bodies.insert(name);
        n_stmts += body.basic_blocks.iter().map(|b| b.statements.len() as u64 + 1).sum::<u64>();
        s.owner.push(d);
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut m = MirScan { s: &mut s, body, env, statics: HashSet::new() };
        m.visit_body(body);
        for p in tcx.promoted_mir(did).iter() { let mut m2 = MirScan { s: m.s, body: p, env, statics: HashSet::new() }; m2.visit_body(p); m.s = m2.s; }
        s.owner.pop();
    }
    let live = s.reachable();
    let dead = s.out.iter().filter(|f| f.kind != "unsafe" && f.id.map_or(false, |i| !live.contains(&i))).count();
    s.out.retain(|f| f.kind == "unsafe" || f.id.map_or(true, |i| live.contains(&i)));
    let fs: Vec<String> = s.out.iter().filter(|f| f.owner.starts_with(filter) || f.owner == "crate").map(|f| format!("{{\"kind\":{},\"rule\":{},\"owner\":{},\"what\":{},\"at\":{}}}", js(f.kind), js(f.rule), js(&f.owner), js(&f.what), js(&f.at))).collect();
    let sites: Vec<String> = s.sites.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    format!("{{\"task\":\"effects\",\"verdict\":\"DONE\",\"crate\":{},\"functions\":{},\"calls\":{},\"statements\":{n_stmts},\"items\":{},\"reachable_bodies\":{},\"unreachable_findings\":{dead},\"callees_by_crate\":{{{}}},\"findings\":[{}]}}",
        js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), jl(&s.bodies.into_iter().collect::<Vec<_>>()), s.calls, s.items, live.len(), sites.join(","), fs.join(","))
}
