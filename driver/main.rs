//! mirfacts: a rustc driver that dumps the *resolved, monomorphic MIR* of the crate under
//! analysis (and of the small core/std combinators it calls) as JSON.
//!
//! Used as RUSTC_WRAPPER-style driver: argv = mirfacts <rustc> <args...> (cargo's
//! RUSTC_WORKSPACE_WRAPPER convention).  Only for the crate named in MIRFACTS_CRATE is a dump
//! written to MIRFACTS_OUT; everything else compiles normally.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(true);
        config.opts.cg.debug_assertions = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("MIRFACTS_OUT").unwrap();
        let json = with_no_trimmed_paths!(Dumper::new(tcx).run());
        std::fs::write(out, json).unwrap();
        Compilation::Continue
    }
}

/// unsafe blocks written in the crate (not ones a library macro expands to)
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}

impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let foreign = b.span.from_expansion() && b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |d| !d.is_local());
            if !foreign {
                self.found.push(b.span);
            }
        }
        intravisit::walk_block(self, b);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    fns: Vec<String>,
    seen: HashMap<Instance<'tcx>, String>,
    names: HashMap<String, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    stops: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let stops = std::env::var("MIRFACTS_STOPS").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        Dumper {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_json: vec![],
            fns: vec![],
            seen: HashMap::new(),
            names: HashMap::new(),
            queue: VecDeque::new(),
            stops: stops.lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty() && !s.starts_with('#')).collect(),
        }
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, loc.line)
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut generic_roots = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let vis = tcx.visibility(did).is_public();
            if tcx.generics_of(did).requires_monomorphization(tcx) {
                let mut done = false;
                if let Some(args) = self.pick_args(did) {
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
                        if let Some(key) = self.enqueue(inst, 0) {
                            let eff = tcx.effective_visibilities(()).is_reachable(ld);
                            roots.push(format!("{{\"key\":{},\"path\":{},\"pub\":{},\"reachable\":{},\"generic\":true}}", esc(&key), esc(&tcx.def_path_str(did)), vis, eff));
                            done = true;
                        }
                    }
                }
                if !done { generic_roots.push(format!("{{\"path\":{},\"pub\":{}}}", esc(&tcx.def_path_str(did)), vis)); }
                continue;
            }
            let inst = Instance::mono(tcx, did);
            let key = self.enqueue(inst, 0).unwrap();
            let eff = tcx.effective_visibilities(()).is_reachable(ld);
            roots.push(format!("{{\"key\":{},\"path\":{},\"pub\":{},\"reachable\":{}}}", esc(&key), esc(&tcx.def_path_str(did)), vis, eff));
        }
        while let Some((inst, depth)) = self.queue.pop_front() {
            let j = self.dump_fn(inst, depth);
            self.fns.push(j);
        }
        // statics of the crate, for purity checks
        let mut statics = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(ld.to_def_id()) {
                let ty = tcx.type_of(ld).instantiate_identity().skip_norm_wip();
                let freeze = ty.is_freeze(tcx, self.env);
                statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{}}}", esc(&tcx.def_path_str(ld.to_def_id())), mutability.is_mut(), freeze));
            }
        }
        let mut uns = vec![];
        for ld in tcx.hir_body_owners() {
            let mut v = Unsafe { tcx, found: vec![] };
            v.visit_body(tcx.hir_body_owned_by(ld));
            for sp in v.found {
                uns.push(format!("{{\"what\":\"unsafe block\",\"in\":{},\"sp\":{}}}", esc(&tcx.def_path_str(ld.to_def_id())), esc(&self.span(sp))));
            }
            if matches!(tcx.def_kind(ld.to_def_id()), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(ld.to_def_id()).skip_binder().safety().is_unsafe() {
                uns.push(format!("{{\"what\":\"unsafe fn\",\"in\":{},\"sp\":{}}}", esc(&tcx.def_path_str(ld.to_def_id())), esc(&self.span(tcx.def_span(ld)))));
            }
        }
        for ld in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(ld.to_def_id()) {
                let sp = tcx.def_span(ld);
                let foreign = sp.from_expansion() && sp.ctxt().outer_expn_data().macro_def_id.map_or(true, |d| !d.is_local());
                if !foreign && tcx.impl_trait_header(ld.to_def_id()).safety.is_unsafe() {
                    uns.push(format!("{{\"what\":\"unsafe impl\",\"in\":{},\"sp\":{}}}", esc(&tcx.def_path_str(ld.to_def_id())), esc(&self.span(tcx.def_span(ld)))));
                }
            }
        }
        // every local ADT, even those not reached
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(ld.to_def_id()), DefKind::Struct | DefKind::Enum) {
                if tcx.generics_of(ld.to_def_id()).requires_monomorphization(tcx) { continue; }
                let ty = tcx.type_of(ld).instantiate_identity().skip_norm_wip();
                let id = self.ty(ty);
                let eff = tcx.effective_visibilities(()).is_reachable(ld);
                let icx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
                let has = |d: Option<DefId>| d.map_or(false, |d| icx.type_implements_trait(d, [ty], ty::ParamEnv::empty()).must_apply_modulo_regions());
                let send = has(tcx.get_diagnostic_item(rustc_span::sym::Send));
                let sync = has(tcx.lang_items().sync_trait());
                adts.push(format!("{{\"path\":{},\"ty\":{},\"reachable\":{},\"send\":{},\"sync\":{}}}", esc(&tcx.def_path_str(ld.to_def_id())), id, eff, send, sync));
            }
        }
        // types may enqueue closures bodies
        while let Some((inst, depth)) = self.queue.pop_front() {
            let j = self.dump_fn(inst, depth);
            self.fns.push(j);
        }
        format!(
            "{{\"crate\":{},\n\"roots\":[{}],\n\"generic_roots\":[{}],\n\"statics\":[{}],\n\"unsafe\":[{}],\n\"adts\":[{}],\n\"types\":[{}],\n\"fns\":[\n{}\n]}}\n",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            roots.join(","), generic_roots.join(","), statics.join(","), uns.join(","), adts.join(",\n"),
            self.ty_json.join(",\n"), self.fns.join(",\n")
        )
    }

    /// Type arguments for a generic function of the crate: the target of an Into bound (the identity
    /// conversion), a Vec for an IntoIterator bound
    fn pick_args(&self, did: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let preds: Vec<ty::Clause<'tcx>> = tcx.clauses_of(did).instantiate_identity(tcx).into_iter().map(|(c, _)| c.skip_norm_wip()).collect();
        let mut ok = true;
        let args = ty::GenericArgs::for_item(tcx, did, |param, _| {
            match param.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => {
                    let mut pick: Option<Ty<'tcx>> = None;
                    for c in &preds {
                        if let Some(tp) = c.as_trait_clause() {
                            let tr = tp.skip_binder().trait_ref;
                            if tr.self_ty().is_param(param.index) && tcx.def_path_str(tr.def_id) == "std::convert::Into" {
                                pick = Some(tr.args.type_at(1));
                            }
                        }
                        if let Some(pp) = c.as_projection_clause() {
                            let pp = pp.skip_binder();
                            if pp.self_ty().is_param(param.index) {
                                if let Some(item) = pp.term.as_type() {
                                    let vec = tcx.get_diagnostic_item(rustc_span::sym::Vec).unwrap();
                                    let va = ty::GenericArgs::for_item(tcx, vec, |q, _| {
                                        if q.index == 0 { item.into() } else { tcx.type_of(q.def_id).instantiate_identity().skip_norm_wip().into() }
                                    });
                                    let va = if va.len() == 2 {
                                        let g = tcx.generics_of(vec);
                                        let d = g.own_params[1].default_value(tcx).map(|x| x.instantiate(tcx, &[ty::GenericArg::from(item)]).skip_norm_wip());
                                        match d { Some(d) => tcx.mk_args(&[item.into(), d]), None => va }
                                    } else { va };
                                    pick = Some(Ty::new_adt(tcx, tcx.adt_def(vec), va));
                                }
                            }
                        }
                    }
                    match pick {
                        Some(t) if !t.has_param() => tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).into(),
                        _ => { ok = false; tcx.types.unit.into() }
                    }
                }
                _ => { ok = false; tcx.types.unit.into() }
            }
        });
        if ok { Some(args) } else { None }
    }

    /// Should a body be dumped for this instance?
    fn want(&self, inst: Instance<'tcx>, depth: usize) -> bool {
        let tcx = self.tcx;
        let did = inst.def_id();
        match inst.def {
            InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) { return false; }
                if tcx.intrinsic(d).is_some() { return false; }
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => {}
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => return false,
            _ => return false,
        }
        if did.is_local() { return true; }
        if tcx.is_constructor(did) { return true; }
        if depth > 14 { return false; }
        let p = tcx.def_path_str(did);
        if self.stops.iter().any(|s| p.starts_with(s.as_str())) { return false; }
        let krate = tcx.crate_name(did.krate);
        matches!(krate.as_str(), "core" | "alloc" | "std" | "bytes")
    }

    fn key_of(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.seen.get(&inst) { return k.clone(); }
        let base = match inst.def {
            InstanceKind::Item(_) | InstanceKind::Intrinsic(_) => format!("{}", self.tcx.def_path_str_with_args(inst.def_id(), inst.args)),
            _ => format!("shim:{:?}", inst),
        };
        let n = self.names.entry(base.clone()).or_insert(0);
        let k = if *n == 0 { base.clone() } else { format!("{}#{}", base, n) };
        *n += 1;
        self.seen.insert(inst, k.clone());
        k
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, depth: usize) -> Option<String> {
        if let Some(k) = self.seen.get(&inst) { return Some(k.clone()); }
        if !self.want(inst, depth) { return None; }
        let k = self.key_of(inst);
        self.queue.push_back((inst, depth));
        Some(k)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) { return i; }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let s = format!("{}", t);
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, inner, m) => { let i = self.ty(inner); format!("\"k\":\"ref\",\"mut\":{},\"inner\":{}", m.is_mut(), i) }
            ty::RawPtr(inner, m) => { let i = self.ty(inner); format!("\"k\":\"rawptr\",\"mut\":{},\"inner\":{}", m.is_mut(), i) }
            ty::Slice(inner) => { let i = self.ty(inner); format!("\"k\":\"slice\",\"inner\":{}", i) }
            ty::Array(inner, n) => {
                let i = self.ty(inner);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"inner\":{},\"n\":{}", i, n)
            }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(",")) }
            ty::Adt(def, args) => {
                let path = tcx.def_path_str(def.did());
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let local = def.did().is_local();
                let mut vs = vec![];
                let opaque = !local && !(path.starts_with("std::option::Option") || path.starts_with("std::result::Result") || path.starts_with("std::ops::") || path.starts_with("std::cmp::") || path.starts_with("std::num::") || path.starts_with("std::iter::") || path.starts_with("std::convert::") || path.starts_with("std::marker::") || path.starts_with("std::str::Utf8Error"));
                if !opaque {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.normalize_erasing_regions(self.env, ft);
                            let fid = self.ty(ft);
                            fs.push(format!("{{\"name\":{},\"ty\":{},\"pub\":{}}}", esc(f.name.as_str()), fid, f.vis.is_public()));
                        }
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
                    }
                }
                let dtor = match tcx.adt_destructor(def.did()) {
                    Some(d) if d.did.is_local() && !t.has_param() => {
                        let dt = tcx.lang_items().drop_trait().unwrap();
                        let df = tcx.associated_item_def_ids(dt)[0];
                        let args = tcx.mk_args(&[t.into()]);
                        self.callee(df, args, 0)
                    }
                    _ => "null".into(),
                };
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                format!("\"k\":\"adt\",\"kind\":\"{}\",\"path\":{},\"local\":{},\"opaque\":{},\"args\":[{}],\"variants\":[{}],\"dtor\":{}", kind, esc(&path), local, opaque, targs.join(","), vs.join(","), dtor)
            }
            ty::Closure(did, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(did.into(), args);
                let key = self.enqueue(inst, 0);
                format!("\"k\":\"closure\",\"path\":{},\"kind\":\"{:?}\",\"upvars\":[{}],\"body\":{}", esc(&tcx.def_path_str(did)), args.as_closure().kind(), ups.join(","), key.map(|k| esc(&k)).unwrap_or("null".into()))
            }
            ty::FnDef(did, args) => {
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(did.into(), args, 1);
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_json[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, esc(&s), body);
        id
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let decl = tcx.def_path_str(did);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let mut kind = "unresolved".to_string();
        let mut inst_path = String::new();
        let mut key = None;
        let mut local = did.is_local();
        let mut iargs: Vec<String> = vec![];
        if !args.has_param() {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
                let inst = tcx.erase_and_anonymize_regions(inst);
                kind = match inst.def {
                    InstanceKind::Item(_) => if tcx.is_constructor(inst.def_id()) { "ctor".into() } else { "item".into() },
                    InstanceKind::Intrinsic(_) => "intrinsic".into(),
                    InstanceKind::Virtual(..) => "virtual".into(),
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once".into(),
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim".into(),
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim".into(),
                    _ => "other".into(),
                };
                inst_path = tcx.def_path_str(inst.def_id());
                local = inst.def_id().is_local();
                iargs = inst.args.types().map(|x| self.ty(x).to_string()).collect();
                key = self.enqueue(inst, depth + 1);
            }
        }
        let krate = tcx.crate_name(did.krate).to_string();
        let unsafe_ = tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        format!("{{\"decl\":{},\"targs\":[{}],\"kind\":\"{}\",\"path\":{},\"iargs\":[{}],\"key\":{},\"local\":{},\"crate\":{},\"unsafe\":{}}}",
            esc(&decl), targs.join(","), kind, esc(&inst_path), iargs.join(","), key.map(|k| esc(&k)).unwrap_or("null".into()), local, esc(&krate), unsafe_)
    }

    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\".\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"cidx\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.as_usize()),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), v.join(","))
    }

    fn scalar_ptr(&mut self, aid: mir::interpret::AllocId, off: rustc_abi::Size, pointee: Ty<'tcx>, meta: Option<u64>, fuel: usize) -> String {
        let tcx = self.tcx;
        match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(m)) => {
                match *pointee.kind() {
                    ty::Str | ty::Slice(_) if meta.is_some() => {
                        let n = meta.unwrap();
                        let elem = match *pointee.kind() { ty::Slice(e) => e, _ => tcx.types.u8 };
                        if elem == tcx.types.u8 {
                            let lo = off.bytes_usize();
                            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n as usize);
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            format!("{{\"c\":\"bytes\",\"v\":[{}]}}", v.join(","))
                        } else {
                            let sz = match tcx.layout_of(self.env.as_query_input(elem)) { Ok(l) => l.size, Err(_) => return "{\"c\":\"?\"}".into() };
                            let mut v = vec![];
                            for i in 0..n { v.push(self.cval(ConstValue::Indirect { alloc_id: aid, offset: off + sz * i }, elem, fuel)); }
                            format!("{{\"c\":\"array\",\"v\":[{}]}}", v.join(","))
                        }
                    }
                    _ => self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, pointee, fuel),
                }
            }
            Some(GlobalAlloc::Static(d)) => format!("{{\"c\":\"static\",\"path\":{}}}", esc(&tcx.def_path_str(d))),
            Some(GlobalAlloc::Function { instance }) => { let k = self.enqueue(instance, 1); format!("{{\"c\":\"fn\",\"key\":{}}}", k.map(|k| esc(&k)).unwrap_or("null".into())) }
            _ => "{\"c\":\"?\"}".into(),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, fuel: usize) -> String {
        let tcx = self.tcx;
        if fuel == 0 { return "{\"c\":\"?\"}".into(); }
        // Load scalars out of indirect memory
        let v = match (v, t.kind()) {
            (ConstValue::Indirect { alloc_id, offset }, ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::RawPtr(..) | ty::Ref(..)) => {
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let sz = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l.size, Err(_) => return "{\"c\":\"?\"}".into() };
                    let psz = tcx.data_layout.pointer_size();
                    if t.is_ref() && sz > psz {
                        let p = m.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: psz }, true);
                        let n = m.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset + psz, size: psz }, false);
                        if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(n))) = (p, n) {
                            let (prov, off) = p.prov_and_relative_offset();
                            let inner = t.builtin_deref(true).unwrap();
                            let s = self.scalar_ptr(prov.alloc_id(), off, inner, Some(n.to_target_usize(tcx)), fuel - 1);
                            return format!("{{\"c\":\"ref\",\"v\":{}}}", s);
                        }
                        return "{\"c\":\"?\"}".into();
                    }
                    match m.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: sz }, t.is_ref()) {
                        Ok(s) => ConstValue::Scalar(s),
                        Err(_) => return "{\"c\":\"?\"}".into(),
                    }
                } else { return "{\"c\":\"?\"}".into(); }
            }
            (v, _) => v,
        };
        match v {
            ConstValue::Scalar(Scalar::Int(i)) if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                if let ty::Int(_) = t.kind() { format!("{{\"c\":\"int\",\"v\":{}}}", i.to_int(i.size())) } else { format!("{{\"c\":\"int\",\"v\":{}}}", i.to_bits(i.size())) }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let Some(inner) = t.builtin_deref(true) {
                    let s = self.scalar_ptr(prov.alloc_id(), off, inner, None, fuel - 1);
                    format!("{{\"c\":\"ref\",\"v\":{}}}", s)
                } else { "{\"c\":\"?\"}".into() }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = t.builtin_deref(true).unwrap();
                let s = self.scalar_ptr(alloc_id, rustc_abi::Size::ZERO, inner, Some(meta), fuel - 1);
                format!("{{\"c\":\"ref\",\"v\":{}}}", s)
            }
            ConstValue::ZeroSized if matches!(t.kind(), ty::FnDef(..) | ty::Closure(..)) => "{\"c\":\"zst\"}".into(),
            _ => {
                match t.kind() {
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                        if let ty::Adt(d, _) = t.kind() { if d.is_union() { return "{\"c\":\"?\"}".into(); } }
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            let fs: Vec<String> = d.fields.iter().map(|(c, ft)| self.cval(*c, *ft, fuel - 1)).collect();
                            if t.is_array() { return format!("{{\"c\":\"array\",\"v\":[{}]}}", fs.join(",")); }
                            return format!("{{\"c\":\"agg\",\"variant\":{},\"v\":[{}]}}", d.variant.map(|x| x.as_usize()).unwrap_or(0), fs.join(","));
                        }
                        "{\"c\":\"?\"}".into()
                    }
                    _ => if matches!(v, ConstValue::ZeroSized) { "{\"c\":\"zst\"}".into() } else { "{\"c\":\"?\"}".into() },
                }
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let v = if matches!(t.kind(), ty::FnDef(..)) { "{\"c\":\"zst\"}".to_string() } else {
            match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => self.cval(v, t, 12),
                Err(_) => "{\"c\":\"?\"}".into(),
            }
        };
        format!("{{\"const\":{},\"ty\":{}}}", v, ti)
    }

    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(*p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => "{\"rtcheck\":1}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(o)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.op(o), n) }
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(*p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(*p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("{{\"r\":\"tls\",\"path\":{}}}", esc(&self.tcx.def_path_str(*d))),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("{{\"r\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{}}}", esc(&format!("{:?}", k)), self.op(o), t) }
            Rvalue::BinaryOp(b, os) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.op(&os.0), self.op(&os.1)),
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(*p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(*p)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.op(o)).collect();
                let (kind, variant, ty, active) = match **k {
                    AggregateKind::Array(t) => ("array", 0, self.ty(t) as i64, -1),
                    AggregateKind::Tuple => ("tuple", 0, -1, -1),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        ("adt", vi.as_usize(), self.ty(t) as i64, af.map(|x| x.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(self.tcx, d, args); ("closure", 0, self.ty(t) as i64, -1) }
                    AggregateKind::RawPtr(t, _) => ("rawptr", 0, self.ty(t) as i64, -1),
                    _ => ("other", 0, -1, -1),
                };
                format!("{{\"r\":\"agg\",\"kind\":\"{}\",\"variant\":{},\"ty\":{},\"active\":{},\"f\":[{}]}}", kind, variant, ty, active, v.join(","))
            }
            _ => format!("{{\"r\":\"other\",\"d\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn dump_fn(&mut self, inst: Instance<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let key = self.key_of(inst);
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
        let mut locals = vec![];
        for d in body.local_decls.iter() { locals.push(self.ty(d.ty).to_string()); }
        let mut names = vec![];
        for vdi in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() { names.push(format!("[{},{}]", p.local.as_usize(), esc(vdi.name.as_str()))); }
            }
        }
        let mut blocks = vec![];
        for (_bb, bd) in body.basic_blocks.iter_enumerated() {
            if bd.is_cleanup { blocks.push("null".to_string()); continue; }
            let mut ss = vec![];
            for s in bd.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let sp = self.span(s.source_info.span);
                        let pj = self.place(*p);
                        let rj = self.rvalue(r);
                        ss.push(format!("{{\"p\":{},\"rv\":{},\"sp\":{}}}", pj, rj, esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(**place);
                        ss.push(format!("{{\"setdiscr\":{},\"v\":{}}}", pj, variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!("{{\"intr\":{}}}", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dty);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("\"t\":\"switch\",\"d\":{},\"dty\":{},\"arms\":[{}],\"else\":{}", d, dt, v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "\"t\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".to_string(),
                TerminatorKind::Drop { target, place, .. } => { let p = self.place(*place); format!("\"t\":\"drop\",\"to\":{},\"p\":{}", target.as_usize(), p) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x), self.op(y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.op(x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".to_string(), vec![self.op(x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".to_string(), vec![self.op(x)]),
                        other => (format!("other:{:?}", std::mem::discriminant(other)), vec![]),
                    };
                    format!("\"t\":\"assert\",\"cond\":{},\"exp\":{},\"msg\":{},\"ops\":[{}],\"to\":{}", self.op(cond), expected, esc(&mk), ops.join(","), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let callee = match *fty.kind() {
                        ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap(); self.callee(d.into(), a, depth) }
                        _ => format!("{{\"decl\":\"<ptr>\",\"kind\":\"ptr\",\"op\":{}}}", self.op(func)),
                    };
                    let av: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let dest = self.place(*destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dty);
                    format!("\"t\":\"call\",\"f\":{},\"args\":[{}],\"atys\":[{}],\"dest\":{},\"dty\":{},\"to\":{}", callee, av.join(","), at.join(","), dest, dt, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"t\":\"resume\"".to_string(),
                other => format!("\"t\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"s\":[{}],\"term\":{{{},\"sp\":{}}}}}", ss.join(","), tj, sp));
        }
        let did = inst.def_id();
        let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        format!("{{\"key\":{},\"path\":{},\"local\":{},\"depth\":{},\"span\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[\n  {}]}}",
            esc(&key), esc(&tcx.def_path_str(did)), did.is_local(), depth, esc(&self.span(tcx.def_span(did))), body.arg_count, spread, locals.join(","), names.join(","), blocks.join(",\n  "))
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) { if w[0] == "--crate-name" && w[1] == want { is_target = true; } }
    if is_target && std::env::var("MIRFACTS_OUT").is_ok() {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut Nop);
    }
}
