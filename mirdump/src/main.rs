//! Dumps the monomorphised MIR of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump rustc <rustc args>`.  When MIRDUMP_OUT names a
//! directory and the invocation compiles a crate, the compiler runs with its usual flags
//! (mir-opt-level 0) and, after analysis, the resolved program is written to
//! `$MIRDUMP_OUT/<crate name>.<crate type>.json`.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_hir;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public_bridge::IndexedVal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // args[0] is the real rustc
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let crate_name = args.iter().position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1)).cloned();
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print"))
        || crate_name.as_deref() == Some("___") || crate_name.is_none();
    if out.is_empty() || is_probe {
        let status = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(status.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=on".into());
    args.push("-Zub-checks=no".into());
    args.push("--cap-lints=allow".into());
    let crate_name = crate_name.unwrap();
    let crate_type = args.iter().position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1)).cloned().unwrap_or("bin".into());
    let path = format!("{}/{}.{}.json", out, crate_name, crate_type);
    let result = rustc_public::run_with_tcx!(&args, |tcx: TyCtxt<'_>| {
        let mut d = Dumper::new(tcx);
        let text = d.run();
        std::fs::write(&path, text).unwrap();
        ControlFlow::<(), ()>::Continue(())
    });
    match result {
        Ok(_) => std::process::exit(0),
        Err(e) => { eprintln!("mirdump: compilation failed: {:?}", e); std::process::exit(1) }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty, usize>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    roots: Vec<usize>,
    bodies: Vec<Option<String>>,
    queue: VecDeque<usize>,
    allocs: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    alloc_text: Vec<String>,
    local_crate: String,
}

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper {
            tcx, types: vec![], type_ids: HashMap::new(), inst_ids: HashMap::new(),
            insts: vec![], roots: vec![], bodies: vec![], queue: VecDeque::new(),
            allocs: HashMap::new(), alloc_text: vec![],
            local_crate: rustc_public::local_crate().name.to_string(),
        }
    }

    fn run(&mut self) -> String {
        let impls = self.impls_json();
        self.collect_roots();
        while let Some(id) = self.queue.pop_front() {
            let text = self.instance_body(id);
            self.bodies[id] = text;
        }
        let mut o = String::new();
        o.push_str("{\"crate\":");
        o.push_str(&esc(&self.local_crate));
        o.push_str(",\"types\":[\n");
        o.push_str(&self.types.join(",\n"));
        o.push_str("],\n\"allocs\":[");
        o.push_str(&self.alloc_text.join(",\n"));
        o.push_str("],\n\"impls\":");
        o.push_str(&impls);
        o.push_str(",\n\"roots\":[");
        o.push_str(&self.roots.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(","));
        o.push_str("],\n\"instances\":[\n");
        let mut parts = vec![];
        for (i, inst) in self.insts.clone().iter().enumerate() {
            parts.push(self.instance_head(i, inst));
        }
        o.push_str(&parts.join(",\n"));
        o.push_str("],\n\"types2\":[");
        // types may have grown while heads were written
        o.push_str(&self.types.join(",\n"));
        o.push_str("]}\n");
        o
    }

    // ---------------------------------------------------------------- roots

    fn is_local(&self, def: DefId) -> bool {
        rustc_internal::internal(self.tcx, def).is_local()
    }

    fn collect_roots(&mut self) {
        let tcx = self.tcx;
        // candidate type arguments: local ADTs without generic parameters
        let krate = rustc_public::local_crate();
        let mut cands: Vec<Ty> = vec![];
        for adt in krate.adts() {
            let g = adt.generics_of();
            let has_ty = g.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime));
            if !has_ty {
                let args = self.erased_args(adt.def_id());
                cands.push(adt.ty_with_args(&args));
            }
        }
        let mut defs: Vec<FnDef> = krate.fn_defs();
        let mut seen: HashSet<FnDef> = defs.iter().cloned().collect();
        for imp in rustc_public::all_trait_impls() {
            for item in imp.associated_items() {
                if let rustc_public::ty::AssocKind::Fn { .. } = item.kind {
                    let ty = rustc_internal::internal(tcx, item.def_id.def_id());
                    let _ = ty;
                }
            }
        }
        // all local functions known to the compiler (methods included)
        for local in tcx.hir_body_owners() {
            let did = local.to_def_id();
            let kind = tcx.def_kind(did);
            use rustc_hir::def::DefKind;
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let fn_def: FnDef = {
                    let ty = rustc_internal::stable(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    match ty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, _)) => def,
                        _ => continue,
                    }
                };
                if seen.insert(fn_def) { defs.push(fn_def); }
            }
        }
        for def in defs {
            let did = rustc_internal::internal(tcx, def.def_id());
            if !tcx.is_mir_available(did) { continue; }
            let gens = tcx.generics_of(did);
            // list of the type parameters (own and parent)
            let n = gens.count();
            let mut ty_params: Vec<usize> = vec![];
            let mut bad = false;
            for i in 0..n {
                let p = gens.param_at(i, tcx);
                match p.kind {
                    rustc_middle::ty::GenericParamDefKind::Lifetime => {}
                    rustc_middle::ty::GenericParamDefKind::Type { .. } => ty_params.push(i),
                    _ => bad = true,
                }
            }
            if bad || ty_params.len() > 3 { continue; }
            let total = if ty_params.is_empty() { 1 } else {
                cands.len().pow(ty_params.len() as u32)
            };
            if ty_params.len() == 3 && cands.len() > 40 { /* prune below by predicate on first */ }
            // choose candidates parameter by parameter, pruning with single-parameter predicates
            let mut choices: Vec<Vec<Ty>> = vec![];
            for &pi in &ty_params {
                let mut ok = vec![];
                for c in &cands {
                    if self.param_ok(did, pi as u32, *c) { ok.push(*c); }
                }
                choices.push(ok);
            }
            let _ = total;
            if ty_params.is_empty() {
                let args = self.erased_args(def.def_id());
                self.add_root(def, &args);
                continue;
            }
            // only methods whose generic parameters are bounded by local traits are enumerated
            let combos: usize = choices.iter().map(|c| c.len()).product();
            if combos == 0 || combos > 1200 { continue; }
            let mut idx = vec![0usize; choices.len()];
            'outer: loop {
                let mut args: Vec<GenericArgKind> = vec![];
                let mut k = 0;
                for i in 0..n {
                    let p = gens.param_at(i, tcx);
                    match p.kind {
                        rustc_middle::ty::GenericParamDefKind::Lifetime => args.push(
                            GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })),
                        _ => { args.push(GenericArgKind::Type(choices[k][idx[k]])); k += 1; }
                    }
                }
                let args = GenericArgs(args);
                let iargs = rustc_internal::internal(tcx, args.clone());
                if !tcx.instantiate_and_check_impossible_clauses((did, iargs)) {
                    self.add_root(def, &args);
                }
                let mut j = 0;
                loop {
                    if j == idx.len() { break 'outer; }
                    idx[j] += 1;
                    if idx[j] < choices[j].len() { break; }
                    idx[j] = 0;
                    j += 1;
                }
            }
        }
    }

    fn param_ok(&self, did: rustc_span::def_id::DefId, pi: u32, cand: Ty) -> bool {
        // does `cand` satisfy every trait predicate whose only parameter is #pi?
        // A parameter without any local-trait bound has no candidates.
        use rustc_middle::ty as ity;
        let tcx = self.tcx;
        let icand = rustc_internal::internal(tcx, cand);
        let preds = tcx.clauses_of(did).instantiate_identity(tcx);
        let mut bounded = false;
        for p in preds.clauses {
            let p = p.skip_norm_wip();
            if let Some(tp) = p.as_trait_clause() {
                let tp = tp.skip_binder();
                if let ity::Param(param) = tp.self_ty().kind() {
                    if param.index == pi {
                        if tp.trait_ref.def_id.is_local() {
                            bounded = true;
                        }
                        if tp.trait_ref.args.len() == 1 {
                            // check via type_implements_trait
                            use rustc_middle::ty::TypingEnv;
                            let _ = TypingEnv::fully_monomorphized();
                            if tp.trait_ref.def_id.is_local() {
                                let mut found = false;
                                tcx.for_each_relevant_impl(tp.trait_ref.def_id, icand, |imp| {
                                    // generic blanket impls: check predicates with Self = cand
                                    let g = tcx.generics_of(imp);
                                    let only_lt_or_one = g.own_params.iter()
                                        .filter(|q| !matches!(q.kind, ity::GenericParamDefKind::Lifetime))
                                        .count();
                                    if only_lt_or_one == 0 {
                                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                                        let a = tcx.erase_and_anonymize_regions(st);
                                        let b = tcx.erase_and_anonymize_regions(icand);
                                        if a == b { found = true; }
                                    } else {
                                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                                        if let ity::Param(_) = st.kind() {
                                            let args = tcx.mk_args(&[icand.into()]);
                                            if !tcx.instantiate_and_check_impossible_clauses((imp, args)) {
                                                found = true;
                                            }
                                        }
                                    }
                                });
                                if !found { return false; }
                            }
                        }
                    }
                }
            }
        }
        bounded
    }

    fn erased_args(&self, def: DefId) -> GenericArgs {
        let tcx = self.tcx;
        let did = rustc_internal::internal(tcx, def);
        let gens = tcx.generics_of(did);
        let n = gens.count();
        GenericArgs((0..n).map(|_| GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }))
            .collect())
    }

    fn add_root(&mut self, def: FnDef, args: &GenericArgs) {
        if let Ok(inst) = Instance::resolve(def, args) {
            let id = self.inst(inst);
            self.roots.push(id);
        }
    }

    // ------------------------------------------------------------ instances

    fn inst(&mut self, inst: Instance) -> usize {
        if let Some(&i) = self.inst_ids.get(&inst) { return i; }
        let id = self.insts.len();
        self.insts.push(inst);
        self.bodies.push(None);
        self.inst_ids.insert(inst, id);
        self.queue.push_back(id);
        id
    }

    fn want_body(&self, inst: &Instance) -> bool {
        let def = inst.def.def_id();
        if self.is_local(def) { return true; }
        let did = rustc_internal::internal(self.tcx, def);
        let krate = self.tcx.crate_name(did.krate).to_string();
        if krate == "demixer" { return true; }
        if krate == "core" || krate == "alloc" {
            let name = self.tcx.def_path_str(did);
            let bad = ["fmt::", "panicking", "panic", "str::", "string::", "unicode", "alloc::raw_vec",
                "raw_vec", "sync::", "rc::", "intrinsics", "ffi::", "slice::sort", "collections::",
                "alloc::alloc", "boxed::", "vec::", "hash::", "any::", "ascii::", "char::",
                "num::flt2dec", "num::fmt", "num::dec2flt", "async_iter", "error::"];
            for b in bad {
                let full1 = format!("std::{}", b);
                let full2 = format!("core::{}", b);
                let full3 = format!("alloc::{}", b);
                let n = name.trim_start_matches('<');
                if n.starts_with(&full1) || n.starts_with(&full2) || n.starts_with(&full3) {
                    return false;
                }
            }
            return true;
        }
        false
    }

    fn instance_head(&mut self, id: usize, inst: &Instance) -> String {
        let tcx = self.tcx;
        let did = rustc_internal::internal(tcx, inst.def.def_id());
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let path = tcx.def_path_str(did);
        let item_name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let krate = tcx.crate_name(did.krate).to_string();
        let local = did.is_local();
        // enclosing impl/trait
        let mut self_ty: Option<usize> = None;
        let mut of_trait = String::new();
        let args = inst.args();
        let mut parent_kind = "";
        let mut closure_parent = String::new();
        {
            let mut cur = did;
            if tcx.is_closure_like(did) {
                cur = tcx.typeck_root_def_id(did);
                closure_parent = tcx.def_path_str(cur);
            }
            if let Some(parent) = tcx.opt_parent(cur) {
                use rustc_hir::def::DefKind;
                match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait: ot } => {
                        parent_kind = "impl";
                        let iargs = rustc_internal::internal(tcx, args.clone());
                        let t = tcx.type_of(parent).instantiate(tcx, iargs).skip_norm_wip();
                        let t = tcx.try_normalize_erasing_regions(
                            rustc_middle::ty::TypingEnv::fully_monomorphized(),
                            rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        let t = tcx.erase_and_anonymize_regions(t);
                        self_ty = Some(self.ty(rustc_internal::stable(t)));
                        if ot {
                            let tr = tcx.impl_trait_ref(parent);
                            of_trait = tcx.def_path_str(tr.skip_binder().def_id);
                        }
                    }
                    DefKind::Trait => {
                        parent_kind = "trait";
                        of_trait = tcx.def_path_str(parent);
                        if let Some(GenericArgKind::Type(t)) = args.0.first() {
                            self_ty = Some(self.ty(*t));
                        }
                    }
                    _ => {}
                }
            }
        }
        let mut targs = vec![];
        for a in &args.0 {
            if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t).to_string()); }
        }
        let span = self.def_span(did);
        let body = self.bodies[id].clone().unwrap_or("null".into());
        let vis_pub = {
            if local && !tcx.is_closure_like(did) { tcx.visibility(did).is_public() } else { false }
        };
        let intrinsic = match inst.kind {
            InstanceKind::Intrinsic => inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        let full = inst.name();
        let drop_ty = String::new();
        format!("{{\"id\":{},\"kind\":\"{}\",\"name\":{},\"path\":{},\"item\":{},\"crate\":{},\"local\":{},\"pub\":{},\"parent\":\"{}\",\"self\":{},\"trait\":{},\"closure_of\":{},\"targs\":[{}],\"intrinsic\":{},\"empty_shim\":{},\"span\":{},\"body\":{}{}}}",
            id, kind, esc(&full), esc(&path), esc(&item_name), esc(&krate), local, vis_pub, parent_kind,
            self_ty.map(|s| s.to_string()).unwrap_or("null".into()), esc(&of_trait),
            esc(&closure_parent), targs.join(","), esc(&intrinsic), inst.is_empty_shim(), span, body, drop_ty)
    }

    fn def_span(&self, did: rustc_span::def_id::DefId) -> String {
        self.ispan(self.tcx.def_span(did))
    }

    fn ispan(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return "null".into(); }
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&f), loc.line, loc.col.0 + 1)
    }

    fn span(&self, sp: rustc_public::ty::Span) -> String {
        self.ispan(rustc_internal::internal(self.tcx, sp))
    }

    fn instance_body(&mut self, id: usize) -> Option<String> {
        let inst = self.insts[id];
        if matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { return None; }
        if !self.want_body(&inst) { return None; }
        let body = inst.body()?;
        Some(self.body(&body))
    }

    // ----------------------------------------------------------------- body

    fn body(&mut self, body: &Body) -> String {
        let mut o = String::new();
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "{{\"argc\":{},\"locals\":[{}],\"names\":[", body.arg_locals().len(), locals.join(","));
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "[{},{}]", p.local, esc(&v.name.to_string()));
                }
            }
        }
        let spread = body.spread_arg();
        let _ = write!(o, "],\"spread\":{},\"blocks\":[",
            spread.map(|s| s.to_string()).unwrap_or("null".into()));
        for (i, b) in body.blocks.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                if let Some(t) = self.stmt(s, body) {
                    if !first { o.push(','); }
                    first = false;
                    o.push_str(&t);
                }
            }
            o.push_str("],\"t\":");
            o.push_str(&self.term(&b.terminator, body));
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn stmt(&mut self, s: &Statement, body: &Body) -> Option<String> {
        let sp = self.span(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                let pt = self.place(p);
                let rt = self.rvalue(r, body);
                format!("[\"=\",{},{},{}]", pt, rt, sp)
            }
            StatementKind::SetDiscriminant { place, variant_index } =>
                format!("[\"discr\",{},{},{}]", self.place(place), variant_index.to_index(), sp),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) =>
                format!("[\"assume\",{},{}]", self.operand(op), sp),
            StatementKind::Intrinsic(_) => format!("[\"copynonoverlap\",{}]", sp),
            _ => return None,
        })
    }

    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{},[", p.local);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"f\",{},{}]", f, t);
                }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => { let _ = write!(o, "[\"d\",{}]", v.to_index()); }
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); let _ = write!(o, "[\"oc\",{}]", t); }
            }
        }
        o.push_str("]]");
        o
    }

    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => format!("[\"k\",{},[\"int\",\"0\"]]", self.ty(Ty::bool_ty())),
        }
    }

    fn constant(&mut self, c: &MirConst) -> String {
        let ty = c.ty();
        let t = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty2, a) => self.decode(*ty2, a, 0),
                TyConstKind::ZSTValue(ty2) => self.zst(*ty2),
                other => format!("[\"unk\",{}]", esc(&format!("{:?}", other))),
            },
            ConstantKind::Unevaluated(u) => {
                let _ = u;
                match rustc_eval(c) {
                    Some(a) => self.decode(ty, &a, 0),
                    None => "[\"unk\",\"unevaluated\"]".to_string(),
                }
            }
            ConstantKind::Param(_) => "[\"unk\",\"param\"]".to_string(),
        };
        format!("[\"k\",{},{}]", t, v)
    }

    fn zst(&mut self, ty: Ty) -> String {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                match Instance::resolve(def, &args) {
                    Ok(i) => { let id = self.inst(i); format!("[\"fn\",{}]", id) }
                    Err(_) => format!("[\"unk\",{}]", esc(&format!("unresolved {}", def.name()))),
                }
            }
            TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                let i = Instance::resolve_closure(def, &args, ClosureKind::FnOnce);
                if let Ok(i) = i { let _ = self.inst(i); }
                "[\"agg\",0,[]]".to_string()
            }
            _ => {
                // zero sized aggregate
                "[\"zst\"]".to_string()
            }
        }
    }

    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> String {
        let read = |off: usize, n: usize| -> Option<u128> {
            let mut v: u128 = 0;
            for i in 0..n {
                let b = (*a.bytes.get(off + i)?)?;
                v |= (b as u128) << (8 * i);
            }
            Some(v)
        };
        let rigid = match ty.kind() { TyKind::RigidTy(r) => r, _ => return "[\"unk\",\"ty\"]".into() };
        match rigid {
            RigidTy::Bool => read(off, 1).map(|v| format!("[\"int\",\"{}\"]", v)),
            RigidTy::Char => read(off, 4).map(|v| format!("[\"int\",\"{}\"]", v)),
            RigidTy::Int(it) => {
                let n = it.num_bytes();
                read(off, n).map(|v| {
                    let bits = n * 8;
                    let v = if bits == 128 { v as i128 } else {
                        let sh = 128 - bits;
                        ((v << sh) as i128) >> sh
                    };
                    format!("[\"int\",\"{}\"]", v)
                })
            }
            RigidTy::Uint(ut) => read(off, ut.num_bytes()).map(|v| format!("[\"int\",\"{}\"]", v)),
            RigidTy::Float(ft) => {
                let n = match ft { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 };
                read(off, n).map(|v| {
                    match ft {
                        FloatTy::F64 => format!("[\"flt\",{}]", esc(&format!("{:?}", f64::from_bits(v as u64)))),
                        FloatTy::F32 => format!("[\"flt\",{}]", esc(&format!("{:?}", f32::from_bits(v as u32)))),
                        _ => "[\"unk\",\"float\"]".into(),
                    }
                })
            }
            RigidTy::Tuple(ts) => {
                let shape = match ty.layout() { Ok(l) => l.shape(), Err(_) => return "[\"unk\",\"layout\"]".into() };
                let mut parts = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = field_off(&shape.fields, i);
                    parts.push(self.decode(*t, a, off + o));
                }
                Some(format!("[\"agg\",0,[{}]]", parts.join(",")))
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 { return "[\"unk\",\"big array\"]".into(); }
                let mut parts = vec![];
                for i in 0..n { parts.push(self.decode(t, a, off + i * sz)); }
                Some(format!("[\"arr\",[{}]]", parts.join(",")))
            }
            RigidTy::Adt(def, args) => {
                let shape = match ty.layout() { Ok(l) => l.shape(), Err(_) => return "[\"unk\",\"layout\"]".into() };
                let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Empty => return "[\"unk\",\"empty\"]".into(),
                    VariantsShape::Single { index } => {
                        let n = def.variant(*index).map(|v| v.fields().len()).unwrap_or(0);
                        (index.to_index(), (0..n).map(|i| field_off(&shape.fields, i)).collect())
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = field_off(&shape.fields, *tag_field);
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value.clone(),
                            rustc_public::abi::Scalar::Union { value } => value.clone(),
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                        let tagv = match read(off + tag_off, tsz) { Some(v) => v, None => return "[\"unk\",\"tag\"]".into() };
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if d & mask == tagv { found = Some(v.idx().to_index()); }
                                }
                                match found { Some(f) => f, None => return "[\"unk\",\"discr\"]".into() }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr { untagged_variant.to_index() } else {
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tagv.wrapping_sub(*niche_start) & mask;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        let vf = &variants[idx];
                        (idx, vf.offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let mut parts = vec![];
                let variant = def.variants()[vidx].clone();
                for (i, f) in variant.fields().iter().enumerate() {
                    let fty = self.field_ty(f, &args);
                    let o = off + offsets.get(i).cloned().unwrap_or(0);
                    parts.push(self.decode(fty, a, o));
                }
                Some(format!("[\"agg\",{},[{}]]", vidx, parts.join(",")))
            }
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match prov {
                    None => read(off, 8).map(|v| format!("[\"addr\",\"{}\"]", v)),
                    Some(aid) => {
                        let poff = read(off, 8).unwrap_or(0) as usize;
                        let len = match inner.kind() {
                            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) =>
                                read(off + 8, 8).map(|v| v as i128).unwrap_or(-1),
                            _ => -1,
                        };
                        let t = self.ptr_target(aid, inner, poff, len);
                        Some(t)
                    }
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                if let Some(aid) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(aid) {
                        let id = self.inst(i);
                        return format!("[\"fn\",{}]", id);
                    }
                }
                None
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(self.zst(ty)),
            _ => None,
        }.unwrap_or("[\"unk\",\"decode\"]".into())
    }

    fn ptr_target(&mut self, aid: rustc_public::mir::alloc::AllocId, inner: Ty, poff: usize, len: i128) -> String {
        match GlobalAlloc::from(aid) {
            GlobalAlloc::Memory(alloc) => {
                let v = match inner.kind() {
                    TyKind::RigidTy(RigidTy::Slice(t)) => {
                        let sz = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        if len > 4096 { "[\"unk\",\"big\"]".to_string() } else {
                            let mut parts = vec![];
                            for i in 0..len.max(0) as usize { parts.push(self.decode(t, &alloc, poff + i * sz)); }
                            format!("[\"arr\",[{}]]", parts.join(","))
                        }
                    }
                    TyKind::RigidTy(RigidTy::Str) => {
                        let bytes: Vec<u8> = alloc.bytes.iter().skip(poff).take(len.max(0) as usize)
                            .map(|b| b.unwrap_or(b'?')).collect();
                        format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&bytes)))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"unk\",\"dyn\"]".to_string(),
                    _ => self.decode(inner, &alloc, poff),
                };
                format!("[\"ptr\",{}]", v)
            }
            GlobalAlloc::Static(def) => {
                let did = rustc_internal::internal(self.tcx, def.def_id());
                let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let fixed = !self.tcx.is_mutable_static(did) && ty.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
                format!("[\"static\",{},{},{}]", esc(&def.name().to_string()), !fixed, esc(&ty.to_string()))
            }
            GlobalAlloc::Function(i) => { let id = self.inst(i); format!("[\"fn\",{}]", id) }
            _ => "[\"unk\",\"ptr\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ty = r.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let (kk, vi, fi): (&str, usize, String) = match k {
                    AggregateKind::Array(_) => ("arr", 0, "null".into()),
                    AggregateKind::Tuple => ("tup", 0, "null".into()),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.to_index(), f.map(|f| f.to_string()).unwrap_or("null".into())),
                    AggregateKind::Closure(def, args) => {
                        if let Ok(i) = Instance::resolve_closure(*def, args, ClosureKind::FnOnce) { let _ = self.inst(i); }
                        if let Ok(i) = Instance::resolve_closure(*def, args, ClosureKind::FnMut) { let _ = self.inst(i); }
                        ("clo", 0, "null".into())
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", 0, "null".into()),
                    _ => ("other", 0, "null".into()),
                };
                format!("[\"agg\",\"{}\",{},{},{},[{}]]", kk, ty, vi, fi, ops.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, a, t) => {
                let ft = a.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let kk = match k {
                    CastKind::PointerCoercion(c) => format!("PC_{:?}", c).split('(').next().unwrap().to_string(),
                    other => format!("{:?}", other),
                };
                // reified functions and closures become reachable
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let Ok(fty) = a.ty(body.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = fty.kind() {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) { let _ = self.inst(i); }
                        }
                    }
                }
                let t = self.ty(*t);
                format!("[\"cast\",\"{}\",{},{},{}]", kk, self.operand(a), ft, t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk { BorrowKind::Mut { .. } => "mut", _ => "shr" };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::Repeat(op, n) => {
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                let ty = r.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{},{}]", self.operand(op), n, ty)
            }
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(op)),
            Rvalue::Reborrow(_, m, p) => {
                let m = match m { Mutability::Mut => "mut", _ => "shr" };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p))
            }
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
        }
    }

    fn term(&mut self, t: &Terminator, body: &Body) -> String {
        let sp = self.span(t.source_info.span);
        let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".to_string() };
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body.locals()).ok().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let b: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                format!("[\"switch\",{},{},[{}],{},{}]", self.operand(discr), ty, b.join(","), targets.otherwise(), sp)
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => format!("[\"ret\",{}]", sp),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let (inst, ty) = match place.ty(body.locals()) {
                    Ok(ty) => {
                        let i = Instance::resolve_drop_in_place(ty);
                        if i.is_empty_shim() { ("null".to_string(), self.ty(ty)) }
                        else { (self.inst(i).to_string(), self.ty(ty)) }
                    }
                    Err(_) => ("null".to_string(), 0),
                };
                format!("[\"drop\",{},{},{},{},{},{}]", self.place(place), target, inst, ty, uw(unwind), sp)
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = func.ty(body.locals());
                let mut callee = "null".to_string();
                if let Ok(fty) = &fty {
                    if let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = fty.kind() {
                        match Instance::resolve(def, &gargs) {
                            Ok(i) => callee = self.inst(i).to_string(),
                            Err(_) => {}
                        }
                    }
                }
                let f = if callee == "null" { self.operand(func) } else { "null".to_string() };
                let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                format!("[\"call\",{},{},[{}],{},{},{},{}]", callee, f, a.join(","), self.place(destination),
                    target.map(|t| t.to_string()).unwrap_or("null".into()), uw(unwind), sp)
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let (k, ops): (String, Vec<String>) = match msg {
                    AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![self.operand(len), self.operand(index)]),
                    AssertMessage::Overflow(op, a, b) => (format!("overflow_{:?}", op), vec![self.operand(a), self.operand(b)]),
                    AssertMessage::OverflowNeg(a) => ("overflow_Neg".into(), vec![self.operand(a)]),
                    AssertMessage::DivisionByZero(a) => ("div0".into(), vec![self.operand(a)]),
                    AssertMessage::RemainderByZero(a) => ("rem0".into(), vec![self.operand(a)]),
                    AssertMessage::NullPointerDereference | AssertMessage::NullReferenceConstructed
                        | AssertMessage::MisalignedPointerDereference { .. } => ("ptrcheck".into(), vec![]),
                    _ => ("other".into(), vec![]),
                };
                format!("[\"assert\",{},{},\"{}\",[{}],{},{},{}]", self.operand(cond), expected, k, ops.join(","), target, uw(unwind), sp)
            }
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        }
    }

    // ---------------------------------------------------------------- types

    fn field_ty(&self, f: &FieldDef, args: &GenericArgs) -> Ty {
        let t = f.ty_with_args(args);
        let it = rustc_internal::internal(self.tcx, t);
        let it = self.tcx.try_normalize_erasing_regions(
            rustc_middle::ty::TypingEnv::fully_monomorphized(),
            rustc_middle::ty::Unnormalized::new_wip(it)).unwrap_or(it);
        rustc_internal::stable(it)
    }

    fn ty(&mut self, ty: Ty) -> usize {
        if let Some(&i) = self.type_ids.get(&ty) { return i; }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(ty, id);
        let name = esc(&format!("{}", ty));
        let text = match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"bits\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Array(t, n) => {
                    let t = self.ty(t);
                    format!("\"k\":\"array\",\"of\":{},\"len\":{}", t, n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(t) => { let t = self.ty(t); format!("\"k\":\"slice\",\"of\":{}", t) }
                RigidTy::RawPtr(t, m) => { let t = self.ty(t); format!("\"k\":\"ptr\",\"of\":{},\"mut\":{}", t, m == Mutability::Mut) }
                RigidTy::Ref(_, t, m) => { let t = self.ty(t); format!("\"k\":\"ref\",\"of\":{},\"mut\":{}", t, m == Mutability::Mut) }
                RigidTy::FnDef(def, args) => {
                    let i = Instance::resolve(def, &args).ok();
                    let id = i.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"inst\":{}", id)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(def, args) => {
                    let did = rustc_internal::internal(self.tcx, def.def_id());
                    let ia = rustc_internal::internal(self.tcx, args.clone());
                    let up: Vec<rustc_middle::ty::Ty> = ia.as_closure().upvar_tys().iter().collect();
                    let fields: Vec<String> = up.iter().map(|t| self.ty(rustc_internal::stable(*t)).to_string()).collect();
                    let mut inst = "null".to_string();
                    let kind = ia.as_closure().kind();
                    let k = match kind {
                        rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                        rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                        rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    if let Ok(i) = Instance::resolve_closure(def, &args, k) { inst = self.inst(i).to_string(); }
                    format!("\"k\":\"closure\",\"path\":{},\"fields\":[{}],\"inst\":{},\"ck\":\"{:?}\"", esc(&self.tcx.def_path_str(did)), fields.join(","), inst, kind)
                }
                RigidTy::Dynamic(preds, _) => {
                    let p = ty.kind().trait_principal().map(|p| p.skip_binder().def_id.name().to_string()).unwrap_or_default();
                    let _ = preds;
                    format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
                }
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Tuple(ts) => {
                    let f: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"fields\":[{}]", f.join(","))
                }
                RigidTy::Adt(def, args) => {
                    let did = rustc_internal::internal(self.tcx, def.def_id());
                    let path = self.tcx.def_path_str(did);
                    let krate = self.tcx.crate_name(did.krate).to_string();
                    let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Union => "union", AdtKind::Struct => "struct" };
                    let mut targs = vec![];
                    for a in &args.0 { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t).to_string()); } }
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.field_ty(&f, &args);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(ft)));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            let dv = def.discriminant_for_variant(v.idx());
                            format!("\"{}\"", dv.val)
                        } else { "\"0\"".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                    }
                    let dty = ty.kind().discriminant_ty().map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"crate\":{},\"targs\":[{}],\"box\":{},\"discr_ty\":{},\"variants\":[{}]",
                        kind, esc(&path), esc(&krate), targs.join(","), def.is_box(), dty, vs.join(","))
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"id\":{},\"name\":{},{}}}", id, name, text);
        id
    }

    fn impls_json(&mut self) -> String {
        let mut parts = vec![];
        for imp in rustc_public::all_trait_impls() {
            let did = rustc_internal::internal(self.tcx, imp.def_id());
            if !did.is_local() { continue; }
            let tr = self.tcx.impl_trait_ref(did);
            let trait_name = self.tcx.def_path_str(tr.skip_binder().def_id);
            let st = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
            parts.push(format!("[{},{}]", esc(&trait_name), esc(&format!("{}", st))));
        }
        format!("[{}]", parts.join(","))
    }
}

fn field_off(f: &FieldsShape, i: usize) -> usize {
    match f {
        FieldsShape::Arbitrary { offsets, .. } => offsets.get(i).map(|o| o.bytes()).unwrap_or(0),
        FieldsShape::Array { stride, .. } => stride.bytes() * i,
        _ => 0,
    }
}

fn rustc_eval(_c: &MirConst) -> Option<Allocation> { None }
