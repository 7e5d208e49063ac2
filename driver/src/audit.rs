//! Inventory of one crate: its statics, its functions with their calls, and the types with interior mutability.
use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, TerminatorKind};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashSet;

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!({
        let p = tcx.def_path_str(d);
        let c = tcx.crate_name(d.krate).to_string();
        if d.krate == LOCAL_CRATE && !p.starts_with('<') { format!("{c}::{p}") } else { p }
    }))
}

/// How a callee is named in the report; a function of a foreign library is marked.
fn callee_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    if tcx.is_foreign_item(d) { format!("foreign {}", path(tcx, d)) } else { path(tcx, d) }
}

fn place(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp.lo());
    let hi = sm.lookup_char_pos(sp.hi());
    J::A(vec![s(format!("{}", lo.file.name.prefer_local_unconditionally())), n(lo.line), n(hi.line)])
}

const CELLS: &[&str] = &[
    "core::cell::UnsafeCell", "core::cell::Cell", "core::cell::RefCell", "core::cell::once::OnceCell", "core::cell::lazy::LazyCell",
    "std::sync::once_lock::OnceLock", "std::sync::lazy_lock::LazyLock", "core::sync::atomic::Atomic", "std::sync::Once",
];

fn is_cell(p: &str) -> bool {
    CELLS.iter().any(|c| p.starts_with(c)) || p.contains("::Mutex") || p.contains("::RwLock") || p.contains("OnceCell")
        || p.contains("OnceLock") || p.contains("LazyLock") || p.contains("::Atomic") || p.contains("LazyCell") || p.contains("UnsafeCell")
        || p.contains("RefCell") || p.contains("::Condvar") || p.contains("::thread::local::LocalKey")
}

fn cells<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, trail: &mut Vec<String>, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<J>) {
    if !seen.insert(t) || trail.len() > 24 {
        return;
    }
    match t.kind() {
        ty::Adt(a, args) => {
            let p = path(tcx, a.did());
            if p == "protobuf::cached_size::CachedSize" {
                return;
            }
            if is_cell(&p) {
                out.push(s(format!("{} -> {}", trail.join(" -> "), p)));
                return;
            }
            trail.push(p);
            for x in args.types() {
                cells(tcx, x, trail, seen, out);
            }
            let krate = tcx.crate_name(a.did().krate);
            if !matches!(krate.as_str(), "core" | "std" | "alloc") {
                for f in a.all_fields() {
                    cells(tcx, f.ty(tcx, args).skip_norm_wip(), trail, seen, out);
                }
            }
            trail.pop();
        }
        ty::Tuple(ts) => ts.iter().for_each(|x| cells(tcx, x, trail, seen, out)),
        ty::Array(x, _) | ty::Slice(x) | ty::Ref(_, x, _) | ty::RawPtr(x, _) => cells(tcx, *x, trail, seen, out),
        _ => {}
    }
}

/// Every function item that a body names, called or passed on, and every thread-local it refers to.
struct FnConsts<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a mir::Body<'tcx>,
    env: TypingEnv<'tcx>,
    out: Vec<J>,
}

impl<'a, 'tcx> mir::visit::Visitor<'tcx> for FnConsts<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, loc: mir::Location) {
        let tcx = self.tcx;
        let sp = self.body.source_info(loc).span;
        if let ty::FnDef(callee, args) = c.const_.ty().kind() {
            let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap());
            let r = Instance::try_resolve(tcx, self.env, *callee, args).ok().flatten().map(|i| i.def_id()).unwrap_or(*callee);
            self.out.push(J::A(vec![s(callee_path(tcx, *callee)), s(callee_path(tcx, r)), s(tcx.crate_name(r.krate).to_string()), place(tcx, sp),
                s(with_no_trimmed_paths!(format!("{:?}", args)))]));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            self.out.push(J::A(vec![s(format!("static {}", path(tcx, d))), s(format!("static {}", path(tcx, d))),
                s(tcx.crate_name(d.krate).to_string()), place(tcx, sp), s("")]));
        }
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, loc: mir::Location) {
        if let mir::Rvalue::ThreadLocalRef(d) = r {
            let p = format!("thread_local {}", path(self.tcx, *d));
            self.out.push(J::A(vec![s(p.clone()), s(p), s(self.tcx.crate_name(d.krate).to_string()),
                place(self.tcx, self.body.source_info(loc).span), s("")]));
        }
        self.super_rvalue(r, loc);
    }
}

pub fn audit(tcx: TyCtxt<'_>) -> String {
    let (mut statics, mut adts, mut fns) = (vec![], vec![], vec![]);
    let vis = tcx.effective_visibilities(());
    for def in tcx.hir_crate_items(()).definitions() {
        let d = def.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::post_analysis(tcx, d);
                let mut c = vec![];
                cells(tcx, t, &mut vec![], &mut HashSet::new(), &mut c);
                statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("at", place(tcx, tcx.def_span(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("cells", J::A(c)),
                    ("tls", J::B(tcx.is_thread_local_static(d))),
                    ("ty", s(with_no_trimmed_paths!(t.to_string()))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut c = vec![];
                cells(tcx, t, &mut vec![], &mut HashSet::new(), &mut c);
                adts.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("at", place(tcx, tcx.def_span(d))),
                    ("pub", J::B(vis.is_reachable(def))),
                    ("cells", J::A(c)),
                ]));
            }
            _ => {}
        }
    }
    for k in tcx.mir_keys(()) {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let mut calls = vec![];
        let mut raw = vec![];
        let mut fc = FnConsts { tcx, body, env, out: vec![] };
        mir::visit::Visitor::visit_body(&mut fc, body);
        calls.append(&mut fc.out);
        for b in body.basic_blocks.iter() {
            for st in &b.statements {
                if let mir::StatementKind::Assign(a) = &st.kind {
                    let mut ps = vec![];
                    ps.push(a.0);
                    if let mir::Rvalue::Ref(_, _, p) | mir::Rvalue::RawPtr(_, p) = &a.1 {
                        ps.push(*p);
                    }
                    for p in ps {
                        for (base, e) in p.iter_projections() {
                            if matches!(e, mir::ProjectionElem::Deref) && base.ty(&body.local_decls, tcx).ty.is_raw_ptr() {
                                raw.push(place(tcx, st.source_info.span));
                            }
                        }
                    }
                }
            }
            let Some(t) = &b.terminator else { continue };
            let (func, sp) = match &t.kind {
                TerminatorKind::Call { func, fn_span, .. } => (func, *fn_span),
                TerminatorKind::TailCall { func, fn_span, .. } => (func, *fn_span),
                _ => continue,
            };
            if !matches!(func.ty(&body.local_decls, tcx).kind(), ty::FnDef(..)) {
                calls.push(J::A(vec![s("?"), s("?"), s("?"), place(tcx, sp), s("")]));
            }
        }
        let sig_unsafe = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        fns.push(J::O(vec![
            ("path", s(path(tcx, d))),
            ("at", place(tcx, tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(*k)))),
            ("unsafe", J::B(sig_unsafe)),
            ("pub", J::B(vis.is_reachable(*k))),
            ("calls", J::A(calls)),
            ("raw", J::A(raw)),
        ]));
    }
    let out = J::O(vec![("statics", J::A(statics)), ("adts", J::A(adts)), ("fns", J::A(fns))]);
    let mut o = String::new();
    out.w(&mut o);
    o
}
