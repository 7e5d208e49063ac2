use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{
    self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv,
    Unnormalized,
};
use std::collections::HashMap;

struct Rules {
    rules: Vec<(bool, String)>,
    defaultize: Vec<String>,
    /// calls of the first function are calls of the second one
    redirect: HashMap<String, String>,
}
impl Rules {
    fn load() -> Rules {
        let mut r = Rules { rules: vec![], defaultize: vec![], redirect: HashMap::new() };
        if let Ok(p) = std::env::var("MIRDUMP_RULES") {
            for l in std::fs::read_to_string(p).expect("rules").lines() {
                let l = l.trim();
                if let Some(x) = l.strip_prefix('+') {
                    r.rules.push((true, x.to_string()));
                } else if let Some(x) = l.strip_prefix('-') {
                    r.rules.push((false, x.to_string()));
                } else if let Some(x) = l.strip_prefix('~') {
                    r.defaultize.push(x.to_string());
                } else if let Some((a, b)) = l.strip_prefix('=').and_then(|x| x.split_once(' ')) {
                    r.redirect.insert(a.to_string(), b.to_string());
                }
            }
        }
        r
    }
    fn inline(&self, path: &str, modpath: &str) -> bool {
        let mut best: Option<(usize, bool)> = None;
        for (inc, p) in &self.rules {
            if path.starts_with(p.as_str()) || format!("{modpath}::").starts_with(p.as_str()) || path.contains(&format!("@{p}")) {
                if best.map_or(true, |(l, _)| p.len() >= l) {
                    best = Some((p.len(), *inc));
                }
            }
        }
        best.map_or(false, |b| b.1)
    }
}

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    rules: Rules,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<J>,
    bodies: Vec<(String, J)>,
    seen: HashMap<String, ()>,
    queue: Vec<(Instance<'tcx>, String)>,
    env: TypingEnv<'tcx>,
    root: String,
    root_def: DefId,
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let prefix = std::env::var("MIRDUMP_ROOTS").unwrap_or_else(|_| "w_".into());
    let extra: Vec<String> = std::env::var("MIRDUMP_EXTRA").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let env = TypingEnv::fully_monomorphized();
    let mut d = D {
        tcx,
        rules: Rules::load(),
        types: HashMap::new(),
        type_json: vec![],
        bodies: vec![],
        seen: HashMap::new(),
        queue: vec![],
        env,
        root: String::new(),
        root_def: DefId { krate: LOCAL_CRATE, index: rustc_hir::def_id::CRATE_DEF_INDEX },
    };
    let mut roots = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
    for k in keys {
        let def = k.to_def_id();
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let name = tcx.item_name(def).to_string();
        let full = d.path(def);
        let hit = name.starts_with(&prefix) || extra.iter().any(|e| full.contains(e.as_str()));
        if !hit {
            continue;
        }
        d.root = full.clone();
        d.root_def = def;
        d.env = TypingEnv::post_analysis(tcx, def);
        let args = ty::GenericArgs::identity_for_item(tcx, def);
        let inst = Instance::new_raw(def, args);
        let key = d.enqueue(inst);
        roots.push(J::A(vec![s(if name.starts_with(&prefix) { name } else { full }), s(key)]));
        while let Some((i, k)) = d.queue.pop() {
            let b = d.body(i);
            d.bodies.push((k, b));
        }
    }
    let pub_api = d.public_api();
    let out = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::A(roots)),
        ("types", J::A(std::mem::take(&mut d.type_json))),
        ("bodies", J::M(std::mem::take(&mut d.bodies))),
        ("crates", pub_api),
    ]);
    let mut o = String::new();
    out.w(&mut o);
    o
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            let c = self.tcx.crate_name(d.krate).to_string();
            if d.krate == LOCAL_CRATE && !p.starts_with('<') { format!("{c}::{p}") } else { p }
        }))
    }
    fn modpath(&self, d: DefId) -> String {
        let mut p = self.tcx.crate_name(d.krate).to_string();
        for e in self.tcx.def_path(d).data {
            if let rustc_hir::definitions::DefPathData::TypeNs(x) = e.data {
                p.push_str("::");
                p.push_str(x.as_str());
            } else {
                break;
            }
        }
        p
    }
    fn public_api(&self) -> J {
        // every crate in the dependency graph, by name (evidence: what was linked in)
        J::A(self.tcx.crates(()).iter().map(|c| s(self.tcx.crate_name(*c).to_string())).collect())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx.try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyi(t))
    }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(J::Null);
        let st = self.tystr(t);
        let mut f: Vec<(&'static str, J)> = vec![("s", s(st))];
        let freeze = !t.has_escaping_bound_vars() && !t.has_infer() && t.is_freeze(self.tcx, self.env);
        f.push(("freeze", J::B(freeze)));
        match *t.kind() {
            ty::Bool => f.push(("k", s("bool"))),
            ty::Char => f.push(("k", s("char"))),
            ty::Int(x) => {
                f.push(("k", s("int")));
                f.push(("signed", J::B(true)));
                f.push(("bits", n(x.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(x) => {
                f.push(("k", s("int")));
                f.push(("signed", J::B(false)));
                f.push(("bits", n(x.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(x) => {
                f.push(("k", s("float")));
                f.push(("bits", n(x.bit_width() as usize)));
            }
            ty::Str => f.push(("k", s("str"))),
            ty::Never => f.push(("k", s("never"))),
            ty::Array(e, len) => {
                f.push(("k", s("array")));
                f.push(("elem", self.ty(e)));
                f.push(("len", len.try_to_target_usize(self.tcx).map_or(J::Null, |x| n(x as usize))));
            }
            ty::Slice(e) => {
                f.push(("k", s("slice")));
                f.push(("elem", self.ty(e)));
            }
            ty::RawPtr(e, m) => {
                f.push(("k", s("ptr")));
                f.push(("mut", J::B(m.is_mut())));
                f.push(("to", self.ty(e)));
            }
            ty::Ref(_, e, m) => {
                f.push(("k", s("ref")));
                f.push(("mut", J::B(m.is_mut())));
                f.push(("to", self.ty(e)));
            }
            ty::Tuple(ts) => {
                f.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                f.push(("tys", J::A(v)));
            }
            ty::Adt(def, args) => {
                f.push(("k", s("adt")));
                f.push(("path", s(self.path(def.did()))));
                f.push(("crate", s(self.tcx.crate_name(def.did().krate).to_string())));
                f.push((
                    "kind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                f.push(("box", J::B(def.is_box())));
                let ta: Vec<J> = args.types().collect::<Vec<_>>().into_iter().map(|x| self.ty(x)).collect();
                f.push(("args", J::A(ta)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        J::U(def.discriminant_for_variant(self.tcx, vi).val)
                    } else {
                        J::U(0)
                    };
                    let mut fs = vec![];
                    for fd in v.fields.iter() {
                        let fty = fd.ty(self.tcx, args).skip_norm_wip();
                        fs.push(J::A(vec![
                            s(fd.name.to_string()),
                            self.ty(fty),
                            J::B(fd.vis.is_public()),
                        ]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", discr), ("fields", J::A(fs))]));
                }
                f.push(("variants", J::A(vs)));
            }
            ty::Closure(did, args) => {
                f.push(("k", s("closure")));
                f.push(("path", s(self.path(did))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|x| self.ty(x)).collect();
                f.push(("tys", J::A(v)));
                let inst = Instance::new_raw(did, args);
                let k = self.enqueue(inst);
                f.push(("key", s(k)));
            }
            ty::FnDef(did, args) => {
                f.push(("k", s("fndef")));
                f.push(("path", s(self.path(did))));
                let args = self
                    .tcx
                    .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(args))
                    .ok()
                    .and_then(|a| a.no_bound_vars())
                    .unwrap_or_else(|| args.skip_binder());
                let c = self.callee(did, args);
                f.push(("callee", c));
            }
            ty::Param(p) => {
                f.push(("k", s("param")));
                f.push(("name", s(p.name.to_string())));
            }
            ty::Alias(..) => f.push(("k", s("alias"))),
            ty::FnPtr(..) => f.push(("k", s("fnptr"))),
            ty::Dynamic(..) => f.push(("k", s("dyn"))),
            _ => f.push(("k", s("other"))),
        }
        self.type_json[i] = J::O(f);
        i
    }

    fn key(&self, i: &Instance<'tcx>) -> String {
        let b = with_no_visible_paths!(with_no_trimmed_paths!(format!("{i}")));
        let tag = match i.def {
            InstanceKind::Item(d) => format!("{}:{}", d.krate.as_u32(), d.index.as_u32()),
            _ => format!("{:?}", i.def),
        };
        if i.args.has_param() { format!("{b}#{tag}@{}", self.root) } else { format!("{b}#{tag}") }
    }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.key(&i);
        if self.seen.insert(k.clone(), ()).is_none() {
            self.queue.push((i, k.clone()));
        }
        k
    }

    /// The local function that stands for this one, if its bounds hold.
    fn redirect(&self, did: DefId, args: GenericArgsRef<'tcx>) -> Option<DefId> {
        let to = self.rules.redirect.get(&self.path(did))?;
        let tcx = self.tcx;
        let d = tcx.mir_keys(()).iter().map(|k| k.to_def_id()).find(|d| self.path(*d) == *to)?;
        if tcx.generics_of(d).count() != args.len() || tcx.instantiate_and_check_impossible_clauses((d, args)) {
            return None;
        }
        Some(d)
    }

    /// Description of a callee: path, trait info, and the key of its body when it is followed.
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let did = self.redirect(did, args).unwrap_or(did);
        let mut f: Vec<(&'static str, J)> = vec![("path", s(self.path(did)))];
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let ta: Vec<J> = targs.iter().map(|x| self.ty(*x)).collect();
        f.push(("targs", J::A(ta)));
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            f.push(("kind", s("other")));
            return J::O(f);
        }
        let tr = tcx.trait_of_assoc(did);
        if let Some(t) = tr {
            f.push(("trait", s(self.path(t))));
            f.push(("method", s(tcx.item_name(did).to_string())));
        }
        let res = Instance::try_resolve(tcx, self.env, did, args);
        let inst = match res {
            Ok(Some(i)) => i,
            _ => {
                f.push(("kind", s("unresolved")));
                return J::O(f);
            }
        };
        let idid = inst.def_id();
        let ipath = self.path(idid);
        let modp = self.modpath(idid);
        f.push(("rpath", s(ipath.clone())));
        f.push(("mod", s(modp.clone())));
        f.push(("crate", s(tcx.crate_name(idid.krate).to_string())));
        match inst.def {
            InstanceKind::Intrinsic(d) => {
                f.push(("kind", s("intrinsic")));
                f.push(("name", s(tcx.item_name(d).to_string())));
            }
            InstanceKind::Virtual(..) => f.push(("kind", s("virtual"))),
            InstanceKind::Shim(sh) => match sh {
                ShimKind::ClosureOnce { closure, .. } => {
                    f.push(("kind", s("closure_once")));
                    let i2 = Instance::new_raw(closure, inst.args);
                    // args of the shim instance: [closure_ty, tupled inputs]
                    let self_ty = inst.args.type_at(0);
                    let i2 = if let ty::Closure(cd, cargs) = *self_ty.kind() {
                        Instance::new_raw(cd, cargs)
                    } else {
                        i2
                    };
                    let k = self.enqueue(i2);
                    f.push(("key", s(k)));
                }
                ShimKind::FnPtr(_, t) => {
                    f.push(("kind", s("fnptr_shim")));
                    let c = if let ty::FnDef(d, a) = *t.kind() {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        self.callee(d, a)
                    } else {
                        J::Null
                    };
                    f.push(("target", c));
                }
                ShimKind::Clone(_, t) => {
                    f.push(("kind", s("clone_shim")));
                    f.push(("ty", self.ty(t)));
                }
                _ => {
                    f.push(("kind", s("shim")));
                    f.push(("dbg", s(format!("{sh:?}"))));
                }
            },
            InstanceKind::LlvmIntrinsic(_) => f.push(("kind", s("llvm"))),
            InstanceKind::Item(d) => {
                let mut inst = inst;
                // For leaf iterator types, use the trait's default body of the adaptor methods,
                // which is defined in terms of `next`.
                if let Some(t) = tr {
                    let m = tcx.item_name(did).to_string();
                    let impl_path = ipath.clone();
                    let prim = ["next", "next_back", "size_hint", "len", "count", "nth", "as_slice", "clone", "rev"];
                    if d != did
                        && !prim.contains(&m.as_str())
                        && self.rules.defaultize.iter().any(|p| modp.starts_with(p.as_str()) || impl_path.starts_with(p.as_str()))
                        && tcx.defaultness(did).has_value()
                        && self.path(t).contains("Iterator")
                    {
                        inst = Instance::new_raw(did, args);
                        f.push(("defaulted", J::B(true)));
                    }
                }
                let d = inst.def_id();
                let p = self.path(d);
                let modp = self.modpath(d);
                if tcx.is_closure_like(d) {
                    f.push(("closure", J::B(true)));
                }
                f.push(("kind", s("item")));
                if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
                    let of_variant = matches!(of, rustc_hir::def::CtorOf::Variant);
                    let parent = tcx.parent(d);
                    let vi = if of_variant {
                        let adt = tcx.adt_def(tcx.parent(parent));
                        adt.variant_index_with_id(parent).as_usize()
                    } else {
                        0
                    };
                    f.push(("ctor", n(vi)));
                }
                let avail = tcx.is_mir_available(d);
                f.push(("mir", J::B(avail)));
                if avail && (self.rules.inline(&p, &modp) || tcx.is_closure_like(d) || tcx.is_constructor(d)) {
                    let k = self.enqueue(inst);
                    f.push(("key", s(k)));
                }
            }
        }
        J::O(f)
    }

    fn sp(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return s("?");
        }
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }

    fn body(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let src = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            self.env,
            ty::EarlyBinder::bind(tcx, src.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("error", s("normalize"))]),
        };
        let mut f: Vec<(&'static str, J)> = vec![];
        f.push(("path", s(self.path(inst.def_id()))));
        f.push(("mod", s(self.modpath(inst.def_id()))));
        f.push(("crate", s(tcx.crate_name(inst.def_id().krate).to_string())));
        f.push(("span", self.sp(body.span)));
        f.push(("argc", n(body.arg_count)));
        f.push(("spread", body.spread_arg.map_or(J::Null, |l| n(l.as_usize()))));
        let locals: Vec<Ty<'tcx>> = body.local_decls.iter().map(|l| l.ty).collect();
        let lj: Vec<J> = locals.iter().map(|t| self.ty(*t)).collect();
        f.push(("locals", J::A(lj)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.push(J::A(vec![n(l.as_usize()), s(v.name.to_string())]));
                }
            }
        }
        f.push(("names", J::A(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, &body, inst);
                        st.push(J::A(vec![s("="), pj, rj, self.sp(x.source_info.span)]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::StorageLive(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("setd"), pj, n(variant_index.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            let oj = self.operand(o, inst);
                            st.push(J::A(vec![s("assume"), oj]));
                        }
                        _ => st.push(J::A(vec![s("other"), s(format!("{i:?}"))])),
                    },
                    _ => {}
                }
            }
            let t = self.term(bb.terminator(), &body, inst);
            bbs.push(J::O(vec![("s", J::A(st)), ("t", t), ("cleanup", J::B(bb.is_cleanup))]));
        }
        f.push(("blocks", J::A(bbs)));
        J::O(f)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![s("*")]),
                mir::ProjectionElem::Field(i, t) => J::A(vec![s("f"), n(i.as_usize()), self.ty(t)]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_usize())]),
                mir::ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                x => J::A(vec![s("?"), s(format!("{x:?}"))]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(v)])
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, inst: Instance<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            mir::Operand::Constant(c) => {
                let j = self.constant(c, inst);
                J::A(vec![s("k"), j])
            }
            mir::Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{r:?}"))]),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, _inst: Instance<'tcx>) -> J {
        let t = self.norm(c.const_.ty());
        let tj = self.ty(t);
        let mut f: Vec<(&'static str, J)> = vec![("ty", tj)];
        if matches!(t.kind(), ty::FnDef(..)) {
            f.push(("v", J::A(vec![s("zst")])));
            return J::O(f);
        }
        if c.const_.has_param() {
            f.push(("v", J::A(vec![s("opaque"), s(format!("{:?}", c.const_))])));
            if let mir::Const::Unevaluated(u, _) = c.const_ {
                f.push(("def", s(self.path(u.def))));
                if let Some(p) = u.promoted {
                    f.push(("promoted", n(p.as_usize())));
                    let vj = self.promoted(u, p);
                    f.push(("pv", vj));
                }
            }
            return J::O(f);
        }
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                f.push(("v", j));
            }
            Err(_) => f.push(("v", J::A(vec![s("opaque"), s(format!("{:?}", c.const_))]))),
        }
        J::O(f)
    }

    /// A promoted constant that depends on type parameters: describe `&[]`-like bodies.
    fn promoted(&mut self, u: mir::UnevaluatedConst<'tcx>, p: mir::Promoted) -> J {
        let body = &self.tcx.promoted_mir(u.def)[p];
        s(format!("{:?}", body.local_decls[mir::RETURN_PLACE].ty))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::A(vec![s("opaque"), s("depth")]);
        }
        let t = self.norm(t);
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let size = match tcx.layout_of(self.env.as_query_input(t)) {
                    Ok(l) => l.size,
                    Err(_) => return J::A(vec![s("opaque"), s("layout")]),
                };
                let bits = match v {
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let r = rustc_middle::mir::interpret::AllocRange { start: offset, size };
                            a.inner().read_scalar(&tcx, r, false).ok().and_then(|x| x.to_bits(size).discard_err())
                        } else {
                            None
                        }
                    }
                    _ => v.try_to_bits(size),
                };
                match bits {
                    Some(b) => {
                        let j = if let ty::Int(_) = t.kind() {
                            J::I(size.sign_extend(b) as i128)
                        } else {
                            J::U(b)
                        };
                        J::A(vec![s("int"), j])
                    }
                    None => J::A(vec![s("opaque"), s("bits")]),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.cref(v, inner, depth),
            ty::FnDef(..) | ty::Closure(..) => J::A(vec![s("zst")]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if matches!(t.kind(), ty::Adt(d, _) if d.is_union()) || t.has_param() {
                    return J::A(vec![s("opaque"), s("union")]);
                }
                if let ty::Array(_, len) = t.kind() {
                    if len.try_to_target_usize(tcx).map_or(true, |x| x > 4096) {
                        return J::A(vec![s("opaque"), s("bigarray")]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        J::A(vec![s("agg"), d.variant.map_or(J::Null, |x| n(x.as_usize())), J::A(fs)])
                    }
                    None => J::A(vec![s("opaque"), s("destructure")]),
                }
            }
            _ => J::A(vec![s("opaque"), s("kind")]),
        }
    }

    fn cref(&mut self, v: ConstValue, inner: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let inner = self.norm(inner);
        // string and byte slices
        if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
            if let ConstValue::Slice { alloc_id, meta } = v {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let is_bytes = matches!(inner.kind(), ty::Str)
                        || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8);
                    if is_bytes {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                    }
                    if meta == 0 {
                        return J::A(vec![s("emptyslice")]);
                    }
                    if let ty::Slice(e) = inner.kind() {
                        let arr = Ty::new_array(tcx, *e, meta);
                        let cv = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                        return J::A(vec![s("refslice"), self.cval(cv, arr, depth + 1)]);
                    }
                }
            }
            if let ConstValue::Indirect { alloc_id, offset } = v {
                // a wide pointer stored in memory (string fields of constants)
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let ps = tcx.data_layout.pointer_size();
                    let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: ps };
                    let r2 = rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps };
                    if let (Ok(Scalar::Ptr(p, _)), Ok(m)) =
                        (a.inner().read_scalar(&tcx, r, true), a.inner().read_scalar(&tcx, r2, false))
                    {
                        let (prov, off) = p.into_raw_parts();
                        if let (Some(len), GlobalAlloc::Memory(b)) =
                            (m.to_bits(ps).discard_err(), tcx.global_alloc(prov.alloc_id()))
                        {
                            if matches!(inner.kind(), ty::Str) {
                                let o = off.bytes() as usize;
                                let x = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize);
                                return J::A(vec![s("str"), s(String::from_utf8_lossy(x).to_string())]);
                            }
                        }
                    }
                }
            }
            return J::A(vec![s("opaque"), s("wide")]);
        }
        let sc = match v {
            ConstValue::Scalar(x) => Some(x),
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                    let r = rustc_middle::mir::interpret::AllocRange { start: offset, size: tcx.data_layout.pointer_size() };
                    a.inner().read_scalar(&tcx, r, true).ok()
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(Scalar::Ptr(p, _)) = sc {
            let (prov, off) = p.into_raw_parts();
            match tcx.global_alloc(prov.alloc_id()) {
                GlobalAlloc::Memory(_) => {
                    let cv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                    let j = self.cval(cv, inner, depth + 1);
                    return J::A(vec![s("ref"), j]);
                }
                GlobalAlloc::Static(d) => {
                    let mutbl = tcx.is_mutable_static(d);
                    let freeze = inner.is_freeze(tcx, self.env);
                    let mut val = J::Null;
                    if !mutbl && freeze && !tcx.is_foreign_item(d) && !tcx.is_thread_local_static(d) {
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            let cv = ConstValue::Indirect { alloc_id: id, offset: off };
                            val = self.cval(cv, inner, depth + 1);
                        }
                    }
                    return J::A(vec![s("static"), s(self.path(d)), val, J::B(mutbl), J::B(freeze)]);
                }
                _ => {}
            }
        }
        J::A(vec![s("opaque"), s("ref")])
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o, inst)]),
            mir::Rvalue::Repeat(o, c) => {
                let oj = self.operand(o, inst);
                J::A(vec![s("repeat"), oj, c.try_to_target_usize(tcx).map_or(J::Null, |x| n(x as usize))])
            }
            mir::Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p)])
            }
            mir::Rvalue::RawPtr(k, p) => {
                J::A(vec![s("raw"), s(format!("{k:?}")), self.place(p)])
            }
            mir::Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let fj = self.ty(from);
                let oj = self.operand(o, inst);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), oj, fj, tj])
            }
            mir::Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                let tj = self.ty(t);
                let a = self.operand(&b.0, inst);
                let c = self.operand(&b.1, inst);
                J::A(vec![s("bin"), s(format!("{op:?}")), a, c, tj])
            }
            mir::Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let tj = self.ty(t);
                let oj = self.operand(o, inst);
                J::A(vec![s("un"), s(format!("{op:?}")), oj, tj])
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("disc"), self.place(p), tj])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let oj: Vec<J> = ops.iter().map(|o| self.operand(o, inst)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![s("array"), self.ty(*t)]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, active) => {
                        let t = Ty::new_adt(tcx, tcx.adt_def(*d), args);
                        let tj = self.ty(t);
                        J::A(vec![
                            s("adt"),
                            tj,
                            n(v.as_usize()),
                            active.map_or(J::Null, |x| n(x.as_usize())),
                        ])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        J::A(vec![s("closure"), self.ty(t)])
                    }
                    mir::AggregateKind::RawPtr(t, m) => J::A(vec![s("rawptr"), self.ty(*t), J::B(m.is_mut())]),
                    x => J::A(vec![s("other"), s(format!("{x:?}"))]),
                };
                J::A(vec![s("agg"), kj, J::A(oj)])
            }
            mir::Rvalue::CopyForDeref(p) => {
                let pj = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), pj])])
            }
            x => J::A(vec![s("other"), s(format!("{x:?}"))]),
        }
    }

    fn term(&mut self, t: &mir::Terminator<'tcx>, body: &mir::Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = self.sp(t.source_info.span);
        match &t.kind {
            mir::TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("to", n(target.as_usize()))]),
            mir::TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                let tj = self.ty(ty);
                let dj = self.operand(discr, inst);
                let v = targets
                    .iter()
                    .map(|(v, b)| J::A(vec![J::U(v), n(b.as_usize())]))
                    .collect();
                J::O(vec![
                    ("k", s("switch")),
                    ("d", dj),
                    ("ty", tj),
                    ("v", J::A(v)),
                    ("else", n(targets.otherwise().as_usize())),
                    ("sp", sp),
                ])
            }
            mir::TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
            mir::TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
            mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => {
                J::O(vec![("k", s("resume"))])
            }
            mir::TerminatorKind::Drop { place, target, .. } => {
                let pj = self.place(place);
                let ty = place.ty(&body.local_decls, tcx).ty;
                let tj = self.ty(ty);
                J::O(vec![("k", s("drop")), ("p", pj), ("ty", tj), ("to", n(target.as_usize())), ("sp", sp)])
            }
            mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let fty = self.norm(fty);
                let cj = if let ty::FnDef(d, a) = *fty.kind() {
                    let a = tcx
                        .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(a))
                        .ok()
                        .and_then(|x| x.no_bound_vars())
                        .unwrap_or_else(|| a.skip_binder());
                    self.callee(d, a)
                } else {
                    let oj = self.operand(func, inst);
                    J::O(vec![("path", s("<fnptr>")), ("kind", s("fnptr")), ("op", oj)])
                };
                let aj: Vec<J> = args.iter().map(|x| self.operand(&x.node, inst)).collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(&body.local_decls, tcx);
                        self.ty(t)
                    })
                    .collect();
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dtj = self.ty(dt);
                let dj = self.place(destination);
                J::O(vec![
                    ("k", s("call")),
                    ("f", cj),
                    ("a", J::A(aj)),
                    ("at", J::A(at)),
                    ("dst", dj),
                    ("dty", dtj),
                    ("to", target.map_or(J::Null, |b| n(b.as_usize()))),
                    ("sp", sp),
                ])
            }
            mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let cj = self.operand(cond, inst);
                let mk = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => {
                        let a = self.operand(len, inst);
                        let b = self.operand(index, inst);
                        J::A(vec![s("bounds"), a, b])
                    }
                    mir::AssertKind::Overflow(op, a, b) => {
                        let ty = a.ty(&body.local_decls, tcx);
                        let tj = self.ty(ty);
                        let aj = self.operand(a, inst);
                        let bj = self.operand(b, inst);
                        J::A(vec![s("overflow"), s(format!("{op:?}")), aj, bj, tj])
                    }
                    mir::AssertKind::OverflowNeg(_) => J::A(vec![s("overflow_neg")]),
                    mir::AssertKind::DivisionByZero(_) => J::A(vec![s("div_zero")]),
                    mir::AssertKind::RemainderByZero(_) => J::A(vec![s("rem_zero")]),
                    x => J::A(vec![s("other"), s(format!("{x:?}"))]),
                };
                J::O(vec![
                    ("k", s("assert")),
                    ("c", cj),
                    ("exp", J::B(*expected)),
                    ("msg", mk),
                    ("to", n(target.as_usize())),
                    ("sp", sp),
                ])
            }
            x => J::O(vec![("k", s("other")), ("dbg", s(format!("{x:?}")))]),
        }
    }
}
