//! Fact extractor: runs rustc on the analysed crate and writes its type-checked
//! program (ADTs, impls, signatures, MIR with resolved callees) as JSON.
//! It decides nothing itself; the rules live in /verif/analyser.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::{self, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Unit<'tcx> {
    Fn(ty::Instance<'tcx>),
    Promoted(DefId, mir::Promoted, ty::GenericArgsRef<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    /// Name patterns of functions the analyser models itself.
    stop: Vec<String>,
    /// Function bodies requested so far; the key's first part is the item whose
    /// where-clauses are in force, None for fully concrete bodies.
    units: HashMap<(Option<DefId>, Unit<'tcx>), usize>,
    work: Vec<(Option<DefId>, Unit<'tcx>)>,
    cur: Option<DefId>,
    /// std function -> its replacement in the shim crate
    shims: HashMap<String, DefId>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn unit(&mut self, u: Unit<'tcx>) -> usize {
        let args = match u {
            Unit::Fn(i) => i.args,
            Unit::Promoted(_, _, a) => a,
        };
        let env = if args.has_param() { self.cur } else { None };
        if let Some(i) = self.units.get(&(env, u)) {
            return *i;
        }
        let i = self.work.len();
        self.units.insert((env, u), i);
        self.work.push((env, u));
        i
    }

    fn stopped(&self, n: &str) -> bool {
        self.stop.iter().any(|p| match p.strip_suffix('*') {
            Some(p) => n.starts_with(p),
            None => n == p,
        })
    }

    fn emit_unit(&mut self, idx: usize) -> J {
        let tcx = self.tcx;
        let (envd, u) = self.work[idx];
        self.cur = envd;
        let env = match envd {
            Some(d) => TypingEnv::post_analysis(tcx, d),
            None => TypingEnv::fully_monomorphized(),
        };
        let mut o = vec![("id", J::N(idx as i128))];
        let (did, args) = match u {
            Unit::Fn(i) => (i.def_id(), i.args),
            Unit::Promoted(d, _, a) => (d, a),
        };
        let name = path(tcx, did);
        o.push(("n", J::s(name.clone())));
        o.push(("local", J::B(did.is_local())));
        o.push(("krate", J::s(tcx.crate_name(did.krate).to_string())));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(path(tcx, tr))));
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                o.push(("impl", J::s(path(tcx, t.skip_binder().def_id))));
            }
        }
        if let Some(nm) = tcx.opt_item_name(did) {
            o.push(("m", J::s(nm.to_string())));
        }
        let a = self.args(args);
        o.push(("a", a));
        let at = self.loc(tcx.def_span(did));
        o.push(("at", at));
        let kind = match u {
            Unit::Promoted(..) => "promoted".to_string(),
            Unit::Fn(i) => match i.def {
                ty::InstanceKind::Item(_) if tcx.is_closure_like(did) => "closure".to_string(),
                ty::InstanceKind::Item(_) => "item".to_string(),
                ty::InstanceKind::Virtual(..) => "virtual".to_string(),
                ty::InstanceKind::Intrinsic(..) => "intrinsic".to_string(),
                k => format!("{k:?}").split('(').next().unwrap_or("").to_string(),
            },
        };
        let is_item = kind == "item" || kind == "closure";
        o.push(("k", J::s(kind.clone())));
        let body = match u {
            Unit::Promoted(d, p, _) => Some(&tcx.promoted_mir(d)[p]),
            Unit::Fn(i) => {
                if kind == "virtual" || kind == "intrinsic" {
                    None
                } else if is_item && !tcx.is_mir_available(did) {
                    None
                } else if !did.is_local() && self.stopped(&name) {
                    None
                } else if is_item
                    && !tcx.is_closure_like(did)
                    && tcx.fn_sig(did).skip_binder().output().skip_binder().is_never()
                {
                    None
                } else {
                    Some(tcx.instance_mir(i.def))
                }
            }
        };
        if is_item && !tcx.is_closure_like(did) {
            let never = tcx.fn_sig(did).skip_binder().output().skip_binder().is_never();
            o.push(("never", J::B(never)));
        }
        if let Some(b) = body {
            let b = b.clone();
            let b = match u {
                Unit::Fn(i) => i.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    env,
                    ty::EarlyBinder::bind(tcx, b),
                ),
                Unit::Promoted(_, _, a) => tcx.instantiate_and_normalize_erasing_regions(
                    a,
                    env,
                    ty::EarlyBinder::bind(tcx, b),
                ),
            };
            let b = self.body(env, &b);
            o.push(("body", b));
        }
        J::O(o)
    }

    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        // expansion site inside the analysed crate, so macro bodies still point somewhere
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        J::s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return J::N(*i as i128);
        }
        let idx = self.ty_out.len();
        self.tys.insert(t, idx);
        self.ty_out.push(J::Null);
        let mut o: Vec<(&'static str, J)> = Vec::new();
        let k = |s: &str| ("k", J::s(s));
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(k("prim"));
                o.push(("n", J::s(format!("{t}"))));
            }
            ty::Adt(def, args) => {
                o.push(k("adt"));
                o.push(("n", J::s(path(self.tcx, def.did()))));
                let a = self.args(args);
                o.push(("a", a));
            }
            ty::Ref(_, t, m) => {
                o.push(k("ref"));
                o.push(("m", J::B(m.is_mut())));
                let t = self.ty(t);
                o.push(("t", t));
            }
            ty::RawPtr(t, m) => {
                o.push(k("ptr"));
                o.push(("m", J::B(m.is_mut())));
                let t = self.ty(t);
                o.push(("t", t));
            }
            ty::Tuple(ts) => {
                o.push(k("tup"));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Slice(t) => {
                o.push(k("slice"));
                let t = self.ty(t);
                o.push(("t", t));
            }
            ty::Array(t, n) => {
                o.push(k("array"));
                let t = self.ty(t);
                o.push(("t", t));
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| J::N(x as i128))
                    .unwrap_or(J::Null);
                o.push(("len", n));
            }
            ty::Param(p) => {
                o.push(k("param"));
                o.push(("n", J::s(p.name.as_str())));
            }
            ty::Closure(d, args) => {
                o.push(k("closure"));
                o.push(("n", J::s(path(self.tcx, d))));
                let a = self.args(args.as_closure().parent_args());
                o.push(("a", a));
            }
            ty::FnDef(d, args) => {
                o.push(k("fndef"));
                o.push(("n", J::s(path(self.tcx, d))));
                let args = args.no_bound_vars().unwrap_or_default();
                let a = self.args(args);
                o.push(("a", a));
            }
            _ => {
                if let ty::Alias(..) = t.kind() {
                    o.push(k("alias"));
                } else {
                    o.push(k("other"));
                }
            }
        }
        o.push(("s", J::s(with_no_trimmed_paths!(format!("{t}")))));
        if !t.has_param() && !t.has_aliases() && !t.has_escaping_bound_vars() {
            let env = TypingEnv::fully_monomorphized();
            if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                if l.is_sized() {
                    o.push(("sz", J::N(l.size.bytes() as i128)));
                    o.push(("al", J::N(l.align.abi.bytes() as i128)));
                }
            }
            if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Closure(..)) {
                o.push(("nd", J::B(t.needs_drop(self.tcx, env))));
            }
        }
        self.ty_out[idx] = J::O(o);
        J::N(idx as i128)
    }

    fn args(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Lifetime(_) => {}
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }

    /// Names of the type parameters in the order `args` lists their arguments.
    fn generics(&self, d: DefId) -> J {
        let mut v = Vec::new();
        let id = ty::GenericArgs::identity_for_item(self.tcx, d);
        for a in id.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(J::s(format!("{t}"))),
                GenericArgKind::Lifetime(_) => {}
                _ => v.push(J::s("<const>")),
            }
        }
        J::A(v)
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut proj = Vec::new();
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(self.tcx, e);
            let j = match e {
                ProjectionElem::Deref => {
                    let k = match pt.ty.kind() {
                        ty::Ref(..) => "r",
                        ty::RawPtr(..) => "p",
                        _ => "b",
                    };
                    let t = self.ty(npt.ty);
                    J::A(vec![J::s("*"), J::s(k), t])
                }
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![J::s("f"), J::s(name), J::N(f.as_usize() as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![
                    J::s("ci"),
                    J::N(offset as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => format!("{}", v.as_usize()),
                    };
                    J::A(vec![J::s("v"), J::s(name), J::N(v.as_usize() as i128)])
                }
                _ => J::A(vec![J::s("?"), J::s(format!("{e:?}"))]),
            };
            proj.push(j);
            pt = npt;
        }
        let t = self.ty(pt.ty);
        J::O(vec![
            ("l", J::N(p.local.as_usize() as i128)),
            ("p", J::A(proj)),
            ("t", t),
        ])
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let p = self.place(body, p);
                J::O(vec![("o", J::s("copy")), ("p", p)])
            }
            mir::Operand::Move(p) => {
                let p = self.place(body, p);
                J::O(vec![("o", J::s("move")), ("p", p)])
            }
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let mut v = vec![("o", J::s("const"))];
                let tj = self.ty(t);
                v.push(("t", tj));
                if let ty::FnDef(d, args) = t.kind() {
                    let args = args.no_bound_vars().unwrap_or_default();
                    let f = self.callee(env, *d, args);
                    v.push(("fn", f));
                } else {
                    let bits = match t.kind() {
                        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                            c.const_.try_eval_bits(self.tcx, env)
                        }
                        _ => None,
                    };
                    match bits {
                        Some(b) => v.push(("v", J::N(b as i128))),
                        None => {
                            v.push(("d", J::s(with_no_trimmed_paths!(format!("{}", c.const_)))));
                        }
                    }
                    if let mir::Const::Unevaluated(u, _) = c.const_ {
                        v.push(("cn", J::s(path(self.tcx, u.def))));
                        if let Some(p) = u.promoted {
                            let id = self.unit(Unit::Promoted(u.def, p, u.args));
                            v.push(("promoted", J::N(id as i128)));
                        }
                    }
                }
                J::O(v)
            }
            _ => J::O(vec![("o", J::s("const")), ("t", J::Null), ("d", J::s(format!("{o:?}")))]),
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![("n", J::s(path(tcx, d)))];
        let a = self.args(args);
        v.push(("a", a));
        v.push(("local", J::B(d.is_local())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", J::s(path(tcx, tr))));
            v.push(("m", J::s(tcx.item_name(d).to_string())));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if tcx.trait_of_assoc(d).is_some_and(|t| tcx.fn_trait_kind_from_def_id(t).is_some()) {
            // Calls of closures and function items go straight to their body; the
            // second argument is the tuple of the body's arguments.
            let direct = match *eargs.type_at(0).kind() {
                ty::Closure(c, a) => Some(ty::Instance::new_raw(c, a)),
                ty::FnDef(f, a) => {
                    let a = a.no_bound_vars().unwrap_or_default();
                    ty::Instance::try_resolve(tcx, env, f, a).ok().flatten()
                }
                _ => None,
            };
            if let (None, ty::FnDef(f, a)) = (direct, eargs.type_at(0).kind()) {
                // A trait method of a type parameter, called through FnOnce and the like.
                let a = a.no_bound_vars().unwrap_or_default();
                let J::O(mut c) = self.callee(env, *f, a) else { unreachable!() };
                c.push(("untuple", J::s("fn")));
                return J::O(c);
            }
            if let Some(i) = direct {
                v.push(("untuple", J::s(if tcx.is_closure_like(i.def_id()) { "closure" } else { "fn" })));
                v.push(("r", J::s(path(tcx, i.def_id()))));
                let id = self.unit(Unit::Fn(i));
                v.push(("i", J::N(id as i128)));
                return J::O(v);
            }
        }
        let shim = self.shims.get(&path(tcx, d)).copied();
        if let Some(sd) = shim {
            if tcx.generics_of(sd).count() == eargs.len() {
                let i = ty::Instance::new_raw(sd, eargs);
                v.push(("shim", J::B(true)));
                v.push(("r", J::s(path(tcx, sd))));
                let id = self.unit(Unit::Fn(i));
                v.push(("i", J::N(id as i128)));
                return J::O(v);
            }
        }
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
            let mut i = i;
            if let Some(sd) = self.shims.get(&path(tcx, i.def_id())).copied() {
                if tcx.generics_of(sd).count() == i.args.len() {
                    i = ty::Instance::new_raw(sd, i.args);
                    v.push(("shim", J::B(true)));
                }
            }
            let rd = i.def_id();
            v.push(("r", J::s(path(tcx, rd))));
            let id = self.unit(Unit::Fn(i));
            v.push(("i", J::N(id as i128)));
            let ra = self.args(i.args);
            v.push(("ra", ra));
            v.push(("rl", J::B(rd.is_local())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            v.push(("unsafe", J::B(sig.safety().is_unsafe())));
        }
        J::O(v)
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let o = self.operand(body, env, o);
                J::O(vec![("r", J::s("use")), ("o", o)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::O(vec![
                    ("r", J::s("use")),
                    ("o", J::O(vec![("o", J::s("copy")), ("p", p)])),
                ])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(body, p);
                J::O(vec![("r", J::s("reborrow")), ("m", J::B(m.is_mut())), ("p", p)])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(body, env, o);
                J::O(vec![("r", J::s("repeat")), ("o", o), ("n", J::s(format!("{n}")))])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(body, p);
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::O(vec![("r", J::s("ref")), ("m", J::B(m)), ("p", p)])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(body, p);
                let m = matches!(k, mir::RawPtrKind::Mut);
                J::O(vec![("r", J::s("rawptr")), ("m", J::B(m)), ("p", p)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = {
                    let t = o.ty(&body.local_decls, self.tcx);
                    self.ty(t)
                };
                let o = self.operand(body, env, o);
                let t = self.ty(*t);
                let ks = match k {
                    mir::CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                J::O(vec![("r", J::s("cast")), ("k", J::s(ks)), ("o", o), ("t", t), ("ft", from)])
            }
            Rvalue::BinaryOp(op, b) => {
                let lt = {
                    let t = b.0.ty(&body.local_decls, self.tcx);
                    self.ty(t)
                };
                let a = self.operand(body, env, &b.0);
                let c = self.operand(body, env, &b.1);
                J::O(vec![
                    ("r", J::s("bin")),
                    ("op", J::s(format!("{op:?}"))),
                    ("a", a),
                    ("b", c),
                    ("t", lt),
                ])
            }
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(body, env, o);
                J::O(vec![("r", J::s("un")), ("op", J::s(format!("{op:?}"))), ("a", o)])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(body, p);
                J::O(vec![("r", J::s("discr")), ("p", p)])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut v = vec![("r", J::s("agg"))];
                match &**k {
                    mir::AggregateKind::Tuple => v.push(("k", J::s("tup"))),
                    mir::AggregateKind::Array(_) => v.push(("k", J::s("array"))),
                    mir::AggregateKind::Adt(d, vi, args, _, _) => {
                        v.push(("k", J::s("adt")));
                        v.push(("n", J::s(path(self.tcx, *d))));
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        v.push(("v", J::s(var.name.to_string())));
                        v.push(("vi", J::N(vi.as_usize() as i128)));
                        v.push(("enum", J::B(def.is_enum())));
                        v.push((
                            "fn",
                            J::A(var.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ));
                        let a = self.args(args);
                        v.push(("a", a));
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        v.push(("k", J::s("closure")));
                        v.push(("n", J::s(path(self.tcx, *d))));
                    }
                    mir::AggregateKind::RawPtr(t, m) => {
                        v.push(("k", J::s("rawptr")));
                        v.push(("m", J::B(m.is_mut())));
                        let t = self.ty(*t);
                        v.push(("t", t));
                    }
                    o => v.push(("k", J::s(format!("{o:?}")))),
                }
                let f = fs.iter().map(|o| self.operand(body, env, o)).collect();
                v.push(("f", J::A(f)));
                J::O(v)
            }
            o => J::O(vec![("r", J::s("other")), ("d", J::s(format!("{o:?}")))]),
        }
    }

    fn body(&mut self, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = Vec::new();
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = Vec::new();
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::N(p.local.as_usize() as i128), J::s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in bb.statements.iter() {
                let loc = self.loc(s.source_info.span);
                let j = match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, env, &b.1);
                        J::O(vec![("s", J::s("assign")), ("p", p), ("v", r), ("at", loc)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        J::O(vec![
                            ("s", J::s("setdiscr")),
                            ("p", p),
                            ("vi", J::N(variant_index.as_usize() as i128)),
                            ("at", loc),
                        ])
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(body, env, o);
                            J::O(vec![("s", J::s("assume")), ("o", o), ("at", loc)])
                        }
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(body, env, &c.src);
                            let b = self.operand(body, env, &c.dst);
                            let n = self.operand(body, env, &c.count);
                            J::O(vec![
                                ("s", J::s("copynon")),
                                ("a", a),
                                ("b", b),
                                ("n", n),
                                ("at", loc),
                            ])
                        }
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![("at", loc)];
            let bbn = |b: &mir::BasicBlock| J::N(b.as_usize() as i128);
            let unwind = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => J::N(b.as_usize() as i128),
                _ => J::Null,
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", J::s("goto")));
                    o.push(("to", bbn(target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", J::s("switch")));
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(body, env, discr);
                    o.push(("d", d));
                    o.push(("dt", dt));
                    o.push((
                        "ts",
                        J::A(targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::N(v as i128), bbn(&b)]))
                            .collect()),
                    ));
                    o.push(("else", bbn(&targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", J::s("return"))),
                TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", J::s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", J::s("abort"))),
                TerminatorKind::Drop { place, target, unwind: u, .. } => {
                    o.push(("k", J::s("drop")));
                    let p = self.place(body, place);
                    o.push(("p", p));
                    o.push(("to", bbn(target)));
                    o.push(("uw", unwind(u)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u, .. } => {
                    o.push(("k", J::s("call")));
                    let f = match func.ty(body, tcx).kind() {
                        ty::FnDef(d, a) if func.constant().is_none() => {
                            let a = a.no_bound_vars().unwrap_or_default();
                            let c = self.callee(env, *d, a);
                            J::O(vec![("o", J::s("const")), ("fn", c)])
                        }
                        _ => self.operand(body, env, func),
                    };
                    o.push(("f", f));
                    let a = args.iter().map(|a| self.operand(body, env, &a.node)).collect();
                    o.push(("args", J::A(a)));
                    let d = self.place(body, destination);
                    o.push(("dst", d));
                    o.push(("to", target.as_ref().map(bbn).unwrap_or(J::Null)));
                    o.push(("uw", unwind(u)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
                    o.push(("k", J::s("assert")));
                    let c = self.operand(body, env, cond);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) | mir::AssertKind::OverflowNeg(..) => "overflow",
                        mir::AssertKind::DivisionByZero(..) => "div0",
                        mir::AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    o.push(("m", J::s(m)));
                    o.push(("to", bbn(target)));
                    o.push(("uw", unwind(u)));
                }
                k => {
                    o.push(("k", J::s("other")));
                    o.push(("d", J::s(format!("{k:?}"))));
                }
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::N(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn trait_holds(&self, name: &str, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let d = match name {
            "Sync" => tcx.lang_items().sync_trait(),
            "Copy" => tcx.lang_items().copy_trait(),
            "Send" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send")),
            _ => None,
        };
        let Some(d) = d else { return J::Null };
        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
        let r = infcx.type_implements_trait(d, [t], ty::ParamEnv::empty());
        J::B(r.must_apply_considering_regions())
    }

    fn sig(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let s0 = with_no_trimmed_paths!(format!("{sig}"));
        // Late-bound regions become free, so two mentions of one lifetime print alike.
        let lib = tcx.liberate_late_bound_regions(d, sig);
        let ins = lib
            .inputs()
            .iter()
            .map(|t| {
                let id = self.ty(*t);
                let r = self.regions(*t);
                J::O(vec![("t", id), ("r", r)])
            })
            .collect();
        let out = lib.output();
        let outr = self.regions(out);
        let out = self.ty(out);
        J::O(vec![
            ("s", J::s(s0)),
            ("in", J::A(ins)),
            ("out", out),
            ("outr", outr),
            ("unsafe", J::B(lib.safety().is_unsafe())),
        ])
    }

    /// Every region mentioned in the type, outermost first.
    fn regions(&self, t: Ty<'tcx>) -> J {
        let mut v = Vec::new();
        for a in t.walk() {
            if let GenericArgKind::Lifetime(r) = a.kind() {
                v.push(J::s(format!("{r:?}")));
            }
        }
        J::A(v)
    }

    fn preds(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut v = Vec::new();
        let mut cur = Some(d);
        while let Some(d) = cur {
            let ps = tcx.clauses_of(d);
            for (c, _) in ps.clauses {
                v.push(J::s(with_no_trimmed_paths!(format!("{c:?}"))));
            }
            cur = ps.parent;
        }
        J::A(v)
    }
}

/// `ecs_shims::Iterator__find` stands for `std::iter::Iterator::find`.
fn find_shims(tcx: TyCtxt<'_>) -> HashMap<String, DefId> {
    let mut m = HashMap::new();
    for c in tcx.crates(()) {
        if tcx.crate_name(*c).as_str() != "ecs_shims" {
            continue;
        }
        for ch in tcx.module_children(c.as_def_id()) {
            if let Some(d) = ch.res.opt_def_id() {
                let n = ch.ident.name.to_string();
                let t = match n.split_once("__") {
                    Some(("VecFrom", f)) => format!("<std::vec::Vec<T> as std::iter::FromIterator<T>>::{f}"),
                    Some(("VecExtend", f)) => format!("<std::vec::Vec<T, A> as std::iter::Extend<T>>::{f}"),
                    Some(("VecExtendRef", f)) => format!("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::{f}"),
                    Some(("slice", f)) => format!("core::slice::<impl [T]>::{f}"),
                    _ => format!("std::iter::{}", n.replace("__", "::")),
                };
                m.insert(t, d);
            }
        }
    }
    m
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(out) = std::env::var("ECS_FACTS_OUT") else { return Compilation::Continue };
        let want = std::env::var("ECS_FACTS_CRATE").unwrap_or_default();
        let cn = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if cn != want {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            stop: std::env::var("ECS_STOP")
                .unwrap_or_default()
                .split_whitespace()
                .map(|s| s.to_string())
                .collect(),
            units: HashMap::new(),
            work: Vec::new(),
            cur: None,
            shims: find_shims(tcx),
            tys: HashMap::new(),
            ty_out: Vec::new(),
        };
        let vis = tcx.effective_visibilities(());
        let mut fns = Vec::new();
        let mut adts = Vec::new();
        let mut traits = Vec::new();
        let mut impls = Vec::new();

        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut vs = Vec::new();
                    for v in def.variants() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ft = cx.ty(ft);
                            fs.push(J::O(vec![
                                ("n", J::s(f.name.to_string())),
                                ("t", ft),
                                ("pub", J::B(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::O(vec![("n", J::s(v.name.to_string())), ("f", J::A(fs))]));
                    }
                    let send = cx.trait_holds("Send", t);
                    let sync = cx.trait_holds("Sync", t);
                    let copy = cx.trait_holds("Copy", t);
                    let tj = cx.ty(t);
                    let g = cx.generics(d);
                    let dtor = tcx
                        .adt_destructor(d)
                        .map(|x| J::s(path(tcx, x.did)))
                        .unwrap_or(J::Null);
                    let at = cx.loc(tcx.def_span(d));
                    adts.push(J::O(vec![
                        ("n", J::s(path(tcx, d))),
                        ("t", tj),
                        ("g", g),
                        ("kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                        ("v", J::A(vs)),
                        ("reach", J::B(vis.is_reachable(ld))),
                        ("exported", J::B(vis.is_exported(ld))),
                        ("send", send),
                        ("sync", sync),
                        ("copy", copy),
                        ("drop", dtor),
                        ("at", at),
                    ]));
                }
                DefKind::Trait => {
                    let items = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|i| J::s(path(tcx, *i)))
                        .collect();
                    let sup: Vec<J> = tcx
                        .explicit_super_clauses_of(d)
                        .skip_binder()
                        .iter()
                        .map(|(c, _)| J::s(with_no_trimmed_paths!(format!("{c:?}"))))
                        .collect();
                    // does `Self: Trait` alone imply `Self: Copy`?
                    let implies_copy = {
                        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                        let penv = tcx.param_env(d);
                        let st = tcx.types.self_param;
                        match tcx.lang_items().copy_trait() {
                            Some(c) if tcx.generics_of(d).own_params.len() == 1 => J::B(
                                infcx
                                    .type_implements_trait(c, [st], penv)
                                    .must_apply_considering_regions(),
                            ),
                            _ => J::Null,
                        }
                    };
                    traits.push(J::O(vec![
                        ("n", J::s(path(tcx, d))),
                        ("items", J::A(items)),
                        ("super", J::A(sup)),
                        ("copy", implies_copy),
                        ("reach", J::B(vis.is_reachable(ld))),
                        ("exported", J::B(vis.is_exported(ld))),
                        ("unsafe", J::B(tcx.trait_def(d).safety.is_unsafe())),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let stj = cx.ty(st);
                    let tr = tcx
                        .impl_opt_trait_ref(d)
                        .map(|t| {
                            let t = t.instantiate_identity().skip_norm_wip();
                            J::s(with_no_trimmed_paths!(format!("{t}")))
                        })
                        .unwrap_or(J::Null);
                    let trn = tcx
                        .impl_opt_trait_ref(d)
                        .map(|t| J::s(path(tcx, t.skip_binder().def_id)))
                        .unwrap_or(J::Null);
                    let items = tcx
                        .associated_item_def_ids(d)
                        .iter()
                        .map(|i| J::s(path(tcx, *i)))
                        .collect();
                    let mut assoc = Vec::new();
                    for i in tcx.associated_items(d).in_definition_order() {
                        if i.is_type() {
                            let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            assoc.push(J::A(vec![J::s(i.name().to_string()), t]));
                        }
                    }
                    let unsafe_ = if tcx.impl_opt_trait_ref(d).is_some() {
                        J::B(tcx.impl_trait_header(d).safety.is_unsafe())
                    } else {
                        J::B(false)
                    };
                    let neg = if tcx.impl_opt_trait_ref(d).is_some() {
                        J::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative)
                    } else {
                        J::B(false)
                    };
                    let at = cx.loc(tcx.def_span(d));
                    let preds = cx.preds(d);
                    impls.push(J::O(vec![
                        ("self", stj),
                        ("trait", tr),
                        ("tn", trn),
                        ("items", J::A(items)),
                        ("assoc", J::A(assoc)),
                        ("unsafe", unsafe_),
                        ("neg", neg),
                        ("preds", preds),
                        ("at", at),
                    ]));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let has_body = tcx.is_mir_available(d);
                    let mut o = vec![("n", J::s(path(tcx, d)))];
                    let g = cx.generics(d);
                    o.push(("g", g));
                    let s = cx.sig(d);
                    o.push(("sig", s));
                    o.push(("reach", J::B(vis.is_reachable(ld))));
                    o.push(("exported", J::B(vis.is_exported(ld))));
                    let at = cx.loc(tcx.def_span(d));
                    o.push(("at", at));
                    let preds = cx.preds(d);
                    o.push(("preds", preds));
                    if let Some(im) = tcx.impl_of_assoc(d) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let st = cx.ty(st);
                        o.push(("self", st));
                        if let Some(t) = tcx.impl_opt_trait_ref(im) {
                            o.push(("trait", J::s(path(tcx, t.skip_binder().def_id))));
                        }
                    } else if let Some(tr) = tcx.trait_of_assoc(d) {
                        o.push(("of_trait", J::s(path(tcx, tr))));
                    }
                    o.push(("m", J::s(tcx.item_name(d).to_string())));
                    if let Some(ai) = tcx.opt_associated_item(d) {
                        o.push(("method", J::B(ai.is_method())));
                    }
                    if has_body {
                        cx.cur = Some(d);
                        let args = ty::GenericArgs::identity_for_item(tcx, d);
                        let args = tcx.erase_and_anonymize_regions(args);
                        let id = cx.unit(Unit::Fn(ty::Instance::new_raw(d, args)));
                        o.push(("i", J::N(id as i128)));
                    }
                    fns.push(J::O(o));
                }
                _ => {}
            }
        }
        let mut units = Vec::new();
        let mut k = 0;
        while k < cx.work.len() && k < 20000 {
            let u = cx.emit_unit(k);
            units.push(u);
            k += 1;
        }
        let root = J::O(vec![
            ("units", J::A(units)),
            ("crate", J::s(cn)),
            ("tys", J::A(cx.ty_out)),
            ("adts", J::A(adts)),
            ("traits", J::A(traits)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
        ]);
        let mut s = String::new();
        root.write(&mut s);
        std::fs::write(&out, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("ECS_FACTS_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    if let (true, Ok(rlib)) = (is_target, std::env::var("ECS_SHIMS")) {
        args.push("-Zunstable-options".into());
        args.push("--extern".into());
        args.push(format!("force:ecs_shims={rlib}"));
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
