//! Facts extractor: a rustc driver that type-checks the crate exactly as rustc does and writes the
//! type-checked program (MIR bodies with resolved callees, impls with their predicates, traits,
//! ADTs) as JSON, for the Python rules in /verif/rules. It runs nothing of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(v) => {
                let _ = write!(o, "{v}");
            }
            J::S(v) => {
                o.push('"');
                for c in v.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    map: HashMap<Ty<'tcx>, usize>,
    /// monomorphic mode: instances found so far, in discovery order
    mono: bool,
    insts: Vec<ty::Instance<'tcx>>,
    imap: HashMap<ty::Instance<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, mono: bool) -> Self {
        Cx { tcx, tys: vec![], map: HashMap::new(), mono, insts: vec![], imap: HashMap::new() }
    }
    fn inst(&mut self, i: ty::Instance<'tcx>) -> usize {
        if let Some(&x) = self.imap.get(&i) {
            return x;
        }
        let x = self.insts.len();
        self.insts.push(i);
        self.imap.insert(i, x);
        x
    }
    fn ours(&self, d: DefId) -> bool {
        let c = self.tcx.crate_name(d.krate);
        c.as_str() == "sherman" || c.as_str() == "probe"
    }
    fn mentions(&self, t: Ty<'tcx>, closures_only: bool) -> bool {
        t.walk().any(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => match *t.kind() {
                ty::Closure(d, _) => self.ours(d),
                ty::Adt(d, _) => !closures_only && self.ours(d.did()),
                _ => false,
            },
            _ => false,
        })
    }
    /// whether to write out the body of an instance, or leave it as an opaque leaf
    fn wanted(&self, i: &ty::Instance<'tcx>) -> bool {
        use ty::InstanceKind as K;
        use ty::ShimKind as H;
        match i.def {
            K::Shim(H::DropGlue(_, Some(t))) => self.mentions(t, false),
            K::Shim(H::ClosureOnce { .. } | H::FnPtr(..) | H::Reify(..) | H::VTable(_)) => true,
            K::Item(d) => {
                if self.tcx.is_foreign_item(d) || !self.tcx.is_mir_available(d) {
                    return false;
                }
                if self.ours(d) {
                    return true;
                }
                let direct_probe = i.args.types().any(|t| match *t.kind() {
                    ty::Adt(a, _) => self.tcx.crate_name(a.did().krate).as_str() == "probe",
                    _ => false,
                });
                if direct_probe || i.args.types().any(|t| self.mentions(t, true)) {
                    return true;
                }
                let pth = self.path(d);
                if pth == "std::mem::drop" || pth == "core::mem::drop" {
                    return i.args.types().any(|t| self.mentions(t, false));
                }
                if let Some(im) = self.tcx.opt_associated_item(d).and_then(|a| a.impl_container(self.tcx)) {
                    if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                        if self.tcx.lang_items().drop_trait() == Some(tr.skip_binder().def_id) {
                            return i.args.types().any(|t| self.mentions(t, false));
                        }
                    }
                }
                false
            }
            _ => false,
        }
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn garg(&mut self, a: ty::GenericArg<'tcx>) -> J {
        match a.kind() {
            ty::GenericArgKind::Type(t) => n(self.ty(t)),
            ty::GenericArgKind::Lifetime(r) => s(format!("'{r}")),
            ty::GenericArgKind::Const(c) => s(format!("{c}")),
        }
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().map(|x| self.garg(x)).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.map.insert(t, i);
        let st = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.path(d.did()))));
                let g = self.gargs(a);
                o.push(("args", g));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner);
                o.push(("inner", n(x)));
            }
            ty::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(inner);
                o.push(("inner", n(x)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.key(d))));
                let mut v = vec![];
                for u in a.as_closure().upvar_tys().iter() {
                    v.push(n(self.ty(u)));
                }
                o.push(("upvars", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.key(d))));
                o.push(("path", s(self.path(d))));
                let g = self.gargs(a.no_bound_vars().unwrap_or_else(|| ty::List::empty()));
                o.push(("args", g));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(v)));
            }
            ty::Array(inner, _) | ty::Slice(inner) => {
                o.push(("k", s("array")));
                let x = self.ty(inner);
                o.push(("inner", n(x)));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("prim"))),
        }
        self.tys[i] = J::O(o);
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut adt = String::new();
                    match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            adt = self.path(d.did());
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() && pt.variant_index.is_none() {
                            } else if let Some(fd) = d.variant(vi).fields.get(f) {
                                name = fd.name.to_string();
                            }
                        }
                        ty::Closure(d, _) => adt = format!("closure:{}", self.key(*d)),
                        ty::Tuple(_) => adt = "tuple".into(),
                        _ => {}
                    }
                    let t = self.ty(fty);
                    v.push(J::A(vec![s("f"), n(f.as_usize()), s(name), s(adt), n(t)]));
                }
                ProjectionElem::Index(l) => v.push(J::A(vec![s("i"), n(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)]))
                }
                ProjectionElem::Subslice { .. } => v.push(J::A(vec![s("sub")])),
                ProjectionElem::Downcast(name, vi) => {
                    let nm = name.map(|x| x.to_string()).unwrap_or_default();
                    v.push(J::A(vec![s("d"), n(vi.as_usize()), s(nm)]))
                }
                _ => v.push(J::A(vec![s("o")])),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::A(vec![n(p.local.as_usize()), J::A(v), n(t)])
    }

    fn konst(&mut self, c: Const<'tcx>, te: TypingEnv<'tcx>) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", n(ti))];
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| ty::List::empty());
            o.push(("fn", s(self.path(d))));
            o.push(("key", s(self.key(d))));
            let g = self.gargs(a);
            o.push(("args", g));
            if let Some(ai) = self.tcx.opt_associated_item(d) {
                if let Some(tr) = ai.trait_container(self.tcx) {
                    o.push(("trait", s(self.path(tr))));
                }
                if let Some(im) = ai.impl_container(self.tcx) {
                    let st = self.tcx.type_of(im).instantiate(self.tcx, &a[..self.tcx.generics_of(im).count()]).skip_norm_wip();
                    let x = self.ty(st);
                    o.push(("implself", n(x)));
                }
                o.push(("name", s(ai.name().to_string())));
            } else if let Some(nm) = self.tcx.opt_item_name(d) {
                o.push(("name", s(nm.to_string())));
            }
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, te, d, a) {
                if self.mono {
                    if let ty::InstanceKind::Virtual(..) = inst.def {
                        o.push(("virtual", J::B(true)));
                    }
                    if self.wanted(&inst) {
                        let ii = self.inst(inst);
                        o.push(("inst", n(ii)));
                    }
                }
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rfn", s(self.path(rd))));
                    o.push(("rkey", s(self.key(rd))));
                }
            }
            return J::O(o);
        }
        match c {
            Const::Unevaluated(u, _) => {
                o.push(("uneval", s(self.path(u.def))));
                let g = self.gargs(u.args);
                o.push(("args", g));
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_usize())));
                }
            }
            Const::Ty(_, c) => o.push(("cty", s(format!("{c}")))),
            Const::Val(..) => {}
        }
        if let Some(b) = c.try_eval_bits(self.tcx, te) {
            o.push(("v", J::N(b as i128)));
        } else if let Const::Val(..) = c {
            o.push(("vs", s(with_no_trimmed_paths!(format!("{c}")))));
        }
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, te: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, *p))]),
            Operand::Constant(c) => J::O(vec![("k", self.konst(c.const_, te))]),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", J::O(vec![("vs", s(format!("{op:?}")))]))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o, te)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.operand(body, o, te)]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                J::B(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, *p),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("rawptr"),
                J::B(matches!(k, RawPtrKind::Mut)),
                self.place(body, *p),
            ]),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let mut extra = J::Null;
                if self.mono {
                    let src = o.ty(&body.local_decls, self.tcx);
                    if let CastKind::PointerCoercion(..) = k {
                        if let (Some(a), Some(b)) = (src.builtin_deref(true), t.builtin_deref(true)) {
                            if let (ty::Closure(d, ca), ty::Dynamic(..)) = (a.kind(), b.kind()) {
                                let inst = ty::Instance::new_raw(*d, ca);
                                let di = self.inst(inst);
                                let dt = self.ty(b);
                                extra = J::A(vec![n(di), n(dt)]);
                            }
                        }
                    }
                }
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(body, o, te), n(ti), extra])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(body, &ops.0, te),
                self.operand(body, &ops.1, te),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::A(vec![s("un"), s(format!("{u:?}")), self.operand(body, o, te)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, *p)]),
            Rvalue::Aggregate(k, ops) => {
                let (kind, variant, fields): (J, J, J) = match **k {
                    AggregateKind::Array(_) => (s("array"), J::Null, J::Null),
                    AggregateKind::Tuple => (s("tuple"), J::Null, J::Null),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let ad = self.tcx.adt_def(d);
                        let v = ad.variant(vi);
                        let fs = match af {
                            Some(f) => vec![s(v.fields[f].name.to_string())],
                            None => v.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        (s(self.path(d)), s(v.name.to_string()), J::A(fs))
                    }
                    AggregateKind::Closure(d, _) => {
                        (s("closure"), s(self.key(d)), J::Null)
                    }
                    AggregateKind::RawPtr(..) => (s("rawptr"), J::Null, J::Null),
                    _ => (s("other"), J::Null, J::Null),
                };
                let v = ops.iter().map(|o| self.operand(body, o, te)).collect();
                J::A(vec![s("agg"), kind, variant, fields, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, *p);
                J::A(vec![s("use"), J::O(vec![("c", pj)])])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), J::B(m.is_mut()), self.place(body, *p)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => n(b.as_usize()),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    upnames.push(J::A(vec![s(v.name.to_string()), pj]));
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let nm = names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![n(t), nm]));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, a.0);
                        let r = self.rvalue(body, &a.1, te);
                        st.push(J::A(vec![s("="), p, r, s(sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize()), s(sp)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), n(l.as_usize())]))
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{i:?}")), s(sp)]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut tj: Vec<(&'static str, J)> = vec![("sp", s(sp))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    tj.push(("k", s("goto")));
                    tj.push(("t", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    tj.push(("k", s("switch")));
                    let d = self.operand(body, discr, te);
                    tj.push(("d", d));
                    let v = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::N(v as i128), n(b.as_usize())]))
                        .collect();
                    tj.push(("ts", J::A(v)));
                    tj.push(("o", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::UnwindResume => tj.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => tj.push(("k", s("abort"))),
                TerminatorKind::Return => tj.push(("k", s("return"))),
                TerminatorKind::Unreachable => tj.push(("k", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    tj.push(("k", s("drop")));
                    let p = self.place(body, *place);
                    tj.push(("p", p));
                    tj.push(("t", n(target.as_usize())));
                    tj.push(("u", Self::unwind(unwind)));
                    if self.mono {
                        let t = place.ty(&body.local_decls, self.tcx).ty;
                        let inst = ty::Instance::resolve_drop_glue(self.tcx, t);
                        if self.wanted(&inst) {
                            let ii = self.inst(inst);
                            tj.push(("inst", n(ii)));
                        }
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    tj.push(("k", s("call")));
                    let f = self.operand(body, func, te);
                    tj.push(("f", f));
                    let a = args.iter().map(|x| self.operand(body, &x.node, te)).collect();
                    tj.push(("a", J::A(a)));
                    let d = self.place(body, *destination);
                    tj.push(("d", d));
                    tj.push(("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)));
                    tj.push(("u", Self::unwind(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    tj.push(("k", s("assert")));
                    let c = self.operand(body, cond, te);
                    tj.push(("c", c));
                    tj.push(("e", J::B(*expected)));
                    let m = format!("{msg:?}");
                    tj.push(("m", s(m.chars().take(40).collect::<String>())));
                    tj.push(("t", n(target.as_usize())));
                    tj.push(("u", Self::unwind(unwind)));
                }
                k => tj.push(("k", s(format!("other:{k:?}")))),
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(tj)),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("upnames", J::A(upnames)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn preds(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let mut cur = Some(d);
        while let Some(x) = cur {
            let p = self.tcx.clauses_of(x);
            for (c, _) in p.clauses {
                v.push(s(with_no_trimmed_paths!(format!("{c}"))));
            }
            cur = p.parent;
        }
        J::A(v)
    }

    fn vis(&self, d: DefId) -> J {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => s("pub"),
            ty::Visibility::Restricted(m) => s(self.path(m.into())),
        }
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx::new(tcx, false);
    let mut bodies = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
    let ev = tcx.effective_visibilities(());
    for k in keys {
        let d = k.to_def_id();
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            continue;
        }
        let te = TypingEnv::post_analysis(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(cx.path(d))),
            ("key", s(cx.key(d))),
            ("kind", s(format!("{kind:?}"))),
            ("span", s(cx.span(tcx.def_span(d)))),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("sig", s(with_no_trimmed_paths!(format!("{sig}")))));
            o.push(("vis", cx.vis(d)));
            o.push(("reach", J::B(ev.is_reachable(k))));
            let p = cx.preds(d);
            o.push(("preds", p));
            if let Some(ai) = tcx.opt_associated_item(d) {
                o.push(("name", s(ai.name().to_string())));
                if let Some(im) = ai.impl_container(tcx) {
                    let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    o.push(("implself", n(ti)));
                    o.push(("implkey", s(cx.key(im))));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        o.push(("traitref", s(with_no_trimmed_paths!(format!("{tr}")))));
                    }
                } else if let Some(tr) = ai.trait_container(tcx) {
                    o.push(("intrait", s(cx.path(tr))));
                }
            } else if let Some(nm) = tcx.opt_item_name(d) {
                o.push(("name", s(nm.to_string())));
            }
        }
        if matches!(kind, DefKind::Closure) {
            o.push(("parent", s(cx.key(tcx.typeck_root_def_id(d)))));
            o.push(("dparent", s(cx.key(tcx.parent(d)))));
        }
        let is_const = matches!(
            kind,
            DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::AnonConst
                | DefKind::Static { .. }
        );
        if is_const {
            let body = tcx.mir_for_ctfe(d);
            let b = cx.body(body, te);
            o.extend(b);
            if matches!(kind, DefKind::AssocConst { .. }) {
                if let Some(ai) = tcx.opt_associated_item(d) {
                    o.push(("name", s(ai.name().to_string())));
                    if let Some(im) = ai.impl_container(tcx) {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        o.push(("implself", n(ti)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(cx.path(tr.def_id))));
                        }
                    }
                }
            }
        } else {
            let body = tcx.optimized_mir(d);
            let b = cx.body(body, te);
            o.extend(b);
            let pr = tcx.promoted_mir(d);
            let mut pv = vec![];
            for p in pr.iter() {
                pv.push(J::O(cx.body(p, te)));
            }
            o.push(("promoted", J::A(pv)));
        }
        bodies.push(J::O(o));
    }
    // impls, adts, traits
    let mut impls = vec![];
    let mut adts = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let mut o = vec![
                    ("key", s(cx.key(d))),
                    ("self", n(ti)),
                    ("span", s(cx.span(tcx.def_span(d)))),
                ];
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let trr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(cx.path(trr.def_id))));
                    o.push(("traitref", s(with_no_trimmed_paths!(format!("{trr}")))));
                    let h = tcx.impl_trait_header(d);
                    o.push(("unsafe", J::B(!h.safety.is_safe())));
                    o.push(("polarity", s(format!("{:?}", h.polarity))));
                }
                let p = cx.preds(d);
                o.push(("preds", p));
                let mut items = vec![];
                for &it in tcx.associated_item_def_ids(d) {
                    let ai = tcx.associated_item(it);
                    let mut io = vec![("name", s(ai.name().to_string())), ("key", s(cx.key(it)))];
                    if tcx.def_kind(it) == DefKind::AssocTy {
                        let t = tcx.type_of(it).instantiate_identity().skip_norm_wip();
                        let x = cx.ty(t);
                        io.push(("ty", n(x)));
                    }
                    items.push(J::O(io));
                }
                o.push(("items", J::A(items)));
                impls.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let mut vs = vec![];
                for v in ad.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        fs.push(J::O(vec![
                            ("name", s(f.name.to_string())),
                            ("ty", n(ti)),
                            ("vis", cx.vis(f.did)),
                        ]));
                    }
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
                }
                adts.push(J::O(vec![
                    ("path", s(cx.path(d))),
                    ("reach", J::B(ev.is_reachable(id))),
                    ("vis", cx.vis(d)),
                    ("variants", J::A(vs)),
                    ("repr", s(format!("{:?}", ad.repr()))),
                    ("span", s(cx.span(tcx.def_span(d)))),
                ]));
            }
            DefKind::Trait { .. } => {
                let td = tcx.trait_def(d);
                let p = cx.preds(d);
                let mut items = vec![];
                for &it in tcx.associated_item_def_ids(d) {
                    let ai = tcx.associated_item(it);
                    items.push(J::O(vec![
                        ("name", s(ai.name().to_string())),
                        ("default", J::B(ai.defaultness(tcx).has_value())),
                    ]));
                }
                traits.push(J::O(vec![
                    ("path", s(cx.path(d))),
                    ("unsafe", J::B(!td.safety.is_safe())),
                    ("reach", J::B(ev.is_reachable(id))),
                    ("vis", cx.vis(d)),
                    ("preds", p),
                    ("items", J::A(items)),
                ]));
            }
            _ => {}
        }
    }
    let top = J::O(vec![
        ("bodies", J::A(bodies)),
        ("impls", J::A(impls)),
        ("adts", J::A(adts)),
        ("traits", J::A(traits)),
        ("types", J::A(std::mem::take(&mut cx.tys))),
    ]);
    let mut st = String::new();
    top.w(&mut st);
    std::fs::write(out, st).unwrap();
}

/// Monomorphic program: every function reachable from the `pub fn`s of the probe crate's `roots`
/// module, with all generics substituted.
fn dump_mono(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx::new(tcx, true);
    let te = TypingEnv::fully_monomorphized();
    let mut roots = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
    for k in keys {
        let d = k.to_def_id();
        if tcx.def_kind(d) == DefKind::Fn && cx.path(d).starts_with("roots::") {
            let i = cx.inst(ty::Instance::mono(tcx, d));
            roots.push(J::A(vec![s(cx.path(d)), n(i)]));
        }
    }
    let mut bodies = vec![];
    let mut idx = 0;
    while idx < cx.insts.len() {
        let inst = cx.insts[idx];
        let generic = tcx.instance_mir(inst.def).clone();
        let body: Body<'_> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            te,
            ty::EarlyBinder::bind(tcx, generic),
        );
        let d = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", n(idx)),
            ("path", s(cx.path(d))),
            ("key", s(cx.key(d))),
            ("inst", s(with_no_trimmed_paths!(format!("{inst}")))),
            ("crate", s(tcx.crate_name(d.krate).to_string())),
            ("span", s(cx.span(tcx.def_span(d)))),
        ];
        let g = cx.gargs(inst.args);
        o.push(("args", g));
        match inst.def {
            ty::InstanceKind::Item(d) => {
                o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
                if let Some(ai) = tcx.opt_associated_item(d) {
                    o.push(("name", s(ai.name().to_string())));
                    if let Some(im) = ai.impl_container(tcx) {
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            o.push(("trait", s(cx.path(tr.skip_binder().def_id))));
                        }
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("implself", s(with_no_trimmed_paths!(format!("{st}")))));
                    } else if let Some(tr) = ai.trait_container(tcx) {
                        o.push(("trait", s(cx.path(tr))));
                    }
                } else if let Some(nm) = tcx.opt_item_name(d) {
                    o.push(("name", s(nm.to_string())));
                }
            }
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(_, Some(t))) => {
                o.push(("kind", s("DropGlue")));
                let t = cx.ty(t);
                o.push(("dropty", n(t)));
            }
            _ => o.push(("kind", s("Shim"))),
        }
        let b = cx.body(&body, te);
        o.extend(b);
        bodies.push(J::O(o));
        idx += 1;
    }
    let top = J::O(vec![
        ("bodies", J::A(bodies)),
        ("roots", J::A(roots)),
        ("types", J::A(std::mem::take(&mut cx.tys))),
    ]);
    let mut st = String::new();
    top.w(&mut st);
    std::fs::write(out, st).unwrap();
}

struct Cb {
    out: String,
    mono: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.mono {
            dump_mono(tcx, &self.out)
        } else {
            dump(tcx, &self.out)
        }
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    // invoked as a RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = match name.as_deref() {
        Some("sherman") => std::env::var("VP_OUT").ok(),
        Some("probe") => std::env::var("VP_MONO_OUT").ok(),
        _ => None,
    };
    if matches!(name.as_deref(), Some("sherman") | Some("probe")) {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Zalways-encode-mir".into());
    }
    if let Some(out) = out {
        let mono = name.as_deref() == Some("probe");
        rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out, mono })
        })
    } else {
        rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Nop)
        })
    }
}
