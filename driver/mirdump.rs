//! rustc driver: type-checks the crate as the real build does, then writes the
//! resolved, instantiated MIR of every local function as one JSON file.
//! Used as RUSTC_WORKSPACE_WRAPPER (argv: wrapper rustc args...).
//! Output: $MIRDUMP_OUT/<crate>-<hash>.json for library/bin targets of the workspace.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().unwrap_or(-1))
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    J::S(n.to_string()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyj: Vec<J>,
    seen: HashSet<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    fns: Vec<J>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified, stable across re-exports
        let krate = self.tcx.crate_name(d.krate).to_string();
        let p = rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
        );
        if d.krate == LOCAL_CRATE { format!("{krate}::{p}") } else { p }
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), i(lo.line)])
    }
    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        i(sm.lookup_char_pos(sp.lo()).line)
    }
    fn env(&self, inst: Instance<'tcx>) -> TypingEnv<'tcx> {
        use rustc_middle::ty::TypeVisitableExt;
        if inst.args.has_param() {
            TypingEnv::post_analysis(self.tcx, inst.def_id())
        } else {
            TypingEnv::fully_monomorphized()
        }
    }
    fn ikey(&self, inst: Instance<'tcx>) -> String {
        let k = match inst.def {
            ty::InstanceKind::Item(d) => self.path(d),
            other => format!("{{{}}}{}", kind_name(&other), self.path(other.def_id())),
        };
        // closures are only unique by DefId path; args printed in full
        let a = self.args_str(inst.args);
        format!("{k}|{a}")
    }
    fn args_str(&self, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.tystr(t)),
                GenericArgKind::Const(c) => v.push(format!("{c}")),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        v.join(",")
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(
            rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"))
        )
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&k) = self.tys.get(&t) {
            return i(k);
        }
        let k = self.tyj.len();
        self.tys.insert(t, k);
        self.tyj.push(J::N);
        let name = self.tystr(t);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(name))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", i(x.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(true)));
            }
            ty::Uint(x) => {
                o.push(("k", s("int")));
                o.push(("bits", i(x.bit_width().unwrap_or(64))));
                o.push(("signed", J::B(false)));
            }
            ty::Float(x) => {
                o.push(("k", s("float")));
                o.push(("bits", i(x.bit_width())));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, n) => {
                let e = self.ty(*e);
                o.push(("k", s("array")));
                o.push(("e", e));
                let n = self.tconst(*n);
                o.push(("n", n));
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                o.push(("k", s("slice")));
                o.push(("e", e));
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                o.push(("k", s("ptr")));
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                o.push(("k", s("ref")));
                o.push(("e", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("k", s("tuple")));
                o.push(("f", J::A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name.to_string())));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let args = a.no_bound_vars();
                if let Some(args) = args {
                    let av = self.gargs(args);
                    o.push(("args", av));
                    if let Some((key, local)) = self.resolve_any(*d, args) {
                        o.push(("inst", s(key)));
                        o.push(("local", J::B(local)));
                    }
                }
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                let inst = Instance::new_raw(*d, a);
                o.push(("inst", s(self.ikey(inst))));
                if d.is_local() {
                    self.enqueue(inst);
                }
                let ups: Vec<J> =
                    a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(ups)));
            }
            ty::Adt(def, a) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                let av = self.gargs(a);
                o.push(("args", av));
                let akind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                o.push(("adt", s(akind)));
                let p = self.path(def.did());
                let expand = def.did().is_local()
                    || def.is_enum()
                    || p.starts_with("core::ops::range::")
                    || p.starts_with("core::ops::Range")
                    || p.starts_with("kofft::")
                    || p.starts_with("wide::");
                if expand {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, a).skip_norm_wip();
                            let ft = self
                                .tcx
                                .try_normalize_erasing_regions(
                                    TypingEnv::fully_monomorphized(),
                                    ty::Unnormalized::new_wip(ft),
                                )
                                .unwrap_or(ft);
                            let tj = self.ty(ft);
                            let pv = if f.vis.is_public() { i(1) } else { i(0) };
                            fs.push(J::A(vec![s(f.name.to_string()), tj, pv]));
                        }
                        let disc = if def.is_enum() {
                            i(def.discriminant_for_variant(self.tcx, vi).val as i128)
                        } else {
                            i(0)
                        };
                        vs.push(J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("disc", disc),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        self.tyj[k] = J::O(o);
        i(k)
    }
    fn gargs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => {
                    let x = self.ty(t);
                    v.push(J::A(vec![s("t"), x]));
                }
                GenericArgKind::Const(c) => {
                    let x = self.tconst(c);
                    v.push(J::A(vec![s("c"), x]));
                }
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn tconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return i(n);
        }
        s(format!("{c}"))
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) {
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
    }
    fn resolve_any(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<(String, bool)> {
        use rustc_middle::ty::TypeVisitableExt;
        let args = self.tcx.erase_and_anonymize_regions(args);
        if args.has_param() {
            return None;
        }
        self.resolve(TypingEnv::fully_monomorphized(), d, args)
    }
    fn resolve(
        &mut self,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: GenericArgsRef<'tcx>,
    ) -> Option<(String, bool)> {
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(inst)) => {
                let local = inst.def_id().is_local()
                    && matches!(inst.def, ty::InstanceKind::Item(_))
                    && matches!(
                        self.tcx.def_kind(inst.def_id()),
                        DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                    )
                    && self.tcx.is_mir_available(inst.def_id());
                if local {
                    self.enqueue(inst);
                }
                Some((self.ikey(inst), local))
            }
            _ => None,
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("field"), i(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cindex"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), i(v.as_usize())]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::A(vec![i(p.local.as_usize()), J::A(pr)])
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("ty", tj)];
        if let Const::Unevaluated(u, _) = c {
            o.push(("def", s(self.path(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", i(p.as_usize())));
            }
        }
        if let ty::FnDef(d, a) = t.kind() {
            let args = a.no_bound_vars();
            if let Some(args) = args {
                let args = self.tcx.erase_and_anonymize_regions(args);
                o.push(("fn", s(self.path(*d))));
                let av = self.gargs(args);
                o.push(("args", av));
                if let Some((k, local)) = self.resolve(env, *d, args) {
                    o.push(("inst", s(k)));
                    o.push(("local", J::B(local)));
                }
                if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                    o.push(("trait", s(self.path(tr))));
                }
            }
            return J::A(vec![s("const"), J::O(o)]);
        }
        if let Const::Ty(_, tc) = c {
            if let ty::ConstKind::Param(p) = tc.kind() {
                o.push(("param", s(p.name.to_string())));
                return J::A(vec![s("const"), J::O(o)]);
            }
        }
        use rustc_middle::ty::TypeVisitableExt;
        if !matches!(c, Const::Unevaluated(u, _) if u.args.has_param()) {
            if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                self.cval(&mut o, t, v);
            }
        }
        J::A(vec![s("const"), J::O(o)])
    }
    fn cval(&mut self, o: &mut Vec<(&'static str, J)>, t: Ty<'tcx>, v: ConstValue) {
        match v {
            ConstValue::Scalar(Scalar::Int(n)) => {
                let bits = n.to_bits(n.size());
                o.push(("bits", s(format!("{bits}"))));
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(m)) => {
                        let a = m.inner();
                        self.bytes(o, a, off.bytes_usize());
                    }
                    Some(GlobalAlloc::Static(d)) => {
                        o.push(("static", s(self.path(d))));
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = m.inner();
                    if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                        let b = a
                            .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                    } else {
                        o.push(("meta", i(meta)));
                        self.bytes(o, a, 0);
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let a = m.inner();
                    o.push(("indirect", J::B(true)));
                    self.bytes(o, a, offset.bytes_usize());
                }
            }
        }
    }
    fn bytes(
        &mut self,
        o: &mut Vec<(&'static str, J)>,
        a: &mir::interpret::Allocation,
        off: usize,
    ) {
        let n = a.len();
        if n > 65536 || off > n {
            o.push(("toolong", i(n)));
            return;
        }
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..n);
        let mut h = String::new();
        for x in b {
            let _ = write!(h, "{x:02x}");
        }
        o.push(("bytes", s(h)));
        // pointers inside: follow one level for slices (e.g. &[&str] / fmt pieces): record strings
        let mut rel = vec![];
        for (po, prov) in a.provenance().ptrs().iter() {
            if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                let ia = m.inner();
                if ia.len() <= 4096 {
                    let bb = ia.inspect_with_uninit_and_ptr_outside_interpreter(0..ia.len());
                    let mut hh = String::new();
                    for x in bb {
                        let _ = write!(hh, "{x:02x}");
                    }
                    rel.push(J::A(vec![i(po.bytes_usize() as i128 - off as i128), s(hh)]));
                }
            }
        }
        if !rel.is_empty() {
            o.push(("ptrs", J::A(rel)));
        }
    }
    fn op(&mut self, env: TypingEnv<'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::A(vec![s("copy"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::A(vec![s("move"), p])
            }
            Operand::Constant(c) => self.constant(env, &c.const_),
            _ => J::A(vec![s("rtcheck")]),
        }
    }
    fn rv(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(env, o)]),
            Rvalue::Repeat(o, n) => {
                let a = self.op(env, o);
                let n = self.tconst(*n);
                J::A(vec![s("repeat"), a, n])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p);
                let m = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                    #[allow(unreachable_patterns)]
                    _ => "other",
                };
                J::A(vec![s("ref"), s(m), p])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                J::A(vec![s("rawptr"), s(format!("{k:?}")), p])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let a = self.op(env, o);
                let f = self.ty(from);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), a, f, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let x = self.op(env, &ops.0);
                let y = self.op(env, &ops.1);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{b:?}")), x, y, t])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let x = self.op(env, o);
                let t = self.ty(t);
                J::A(vec![s("un"), s(format!("{u:?}")), x, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let p = self.place(p);
                let t = self.ty(t);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.op(env, x)).collect();
                let rty = r.ty(&body.local_decls, self.tcx);
                let tyid = self.ty(rty);
                let kj = match &**k {
                    AggregateKind::Array(e) => {
                        let e = self.ty(*e);
                        J::A(vec![s("array"), e])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, af) => J::A(vec![
                        s("adt"),
                        tyid,
                        i(vi.as_usize()),
                        af.map(|x| i(x.as_usize())).unwrap_or(J::N),
                        s(self.path(*d)),
                    ]),
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*a));
                        if d.is_local() {
                            self.enqueue(inst);
                        }
                        J::A(vec![s("closure"), tyid, s(self.ikey(inst))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr"), tyid]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("copy"), p])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), p])
            }
            _ => J::A(vec![s("otherrv"), s(format!("{r:?}"))]),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => i(b.as_usize()),
            _ => J::N,
        }
    }
    fn dump(&mut self, inst: Instance<'tcx>) {
        let d = inst.def_id();
        let tcx = self.tcx;
        let env = self.env(inst);
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let body = &body;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("key", s(self.ikey(inst))));
        o.push(("path", s(self.path(d))));
        o.push(("span", self.span(tcx.def_span(d))));
        let a = self.gargs(inst.args);
        o.push(("args", a));
        let is_closure = tcx.is_closure_like(d);
        o.push(("closure", J::B(is_closure)));
        if is_closure {
            o.push(("parent", s(self.path(tcx.typeck_root_def_id(d)))));
        } else {
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            if let Some(l) = d.as_local() {
                let eff = tcx.effective_visibilities(());
                o.push(("exported", J::B(eff.is_exported(l) || eff.is_reachable(l))));
            }
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("of_trait", s(self.path(tr))));
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
                }
                o.push(("impl_self", s(self.tystr(tcx.type_of(im).skip_binder()))));
            }
        }
        if tcx.def_kind(d).has_codegen_attrs() {
            let tf: Vec<J> = tcx
                .codegen_fn_attrs(d)
                .target_features
                .iter()
                .map(|f| s(f.name.to_string()))
                .collect();
            o.push(("target_features", J::A(tf)));
        }
        o.push(("argc", i(body.arg_count)));
        if let Some(sp) = body.spread_arg {
            o.push(("spread", i(sp.as_usize())));
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(&p);
                    upv.push(J::A(vec![s(v.name.to_string()), pj]));
                }
            }
        }
        o.push(("dbg", J::A(upv)));
        let mut ls = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            ls.push(J::A(vec![
                t,
                names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::N),
            ]));
        }
        o.push(("locals", J::A(ls)));
        // the same casts and calls in terms of the function's own generic parameters
        let mut gc = vec![];
        let mut gl = vec![];
        for (n, bb) in raw.basic_blocks.iter_enumerated() {
            for x in &bb.statements {
                if let StatementKind::Assign(b) = &x.kind {
                    if let Rvalue::Cast(k, o, t) = &b.1 {
                        if matches!(k, CastKind::PtrToPtr | CastKind::Transmute) {
                            let f = o.ty(&raw.local_decls, tcx);
                            let ln = self.line(x.source_info.span);
                            gc.push(J::A(vec![i(n.as_usize()), s(format!("{k:?}")), s(self.tystr(f)), s(self.tystr(*t)), ln]));
                        }
                    }
                }
            }
            if let TerminatorKind::Call { func, .. } = &bb.terminator().kind {
                let ft = func.ty(&raw.local_decls, tcx);
                if let ty::FnDef(cd, ca) = ft.kind() {
                    let ga: Vec<J> = ca.skip_binder().iter().filter_map(|a| a.as_type()).map(|a| s(self.tystr(a))).collect();
                    let tf: Vec<J> = if tcx.def_kind(*cd).has_codegen_attrs() {
                        tcx.codegen_fn_attrs(*cd).target_features.iter().map(|f| s(f.name.to_string())).collect()
                    } else {
                        vec![]
                    };
                    let p = s(self.path(*cd));
                    gl.push(J::A(vec![i(n.as_usize()), p, J::A(ga), J::A(tf)]));
                }
            }
        }
        let gens: Vec<J> = ty::GenericArgs::identity_for_item(tcx, d).iter().filter_map(|a| a.as_type()).map(|a| s(self.tystr(a))).collect();
        o.push(("gens", J::A(gens)));
        o.push(("gcast", J::A(gc)));
        o.push(("gcall", J::A(gl)));
        let mut bs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rv(env, body, &b.1);
                        st.push(J::A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setdiscr"), p, i(variant_index.as_usize()), ln]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), i(l.as_usize())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), i(l.as_usize())]));
                    }
                    StatementKind::Intrinsic(n) => {
                        st.push(J::A(vec![s("intrinsic"), s(format!("{n:?}")), ln]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::A(vec![s("goto"), i(target.as_usize())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dj = self.op(env, discr);
                    let dt = self.ty(dt);
                    let mut v = vec![];
                    for (val, tg) in targets.iter() {
                        v.push(J::A(vec![s(format!("{val}")), i(tg.as_usize())]));
                    }
                    J::A(vec![
                        s("switch"),
                        dj,
                        J::A(v),
                        i(targets.otherwise().as_usize()),
                        dt,
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(place);
                    let dt = self.ty(dt);
                    J::A(vec![s("drop"), p, i(target.as_usize()), dt])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(env, func);
                    let a: Vec<J> = args.iter().map(|x| self.op(env, &x.node)).collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dst = self.place(destination);
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        dst,
                        target.map(|x| i(x.as_usize())).unwrap_or(J::N),
                        self.unwind(unwind),
                        ln.clone(),
                        dt,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::A(vec![s("bounds"), self.op(env, len), self.op(env, index)])
                        }
                        AssertKind::Overflow(b, x, y) => J::A(vec![
                            s("overflow"),
                            s(format!("{b:?}")),
                            self.op(env, x),
                            self.op(env, y),
                        ]),
                        AssertKind::OverflowNeg(x) => J::A(vec![s("negoverflow"), self.op(env, x)]),
                        AssertKind::DivisionByZero(x) => J::A(vec![s("div0"), self.op(env, x)]),
                        AssertKind::RemainderByZero(x) => J::A(vec![s("rem0"), self.op(env, x)]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, i(target.as_usize())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize())])
                }
                _ => J::A(vec![s("otherterm"), s(format!("{:?}", t.kind))]),
            };
            bs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", ln),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        {
            // identity of the body, for comparing build configurations
            use std::hash::{Hash, Hasher};
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            for l in body.local_decls.iter() {
                format!("{:?}", l.ty).hash(&mut h);
            }
            for bb in body.basic_blocks.iter() {
                for st in bb.statements.iter() {
                    format!("{:?}", st.kind).hash(&mut h);
                }
                format!("{:?}", bb.terminator().kind).hash(&mut h);
            }
            o.push(("h", s(format!("{:016x}", h.finish()))));
        }
        o.push(("blocks", J::A(bs)));
        self.fns.push(J::O(o));
    }

    /// Instances to analyse for one generic function: concrete choices per type parameter.
    fn roots(&mut self, d: DefId) -> Vec<Instance<'tcx>> {
        let tcx = self.tcx;
        let id = ty::GenericArgs::identity_for_item(tcx, d);
        // bounds per param name
        let mut bounds: HashMap<String, Vec<(String, Option<Ty<'tcx>>)>> = HashMap::new();
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        for p in preds.clauses {
            let p = p.skip_norm_wip();
            if let Some(tp) = p.as_trait_clause() {
                let tp = tp.skip_binder();
                if let ty::Param(pt) = tp.self_ty().kind() {
                    let second = tp
                        .trait_ref
                        .args
                        .types()
                        .nth(1);
                    bounds
                        .entry(pt.name.to_string())
                        .or_default()
                        .push((self.path(tp.def_id()), second));
                }
            }
        }
        let floats = [tcx.types.f32, tcx.types.f64];
        let fparam: Option<String> = bounds
            .iter()
            .find(|(_, b)| {
                b.iter().any(|(n, _)| n.ends_with("::Float") || n.ends_with("::RealFftNum"))
            })
            .map(|(n, _)| n.clone());
        let mut scalar_impl: Option<DefId> = None;
        for id in tcx.hir_crate_items(()).definitions() {
            let dd = id.to_def_id();
            if matches!(tcx.def_kind(dd), DefKind::Struct)
                && tcx.item_name(dd).as_str() == "ScalarFftImpl"
            {
                scalar_impl = Some(dd);
            }
        }
        let mut out = vec![];
        let nf = if fparam.is_some() { 2 } else { 1 };
        for fi in 0..nf {
            for concrete in [true, false] {
                let mut had_impl = false;
                let args = ty::GenericArgs::for_item(tcx, d, |p, _| {
                    let idarg = id[p.index as usize];
                    if let ty::GenericParamDefKind::Type { .. } = p.kind {
                        let n = p.name.to_string();
                        let b = bounds.get(&n).cloned().unwrap_or_default();
                        if b.iter()
                            .any(|(n, _)| n.ends_with("::Float") || n.ends_with("::RealFftNum"))
                        {
                            return floats[fi].into();
                        }
                        if let Some((_, second)) = b.iter().find(|(n, _)| {
                            n.ends_with("::FftImpl") || n.ends_with("::RealFftImpl")
                        }) {
                            had_impl = true;
                            if concrete {
                                if let Some(si) = scalar_impl {
                                    let inner = match second.map(|t| *t.kind()) {
                                        Some(ty::Float(_)) => second.unwrap(),
                                        _ => floats[fi],
                                    };
                                    let a = tcx.mk_args(&[inner.into()]);
                                    return Ty::new_adt(tcx, tcx.adt_def(si), a).into();
                                }
                            }
                        }
                    }
                    idarg
                });
                let args = tcx.erase_and_anonymize_regions(args);
                out.push(Instance::new_raw(d, args));
                if !had_impl {
                    break;
                }
            }
        }
        out
    }
}

fn kind_name(k: &ty::InstanceKind<'_>) -> String {
    let t = format!("{k:?}");
    t.split(|c| c == '(' || c == ' ' || c == '{').next().unwrap_or("").to_string()
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.cg.overflow_checks = Some(true);
        c.opts.cg.debug_assertions = Some(true);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let mut d = D {
            tcx,
            tys: HashMap::new(),
            tyj: vec![],
            seen: HashSet::new(),
            queue: VecDeque::new(),
            fns: vec![],
        };
        let mut nbodies = 0;
        let mut statics = vec![];
        let mut impls = vec![];
        let mut unsat = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(def) {
                        continue;
                    }
                    nbodies += 1;
                    for r in d.roots(def) {
                        if tcx.instantiate_and_check_impossible_clauses((def, r.args)) {
                            let k = d.ikey(r);
                            unsat.push(s(k));
                        }
                        d.enqueue(r);
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(def).skip_binder();
                    let tj = d.ty(t);
                    statics.push(J::A(vec![s(d.path(def)), tj]));
                }
                DefKind::Impl { of_trait: true } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(def) {
                        let tr = tr.skip_binder();
                        let uns = format!("{:?}", tcx.impl_trait_header(def).safety);
                        let pol = format!("{:?}", tcx.impl_polarity(def));
                        impls.push(J::O(vec![
                            ("trait", s(d.path(tr.def_id))),
                            ("self", s(d.tystr(tr.self_ty()))),
                            ("safety", s(uns)),
                            ("polarity", s(pol)),
                            ("span", d.span(tcx.def_span(def))),
                        ]));
                    }
                }
                _ => {}
            }
        }
        while let Some(inst) = d.queue.pop_front() {
            d.dump(inst);
        }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let ct: Vec<String> = tcx.crate_types().iter().map(|x| format!("{x:?}")).collect();
        let mut cfgs: Vec<J> = tcx
            .sess
            .opts
            .cg
            .target_feature
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| s(x))
            .collect();
        cfgs.push(s(format!("overflow={}", tcx.sess.overflow_checks())));
        let top = J::O(vec![
            ("crate", s(krate.clone())),
            ("types", s(ct.join(","))),
            ("cfg", J::A(cfgs)),
            ("session_tf", J::A(tcx.sess.config.iter().filter(|c| c.0.as_str() == "target_feature").filter_map(|c| c.1).map(|x| s(x.to_string())).collect())),
            ("nbodies", i(nbodies)),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("unsat_roots", J::A(unsat)),
            ("tys", J::A(d.tyj.clone())),
            ("fns", J::A(std::mem::take(&mut d.fns))),
        ]);
        let mut text = String::new();
        top.w(&mut text);
        let suffix = if ct.iter().any(|x| x == "Executable") { "bin" } else { "lib" };
        let f = format!("{out}/{krate}.{suffix}.json");
        std::fs::write(&f, text).expect("write mirdump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
