//! Compiler driver that dumps the type-checked program (MIR bodies with resolved
//! callees, data types, impls) of each workspace member as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON output
struct J(String);
impl J {
    fn s(&mut self, v: &str) {
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\t' => self.0.push_str("\\t"),
                '\r' => self.0.push_str("\\r"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn raw(&mut self, v: &str) {
        self.0.push_str(v);
    }
    fn n(&mut self, v: impl std::fmt::Display) {
        let _ = write!(self.0, "{}", v);
    }
    fn key(&mut self, k: &str) {
        self.s(k);
        self.raw(":");
    }
    fn list<T>(&mut self, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut J, T)) {
        self.raw("[");
        let mut first = true;
        for x in it {
            if !first {
                self.raw(",");
            }
            first = false;
            f(self, x);
        }
        self.raw("]");
    }
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
}

fn did<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pstr<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn tystr(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

impl<'tcx> Ctx<'tcx> {
    fn span(&self, j: &mut J, sp: Span) {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        j.n(lo.line);
    }

    fn place(&self, j: &mut J, p: &Place<'tcx>) {
        j.raw("[");
        j.n(p.local.as_u32());
        j.raw(",[");
        let mut first = true;
        for (base, elem) in p.iter_projections() {
            if !first {
                j.raw(",");
            }
            first = false;
            match elem {
                ProjectionElem::Deref => j.raw("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let bt = base.ty(self.body, self.tcx);
                    let mut name = String::new();
                    if let ty::Adt(adt, _) = bt.ty.kind() {
                        if adt.is_struct() || adt.is_union() {
                            name = adt.non_enum_variant().fields[f].name.to_string();
                        } else if let Some(v) = bt.variant_index {
                            name = adt.variant(v).fields[f].name.to_string();
                        }
                    } else if let ty::Closure(d, _) = bt.ty.kind() {
                        if let Some(l) = d.as_local() {
                            let caps = self.tcx.closure_captures(l);
                            if f.index() < caps.len() {
                                name = caps[f.index()].to_symbol().to_string();
                            }
                        }
                    }
                    j.raw("[\"f\",");
                    j.n(f.as_u32());
                    j.raw(",");
                    j.s(&name);
                    j.raw("]");
                }
                ProjectionElem::Index(l) => {
                    j.raw("[\"i\",");
                    j.n(l.as_u32());
                    j.raw("]");
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    j.raw("[\"ci\",");
                    j.n(offset);
                    j.raw(if from_end { ",1]" } else { ",0]" });
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    j.raw("[\"s\",");
                    j.n(from);
                    j.raw(",");
                    j.n(to);
                    j.raw(if from_end { ",1]" } else { ",0]" });
                }
                ProjectionElem::Downcast(name, v) => {
                    j.raw("[\"d\",");
                    j.n(v.as_u32());
                    j.raw(",");
                    j.s(&name.map(|s| s.to_string()).unwrap_or_default());
                    j.raw("]");
                }
                _ => j.raw("[\"?\"]"),
            }
        }
        j.raw("]]");
    }

    fn bytes_json(&self, j: &mut J, b: &[u8]) {
        match std::str::from_utf8(b) {
            Ok(s) if s.chars().all(|c| !c.is_control()) => {
                j.raw(",\"str\":");
                j.s(s);
            }
            _ => {
                j.raw(",\"bytes\":");
                j.list(b.iter(), |j, x| j.n(*x));
            }
        }
    }

    fn fndef(&self, j: &mut J, d: DefId, args: ty::GenericArgsRef<'tcx>) {
        let tcx = self.tcx;
        j.raw("\"fn\":");
        j.s(&did(tcx, d));
        j.raw(",\"path\":");
        j.s(&pstr(tcx, d));
        j.raw(",\"args\":");
        j.list(args.iter().filter(|a| a.as_region().is_none()), |j, a| {
            j.s(&with_no_trimmed_paths!(format!("{}", a)))
        });
        if let Some(t) = tcx.trait_of_assoc(d) {
            j.raw(",\"trait\":");
            j.s(&pstr(tcx, t));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    if rd != d {
                        j.raw(",\"res\":");
                        j.s(&did(tcx, rd));
                        j.raw(",\"rpath\":");
                        j.s(&pstr(tcx, rd));
                        j.raw(",\"rargs\":");
                        j.list(inst.args.iter().filter(|a| a.as_region().is_none()), |j, a| {
                            j.s(&with_no_trimmed_paths!(format!("{}", a)))
                        });
                    }
                }
            }
        }
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
            let a = a.inner();
            let sz = a.size().bytes();
            if off + len <= sz && a.provenance().ptrs().is_empty() {
                return Some(
                    a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize)
                        .to_vec(),
                );
            }
        }
        None
    }

    fn constval(&self, j: &mut J, v: ConstValue, t: Ty<'tcx>) {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                j.raw(",\"int\":");
                if t.is_signed() {
                    j.n(i.to_int(i.size()));
                } else {
                    j.n(i.to_bits(i.size()));
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Static(d) => {
                        j.raw(",\"static\":");
                        j.s(&pstr(self.tcx, d));
                    }
                    GlobalAlloc::Memory(_) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(el, n) = inner.kind() {
                                if *el == self.tcx.types.u8 {
                                    if let Some(n) = n.try_to_target_usize(self.tcx) {
                                        if let Some(b) = self.alloc_bytes(id, off.bytes(), n) {
                                            self.bytes_json(j, &b);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let esz = match t.kind() {
                    ty::Ref(_, inner, _) => match inner.kind() {
                        ty::Str => 1,
                        ty::Slice(e) if *e == self.tcx.types.u8 => 1,
                        _ => 0,
                    },
                    _ => 0,
                };
                if esz == 1 {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                        self.bytes_json(j, &b);
                    }
                } else {
                    j.raw(",\"slicelen\":");
                    j.n(meta);
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Array(el, n) = t.kind() {
                    if *el == self.tcx.types.u8 {
                        if let Some(n) = n.try_to_target_usize(self.tcx) {
                            if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), n) {
                                self.bytes_json(j, &b);
                            }
                        }
                    }
                }
            }
            ConstValue::ZeroSized => {}
        }
    }

    fn constant(&self, j: &mut J, c: &ConstOperand<'tcx>) {
        let tcx = self.tcx;
        let t = c.const_.ty();
        j.raw("[\"k\",{\"ty\":");
        j.s(&tystr(t));
        match t.kind() {
            ty::FnDef(d, args) => {
                j.raw(",");
                self.fndef(j, *d, args.skip_binder());
                j.raw("}]");
                return;
            }
            ty::Closure(d, _) => {
                j.raw(",\"closure\":");
                j.s(&did(tcx, *d));
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            j.raw(",\"def\":");
            j.s(&did(tcx, u.def));
            j.raw(",\"path\":");
            j.s(&pstr(tcx, u.def));
            if let Some(p) = u.promoted {
                j.raw(",\"promoted\":");
                j.n(p.as_u32());
            } else {
                j.raw(",\"args\":");
                j.list(u.args.iter().filter(|a| a.as_region().is_none()), |j, a| {
                    j.s(&with_no_trimmed_paths!(format!("{}", a)))
                });
            }
        }
        if let Const::Ty(_, k) = c.const_ {
            j.raw(",\"tyconst\":");
            j.s(&with_no_trimmed_paths!(format!("{}", k)));
        }
        let generic = c.const_.has_non_region_param() || c.const_.has_aliases();
        if !generic {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                self.constval(j, v, t);
            }
        }
        j.raw("}]");
    }

    fn operand(&self, j: &mut J, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                j.raw("[\"c\",");
                self.place(j, p);
                j.raw("]");
            }
            Operand::Move(p) => {
                j.raw("[\"m\",");
                self.place(j, p);
                j.raw("]");
            }
            Operand::Constant(c) => self.constant(j, c),
            _ => j.raw("[\"k\",{\"ty\":\"bool\",\"int\":0}]"),
        }
    }

    fn rvalue(&self, j: &mut J, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, ..) => {
                j.raw("[\"use\",");
                self.operand(j, o);
                j.raw("]");
            }
            Rvalue::Repeat(o, n) => {
                j.raw("[\"repeat\",");
                self.operand(j, o);
                j.raw(",");
                j.s(&with_no_trimmed_paths!(format!("{}", n)));
                j.raw("]");
            }
            Rvalue::Ref(_, k, p) => {
                j.raw(if matches!(k, BorrowKind::Mut { .. }) { "[\"ref\",1," } else { "[\"ref\",0," });
                self.place(j, p);
                j.raw("]");
            }
            Rvalue::RawPtr(_, p) => {
                j.raw("[\"ref\",1,");
                self.place(j, p);
                j.raw("]");
            }
            Rvalue::Reborrow(_, m, p) => {
                j.raw(if m.is_mut() { "[\"ref\",1," } else { "[\"ref\",0," });
                self.place(j, p);
                j.raw("]");
            }
            Rvalue::Cast(k, o, t) => {
                j.raw("[\"cast\",");
                j.s(&format!("{:?}", k));
                j.raw(",");
                self.operand(j, o);
                j.raw(",");
                j.s(&tystr(*t));
                j.raw("]");
            }
            Rvalue::BinaryOp(op, ab) => {
                j.raw("[\"bin\",");
                j.s(&format!("{:?}", op));
                j.raw(",");
                self.operand(j, &ab.0);
                j.raw(",");
                self.operand(j, &ab.1);
                j.raw("]");
            }
            Rvalue::UnaryOp(op, o) => {
                j.raw("[\"un\",");
                j.s(&format!("{:?}", op));
                j.raw(",");
                self.operand(j, o);
                j.raw("]");
            }
            Rvalue::Discriminant(p) => {
                j.raw("[\"disc\",");
                self.place(j, p);
                let t = p.ty(self.body, self.tcx).ty;
                j.raw(",");
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        let ds: Vec<_> = adt.discriminants(self.tcx).collect();
                        j.raw("[");
                        let mut first = true;
                        for (v, d) in ds {
                            if !first {
                                j.raw(",");
                            }
                            first = false;
                            j.raw("[");
                            j.s(&d.val.to_string());
                            j.raw(",");
                            j.s(adt.variant(v).name.as_str());
                            j.raw("]");
                        }
                        j.raw("]");
                    } else {
                        j.raw("[]");
                    }
                } else {
                    j.raw("[]");
                }
                j.raw("]");
            }
            Rvalue::Aggregate(k, ops) => {
                j.raw("[\"agg\",{");
                match &**k {
                    AggregateKind::Array(_) => j.raw("\"k\":\"array\""),
                    AggregateKind::Tuple => j.raw("\"k\":\"tuple\""),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        j.raw("\"k\":\"adt\",\"adt\":");
                        j.s(&pstr(self.tcx, *d));
                        j.raw(",\"variant\":");
                        j.s(var.name.as_str());
                        j.raw(",\"vi\":");
                        j.n(v.as_u32());
                        j.raw(",\"enum\":");
                        j.n(adt.is_enum() as u32);
                        j.raw(",\"fields\":");
                        if let Some(a) = active {
                            j.list([var.fields[*a].name], |j, f| j.s(f.as_str()));
                        } else {
                            j.list(var.fields.iter(), |j, f| j.s(f.name.as_str()));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        j.raw("\"k\":\"closure\",\"fn\":");
                        j.s(&did(self.tcx, *d));
                    }
                    _ => j.raw("\"k\":\"other\""),
                }
                j.raw("},");
                j.list(ops.iter(), |j, o| self.operand(j, o));
                j.raw("]");
            }
            Rvalue::CopyForDeref(p) => {
                j.raw("[\"use\",[\"c\",");
                self.place(j, p);
                j.raw("]]");
            }
            other => {
                j.raw("[\"other\",");
                j.s(&format!("{:?}", other));
                j.raw("]");
            }
        }
    }

    fn body(&self, j: &mut J, body: &Body<'tcx>) {
        j.raw("\"argc\":");
        j.n(body.arg_count);
        // variable names
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() && v.composite.is_none() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        j.raw(",\"locals\":");
        j.list(body.local_decls.iter_enumerated(), |j, (l, d)| {
            j.raw("[");
            j.s(&tystr(d.ty));
            j.raw(",");
            match &names[l.as_usize()] {
                Some(n) => j.s(n),
                None => j.raw("null"),
            }
            j.raw("]");
        });
        j.raw(",\"blocks\":");
        j.list(body.basic_blocks.iter(), |j, bb| {
            j.raw("{\"c\":");
            j.n(bb.is_cleanup as u32);
            j.raw(",\"s\":");
            j.list(
                bb.statements.iter().filter(|s| {
                    matches!(s.kind, StatementKind::Assign(..) | StatementKind::SetDiscriminant { .. })
                }),
                |j, s| match &s.kind {
                    StatementKind::Assign(b) => {
                        j.raw("[\"=\",");
                        self.place(j, &b.0);
                        j.raw(",");
                        self.rvalue(j, &b.1);
                        j.raw(",");
                        self.span(j, s.source_info.span);
                        j.raw("]");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        j.raw("[\"setdisc\",");
                        self.place(j, place);
                        j.raw(",");
                        j.n(variant_index.as_u32());
                        j.raw("]");
                    }
                    _ => unreachable!(),
                },
            );
            j.raw(",\"t\":");
            let t = bb.terminator();
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    j.raw("[\"goto\",");
                    j.n(target.as_u32());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    j.raw("[\"switch\",");
                    self.operand(j, discr);
                    j.raw(",");
                    j.list(targets.iter(), |j, (v, b)| {
                        j.raw("[");
                        j.s(&v.to_string());
                        j.raw(",");
                        j.n(b.as_u32());
                        j.raw("]");
                    });
                    j.raw(",");
                    j.n(targets.otherwise().as_u32());
                }
                TerminatorKind::Return => j.raw("[\"ret\""),
                TerminatorKind::Unreachable => j.raw("[\"unreachable\""),
                TerminatorKind::Drop { place, target, .. } => {
                    j.raw("[\"drop\",");
                    self.place(j, place);
                    j.raw(",");
                    j.n(target.as_u32());
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    j.raw("[\"call\",");
                    self.operand(j, func);
                    j.raw(",");
                    j.list(args.iter(), |j, a| self.operand(j, &a.node));
                    j.raw(",");
                    self.place(j, destination);
                    j.raw(",");
                    match target {
                        Some(t) => j.n(t.as_u32()),
                        None => j.raw("null"),
                    }
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    j.raw("[\"assert\",");
                    self.operand(j, cond);
                    j.raw(",");
                    j.n(*expected as u32);
                    j.raw(",");
                    j.n(target.as_u32());
                    j.raw(",");
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            j.raw("[");
                            self.operand(j, len);
                            j.raw(",");
                            self.operand(j, index);
                            j.raw("]");
                        }
                        m => j.s(&format!("{:?}", std::mem::discriminant(m))),
                    }
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    j.raw("[\"goto\",");
                    j.n(real_target.as_u32());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    j.raw("[\"goto\",");
                    j.n(real_target.as_u32());
                }
                other => {
                    j.raw("[\"other\",");
                    j.s(other.name());
                }
            }
            j.raw(",");
            self.span(j, t.source_info.span);
            j.raw("]}");
        });
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.always_encode_mir = false;
        c.opts.cg.overflow_checks = Some(false);
        c.opts.debug_assertions = false;
        c.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut j = J(String::new());
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        j.raw("{\"crate\":");
        j.s(&krate);
        j.raw(",\"fns\":[");
        let mut first = true;
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let mut bodies: Vec<(&'tcx Body<'tcx>, Option<u32>)> = vec![];
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    bodies.push((tcx.optimized_mir(d), None));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    bodies.push((tcx.mir_for_ctfe(d), None));
                }
                _ => continue,
            }
            for (p, b) in tcx.promoted_mir(d).iter_enumerated() {
                bodies.push((b, Some(p.as_u32())));
            }
            for (body, promoted) in bodies {
                let cx = Ctx { tcx, env: ty::TypingEnv::post_analysis(tcx, d), body };
                if !first {
                    j.raw(",\n");
                }
                first = false;
                j.raw("{\"id\":");
                let mut id = did(tcx, d);
                if let Some(p) = promoted {
                    id = format!("{}#p{}", id, p);
                }
                j.s(&id);
                j.raw(",\"path\":");
                j.s(&pstr(tcx, d));
                j.raw(",\"kind\":");
                j.s(&format!("{:?}", kind));
                j.raw(",\"name\":");
                j.s(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default());
                let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).source_callsite().lo());
                j.raw(",\"file\":");
                j.s(&lo.file.name.prefer_local_unconditionally().to_string());
                j.raw(",\"line\":");
                j.n(lo.line);
                let hi = tcx.sess.source_map().lookup_char_pos(body.span.source_callsite().hi());
                j.raw(",\"endline\":");
                j.n(hi.line);
                j.raw(",\"exp\":");
                j.n(tcx.def_span(d).from_expansion() as u32);
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    j.raw(",\"pub\":");
                    j.n(tcx.visibility(d).is_public() as u32);
                    j.raw(",\"reach\":");
                    j.n(tcx.effective_visibilities(()).is_reachable(ld) as u32);
                }
                if kind == DefKind::Closure {
                    j.raw(",\"parent\":");
                    j.s(&did(tcx, tcx.parent(d)));
                    j.raw(",\"caps\":");
                    j.list(tcx.closure_captures(ld).iter(), |j, c| j.s(c.to_symbol().as_str()));
                }
                if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
                    let p = tcx.parent(d);
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        j.raw(",\"self\":");
                        j.s(&tystr(tcx.type_of(p).instantiate_identity().skip_norm_wip()));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            j.raw(",\"trait\":");
                            j.s(&pstr(tcx, tr.def_id));
                            j.raw(",\"traitref\":");
                            j.s(&with_no_trimmed_paths!(format!("{}", tr)));
                        }
                        j.raw(",\"derived\":");
                        j.n(tcx.is_automatically_derived(p) as u32);
                    } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                        j.raw(",\"intrait\":");
                        j.s(&pstr(tcx, p));
                    }
                }
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let g = tcx.generics_of(d);
                    j.raw(",\"generics\":");
                    let mut gs = vec![];
                    for i in 0..g.count() {
                        let p = g.param_at(i, tcx);
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gs.push(p.name.to_string());
                        }
                    }
                    j.list(gs.iter(), |j, s| j.s(s));
                }
                j.raw(",");
                cx.body(&mut j, body);
                j.raw("}");
            }
        }
        j.raw("],\"adts\":[");
        let mut first = true;
        let items = tcx.hir_crate_items(());
        for ld in items.definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let adt = tcx.adt_def(d);
            if !first {
                j.raw(",\n");
            }
            first = false;
            j.raw("{\"path\":");
            j.s(&pstr(tcx, d));
            j.raw(",\"enum\":");
            j.n(adt.is_enum() as u32);
            j.raw(",\"variants\":");
            j.list(adt.variants().iter(), |j, v| {
                j.raw("{\"name\":");
                j.s(v.name.as_str());
                j.raw(",\"fields\":");
                j.list(v.fields.iter(), |j, f| {
                    j.raw("[");
                    j.s(f.name.as_str());
                    j.raw(",");
                    j.s(&tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()));
                    j.raw(",");
                    j.n(f.vis.is_public() as u32);
                    j.raw("]");
                });
                j.raw("}");
            });
            j.raw("}");
        }
        j.raw("],\"impls\":[");
        let mut first = true;
        for ld in items.definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                continue;
            }
            if !first {
                j.raw(",\n");
            }
            first = false;
            j.raw("{\"self\":");
            j.s(&tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip()));
            if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                j.raw(",\"trait\":");
                j.s(&pstr(tcx, tr.def_id));
                j.raw(",\"traitref\":");
                j.s(&with_no_trimmed_paths!(format!("{}", tr)));
            }
            j.raw(",\"derived\":");
            j.n(tcx.is_automatically_derived(d) as u32);
            j.raw(",\"items\":");
            j.list(tcx.associated_item_def_ids(d).iter(), |j, i| j.s(&did(tcx, *i)));
            j.raw(",\"types\":{");
            let mut f2 = true;
            for i in tcx.associated_items(d).in_definition_order() {
                if let ty::AssocKind::Type { .. } = i.kind {
                    if !f2 {
                        j.raw(",");
                    }
                    f2 = false;
                    j.key(i.name().as_str());
                    j.s(&tystr(tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip()));
                }
            }
            j.raw("}}");
        }
        j.raw("],\"aliases\":[");
        let mut first = true;
        for ld in items.definitions() {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::TyAlias) {
                continue;
            }
            if !first {
                j.raw(",\n");
            }
            first = false;
            j.raw("[");
            j.s(&pstr(tcx, d));
            j.raw(",");
            j.s(&tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip()));
            j.raw("]");
        }
        j.raw("]}\n");
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, j.0).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() {
    // Invoked as `driver <rustc> <args...>` (RUSTC_WORKSPACE_WRAPPER).
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        }
    }
    let dir = std::env::var("SA_FACTS_DIR").unwrap_or_default();
    match name {
        Some(n) if n.starts_with("jf_") && !dir.is_empty() => {
            let out = format!("{}/{}.json", dir, n);
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        }
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    }
}
