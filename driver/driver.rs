// MIR fact extractor for the papyri-rs static analyses.
//
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`: it runs the real
// compiler front end on the crate with cargo's own flags and, after analysis,
// writes one JSON file per crate with every MIR body (functions, closures,
// consts, statics, promoteds), the type table, ADT definitions, resolved call
// targets and evaluated constants. It executes nothing of the analysed crate.
#![feature(rustc_private)]
#![allow(rustc::potential_query_instability)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use rustc_span::{RemapPathScopeComponents, Span};

// ---------------------------------------------------------------- JSON
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap())
}

// ---------------------------------------------------------------- overlay
// The pinned crate relies on never-type fallback to `()` in one macro
// (`Value::from({ return Err(..) })`); this nightly falls back to `!` instead.
// The loader appends one impl to the file that declares `enum Value`, in memory
// only: nothing else of the source is touched, no line number moves.
struct Overlay;
const MARK: &str = "pub enum Value {";
impl FileLoader for Overlay {
    fn file_exists(&self, p: &Path) -> bool {
        RealFileLoader.file_exists(p)
    }
    fn read_file(&self, p: &Path) -> io::Result<String> {
        let mut t = RealFileLoader.read_file(p)?;
        if t.lines().any(|l| l.trim_end() == MARK) {
            t.push_str("\nimpl From<!> for Value { fn from(x: !) -> Value { x } }\n");
        }
        Ok(t)
    }
    fn read_binary_file(&self, p: &Path) -> io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(p)
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

// ---------------------------------------------------------------- extraction
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: Vec<DefId>,
    adt_seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let outer = sp.source_callsite();
        let lo = sm.lookup_char_pos(outer.lo());
        let f = lo.file.name.display(RemapPathScopeComponents::DIAGNOSTICS).to_string();
        let mut v = vec![s(f), i(lo.line as i64), i(lo.col.0 as i64)];
        if sp.from_expansion() {
            let l2 = sm.lookup_char_pos(sp.lo());
            v.push(i(l2.line as i64));
            let f2 = l2.file.name.display(RemapPathScopeComponents::DIAGNOSTICS).to_string();
            v.push(s(f2));
        }
        J::A(v)
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(i(self.ty(t) as i64));
            } else if let Some(c) = x.as_const() {
                v.push(s(with_no_trimmed_paths!(format!("{c}"))));
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(J::N);
        let st = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(st))];
        match *t.kind() {
            ty::Adt(d, a) => {
                if self.adt_seen.insert(d.did()) {
                    self.adts.push(d.did());
                }
                o.push(("k", s("adt")));
                o.push(("p", s(self.path(d.did()))));
                let aj = self.args(a);
                o.push(("a", aj));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let xj = self.ty(x);
                o.push(("t", i(xj as i64)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let xj = self.ty(x);
                o.push(("t", i(xj as i64)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let xj = self.ty(x);
                o.push(("t", i(xj as i64)));
            }
            ty::Array(x, l) => {
                o.push(("k", s("array")));
                let xj = self.ty(x);
                o.push(("t", i(xj as i64)));
                if let Some(n) = l.try_to_target_usize(self.tcx) {
                    o.push(("n", i(n)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| i(self.ty(x) as i64)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("id", s(self.uid(d))));
                let cl = a.as_closure();
                let v = cl.upvar_tys().iter().map(|x| i(self.ty(x) as i64)).collect();
                o.push(("up", J::A(v)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(self.path(d))));
                o.push(("id", s(self.uid(d))));
                let a = a.no_bound_vars();
                if let Some(a) = a {
                    let aj = self.args(a);
                    o.push(("a", aj));
                }
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("p", s(self.path(p))));
                }
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name.as_str())));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("prim"))),
        }
        self.ty_out[n] = J::O(o);
        n
    }

    // ---- constants
    fn read_at(&mut self, aid: AllocId, off: Size, t: Ty<'tcx>, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        let te = ty::TypingEnv::fully_monomorphized();
        let lay = tcx.layout_of(te.as_query_input(t)).ok()?;
        let GlobalAlloc::Memory(al) = tcx.try_get_global_alloc(aid)? else { return None };
        let al = al.inner();
        let psz = tcx.data_layout.pointer_size();
        let rd = |o: Size, n: Size| -> Option<u128> {
            let st = o.bytes_usize();
            let en = st.checked_add(n.bytes_usize())?;
            if en > al.len() {
                return None;
            }
            let b = al.inspect_with_uninit_and_ptr_outside_interpreter(st..en);
            let mut v: u128 = 0;
            for (k, x) in b.iter().enumerate() {
                if k < 16 {
                    v |= (*x as u128) << (8 * k);
                }
            }
            Some(v)
        };
        match *t.kind() {
            ty::Ref(_, inner, _) => {
                let prov = al.provenance().ptrs().get(&off).copied()?;
                let target = prov.alloc_id();
                let poff = Size::from_bytes(rd(off, psz)? as u64);
                match *inner.kind() {
                    ty::Str => {
                        let n = rd(off + psz, psz)? as usize;
                        let GlobalAlloc::Memory(a2) = tcx.try_get_global_alloc(target)? else { return None };
                        let st = poff.bytes_usize();
                        let b = a2.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + n);
                        Some(J::O(vec![("str", s(String::from_utf8_lossy(b)))]))
                    }
                    ty::Slice(e) => {
                        let n = rd(off + psz, psz)? as u64;
                        if n > 4096 {
                            return None;
                        }
                        let el = tcx.layout_of(te.as_query_input(e)).ok()?;
                        let mut v = vec![];
                        for k in 0..n {
                            v.push(self.read_at(target, poff + el.size * k, e, depth + 1).unwrap_or(J::N));
                        }
                        Some(J::O(vec![("arr", J::A(v))]))
                    }
                    _ => self.read_at(target, poff, inner, depth + 1),
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if n > 4096 {
                    return None;
                }
                let el = tcx.layout_of(te.as_query_input(e)).ok()?;
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.read_at(aid, off + el.size * k, e, depth + 1).unwrap_or(J::N));
                }
                Some(J::O(vec![("arr", J::A(v))]))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (k, x) in ts.iter().enumerate() {
                    v.push(self.read_at(aid, off + lay.fields.offset(k), x, depth + 1).unwrap_or(J::N));
                }
                Some(J::O(vec![("tup", J::A(v))]))
            }
            ty::Adt(d, a) if d.is_struct() => {
                let mut v = vec![];
                for (k, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, a).skip_norm_wip();
                    let ft = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(ft)).ok()?;
                    v.push(self.read_at(aid, off + lay.fields.offset(k), ft, depth + 1).unwrap_or(J::N));
                }
                Some(J::O(vec![("st", s(self.path(d.did()))), ("f", J::A(v))]))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Pat(..) => {
                Some(J::O(vec![("int", J::I(rd(off, lay.size)? as i128))]))
            }
            ty::Adt(d, _) if d.is_enum() => {
                let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                let c = tcx.try_destructure_mir_constant_for_user_output(cv, t)?;
                let mut v = vec![];
                for (fv, ft) in c.fields.iter() {
                    v.push(self.cval(*fv, *ft, depth + 1).unwrap_or(J::N));
                }
                let vi = c.variant?;
                Some(J::O(vec![
                    ("en", s(self.path(d.did()))),
                    ("v", s(d.variant(vi).name.as_str())),
                    ("vi", i(vi.as_u32())),
                    ("f", J::A(v)),
                ]))
            }
            _ => None,
        }
    }
    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: u32) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        if let ty::FnDef(d, _) = t.kind() {
            return Some(J::O(vec![("fn", s(self.path(*d))), ("id", s(self.uid(*d)))]));
        }
        match cv {
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = *t.kind() {
                    match *inner.kind() {
                        ty::Str => {
                            let b = cv.try_get_slice_bytes_for_diagnostics(tcx)?;
                            return Some(J::O(vec![("str", s(String::from_utf8_lossy(b)))]));
                        }
                        ty::Slice(e) => {
                            let te = ty::TypingEnv::fully_monomorphized();
                            let el = tcx.layout_of(te.as_query_input(e)).ok()?;
                            let mut v = vec![];
                            for k in 0..meta.min(4096) {
                                v.push(self.read_at(alloc_id, el.size * k, e, depth + 1).unwrap_or(J::N));
                            }
                            return Some(J::O(vec![("arr", J::A(v))]));
                        }
                        _ => {}
                    }
                }
                None
            }
            ConstValue::ZeroSized => match *t.kind() {
                ty::Adt(d, _) => Some(J::O(vec![("zst", s(self.path(d.did())))])),
                ty::Tuple(_) => Some(J::O(vec![("zst", s("()"))])),
                ty::Closure(d, _) => Some(J::O(vec![("closure", s(self.uid(d)))])),
                _ => Some(J::O(vec![("zst", s(""))])),
            },
            ConstValue::Scalar(Scalar::Int(n)) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_enum() || d.is_struct() {
                        if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                            let mut v = vec![];
                            for (fv, ft) in c.fields.iter() {
                                v.push(self.cval(*fv, *ft, depth + 1).unwrap_or(J::N));
                            }
                            if d.is_enum() {
                                if let Some(vi) = c.variant {
                                    return Some(J::O(vec![
                                        ("en", s(self.path(d.did()))),
                                        ("v", s(d.variant(vi).name.as_str())),
                                        ("vi", i(vi.as_u32())),
                                        ("f", J::A(v)),
                                    ]));
                                }
                            }
                            return Some(J::O(vec![
                                ("st", s(self.path(d.did()))),
                                ("f", J::A(v)),
                                ("raw", J::I(n.to_bits(n.size()) as i128)),
                            ]));
                        }
                    }
                }
                let bits = n.to_bits(n.size());
                let val = match t.kind() {
                    ty::Int(_) => n.to_int(n.size()),
                    _ => bits as i128,
                };
                Some(J::O(vec![("int", J::I(val))]))
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match tcx.try_get_global_alloc(aid)? {
                    GlobalAlloc::Static(d) => Some(J::O(vec![("static", s(self.uid(d)))])),
                    GlobalAlloc::Function { instance } => {
                        let d = instance.def_id();
                        Some(J::O(vec![("fn", s(self.path(d))), ("id", s(self.uid(d)))]))
                    }
                    GlobalAlloc::Memory(_) => {
                        if let ty::Ref(_, inner, _) = *t.kind() {
                            self.read_at(aid, off, inner, depth + 1)
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            ConstValue::Indirect { alloc_id, offset } => self.read_at(alloc_id, offset, t, depth + 1),
        }
    }
    /// The local function that a method of a trait stands for, when it is named as a value
    fn resolved_item(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, te: ty::TypingEnv<'tcx>) -> Option<DefId> {
        let tcx = self.tcx;
        let tr = tcx.trait_of_assoc(d)?;
        let mut d = d;
        let mut a = tcx.erase_and_anonymize_regions(a);
        if self.path(tr).ends_with("convert::Into") {
            // U: From<T> is what T: Into<U> is about
            let from = tcx.get_diagnostic_item(rustc_span::sym::From)?;
            d = tcx.associated_items(from).in_definition_order().next()?.def_id;
            a = tcx.mk_args(&[a[1], a[0]]);
        }
        match Instance::try_resolve(tcx, te, d, a) {
            Ok(Some(inst)) => match inst.def {
                ty::InstanceKind::Item(r) if r.is_local() => Some(r),
                _ => None,
            },
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", i(self.ty(t) as i64))];
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}::{{promoted#{}}}", self.uid(u.def), p.as_u32()))));
                return J::O(o);
            }
            o.push(("item", s(self.path(u.def))));
        }
        if let ty::FnDef(d, a) = *t.kind() {
            let r = a.no_bound_vars().and_then(|a| self.resolved_item(d, a, te)).unwrap_or(d);
            o.push(("fn", s(self.path(d))));
            o.push(("id", s(self.uid(r))));
            return J::O(o);
        }
        if let Ok(v) = c.eval(tcx, te, rustc_span::DUMMY_SP) {
            if let Some(j) = self.cval(v, t, 0) {
                o.push(("val", j));
            }
        }
        J::O(o)
    }

    // ---- places, operands
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, ft) => {
                    let name = self.field_name(pt.ty, pt.variant_index, f);
                    J::A(vec![s("f"), i(f.as_u32()), s(name), i(self.ty(ft) as i64)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, vi) => {
                    J::A(vec![s("d"), i(vi.as_u32()), s(name.map(|n| n.to_string()).unwrap_or_default())])
                }
                _ => s("?"),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn field_name(&self, t: Ty<'tcx>, vi: Option<VariantIdx>, f: FieldIdx) -> String {
        match t.kind() {
            ty::Adt(d, _) => {
                let v = match vi {
                    Some(v) => d.variant(v),
                    None if d.is_enum() => return format!("{}", f.as_u32()),
                    None => d.non_enum_variant(),
                };
                v.fields.get(f).map(|x| x.name.to_string()).unwrap_or_default()
            }
            ty::Closure(d, _) => {
                if let Some(ld) = d.as_local() {
                    if let Some(n) = self.tcx.closure_saved_names_of_captured_variables(ld.to_def_id()).get(f) {
                        return n.to_string();
                    }
                }
                format!("{}", f.as_u32())
            }
            _ => format!("{}", f.as_u32()),
        }
    }
    fn op(&mut self, o: &Operand<'tcx>, b: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, b)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, b)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, te)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rt")]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, b, te)]),
            Rvalue::Repeat(o, _) => J::A(vec![s("repeat"), self.op(o, b, te)]),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p, b)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), J::B(true), self.place(p, b)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p, b)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.uid(*d))]),
            Rvalue::Cast(k, o, t) => {
                let oj = self.op(o, b, te);
                let from = o.ty(&b.local_decls, tcx);
                let fj = self.ty(from);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), oj, i(fj as i64), i(tj as i64)])
            }
            Rvalue::BinaryOp(op, x) => {
                let a = self.op(&x.0, b, te);
                let c = self.op(&x.1, b, te);
                let t = x.0.ty(&b.local_decls, tcx);
                let tj = self.ty(t);
                J::A(vec![s("bin"), s(format!("{op:?}")), a, c, i(tj as i64)])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&b.local_decls, tcx);
                let tj = self.ty(t);
                J::A(vec![s("un"), s(format!("{op:?}")), self.op(x, b, te), i(tj as i64)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(p, b), i(tj as i64)])
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            s(def.variant(*vi).name.as_str()),
                            i(vi.as_u32()),
                            J::B(def.is_enum()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.uid(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = ops.iter().map(|x| self.op(x, b, te)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p, b);
                J::A(vec![s("use"), J::A(vec![s("c"), pj])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.op(o, b, te)]),
        }
    }
    fn callee(&mut self, f: &Operand<'tcx>, b: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ft = f.ty(&b.local_decls, tcx);
        if let ty::FnDef(d, a) = *ft.kind() {
            let Some(a) = a.no_bound_vars() else {
                return J::O(vec![("def", s(self.path(d))), ("id", s(self.uid(d)))]);
            };
            let aj = self.args(a);
            let mut o = vec![("def", s(self.path(d))), ("id", s(self.uid(d))), ("a", aj)];
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(tr))));
            }
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, a2) {
                let (rd, kind) = match inst.def {
                    ty::InstanceKind::Item(d) => (d, "item"),
                    ty::InstanceKind::Virtual(d, _) => (d, "virtual"),
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => (closure, "item"),
                    _ => (inst.def_id(), "shim"),
                };
                o.push(("r", s(self.path(rd))));
                o.push(("rid", s(self.uid(rd))));
                o.push(("rk", s(kind)));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let sj = self.ty(st);
                    o.push(("rself", i(sj as i64)));
                }
                if rd.is_local() {
                    o.push(("local", J::B(true)));
                }
            } else {
                o.push(("rk", s("unresolved")));
            }
            J::O(o)
        } else {
            let fj = self.op(f, b, te);
            let tj = self.ty(ft);
            J::O(vec![("ptr", fj), ("ty", i(tj as i64))])
        }
    }
    fn body(&mut self, id: String, owner: DefId, b: &Body<'tcx>, kind: &str) -> J {
        let tcx = self.tcx;
        let te = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(owner));
        let mut names: HashMap<Local, String> = HashMap::new();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert_with(|| v.name.to_string());
                }
                let pj = self.place(&p, b);
                dbg.push(J::A(vec![s(v.name.as_str()), pj]));
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let tj = self.ty(d.ty);
            let mut v = vec![i(tj as i64)];
            if let Some(n) = names.get(&l) {
                v.push(s(n.clone()));
            }
            locals.push(J::A(v));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0, b);
                        let r = self.rv(&a.1, b, te);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(J::A(vec![s("setd"), p, i(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.as_u32())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32())])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.op(discr, b, te);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let tyj = self.ty(dt);
                    let v = targets
                        .iter()
                        .map(|(x, bb)| J::A(vec![J::I(x as i128), i(bb.as_u32())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        dj,
                        J::A(v),
                        i(targets.otherwise().as_u32()),
                        i(tyj as i64),
                        self.span(t.source_info.span),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place, b);
                    J::A(vec![s("drop"), p, i(target.as_u32()), unw(unwind)])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let c = self.callee(func, b, te);
                    let av = args.iter().map(|x| self.op(&x.node, b, te)).collect();
                    let d = self.place(destination, b);
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(av),
                        d,
                        target.map(|t| i(t.as_u32())).unwrap_or(J::N),
                        unw(unwind),
                        self.span(if fn_span.is_dummy() { t.source_info.span } else { *fn_span }),
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let c = self.callee(func, b, te);
                    let av = args.iter().map(|x| self.op(&x.node, b, te)).collect();
                    J::A(vec![s("tailcall"), c, J::A(av)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, b, te);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.op(len, b, te), self.op(index, b, te)])
                        }
                        AssertKind::Overflow(o, x, y) => {
                            (format!("overflow:{o:?}"), vec![self.op(x, b, te), self.op(y, b, te)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x, b, te)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.op(x, b, te)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.op(x, b, te)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(k),
                        J::A(ops),
                        i(target.as_u32()),
                        self.span(t.source_info.span),
                    ])
                }
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        let mut o = vec![
            ("id", s(id)),
            ("name", s(self.path(owner))),
            ("kind", s(kind)),
            ("span", self.span(tcx.def_span(owner))),
            ("argc", i(b.arg_count as i64)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("dbg", J::A(dbg)),
        ];
        if tcx.is_closure_like(owner) {
            o.push(("parent", s(self.uid(tcx.parent(owner)))));
            let t = tcx.type_of(owner).instantiate_identity().skip_norm_wip();
            if let ty::Closure(_, a) = t.kind() {
                o.push(("ckind", s(format!("{:?}", a.as_closure().kind()))));
            }
        }
        if let Some(im) = tcx.impl_of_assoc(owner) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let stj = self.ty(st);
            o.push(("self", i(stj as i64)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                let tj = with_no_trimmed_paths!(format!("{tr}"));
                o.push(("traitref", s(tj)));
            }
            if tcx.get_attrs_by_path_derived(im) {
                o.push(("derived", J::B(true)));
            }
        }
        if matches!(tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn) {
            o.push(("vis", s(format!("{:?}", tcx.visibility(owner)))));
            let g = tcx.generics_of(owner);
            let mut gv = vec![];
            let id = ty::GenericArgs::identity_for_item(tcx, owner);
            for k in 0..g.count() {
                let p = g.param_at(k, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    let _ = &id;
                    gv.push(s(p.name.as_str()));
                }
            }
            o.push(("generics", J::A(gv)));
        }
        J::O(o)
    }
}
trait Derived {
    fn get_attrs_by_path_derived(&self, d: DefId) -> bool;
}
impl<'tcx> Derived for TyCtxt<'tcx> {
    fn get_attrs_by_path_derived(&self, d: DefId) -> bool {
        self.is_automatically_derived(d)
    }
}
fn unw(u: &UnwindAction) -> J {
    match u {
        UnwindAction::Cleanup(b) => i(b.as_u32()),
        _ => J::N,
    }
}

fn extract(tcx: TyCtxt<'_>, out: &Path) {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: vec![], adt_seen: HashSet::new() };
    let mut bodies = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| cx.uid(k.to_def_id()));
    for k in keys {
        let d = k.to_def_id();
        let dk = tcx.def_kind(d);
        let uid = cx.uid(d);
        let (kind, body) = match dk {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
            DefKind::Closure => ("closure", tcx.optimized_mir(d)),
            DefKind::Ctor(..) => continue,
            DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                ("const", tcx.mir_for_ctfe(d))
            }
            _ => continue,
        };
        let j = cx.body(uid.clone(), d, body, kind);
        bodies.push(j);
        for (p, pb) in tcx.promoted_mir(d).iter_enumerated() {
            let pid = format!("{uid}::{{promoted#{}}}", p.as_u32());
            let j = cx.body(pid, d, pb, "promoted");
            bodies.push(j);
        }
    }
    // evaluated const items
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Const { .. }) && tcx.generics_of(d).is_empty() {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let Ok(v) = tcx.const_eval_poly(d) {
                if let Some(j) = cx.cval(v, t, 0) {
                    let tj = cx.ty(t);
                    consts.push(J::O(vec![("name", s(cx.path(d))), ("ty", i(tj as i64)), ("val", j)]));
                }
            }
        }
    }
    // local ADTs even when unused in bodies
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union)
            && cx.adt_seen.insert(d)
        {
            cx.adts.push(d);
        }
    }
    let mut adts = vec![];
    let mut n = 0;
    while n < cx.adts.len() {
        let d = cx.adts[n];
        n += 1;
        let def = tcx.adt_def(d);
        let local = d.is_local();
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(tcx).map(|(_, x)| x.val).collect()
        } else {
            vec![]
        };
        for (k, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let tj = if local || def.is_enum() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    i(cx.ty(t) as i64)
                } else {
                    J::N
                };
                let vis = if local { format!("{:?}", tcx.visibility(f.did)) } else { String::new() };
                fs.push(J::A(vec![s(f.name.as_str()), tj, s(vis)]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name.as_str())),
                ("discr", discrs.get(k).map(|x| J::I(*x as i128)).unwrap_or(J::N)),
                ("fields", J::A(fs)),
            ]));
        }
        adts.push(J::O(vec![
            ("path", s(cx.path(d))),
            ("local", J::B(local)),
            ("enum", J::B(def.is_enum())),
            ("variants", J::A(vs)),
            ("span", if local { cx.span(tcx.def_span(d)) } else { J::N }),
        ]));
    }
    let top = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
        ("bodies", J::A(bodies)),
        ("types", J::A(cx.ty_out.clone())),
        ("adts", J::A(adts)),
        ("consts", J::A(consts)),
    ]);
    let mut o = String::new();
    top.w(&mut o);
    let tmp = out.with_extension("tmp");
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

struct Cb {
    out: Option<PathBuf>,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.file_loader = Some(Box::new(Overlay));
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            tcx.dcx().abort_if_errors();
            extract(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let dir = std::env::var("PAPYRI_FACTS_DIR").ok();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|p| args.get(p + 1)).cloned();
    let ctype = args.iter().position(|a| a == "--crate-type").and_then(|p| args.get(p + 1)).cloned();
    let out = match (&dir, &name) {
        (Some(d), Some(n)) if n != "___" => {
            Some(Path::new(d).join(format!("{n}.{}.json", ctype.unwrap_or_default())))
        }
        _ => None,
    };
    if out.is_some() {
        args.push("-Zcrate-attr=feature(never_type)".into());
        args.push("-Ainternal_features".into());
        args.push("-Astable_features".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
