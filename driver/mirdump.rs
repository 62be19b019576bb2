// Dumps the type-checked program (MIR after borrow checking, with constants
// evaluated and callees resolved by the compiler) of the crate named in
// MIRDUMP_CRATE as JSON to MIRDUMP_OUT.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: std::collections::HashSet<DefId>,
    adt_q: Vec<DefId>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn id(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = lo
            .file
            .name
            .prefer_local_unconditionally()
            .to_string();
        format!("[{},{}]", esc(&f), lo.line)
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d) {
            self.adt_q.push(d);
        }
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        let mut t = t;
        loop {
            match t.kind() {
                ty::Ref(_, i, _) => t = *i,
                ty::RawPtr(i, _) => t = *i,
                ty::Slice(i) | ty::Array(i, _) => t = *i,
                ty::Adt(a, args) => {
                    self.adt(a.did());
                    let v: Vec<Ty<'tcx>> = args.types().collect();
                    for x in v {
                        self.note_ty(x);
                    }
                    return;
                },
                ty::Tuple(ts) => {
                    for x in ts.iter() {
                        self.note_ty(x);
                    }
                    return;
                },
                _ => return,
            }
        }
    }

    fn scalar(&mut self, bits: u128, t: Ty<'tcx>) -> Option<String> {
        Some(match t.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
            ty::Char => format!(
                "{{\"char\":{}}}",
                esc(&char::from_u32(bits as u32).unwrap_or('?').to_string())
            ),
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64);
                let sh = 128 - w;
                format!("{{\"int\":{}}}", ((bits << sh) as i128) >> sh)
            },
            ty::Uint(_) => format!("{{\"int\":{}}}", bits),
            ty::Float(ty::FloatTy::F64) => format!(
                "{{\"f64\":{}}}",
                esc(&format!("{:e}", f64::from_bits(bits as u64)))
            ),
            ty::Float(ty::FloatTy::F32) => format!(
                "{{\"f64\":{}}}",
                esc(&format!("{:e}", f32::from_bits(bits as u32) as f64))
            ),
            _ => return None,
        })
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 {
            return "{}".into();
        }
        self.note_ty(t);
        match t.kind() {
            ty::FnDef(..) => return self.fndef(t),
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                    return "{}".into();
                },
                ty::Slice(e) if *e == tcx.types.u8 => {
                    if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"bytes\":{:?}}}", b);
                        }
                    }
                    return "{}".into();
                },
                ty::Slice(e) => {
                    // (alloc, len)
                    if let ConstValue::Slice { alloc_id, meta } = v {
                        let at = Ty::new_array(tcx, *e, meta);
                        let cv = ConstValue::Indirect {
                            alloc_id,
                            offset: rustc_abi::Size::ZERO,
                        };
                        return format!("{{\"ref\":{}}}", self.constval(cv, at, depth + 1));
                    }
                    if let ConstValue::Indirect { alloc_id, offset } = v {
                        if let Some((p, l)) = self.read_wide(alloc_id, offset) {
                            let at = Ty::new_array(tcx, *e, l);
                            return format!("{{\"ref\":{}}}", self.constval(p, at, depth + 1));
                        }
                    }
                    return "{}".into();
                },
                _ => {
                    if inner.is_sized(tcx, TypingEnv::fully_monomorphized()) {
                        let ptr = match v {
                            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => Some(p),
                            _ => None,
                        };
                        if let Some(p) = ptr {
                            let (prov, off) = p.prov_and_relative_offset();
                            let id = prov.alloc_id();
                            if matches!(tcx.global_alloc(id), interpret::GlobalAlloc::Memory(_)) {
                                let cv = self.load(id, off, *inner);
                                if let Some(cv) = cv {
                                    return format!(
                                        "{{\"ref\":{}}}",
                                        self.constval(cv, *inner, depth + 1)
                                    );
                                }
                            }
                        }
                    }
                    return "{}".into();
                },
            },
            _ => {},
        }
        if let ConstValue::Scalar(interpret::Scalar::Int(i)) = v {
            let bits = i.to_bits_unchecked();
            if let Some(s) = self.scalar(bits, t) {
                return s;
            }
        }
        if let ty::Array(e, _) = t.kind() {
            if *e == tcx.types.u8 {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let ty::Array(_, n) = t.kind() {
                        if let Some(n) = n.try_to_target_usize(tcx) {
                            let data = tcx.global_alloc(alloc_id).unwrap_memory();
                            let o = offset.bytes() as usize;
                            let b = data.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                o..o + n as usize,
                            );
                            return format!("{{\"bytes\":{:?}}}", b);
                        }
                    }
                }
            }
        }
        match t.kind() {
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if t.has_non_region_param() {
                    return "{}".into();
                }
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return "{}".into();
                    }
                }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = dc
                        .fields
                        .iter()
                        .map(|(fv, ft)| self.constval(*fv, *ft, depth + 1))
                        .collect();
                    if let ty::Adt(a, _) = t.kind() {
                        let vi = dc.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let vn = if a.is_enum() {
                            a.variants()[rustc_abi::VariantIdx::from_usize(vi)]
                                .name
                                .to_string()
                        } else {
                            String::new()
                        };
                        return format!(
                            "{{\"adt\":{},\"vi\":{},\"variant\":{},\"fields\":{}}}",
                            esc(&self.path(a.did())),
                            vi,
                            esc(&vn),
                            arr(fs)
                        );
                    }
                    return format!("{{\"tuple\":{}}}", arr(fs));
                }
                "{}".into()
            },
            _ => "{}".into(),
        }
    }

    fn read_wide(
        &self,
        id: interpret::AllocId,
        off: rustc_abi::Size,
    ) -> Option<(ConstValue, u64)> {
        let tcx = self.tcx;
        let a = tcx.global_alloc(id).unwrap_memory().inner();
        let ps = tcx.data_layout.pointer_size();
        let p = a
            .read_scalar(&tcx, interpret::alloc_range(off, ps), true)
            .ok()?;
        let l = a
            .read_scalar(&tcx, interpret::alloc_range(off + ps, ps), false)
            .ok()?;
        let l = l.to_target_usize(&tcx).discard_err()?;
        if let interpret::Scalar::Ptr(p, _) = p {
            let (prov, o) = p.prov_and_relative_offset();
            return Some((
                ConstValue::Indirect {
                    alloc_id: prov.alloc_id(),
                    offset: o,
                },
                l,
            ));
        }
        None
    }

    // value of type `t` stored at (id, off)
    fn load(
        &self,
        id: interpret::AllocId,
        off: rustc_abi::Size,
        t: Ty<'tcx>,
    ) -> Option<ConstValue> {
        let tcx = self.tcx;
        let layout = tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
            .ok()?;
        if layout.is_zst() {
            return Some(ConstValue::ZeroSized);
        }
        let scalar = matches!(layout.backend_repr, rustc_abi::BackendRepr::Scalar(_));
        if scalar {
            let a = tcx.global_alloc(id).unwrap_memory().inner();
            let prov = matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
            if let Ok(s) = a.read_scalar(&tcx, interpret::alloc_range(off, layout.size), prov) {
                return Some(ConstValue::Scalar(s));
            }
            return None;
        }
        Some(ConstValue::Indirect {
            alloc_id: id,
            offset: off,
        })
    }

    fn fndef(&mut self, t: Ty<'tcx>) -> String {
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars();
            let mut s = format!("{{\"fn\":{},\"id\":{}", esc(&self.path(d)), esc(&self.id(d)));
            if let Some(args) = args {
                let ts: Vec<String> = args.types().map(|x| esc(&self.ty(x))).collect();
                let _ = write!(s, ",\"targs\":{}", arr(ts));
            }
            s.push('}');
            return s;
        }
        "{}".into()
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(..) = t.kind() {
            return self.fndef(t);
        }
        let mut named = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"promoted\":{},\"of\":{},\"ty\":{}}}",
                    p.as_usize(),
                    esc(&self.id(u.def)),
                    esc(&self.ty(t))
                );
            }
            named = self.path(u.def);
        }
        let _ = owner;
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return format!("{{\"param\":{},\"ty\":{}}}", esc(p.name.as_str()), esc(&self.ty(t)));
            }
        }
        let generic = t.has_non_region_param();
        let mut v = String::from("{}");
        if !generic {
            if let Ok(cv) = c.const_.eval(self.tcx, env, c.span) {
                v = self.constval(cv, t, 0);
            }
        }
        let mut s = v;
        s.pop();
        if s.len() > 1 {
            s.push(',');
        }
        let _ = write!(s, "\"ty\":{}", esc(&self.ty(t)));
        if !named.is_empty() {
            let _ = write!(s, ",\"named\":{}", esc(&named));
        }
        s.push('}');
        s
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let mut name = String::new();
                    let mut owner = String::new();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        self.adt(a.did());
                        if !a.is_union() {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < a.variants().len() {
                                let vd = &a.variants()[vi];
                                if i.as_usize() < vd.fields.len() {
                                    name = vd.fields[i].name.to_string();
                                }
                            }
                        }
                        owner = self.path(a.did());
                    }
                    format!("[\"f\",{},{},{}]", i.as_usize(), esc(&name), esc(&owner))
                },
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                },
                ProjectionElem::Downcast(n, i) => format!(
                    "[\"dc\",{},{}]",
                    i.as_usize(),
                    esc(&n.map(|x| x.to_string()).unwrap_or_default())
                ),
                _ => "[\"?\"]".to_string(),
            });
            pt = pt.projection_ty(tcx, e);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(v))
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, body)),
            Operand::Constant(c) => {
                format!("{{\"k\":{}}}", self.constant(c, env, body.source.def_id()))
            },
            _ => "{\"k\":{\"bool\":true,\"rt\":1}}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, body, env),
                esc(&n.to_string())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p, body),
                if matches!(k, BorrowKind::Mut { .. }) {
                    "true"
                } else {
                    "false"
                }
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                self.note_ty(*t);
                format!(
                    "[\"cast\",{},{},{}]",
                    self.operand(o, body, env),
                    esc(&self.ty(*t)),
                    esc(&format!("{:?}", k).split('(').next().unwrap_or("").to_string())
                )
            },
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env)
            ),
            Rvalue::UnaryOp(op, o) => format!(
                "[\"un\",{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(o, body, env)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                self.note_ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), esc(&self.adt_path(t)))
            },
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adt(*d);
                        let a = self.tcx.adt_def(*d);
                        let vd = &a.variants()[*vi];
                        format!(
                            "{{\"k\":\"adt\",\"adt\":{},\"vi\":{},\"variant\":{},\"names\":{}}}",
                            esc(&self.path(*d)),
                            vi.as_usize(),
                            esc(&if a.is_enum() { vd.name.to_string() } else { String::new() }),
                            arr(vd.fields.iter().map(|f| esc(f.name.as_str())).collect())
                        )
                    },
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d)))
                    },
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, arr(fs))
            },
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, body)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn adt_path(&self, t: Ty<'tcx>) -> String {
        match t.peel_refs().kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => String::new(),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p, body)));
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                self.note_ty(d.ty);
                let n = names.get(&l.as_usize()).cloned().unwrap_or_default();
                format!("[{},{}]", esc(&self.ty(d.ty)), esc(&n))
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in bb.statements.iter() {
                    match &s.kind {
                        StatementKind::Assign(b) => {
                            let (p, r) = &**b;
                            st.push(format!(
                                "[{},{},{}]",
                                self.place(p, body),
                                self.rvalue(r, body, env),
                                self.span(s.source_info.span)
                            ));
                        },
                        StatementKind::SetDiscriminant {
                            place,
                            variant_index,
                        } => st.push(format!(
                            "[{},[\"setdiscr\",{}],{}]",
                            self.place(place, body),
                            variant_index.as_usize(),
                            self.span(s.source_info.span)
                        )),
                        _ => {},
                    }
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = if bb.is_cleanup {
                "{\"t\":\"cleanup\"}".to_string()
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize())
                    },
                    TerminatorKind::FalseEdge { real_target, .. }
                    | TerminatorKind::FalseUnwind { real_target, .. } => {
                        format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                    },
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(&body.local_decls, tcx);
                        let v: Vec<String> = targets
                            .iter()
                            .map(|(v, b)| {
                                let vv = match dt.kind() {
                                    ty::Int(i) => {
                                        let sh = 128 - i.bit_width().unwrap_or(64);
                                        (((v << sh) as i128) >> sh).to_string()
                                    },
                                    _ => v.to_string(),
                                };
                                format!("[{},{}]", vv, b.as_usize())
                            })
                            .collect();
                        format!(
                            "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"o\":{},\"s\":{}}}",
                            self.operand(discr, body, env),
                            esc(&self.ty(dt)),
                            arr(v),
                            targets.otherwise().as_usize(),
                            sp
                        )
                    },
                    TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                    TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                    TerminatorKind::Drop { place, target, .. } => format!(
                        "{{\"t\":\"drop\",\"p\":{},\"to\":{}}}",
                        self.place(place, body),
                        target.as_usize()
                    ),
                    TerminatorKind::Assert {
                        cond,
                        expected,
                        msg,
                        target,
                        ..
                    } => {
                        let k = match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                            AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                            AssertKind::DivisionByZero(_) => "div0".to_string(),
                            AssertKind::RemainderByZero(_) => "rem0".to_string(),
                            _ => "other".to_string(),
                        };
                        format!(
                            "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":{},\"to\":{},\"s\":{}}}",
                            self.operand(cond, body, env),
                            expected,
                            esc(&k),
                            target.as_usize(),
                            sp
                        )
                    },
                    TerminatorKind::Call {
                        func,
                        args,
                        destination,
                        target,
                        ..
                    } => {
                        let a: Vec<String> = args
                            .iter()
                            .map(|x| self.operand(&x.node, body, env))
                            .collect();
                        let ft = func.ty(&body.local_decls, tcx);
                        let f = self.callee(ft, func, body, env);
                        format!(
                            "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"s\":{}}}",
                            f,
                            arr(a),
                            self.place(destination, body),
                            target
                                .map(|x| x.as_usize().to_string())
                                .unwrap_or("null".into()),
                            sp
                        )
                    },
                    k => format!(
                        "{{\"t\":\"other\",\"k\":{}}}",
                        esc(&format!("{:?}", k).chars().take(60).collect::<String>())
                    ),
                }
            };
            blocks.push(format!("[{},{}]", arr(st), ts));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"upv\":{},\"blocks\":{}",
            body.arg_count,
            arr(locals),
            arr(upv),
            arr(blocks)
        )
    }

    fn callee(
        &mut self,
        ft: Ty<'tcx>,
        func: &Operand<'tcx>,
        body: &Body<'tcx>,
        env: TypingEnv<'tcx>,
    ) -> String {
        let tcx = self.tcx;
        if let ty::FnDef(d, args) = *ft.kind() {
            let args = match args.no_bound_vars() {
                Some(a) => a,
                None => return format!("{{\"path\":{},\"id\":{}}}", esc(&self.path(d)), esc(&self.id(d))),
            };
            let mut s = format!("{{\"path\":{},\"id\":{}", esc(&self.path(d)), esc(&self.id(d)));
            let ts: Vec<String> = args.types().map(|x| esc(&self.ty(x))).collect();
            let _ = write!(s, ",\"targs\":{}", arr(ts));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(
                    s,
                    ",\"trait\":{},\"self\":{}",
                    esc(&self.path(tr)),
                    esc(&self.ty(args.type_at(0)))
                );
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let _ = write!(s, ",\"self\":{}", esc(&self.ty(st)));
            }
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = i.def_id();
                if rd != d {
                    let _ = write!(
                        s,
                        ",\"rpath\":{},\"rid\":{}",
                        esc(&self.path(rd)),
                        esc(&self.id(rd))
                    );
                }
            }
            let _ = write!(s, ",\"name\":{}}}", esc(tcx.item_name(d).as_str()));
            s
        } else {
            format!(
                "{{\"ptr\":{},\"ty\":{}}}",
                self.operand(func, body, env),
                esc(&self.ty(ft))
            )
        }
    }

    fn adtdef(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let kind = if a.is_enum() {
            "enum"
        } else if a.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = vec![];
        for (vi, v) in a.variants().iter_enumerated() {
            let dv = if a.is_enum() {
                let x = a.discriminant_for_variant(tcx, vi);
                let (sz, signed) = match x.ty.kind() {
                    ty::Int(i) => (i.bit_width().unwrap_or(64), true),
                    _ => (128, false),
                };
                if signed {
                    let sh = 128 - sz;
                    (((x.val << sh) as i128) >> sh).to_string()
                } else {
                    x.val.to_string()
                }
            } else {
                "0".into()
            };
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    if d.is_local() {
                        self.note_ty(t);
                    }
                    format!(
                        "[{},{},{}]",
                        esc(f.name.as_str()),
                        esc(&self.ty(t)),
                        f.vis.is_public()
                    )
                })
                .collect();
            vs.push(format!("[{},{},{}]", esc(v.name.as_str()), dv, arr(fs)));
        }
        format!(
            "{}:{{\"kind\":{},\"local\":{},\"variants\":{}}}",
            esc(&self.path(d)),
            esc(kind),
            d.is_local(),
            arr(vs)
        )
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if name != want || out.is_empty() {
            return rustc_driver::Compilation::Continue;
        }
        let mut d = D {
            tcx,
            adts: Default::default(),
            adt_q: vec![],
        };
        let mut fns = vec![];
        let eff = tcx.effective_visibilities(());
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !isfn {
                continue;
            }
            if tcx.is_constructor(did) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let env = TypingEnv::post_analysis(tcx, did);
            let mut s = format!(
                "{{\"id\":{},\"path\":{},\"kind\":{},\"span\":{}",
                esc(&d.id(did)),
                esc(&d.path(did)),
                esc(&format!("{:?}", kind)),
                d.span(tcx.def_span(did))
            );
            if matches!(kind, DefKind::Closure) {
                let _ = write!(s, ",\"parent\":{}", esc(&d.id(tcx.typeck_root_def_id(did))));
            } else {
                let _ = write!(
                    s,
                    ",\"name\":{},\"pub\":{},\"reach\":{},\"const\":{}",
                    esc(tcx.item_name(did).as_str()),
                    tcx.visibility(did).is_public(),
                    eff.is_reachable(ld),
                    tcx.is_const_fn(did)
                );
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"self\":{}", esc(&d.ty(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(
                            s,
                            ",\"trait\":{},\"traitref\":{}",
                            esc(&d.path(tr.def_id)),
                            esc(&ty::print::with_no_trimmed_paths!(tr.to_string()))
                        );
                    }
                    let _ = write!(
                        s,
                        ",\"derived\":{}",
                        tcx.is_builtin_derived(im)
                    );
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = write!(s, ",\"trait_default\":{}", esc(&d.path(tr)));
                }
            }
            let b = d.body(body, env);
            s.push(',');
            s.push_str(&b);
            let pr = tcx.promoted_mir(did);
            let mut ps = vec![];
            for p in pr.iter() {
                let pb = d.body(p, env);
                ps.push(format!("{{{}}}", pb));
            }
            let _ = write!(s, ",\"promoted\":{}}}", arr(ps));
            fns.push(s);
        }
        // named constants and statics
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if t.has_non_region_param() {
                    continue;
                }
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let j = d.constval(v, t, 0);
                    consts.push(format!(
                        "{}:{{\"ty\":{},\"v\":{},\"span\":{}}}",
                        esc(&d.path(did)),
                        esc(&d.ty(t)),
                        j,
                        d.span(tcx.def_span(did))
                    ));
                }
            }
        }
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(did) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"path\":{},\"ty\":{},\"mut\":{}}}",
                    esc(&d.path(did)),
                    esc(&d.ty(t)),
                    mutability.is_mut()
                ));
            }
        }
        // impl table
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims.iter() {
                let st = tcx
                    .type_of(im.to_def_id())
                    .instantiate_identity()
                    .skip_norm_wip();
                impls.push(format!(
                    "[{},{},{}]",
                    esc(&d.path(*tr)),
                    esc(&d.ty(st)),
                    tcx.is_builtin_derived(im.to_def_id())
                ));
            }
        }
        let mut adts = vec![];
        while let Some(x) = d.adt_q.pop() {
            adts.push(d.adtdef(x));
        }
        let js = format!(
            "{{\"crate\":{},\"fns\":[\n{}\n],\"consts\":{{{}}},\"statics\":[{}],\"impls\":[{}],\"adts\":{{{}}}}}",
            esc(&name),
            fns.join(",\n"),
            consts.join(",\n"),
            statics.join(",\n"),
            impls.join(",\n"),
            adts.join(",\n")
        );
        std::fs::write(&out, js).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, ...]
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    std::process::exit(match rustc_driver::catch_fatal_errors(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    }) {
        Ok(()) => 0,
        Err(_) => 1,
    });
}
