// MIR fact extractor: dumps the type-checked program of the crate it compiles
// (functions, closures, constants, promoteds, data types) as JSON.
// Nothing of the crate is executed; the compiler stops after analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    did: DefId,
    env: TypingEnv<'tcx>,
}

fn tys<'tcx>(t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
}

fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => "?".to_string(),
            },
            o => format!("{:?}", o),
        };
        js(&format!("{}:{}", f, lo.line))
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        for (base, el) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, self.tcx);
            proj.push(match el {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            ad.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let own = match bt.ty.kind() {
                        ty::Adt(ad, _) => dpath(self.tcx, ad.did()),
                        ty::Closure(d, _) => dpath(self.tcx, *d),
                        _ => "".to_string(),
                    };
                    format!("[\"f\",{},{},{},{}]", f.as_usize(), js(&name), js(&own), js(&tys(t)))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"d\",{},{}]",
                    v.as_usize(),
                    js(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                o => format!("[\"o\",{}]", js(&format!("{:?}", o))),
            });
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(proj))
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut v = String::from("null");
        // function items and closures
        if let ty::FnDef(d, a) = t.kind() {
            return format!(
                "{{\"k\":\"const\",\"ty\":{},\"fn\":{}}}",
                js(&tys(t)),
                self.callee(*d, a.skip_binder())
            );
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    v = format!(
                        "{{\"promoted\":{},\"of\":{}}}",
                        p.as_usize(),
                        js(&dpath(self.tcx, u.def))
                    );
                } else {
                    let mut ev = String::from("null");
                    if let Some(s) = c.const_.try_eval_scalar(self.tcx, self.env) {
                        ev = self.scalar(s, t);
                    }
                    v = format!("{{\"item\":{},\"ev\":{}}}", js(&dpath(self.tcx, u.def)), ev);
                }
            }
            Const::Val(cv, _) => {
                v = self.cval(cv, t);
            }
            Const::Ty(_, k) => {
                let _ = write!(v, "");
                v = format!("{{\"repr\":{}}}", js(&format!("{}", k)));
            }
        }
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}}}", js(&tys(t)), v)
    }

    fn scalar(&self, s: rustc_middle::mir::interpret::Scalar, t: Ty<'tcx>) -> String {
        use rustc_middle::mir::interpret::Scalar;
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
                    ty::Int(_) => format!("{{\"int\":{}}}", i.size().sign_extend(bits)),
                    ty::Uint(_) => format!("{{\"int\":{}}}", bits),
                    ty::Char => format!("{{\"char\":{}}}", bits),
                    ty::Float(_) => {
                        let f = if i.size().bytes() == 8 {
                            f64::from_bits(bits as u64)
                        } else {
                            f32::from_bits(bits as u32) as f64
                        };
                        format!("{{\"float\":{}}}", js(&format!("{:?}", f)))
                    }
                    _ => format!("{{\"bits\":{}}}", js(&bits.to_string())),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, _) = p.prov_and_relative_offset();
                if let Some(ga) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    use rustc_middle::mir::interpret::GlobalAlloc;
                    match ga {
                        GlobalAlloc::Static(d) => {
                            return format!("{{\"static\":{}}}", js(&dpath(self.tcx, d)))
                        }
                        GlobalAlloc::Memory(a) => {
                            let al = a.inner();
                            if al.provenance().ptrs().is_empty() {
                                let n = al.len();
                                let b = al.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                return format!(
                                    "{{\"bytes\":[{}]}}",
                                    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                                );
                            }
                        }
                        _ => {}
                    }
                }
                "{\"ptr\":true}".to_string()
            }
        }
    }

    fn cval(&self, cv: ConstValue, t: Ty<'tcx>) -> String {
        match cv {
            ConstValue::Scalar(s) => self.scalar(s, t),
            ConstValue::ZeroSized => "{\"zst\":true}".to_string(),
            ConstValue::Slice { .. } => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if let ty::Ref(_, it, _) = t.kind() {
                        if it.is_str() {
                            return format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                    return format!(
                        "{{\"bytes\":[{}]}}",
                        b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                    );
                }
                "{\"slice\":true}".to_string()
            }
            ConstValue::Indirect { .. } => "{\"indirect\":true}".to_string(),
        }
    }

    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut rd = d;
        let mut how = "direct";
        if let Ok(Some(inst)) = Instance::try_resolve(
            tcx,
            self.env,
            d,
            rustc_middle::ty::Unnormalized::dummy(args).skip_norm_wip(),
        ) {
            rd = inst.def_id();
            how = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr",
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "item",
                _ => "shim",
            };
        }
        let gs: Vec<String> = args.types().map(|t| js(&tys(t))).collect();
        let clos: Vec<String> = args
            .types()
            .filter_map(|t| match t.peel_refs().kind() {
                ty::Closure(d, _) => Some(js(&dpath(tcx, *d))),
                ty::FnDef(d, _) => Some(js(&dpath(tcx, *d))),
                _ => None,
            })
            .collect();
        format!(
            "{{\"path\":{},\"decl\":{},\"how\":{},\"local\":{},\"gen\":{},\"clos\":{}}}",
            js(&dpath(tcx, rd)),
            js(&dpath(tcx, d)),
            js(how),
            rd.is_local(),
            arr(gs),
            arr(clos)
        )
    }

    fn op(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(b, p)),
            Operand::Constant(c) => self.konst(c),
            o => format!("{{\"k\":\"rt\",\"r\":{}}}", js(&format!("{:?}", o))),
        }
    }

    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"a\":{}}}", self.op(b, o)),
            Rvalue::Repeat(o, n) => {
                format!("{{\"k\":\"repeat\",\"a\":{},\"n\":{}}}", self.op(b, o), js(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"mut\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(b, p)
            ),
            Rvalue::RawPtr(m, p) => {
                format!("{{\"k\":\"raw\",\"m\":{},\"pl\":{}}}", js(&format!("{:?}", m)), self.place(b, p))
            }
            Rvalue::Cast(ck, o, t) => format!(
                "{{\"k\":\"cast\",\"c\":{},\"a\":{},\"from\":{},\"ty\":{}}}",
                js(&format!("{:?}", ck)),
                self.op(b, o),
                js(&tys(o.ty(&b.local_decls, self.tcx))),
                js(&tys(*t))
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                js(&format!("{:?}", op)),
                self.op(b, &ab.0),
                self.op(b, &ab.1),
                js(&tys(ab.0.ty(&b.local_decls, self.tcx)))
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", op)), self.op(b, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                format!("{{\"k\":\"disc\",\"pl\":{},\"ty\":{}}}", self.place(b, p), js(&tys(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"a\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        format!(
                            "{{\"a\":\"adt\",\"path\":{},\"vi\":{},\"variant\":{},\"fields\":{}}}",
                            js(&dpath(self.tcx, *d)),
                            vi.as_usize(),
                            js(&v.name.to_string()),
                            arr(v.fields.iter().map(|f| js(&f.name.to_string())).collect())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"a\":\"closure\",\"path\":{}}}", js(&dpath(self.tcx, *d)))
                    }
                    o => format!("{{\"a\":\"other\",\"r\":{}}}", js(&format!("{:?}", o))),
                };
                format!(
                    "{{\"k\":\"agg\",\"kind\":{},\"ops\":{}}}",
                    kind,
                    arr(ops.iter().map(|o| self.op(b, o)).collect())
                )
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"a\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(b, p))
            }
            o => format!("{{\"k\":\"other\",\"r\":{}}}", js(&format!("{:?}", o))),
        }
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let mut names = vec![String::new(); b.local_decls.len()];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = v.name.to_string();
                }
            }
        }
        let locals: Vec<String> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                format!(
                    "{{\"ty\":{},\"name\":{}}}",
                    js(&tys(d.ty)),
                    js(&names[l.as_usize()])
                )
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        st.push(format!(
                            "{{\"k\":\"=\",\"pl\":{},\"rv\":{},\"sp\":{}}}",
                            self.place(b, &pr.0),
                            self.rvalue(b, &pr.1),
                            self.span(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "{{\"k\":\"setdisc\",\"pl\":{},\"vi\":{}}}",
                            self.place(b, place),
                            variant_index.as_usize()
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mac = t.source_info.span.from_expansion();
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize()))
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"t\":{},\"o\":{},\"sp\":{}}}",
                        self.op(b, discr),
                        js(&tys(discr.ty(&b.local_decls, self.tcx))),
                        arr(tv),
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".to_string(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!(
                    "{{\"k\":\"drop\",\"pl\":{},\"t\":{}}}",
                    self.place(b, place),
                    target.as_usize()
                ),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                            _ => "null".to_string(),
                        },
                        _ => "null".to_string(),
                    };
                    let aa: Vec<String> = args.iter().map(|x| self.op(b, &x.node)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"fo\":{},\"args\":{},\"dest\":{},\"t\":{},\"sp\":{},\"mac\":{}}}",
                        f,
                        self.op(b, func),
                        arr(aa),
                        self.place(b, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        sp,
                        mac
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, mo): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.op(b, len), self.op(b, index)])
                        }
                        AssertKind::Overflow(op, a, c) => {
                            (format!("overflow:{:?}", op), vec![self.op(b, a), self.op(b, c)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.op(b, a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.op(b, a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.op(b, a)]),
                        o => (format!("other:{:?}", o), vec![]),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mo\":{},\"t\":{},\"sp\":{}}}",
                        self.op(b, cond),
                        expected,
                        js(&mk),
                        arr(mo),
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                o => format!("{{\"k\":\"other\",\"r\":{}}}", js(&format!("{:?}", o))),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"c\":{}}}",
                arr(st),
                term,
                bb.is_cleanup
            ));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"blocks\":{}",
            b.arg_count,
            arr(locals),
            arr(blocks)
        )
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut fns = vec![];
        let mut adts = vec![];
        let mut statics = vec![];
        let mut impls = vec![];
        let eff = tcx.effective_visibilities(());
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let cx = Cx { tcx, did: d, env: TypingEnv::non_body_analysis(tcx, d) };
                    let vs: Vec<String> = ad
                        .variants()
                        .iter_enumerated()
                        .map(|(vi, v)| {
                            let disc = if ad.is_enum() {
                                ad.discriminant_for_variant(tcx, vi).val.to_string()
                            } else {
                                "0".into()
                            };
                            let fs: Vec<String> = v
                                .fields
                                .iter()
                                .map(|f| {
                                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                    format!(
                                        "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                                        js(&f.name.to_string()),
                                        js(&tys(t)),
                                        f.vis.is_public()
                                    )
                                })
                                .collect();
                            format!(
                                "{{\"name\":{},\"disc\":{},\"fields\":{}}}",
                                js(&v.name.to_string()),
                                js(&disc),
                                arr(fs)
                            )
                        })
                        .collect();
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":{},\"reach\":{},\"variants\":{},\"sp\":{}}}",
                        js(&dpath(tcx, d)),
                        js(if ad.is_enum() { "enum" } else { "struct" }),
                        eff.is_reachable(ld),
                        arr(vs),
                        cx.span(tcx.def_span(d))
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(format!(
                        "{{\"path\":{},\"mut\":{},\"ty\":{}}}",
                        js(&dpath(tcx, d)),
                        mutability.is_mut(),
                        js(&tys(t))
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        js(&dpath(tcx, tcx.impl_trait_ref(d).skip_binder().def_id))
                    } else {
                        "null".to_string()
                    };
                    impls.push(format!("{{\"self\":{},\"trait\":{}}}", js(&tys(t)), tr));
                }
                _ => {}
            }
        }
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let cx = Cx { tcx, did: d, env: TypingEnv::post_analysis(tcx, d) };
            let (kind, body): (&str, &Body<'tcx>) = match dk {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", tcx.mir_for_ctfe(d)),
                DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(d)),
                _ => continue,
            };
            let exp = match dk {
                DefKind::Fn | DefKind::AssocFn => eff.is_reachable(ld),
                _ => false,
            };
            let derived = tcx.is_automatically_derived(tcx.parent(d));
            let unsafe_ = match dk {
                DefKind::Fn | DefKind::AssocFn => !tcx.fn_sig(d).skip_binder().safety().is_safe(),
                _ => false,
            };
            let mut proms = vec![];
            if matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. }) {
                for p in tcx.promoted_mir(d).iter() {
                    proms.push(format!("{{{}}}", cx.body(p)));
                }
            }
            fns.push(format!(
                "{{\"path\":{},\"kind\":{},\"reach\":{},\"derived\":{},\"unsafe\":{},\"sp\":{},\"parent\":{},{},\"proms\":{}}}",
                js(&dpath(tcx, d)),
                js(kind),
                exp,
                derived,
                unsafe_,
                cx.span(tcx.def_span(d)),
                js(&dpath(tcx, tcx.parent(cx.did))),
                cx.body(body),
                arr(proms)
            ));
        }
        let o = format!(
            "{{\"fns\":[\n{}\n],\"adts\":[\n{}\n],\"statics\":{},\"impls\":{}}}",
            fns.join(",\n"),
            adts.join(",\n"),
            arr(statics),
            arr(impls)
        );
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
