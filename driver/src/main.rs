//! rustc driver: type-checks the crate exactly as cargo asks and dumps its resolved MIR, ADTs,
//! impls and signatures as JSON (path in $MIRDUMP_OUT).  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if target_crate(&config.opts.crate_name) {
            config.opts.unstable_opts.mir_opt_level = Some(1);
            config.opts.unstable_opts.inline_mir = Some(false);
            config.opts.debug_assertions = false;
            config.opts.cg.overflow_checks = Some(false);
        }
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if target_crate(&Some(name)) {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                let j = with_no_trimmed_paths!(dump(tcx));
                let mut s = String::with_capacity(64 << 20);
                j.write(&mut s);
                let tmp = format!("{out}.tmp{}", std::process::id());
                std::fs::write(&tmp, s).expect("write dump");
                std::fs::rename(&tmp, &out).expect("rename dump");
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn target_crate(n: &Option<String>) -> bool {
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "symb_anafis".into());
    n.as_deref() == Some(want.as_str())
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

/// Stable, location independent name of a definition.
fn dname(tcx: TyCtxt<'_>, d: DefId) -> String {
    match tcx.def_kind(d) {
        DefKind::Closure => {
            let p = tcx.parent(d);
            let k = tcx.def_key(d).disambiguated_data.disambiguator;
            format!("{}::{{closure#{k}}}", dname(tcx, p))
        }
        DefKind::AssocFn | DefKind::AssocConst { .. } => {
            let p = tcx.parent(d);
            let nm = tcx.item_name(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{nm}", st, tr.print_only_trait_path());
                }
                let base = match st.kind() {
                    ty::Adt(a, _) => tcx.def_path_str(a.did()),
                    _ => format!("<{st}>"),
                };
                return format!("{base}::{nm}");
            }
            tcx.def_path_str(d)
        }
        DefKind::Fn => {
            // functions nested in impl methods / blocks
            let p = tcx.parent(d);
            match tcx.def_kind(p) {
                DefKind::AssocFn | DefKind::Fn | DefKind::Closure => {
                    format!("{}::{}", dname(tcx, p), tcx.item_name(d))
                }
                _ => tcx.def_path_str(d),
            }
        }
        _ => tcx.def_path_str(d),
    }
}

fn loc(tcx: TyCtxt<'_>, sp: Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    (l.file.name.prefer_local_unconditionally().to_string(), l.line)
}

fn ts(t: Ty<'_>) -> J {
    J::s(t.to_string())
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

fn fn_ref<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
    let mut o = vec![("fn", J::s(dname(tcx, d)))];
    o.push(("targs", J::Arr(args.iter().filter(|a| a.as_region().is_none()).map(|a| J::s(a.to_string())).collect())));
    o.push(("local", J::Bool(d.is_local())));
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
        && tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety().is_unsafe()
    {
        o.push(("unsafe", J::Bool(true)));
    }
    if tcx.trait_of_assoc(d).is_some() {
        o.push(("trait", J::Bool(true)));
    }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            if rd != d || kind != "item" {
                o.push(("res", J::s(dname(tcx, rd))));
                o.push(("rlocal", J::Bool(rd.is_local())));
                o.push(("rkind", J::s(kind)));
            }
        }
    }
    J::Obj(o)
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() {
            return J::i(p.local.as_usize());
        }
        let mut v = vec![J::i(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => {
                    J::Arr(vec![J::s("*"), J::Bool(pt.ty.is_raw_ptr())])
                }
                ProjectionElem::Field(f, _) => {
                    let (n, ow) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_union() || vi.as_usize() < a.variants().len() {
                                let vd = a.variant(vi);
                                (
                                    vd.fields.get(f).map(|x| x.name.to_string()).unwrap_or_default(),
                                    self.tcx.def_path_str(a.did()),
                                )
                            } else {
                                (f.as_usize().to_string(), String::new())
                            }
                        }
                        ty::Closure(..) => (f.as_usize().to_string(), "closure".into()),
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    J::Arr(vec![J::s("."), J::i(f.as_usize()), J::s(n), J::s(ow)])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_else(|| match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => String::new(),
                    });
                    J::Arr(vec![J::s("as"), J::i(vi.as_usize()), J::s(nm)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("[]"), J::i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("[c]"),
                    J::Int(offset as i128),
                    J::Int(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("[s]"),
                    J::Int(from as i128),
                    J::Int(to as i128),
                    J::Bool(from_end),
                ]),
                _ => J::Arr(vec![J::s("?")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::Arr(v)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", ts(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            return J::Obj(vec![("fnref", fn_ref(tcx, self.env, *d, args))]);
        }
        if let ty::Closure(d, _) = t.kind() {
            return J::Obj(vec![("ty", ts(t)), ("clo", J::s(dname(tcx, *d)))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("const", J::s(dname(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.as_usize())));
                return J::Obj(o);
            }
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => c.const_.eval(tcx, self.env, c.span).ok(),
        };
        if let Some(v) = val {
            self.const_val(v, t, &mut o);
        } else {
            o.push(("expr", J::s(format!("{}", c.const_))));
        }
        J::Obj(o)
    }

    fn const_val(&self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Float(ty::FloatTy::F64) => {
                        o.push(("f", J::s(format!("{:e}", f64::from_bits(bits as u64)))));
                    }
                    ty::Int(_) => {
                        let sz = i.size();
                        o.push(("i", J::Int(sz.sign_extend(bits) as i128)));
                    }
                    ty::Bool => o.push(("b", J::Bool(bits != 0))),
                    ty::Char => o.push((
                        "ch",
                        J::s(char::from_u32(bits as u32).unwrap_or('?').to_string()),
                    )),
                    _ => o.push(("i", J::Int(bits as i128))),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, _off) = p.prov_and_relative_offset();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => o.push(("static", J::s(dname(tcx, d)))),
                    GlobalAlloc::Function { instance } => {
                        o.push(("fnptr", J::s(dname(tcx, instance.def_id()))))
                    }
                    GlobalAlloc::Memory(m) => {
                        let a = m.inner();
                        let n = a.len();
                        if a.provenance().ptrs().is_empty() && n <= 4096 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            o.push(("mem", J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect())));
                        } else {
                            o.push(("memptr", J::Bool(true)));
                        }
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(b) {
                        Ok(s) => o.push(("str", J::s(s))),
                        Err(_) => {
                            o.push(("bytes", J::Arr(b.iter().map(|x| J::Int(*x as i128)).collect())))
                        }
                    }
                }
            }
            ConstValue::Indirect { .. } => o.push(("indirect", J::Bool(true))),
        }
    }

    fn op(&self, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.constant(c)]),
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![J::s("k"), J::Obj(vec![("rtcheck", J::Bool(true))])]),
        }
    }

    fn rv(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::Arr(vec![J::s("repeat"), self.op(o), J::s(n.to_string())]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(p),
            ]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(dname(tcx, *d))]),
            Rvalue::RawPtr(k, p) => J::Arr(vec![
                J::s("raw"),
                J::Bool(matches!(k, RawPtrKind::Mut)),
                self.place(p),
            ]),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(pc, _) => format!("Coerce{pc:?}"),
                    k => format!("{k:?}"),
                };
                J::Arr(vec![J::s("cast"), J::s(ks), self.op(o), ts(*t)])
            }
            Rvalue::BinaryOp(b, ab) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{b:?}")),
                self.op(&ab.0),
                self.op(&ab.1),
            ]),
            Rvalue::UnaryOp(u, a) => J::Arr(vec![J::s("un"), J::s(format!("{u:?}")), self.op(a)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut m = vec![];
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_enum() {
                        for (vi, d) in a.discriminants(tcx) {
                            let sz = d.ty.primitive_size(tcx).bits() as u32;
                            let v = if d.ty.is_signed() {
                                ((d.val << (128 - sz)) as i128) >> (128 - sz)
                            } else {
                                d.val as i128
                            };
                            m.push(J::Arr(vec![
                                J::Int(v),
                                J::s(a.variant(vi).name.to_string()),
                            ]));
                        }
                    }
                }
                J::Arr(vec![J::s("discr"), self.place(p), ts(t), J::Arr(m)])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops = J::Arr(fs.iter().map(|x| self.op(x)).collect());
                let kj = match &**k {
                    AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let ad = tcx.adt_def(*d);
                        let vd = ad.variant(*vi);
                        let names: Vec<J> = match af {
                            Some(f) => vec![J::s(vd.fields[*f].name.to_string())],
                            None => vd.fields.iter().map(|f| J::s(f.name.to_string())).collect(),
                        };
                        J::Arr(vec![
                            J::s("adt"),
                            J::s(tcx.def_path_str(*d)),
                            J::i(vi.as_usize()),
                            J::s(vd.name.to_string()),
                            J::Arr(names),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::Arr(vec![J::s("closure"), J::s(dname(tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::Arr(vec![J::s("rawptr")]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), kj, ops])
            }
            Rvalue::CopyForDeref(p) => {
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(p)])])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), self.op(o)]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(m.is_mut()),
                self.place(p),
            ]),
        }
    }

    fn line(&self, sp: Span) -> J {
        J::i(loc(self.tcx, sp).1)
    }

    fn dump(&self) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let b = self.body;
        let locals = b.local_decls.iter().map(|d| ts(d.ty)).collect();
        // zero-sized function values: their assignments are optimised away
        let mut zfn: Vec<J> = vec![];
        for (i, d) in b.local_decls.iter_enumerated() {
            match d.ty.kind() {
                ty::Closure(c, args) if args.as_closure().upvar_tys().is_empty() => {
                    zfn.push(J::Arr(vec![
                        J::i(i.as_usize()),
                        J::Obj(vec![("ty", ts(d.ty)), ("clo", J::s(dname(tcx, *c)))]),
                    ]));
                }
                ty::FnDef(f, args) => {
                    let args = tcx.erase_and_anonymize_regions(args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                    zfn.push(J::Arr(vec![
                        J::i(i.as_usize()),
                        J::Obj(vec![("fnref", fn_ref(tcx, self.env, *f, args))]),
                    ]));
                }
                _ => {}
            }
        }
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::Arr(vec![J::s(v.name.to_string()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => st.push(J::Arr(vec![
                        J::s("="),
                        self.place(&x.0),
                        self.rv(&x.1),
                        self.line(s.source_info.span),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::Arr(vec![
                            J::s("sd"),
                            self.place(place),
                            J::i(variant_index.as_usize()),
                            self.line(s.source_info.span),
                        ]))
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::i(l.as_usize())]))
                    }
                    StatementKind::Intrinsic(i) => st.push(J::Arr(vec![
                        J::s("intr"),
                        J::s(format!("{i:?}")),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![J::s("goto"), J::i(target.as_usize())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(b, tcx);
                    let vs = targets
                        .iter()
                        .map(|(v, bb)| {
                            let v = match dt.kind() {
                                ty::Int(it) => {
                                    let sz = it.bit_width().unwrap_or(64);
                                    let sh = 128 - sz as u32;
                                    ((v << sh) as i128) >> sh
                                }
                                _ => v as i128,
                            };
                            J::Arr(vec![J::Int(v), J::i(bb.as_usize())])
                        })
                        .collect();
                    vec![
                        J::s("switch"),
                        self.op(discr),
                        ts(dt),
                        J::Arr(vs),
                        J::i(targets.otherwise().as_usize()),
                    ]
                }
                TerminatorKind::Return => vec![J::s("ret")],
                TerminatorKind::Unreachable => vec![J::s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![J::s("resume")]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    vec![J::s("drop"), self.place(place), J::i(target.as_usize()),
                         ts(place.ty(b, tcx).ty)]
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.op(func);
                    vec![
                        J::s("call"),
                        f,
                        J::Arr(args.iter().map(|a| self.op(&a.node)).collect()),
                        self.place(destination),
                        target.map_or(J::Null, |t| J::i(t.as_usize())),
                        self.line(*fn_span),
                    ]
                }
                TerminatorKind::TailCall { .. } => vec![J::s("tailcall")],
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            J::Arr(vec![J::s("bounds"), self.op(len), self.op(index)])
                        }
                        m => J::Arr(vec![J::s(format!("{m:?}").chars().take(60).collect::<String>())]),
                    };
                    vec![
                        J::s("assert"),
                        self.op(cond),
                        J::Bool(*expected),
                        m,
                        J::i(target.as_usize()),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![J::s("goto"), J::i(real_target.as_usize())]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![J::s("goto"), J::i(real_target.as_usize())]
                }
                _ => vec![J::s("other")],
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", J::Arr(tj)),
                ("l", self.line(t.source_info.span)),
                ("cu", J::Bool(bb.is_cleanup)),
            ]));
        }
        vec![
            ("nargs", J::i(b.arg_count)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("zfn", J::Arr(zfn)),
            ("blocks", J::Arr(blocks)),
        ]
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    n: Vec<usize>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules
        {
            self.n.push(loc(self.tcx, b.span).1);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId, out: &mut Vec<J>) {
    let d = ld.to_def_id();
    let kind = tcx.def_kind(d);
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
    let body: &Body<'tcx> = if is_fn {
        if tcx.is_constructor(d) {
            return;
        }
        tcx.optimized_mir(d)
    } else {
        tcx.mir_for_ctfe(ld)
    };
    let env = TypingEnv::post_analysis(tcx, d);
    let name = dname(tcx, d);
    let (file, line) = loc(tcx, tcx.def_span(d));
    let cx = Cx { tcx, body, env };
    let mut o = vec![
        ("name", J::s(&*name)),
        ("kind", J::s(format!("{kind:?}"))),
        ("file", J::s(file)),
        ("line", J::i(line)),
    ];
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
        let ev = tcx.effective_visibilities(());
        o.push(("exported", J::Bool(ev.is_exported(ld))));
        o.push(("reach", J::Bool(ev.is_reachable(ld))));
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        o.push(("sig", J::s(sig.skip_binder().to_string())));
        if sig.safety().is_unsafe() {
            o.push(("unsafe_fn", J::Bool(true)));
        }
        if let Some(hb) = tcx.hir_maybe_body_owned_by(ld) {
            let mut v = UnsafeV { tcx, n: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, hb);
            if !v.n.is_empty() {
                o.push(("unsafe_blocks", J::Arr(v.n.into_iter().map(J::i).collect())));
            }
        }
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(tcx.parent(d)) {
            o.push(("trait_impl", J::Bool(true)));
        }
    }
    if let ty::Closure(..) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
        o.push(("closure_of", J::s(dname(tcx, tcx.typeck_root_def_id(d)))));
    }
    o.extend(cx.dump());
    out.push(J::Obj(o));
    if is_fn || true {
        let proms = tcx.promoted_mir(d);
        for (i, p) in proms.iter_enumerated() {
            let cx = Cx { tcx, body: p, env };
            let mut o = vec![
                ("name", J::s(format!("{name}::promoted[{}]", i.as_usize()))),
                ("kind", J::s("Promoted")),
                ("file", J::s("")),
                ("line", J::i(line)),
            ];
            o.extend(cx.dump());
            out.push(J::Obj(o));
        }
    }
}

fn dump(tcx: TyCtxt<'_>) -> J {
    let mut bodies = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => dump_body(tcx, *ld, &mut bodies),
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }
            | DefKind::AnonConst => {
                if matches!(tcx.def_kind(d), DefKind::AnonConst) {
                    continue;
                }
                let g = tcx.generics_of(d);
                if g.requires_monomorphization(tcx) {
                    continue;
                }
                dump_body(tcx, *ld, &mut bodies)
            }
            _ => {}
        }
    }
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let ev = tcx.effective_visibilities(());
                let vs = a
                    .variants()
                    .iter_enumerated()
                    .map(|(vi, v)| {
                        J::Obj(vec![
                            ("name", J::s(v.name.to_string())),
                            (
                                "discr",
                                if a.is_enum() {
                                    J::Int(a.discriminant_for_variant(tcx, vi).val as i128)
                                } else {
                                    J::Null
                                },
                            ),
                            (
                                "fields",
                                J::Arr(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            J::Arr(vec![
                                                J::s(f.name.to_string()),
                                                J::s(
                                                    tcx.type_of(f.did)
                                                        .instantiate_identity()
                                                        .skip_norm_wip()
                                                        .to_string(),
                                                ),
                                                J::Bool(f.did.as_local().is_some_and(|l| ev.is_exported(l))),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ])
                    })
                    .collect();
                let (f, l) = loc(tcx, tcx.def_span(d));
                adts.push(J::Obj(vec![
                    ("name", J::s(tcx.def_path_str(d))),
                    ("kind", J::s(format!("{:?}", tcx.def_kind(d)))),
                    ("exported", J::Bool(ev.is_exported(id))),
                    ("file", J::s(f)),
                    ("line", J::i(l)),
                    ("variants", J::Arr(vs)),
                ]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let items = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                    .map(|i| J::Arr(vec![J::s(i.name().to_string()), J::s(dname(tcx, i.def_id))]))
                    .collect();
                impls.push(J::Obj(vec![
                    ("trait", J::s(tr.print_only_trait_path().to_string())),
                    ("self", J::s(st.to_string())),
                    ("items", J::Arr(items)),
                    ("unsafe", J::Bool(tcx.impl_trait_header(d).safety.is_unsafe())),
                ]));
            }
            _ => {}
        }
    }
    J::Obj(vec![
        ("crate", J::s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("bodies", J::Arr(bodies)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
    ])
}
