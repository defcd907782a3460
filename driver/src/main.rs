//! `yxdriver`: a rustc driver that type-checks the crate named by `YX_CRATE` and writes its
//! resolved, drop-elaborated MIR (plus the MIR of a fixed list of thin library combinators it
//! calls) as JSON to `YX_OUT`.  Every other crate is compiled unchanged.
//!
//! It is a *source* of facts only: no rule lives here.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir;
use rustc_middle::mir::interpret::Scalar;
use rustc_middle::mir::ConstValue;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn jo(v: Vec<(&'static str, J)>) -> J {
    J::O(v)
}

// ---------------------------------------------------------------- what to expand
/// Library functions whose MIR is expanded into the analysis (thin, safe combinators).  Everything
/// else outside the analysed crate is an opaque primitive the engine models by name.
fn expand_external<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> bool {
    let krate = tcx.crate_name(d.krate);
    let p = tcx.def_path(d).to_string_no_crate_verbose();
    let pre = |l: &[&str]| l.iter().any(|x| p.starts_with(x));
    match krate.as_str() {
        "core" => {
            pre(&[
                "::option::",
                "::result::",
                "::task::poll::",
                "::ops::function::",
                "::ops::control_flow::",
                "::ops::try_trait::",
                "::ops::deref::",
                "::convert::",
                "::pin::",
                "::bool::",
                "::mem::take",
                "::cmp::PartialEq::ne",
            ])
        }
        "futures_util" => pre(&[
            "::sink::SinkExt",
            "::stream::stream::StreamExt",
            "::stream::try_stream::TryStreamExt",
            "::future::future::FutureExt",
            "::future::either::",
        ]),
        _ => false,
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    envs: Vec<TypingEnv<'tcx>>,
    keys: HashMap<(Instance<'tcx>, usize), String>,
    names: HashMap<String, usize>,
    queue: VecDeque<(Instance<'tcx>, usize, String)>,
    fns: Vec<J>,
}

struct FnCx<'tcx> {
    inst: Instance<'tcx>,
    env: usize,
    key: String,
    local: bool,
    body: mir::Body<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn vpath(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn env_ix(&mut self, e: TypingEnv<'tcx>) -> usize {
        for (i, x) in self.envs.iter().enumerate() {
            if x.param_env == e.param_env {
                return i;
            }
        }
        self.envs.push(e);
        self.envs.len() - 1
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tyix.get(&t) {
            return J::I(*i as i128);
        }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.tyix.insert(t, ix);
        let s = ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o = vec![("s", J::s(s))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", J::s("int"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                let name = self.path(def.did());
                o.push(("name", J::s(name.clone())));
                o.push((
                    "kind",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
                if !self.adts.contains_key(&name) {
                    self.adts.insert(name.clone(), J::Null);
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val as i128
                        } else {
                            0
                        };
                        let fs: Vec<J> = v.fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        vs.push(jo(vec![
                            ("name", J::s(v.name.to_string())),
                            ("discr", J::I(discr)),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    let has_drop = self.tcx.adt_destructor(def.did());
                    let dropfn = match has_drop {
                        Some(d) => J::s(self.path(d.did)),
                        None => J::Null,
                    };
                    self.adts.insert(
                        name,
                        jo(vec![
                            ("enum", J::B(def.is_enum())),
                            ("local", J::B(def.did().is_local())),
                            ("drop", dropfn),
                            ("variants", J::A(vs)),
                        ]),
                    );
                }
                // field types of this instantiation, used by the engine for typed projections
                if !def.is_union() {
                    let mut vs = vec![];
                    if def.did().is_local() || def.is_enum() || def.is_struct() {
                        for v in def.variants().iter() {
                            let mut fs = vec![];
                            // only expand field types of local ADTs, Option/Result/Poll-like enums
                            if def.did().is_local() || def.is_enum() {
                                for f in v.fields.iter() {
                                    let ft = f.ty(self.tcx, args);
                                    let ft = ft.skip_normalization();
                                    fs.push(self.ty(ft));
                                }
                            }
                            vs.push(J::A(fs));
                        }
                    }
                    o.push(("ft", J::A(vs)));
                }
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let e = self.ty(*e);
                o.push(("e", e));
                o.push((
                    "n",
                    n.try_to_target_usize(self.tcx).map_or(J::Null, |x| J::I(x as i128)),
                ));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Tuple(es) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = es.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::FnDef(d, _) => {
                o.push(("k", J::s("fndef")));
                let d: DefId = (*d).into();
                o.push(("name", J::s(self.path(d))));
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                let d: DefId = (*d).into();
                o.push(("name", J::s(self.path(d))));
                let a: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x))
                    .collect();
                o.push(("args", J::A(a)));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[ix] = J::O(o);
        J::I(ix as i128)
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", lo.file.name)),
            o => format!("{o:?}"),
        };
        J::s(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, f: &FnCx<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = mir::PlaceTy::from_ty(f.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => J::A(vec![J::s("*")]),
                mir::ProjectionElem::Field(ix, t) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[ix].name.to_string()
                        }
                        _ => ix.index().to_string(),
                    };
                    let owner = match pty.ty.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        _ => String::new(),
                    };
                    let tj = self.ty(t);
                    J::A(vec![
                        J::s("f"),
                        J::I(ix.index() as i128),
                        J::s(nm),
                        tj,
                        J::s(owner),
                    ])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.index() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("ss"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                mir::ProjectionElem::Downcast(_, v) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.index().to_string(),
                    };
                    J::A(vec![J::s("d"), J::I(v.index() as i128), J::s(nm)])
                }
                _ => J::A(vec![J::s("?")]),
            };
            pr.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![J::I(p.local.index() as i128), J::A(pr)])
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => return jo(vec![("k", J::s("zst"))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                let val = if let ty::Int(_) = t.kind() {
                    i.size().sign_extend(bits)
                } else {
                    bits as i128
                };
                if !t.is_adt() {
                    return jo(vec![("k", J::s("int")), ("v", J::S(val.to_string()))]);
                }
            }
            ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx);
                return jo(vec![
                    ("k", J::s("str")),
                    ("v", J::S(b.map_or(String::new(), |b| String::from_utf8_lossy(b).into_owned()))),
                ]);
            }
            _ => {}
        }
        if depth < 6 && (t.is_adt() || matches!(t.kind(), ty::Tuple(_) | ty::Array(..))) {
            let generic = matches!(t.kind(), ty::Adt(d, _) if d.is_union() );
            if !generic {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d
                        .fields
                        .iter()
                        .map(|(v, t)| {
                            let c = self.cval(*v, *t, depth + 1);
                            let tj = self.ty(*t);
                            J::A(vec![tj, c])
                        })
                        .collect();
                    return jo(vec![
                        ("k", J::s("agg")),
                        ("variant", d.variant.map_or(J::I(0), |x| J::I(x.index() as i128))),
                        ("fields", J::A(fs)),
                    ]);
                }
            }
        }
        jo(vec![("k", J::s("opaque")), ("v", J::S(format!("{v:?}")))])
    }

    fn constant(&mut self, f: &FnCx<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut name = J::Null;
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let key = format!("{}#promoted{}", f.key, p.index());
                return J::A(vec![
                    J::s("k"),
                    tj,
                    jo(vec![("k", J::s("promoted")), ("fn", J::S(key))]),
                    J::Null,
                ]);
            }
            name = J::S(self.path(u.def));
        }
        if let ty::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let callee = self.callee(f, d, args.skip_binder());
            return J::A(vec![J::s("k"), tj, jo(vec![("k", J::s("fn")), ("c", callee)]), name]);
        }
        let env = self.envs[f.env];
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => jo(vec![("k", J::s("opaque")), ("v", J::s("unevaluated"))]),
        };
        J::A(vec![J::s("k"), tj, v, name])
    }

    fn operand(&mut self, f: &FnCx<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => {
                let p = self.place(f, p);
                J::A(vec![J::s("c"), p])
            }
            mir::Operand::Move(p) => {
                let p = self.place(f, p);
                J::A(vec![J::s("m"), p])
            }
            mir::Operand::Constant(c) => self.constant(f, c),
            mir::Operand::RuntimeChecks(r) => {
                let v = matches!(r, mir::RuntimeChecks::OverflowChecks);
                let t = self.ty(self.tcx.types.bool);
                J::A(vec![
                    J::s("k"),
                    t,
                    jo(vec![("k", J::s("int")), ("v", J::s(if v { "1" } else { "0" }))]),
                    J::Null,
                ])
            }
        }
    }

    /// Resolve a callee; enqueue its body when it is to be expanded.
    fn callee(&mut self, f: &FnCx<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = self.envs[f.env];
        let mut o = vec![("orig", J::S(self.path(d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
        }
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(targs)));
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            o.push(("kind", J::s("other")));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) => {
                o.push(("path", J::S(self.path(i.def_id()))));
                o.push(("vpath", J::S(self.vpath(i.def_id()))));
                o.push(("local", J::B(i.def_id().is_local())));
                let rargs: Vec<J> = i.args.types().map(|t| self.ty(t)).collect();
                o.push(("rargs", J::A(rargs)));
                let (kind, expand) = match i.def {
                    InstanceKind::Item(d) => {
                        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
                        if is_ctor {
                            ("ctor", tcx.is_mir_available(d))
                        } else if d.is_local() {
                            ("item", tcx.is_mir_available(d))
                        } else if tcx.is_closure_like(d) {
                            ("item", tcx.is_mir_available(d))
                        } else {
                            ("item", expand_external(tcx, d) && tcx.is_mir_available(d))
                        }
                    }
                    InstanceKind::Intrinsic(_) => ("intrinsic", false),
                    InstanceKind::Virtual(..) => ("virtual", false),
                    InstanceKind::Shim(s) => match s {
                        ShimKind::FnPtr(..) => ("shim_fnptr", true),
                        ShimKind::ClosureOnce { .. } => ("shim_once", true),
                        ShimKind::Clone(..) => ("shim_clone", false),
                        ShimKind::DropGlue(..) => ("shim_drop", false),
                        _ => ("shim_other", false),
                    },
                    _ => ("other", false),
                };
                o.push(("kind", J::s(kind)));
                if let InstanceKind::Item(d) = i.def {
                    if tcx.is_closure_like(d) {
                        o.push(("closure", J::B(true)));
                    }
                }
                if expand {
                    let k = self.enqueue(i, f.env);
                    o.push(("inst", J::S(k)));
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::O(o)
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: usize) -> String {
        if let Some(k) = self.keys.get(&(i, env)) {
            return k.clone();
        }
        let base = ty::print::with_no_trimmed_paths!(format!("{i}"));
        let base = match i.def {
            InstanceKind::Item(_) => base,
            o => format!("{base}@{}", short_kind(&o)),
        };
        let n = self.names.entry(base.clone()).or_insert(0);
        *n += 1;
        let k = if *n == 1 { base } else { format!("{base}~{n}") };
        self.keys.insert((i, env), k.clone());
        self.queue.push_back((i, env, k.clone()));
        k
    }

    fn rvalue(&mut self, f: &FnCx<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => {
                let o = self.operand(f, o);
                J::A(vec![J::s("use"), o])
            }
            Repeat(o, n) => {
                let o = self.operand(f, o);
                J::A(vec![
                    J::s("rep"),
                    o,
                    n.try_to_target_usize(self.tcx).map_or(J::Null, |x| J::I(x as i128)),
                ])
            }
            Ref(_, bk, p) => {
                let p = self.place(f, p);
                J::A(vec![
                    J::s("ref"),
                    J::B(matches!(bk, mir::BorrowKind::Mut { .. })),
                    p,
                ])
            }
            RawPtr(_, p) => {
                let p = self.place(f, p);
                J::A(vec![J::s("ref"), J::B(true), p])
            }
            Reborrow(_, _, p) | CopyForDeref(p) => {
                let p = self.place(f, p);
                J::A(vec![J::s("use"), J::A(vec![J::s("c"), p])])
            }
            Cast(k, o, t) => {
                let from = o.ty(&f.body.local_decls, self.tcx);
                let o = self.operand(f, o);
                let t = self.ty(*t);
                let ft = self.ty(from);
                let ks = match k {
                    mir::CastKind::IntToInt => "int".to_string(),
                    mir::CastKind::Transmute | mir::CastKind::BoxDerefTransmute => "transmute".into(),
                    mir::CastKind::PtrToPtr => "ptr".into(),
                    mir::CastKind::PointerCoercion(c, _) => format!("coerce:{c:?}"),
                    mir::CastKind::Subtype => "sub".into(),
                    o => format!("other:{o:?}"),
                };
                J::A(vec![J::s("cast"), J::S(ks), o, t, ft])
            }
            BinaryOp(op, ab) => {
                let t = ab.0.ty(&f.body.local_decls, self.tcx);
                let a = self.operand(f, &ab.0);
                let b = self.operand(f, &ab.1);
                let t = self.ty(t);
                J::A(vec![J::s("bin"), J::S(format!("{op:?}")), a, b, t])
            }
            UnaryOp(op, a) => {
                let t = a.ty(&f.body.local_decls, self.tcx);
                let a = self.operand(f, a);
                let t = self.ty(t);
                J::A(vec![J::s("un"), J::S(format!("{op:?}")), a, t])
            }
            Discriminant(p) => {
                let t = p.ty(&f.body.local_decls, self.tcx).ty;
                let p = self.place(f, p);
                let t = self.ty(t);
                J::A(vec![J::s("discr"), p, t])
            }
            Aggregate(k, ops) => {
                let t = r.ty(&f.body.local_decls, self.tcx);
                let tj = self.ty(t);
                let v = match **k {
                    mir::AggregateKind::Adt(_, v, _, _, _) => v.index() as i128,
                    _ => 0,
                };
                let ks = match **k {
                    mir::AggregateKind::Adt(..) => "adt",
                    mir::AggregateKind::Tuple => "tuple",
                    mir::AggregateKind::Array(..) => "array",
                    mir::AggregateKind::Closure(..) => "closure",
                    mir::AggregateKind::RawPtr(..) => "rawptr",
                    _ => "other",
                };
                let ops: Vec<J> = ops.iter().map(|o| self.operand(f, o)).collect();
                let mut out = vec![J::s("agg"), J::s(ks), tj, J::I(v), J::A(ops)];
                if let mir::AggregateKind::Closure(d, args) = **k {
                    // bodies of closures handed to library code are analysed too
                    let d: DefId = d.into();
                    if self.tcx.is_mir_available(d) {
                        let key = self.enqueue(Instance::new_raw(d, args), f.env);
                        out.push(J::S(key));
                    }
                }
                J::A(out)
            }
            o => J::A(vec![J::s("other"), J::S(format!("{o:?}"))]),
        }
    }

    /// Local types with a `Drop` impl that dropping a value of type `t` may run (through any
    /// container), plus whether it owns a lock guard.
    fn drop_info(&self, t: Ty<'tcx>) -> Vec<String> {
        let mut seen = vec![];
        let mut out = vec![];
        let mut st = vec![t];
        while let Some(t) = st.pop() {
            if seen.contains(&t) || seen.len() > 4000 {
                continue;
            }
            seen.push(t);
            match t.kind() {
                ty::Adt(def, args) => {
                    let n = self.path(def.did());
                    if n.starts_with("std::sync::Weak") || n.contains("PhantomData") {
                        continue;
                    }
                    if self.tcx.adt_destructor(def.did()).is_some()
                        && (def.did().is_local() || n.contains("MutexGuard") || n.contains("lock_api"))
                    {
                        out.push(n);
                    }
                    for x in args.types() {
                        st.push(x);
                    }
                    for f in def.all_fields() {
                        st.push(f.ty(self.tcx, args).skip_normalization());
                    }
                }
                ty::Tuple(es) => st.extend(es.iter()),
                ty::Array(e, _) | ty::Slice(e) => st.push(*e),
                ty::Closure(_, a) => st.extend(a.as_closure().upvar_tys().iter()),
                _ => {}
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn body(&mut self, f: &FnCx<'tcx>, key: &str, body: &mir::Body<'tcx>, extra: Vec<(&'static str, J)>) -> J {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    dbg.push(J::A(vec![J::I(p.local.index() as i128), J::S(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                let sp = if f.local { self.span(s.source_info.span) } else { J::Null };
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(f, &b.0);
                        let r = self.rvalue(f, &b.1);
                        st.push(J::A(vec![J::s("="), p, r, sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(f, place);
                        st.push(J::A(vec![J::s("sd"), p, J::I(variant_index.index() as i128), sp]));
                    }
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::I(l.index() as i128)]))
                    }
                    mir::StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![J::s("live"), J::I(l.index() as i128)]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = if f.local { self.span(t.source_info.span) } else { J::Null };
            use mir::TerminatorKind as T;
            let tj = match &t.kind {
                T::Goto { target, .. } => J::A(vec![J::s("goto"), J::I(target.index() as i128)]),
                T::FalseEdge { real_target, .. } | T::FalseUnwind { real_target, .. } => {
                    J::A(vec![J::s("goto"), J::I(real_target.index() as i128)])
                }
                T::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&f.body.local_decls, tcx);
                    let d = self.operand(f, discr);
                    let dt = self.ty(dt);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), J::I(b.index() as i128)]))
                        .collect();
                    J::A(vec![
                        J::s("switch"),
                        d,
                        J::A(ts),
                        J::I(targets.otherwise().index() as i128),
                        dt,
                        sp,
                    ])
                }
                T::Return => J::A(vec![J::s("ret"), sp]),
                T::Unreachable => J::A(vec![J::s("unreach")]),
                T::UnwindResume | T::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                T::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let p = self.place(f, place);
                    let di: Vec<J> = self.drop_info(t).into_iter().map(J::S).collect();
                    // direct local Drop impl
                    let mut inst = J::Null;
                    if let ty::Adt(def, args) = t.kind() {
                        if def.did().is_local() {
                            if let Some(d) = tcx.adt_destructor(def.did()) {
                                let i = Instance::new_raw(d.did, args);
                                inst = J::S(self.enqueue(i, f.env));
                            }
                        }
                    }
                    let tj = self.ty(t);
                    J::A(vec![
                        J::s("drop"),
                        p,
                        J::I(target.index() as i128),
                        tj,
                        J::A(di),
                        inst,
                        sp,
                    ])
                }
                T::Call { func, args, destination, target, .. } => {
                    let fj = self.operand(f, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(f, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&f.body.local_decls, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let dt = destination.ty(&f.body.local_decls, tcx).ty;
                    let d = self.place(f, destination);
                    let dt = self.ty(dt);
                    J::A(vec![
                        J::s("call"),
                        fj,
                        J::A(a),
                        d,
                        target.map_or(J::Null, |b| J::I(b.index() as i128)),
                        J::A(at),
                        dt,
                        sp,
                    ])
                }
                T::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(f, cond);
                    let (k, ops) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![len, index])
                        }
                        mir::AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                        mir::AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        mir::AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        o => (format!("other:{}", assert_name(o)), vec![]),
                    };
                    let ops: Vec<J> = ops.into_iter().map(|o| self.operand(f, o)).collect();
                    J::A(vec![
                        J::s("assert"),
                        c,
                        J::B(*expected),
                        J::S(k),
                        J::A(ops),
                        J::I(target.index() as i128),
                        sp,
                    ])
                }
                o => J::A(vec![J::s("other"), J::S(format!("{o:?}").chars().take(80).collect())]),
            };
            blocks.push(jo(vec![("s", J::A(st)), ("t", tj)]));
        }
        let mut o = vec![
            ("key", J::s(key)),
            ("argc", J::I(body.arg_count as i128)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::I(l.index() as i128))),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
        ];
        o.extend(extra);
        J::O(o)
    }

    fn drain(&mut self) {
        let tcx = self.tcx;
        while let Some((i, env, key)) = self.queue.pop_front() {
            let raw = tcx.instance_mir(i.def).clone();
            let d = i.def_id();
            let te = self.envs[env];
            let body: mir::Body<'tcx> = match i.try_instantiate_mir_and_normalize_erasing_regions(
                tcx,
                te,
                EarlyBinder::bind(tcx, raw.clone()),
            ) {
                Ok(b) => b,
                Err(_) => raw,
            };
            let f = FnCx { inst: i, env, key: key.clone(), local: d.is_local(), body: body.clone() };
            let mut extra = vec![
                ("path", J::S(self.path(d))),
                ("vpath", J::S(self.vpath(d))),
                ("local", J::B(d.is_local())),
                ("closure", J::B(tcx.is_closure_like(d))),
                ("span", self.span(tcx.def_span(d))),
            ];
            // impl info
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                let stj = self.ty(st);
                extra.push(("impl_self", stj));
                if tcx.impl_is_of_trait(im) {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_normalization();
                    extra.push(("impl_trait", J::S(self.path(tr.def_id))));
                }
            }
            let derived = {
                let mut x = d;
                loop {
                    if tcx.is_automatically_derived(x) {
                        break true;
                    }
                    match tcx.opt_parent(x) {
                        Some(p) => x = p,
                        None => break false,
                    }
                }
            };
            extra.push(("derived", J::B(derived)));
            if d.is_local() && tcx.def_kind(d) != DefKind::Closure {
                extra.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
            }
            let j = self.body(&f, &key, &body, extra);
            self.fns.push(j);
            // promoteds
            if let InstanceKind::Item(dd) = i.def {
                if tcx.def_kind(dd) != DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
                    && tcx.def_kind(dd) != DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
                {
                    let proms = tcx.promoted_mir(dd);
                    for (p, pb) in proms.iter_enumerated() {
                        let pb = pb.clone();
                        let pb = match i.try_instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            te,
                            EarlyBinder::bind(tcx, pb.clone()),
                        ) {
                            Ok(b) => b,
                            Err(_) => pb,
                        };
                        let k = format!("{}#promoted{}", key, p.index());
                        let pf = FnCx { inst: i, env, key: k.clone(), local: f.local, body: pb.clone() };
                        let j = self.body(&pf, &k, &pb, vec![("promoted", J::B(true))]);
                        self.fns.push(j);
                    }
                }
            }
            let _ = f.inst;
        }
    }
}

fn assert_name<O>(a: &mir::AssertKind<O>) -> &'static str {
    match a {
        mir::AssertKind::OverflowNeg(_) => "neg",
        mir::AssertKind::MisalignedPointerDereference { .. } => "misaligned",
        mir::AssertKind::NullPointerDereference => "null",
        mir::AssertKind::InvalidEnumConstruction(_) => "enum",
        _ => "other",
    }
}

fn short_kind(k: &InstanceKind<'_>) -> String {
    format!("{k:?}").split('(').take(2).collect::<Vec<_>>().join("_")
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: vec![],
            tyix: HashMap::new(),
            adts: BTreeMap::new(),
            envs: vec![],
            keys: HashMap::new(),
            names: HashMap::new(),
            queue: VecDeque::new(),
            fns: vec![],
        };
        let mut roots: Vec<DefId> = tcx
            .mir_keys(())
            .iter()
            .map(|d| d.to_def_id())
            .filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn))
            .filter(|d| tcx.is_mir_available(*d))
            .collect();
        roots.sort_by_key(|d| tcx.def_path_hash(*d).local_hash().as_u64());
        roots.sort_by_key(|d| tcx.def_path_str(*d));
        let mut root_keys = vec![];
        for d in roots {
            let env = TypingEnv::post_analysis(tcx, d);
            let e = cx.env_ix(env);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let i = Instance::new_raw(d, args);
            root_keys.push(J::S(cx.enqueue(i, e)));
        }
        cx.drain();
        // constants and statics of the crate, for vocabulary rules
        let mut consts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let dd = d.to_def_id();
            if matches!(tcx.def_kind(dd), DefKind::Const { .. }) && tcx.generics_of(dd).is_empty() {
                if let Ok(v) = tcx.const_eval_poly(dd) {
                    let t = tcx.type_of(dd).instantiate_identity().skip_normalization();
                    let c = cx.cval(v, t, 0);
                    let tj = cx.ty(t);
                    consts.push(J::A(vec![J::S(cx.path(dd)), tj, c]));
                }
            }
        }
        // trait impls of the crate (trait path, self type)
        let mut impls = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let dd = d.to_def_id();
            if matches!(tcx.def_kind(dd), DefKind::Impl { of_trait: true }) {
                let tr = tcx.impl_trait_ref(dd).instantiate_identity().skip_normalization();
                let st = tr.self_ty();
                impls.push(J::A(vec![
                    J::S(cx.path(tr.def_id)),
                    J::S(ty::print::with_no_trimmed_paths!(format!("{st}"))),
                ]));
            }
        }
        let adts: Vec<J> = std::mem::take(&mut cx.adts)
            .into_iter()
            .map(|(k, v)| J::A(vec![J::S(k), v]))
            .collect();
        let top = jo(vec![
            ("crate", J::S(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("roots", J::A(root_keys)),
            ("types", J::A(cx.types)),
            ("adts", J::A(adts)),
            ("consts", J::A(consts)),
            ("impls", J::A(impls)),
            ("fns", J::A(cx.fns)),
        ]);
        let mut s = String::with_capacity(64 << 20);
        top.w(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as wrapper: yxdriver rustc <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let krate = std::env::var("YX_CRATE").unwrap_or_else(|_| "yamux".into());
    let out = std::env::var("YX_OUT").ok();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate)
        && !args.iter().any(|a| a == "--test");
    match (out, is_target) {
        (Some(out), true) => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zinline-mir=no".into());
            if std::env::var_os("YX_DEBUG").is_some() {
                // also look at what only debug builds do
                args.push("-Cdebug-assertions=on".into());
            }
            if std::env::var_os("YX_FORBID").is_some() {
                args.push("-Funsafe_code".into());
            }
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
