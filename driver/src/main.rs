//! rustc wrapper: type-checks a crate as usual and writes the MIR of every body in it (before
//! drop elaboration and before the coroutine transform) as one JSON file of facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::OnceLock;

type Promoteds<'tcx> = IndexVec<Promoted, Body<'tcx>>;
type PromotedFn = for<'tcx> fn(
  TyCtxt<'tcx>,
  LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<Promoteds<'tcx>>);

static DEFAULT: OnceLock<PromotedFn> = OnceLock::new();
thread_local! {
  static BODIES: RefCell<Vec<(LocalDefId, Body<'static>, Promoteds<'static>)>> = RefCell::new(Vec::new());
}

fn my_mir_promoted<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
) -> (&'tcx Steal<Body<'tcx>>, &'tcx Steal<Promoteds<'tcx>>) {
  let (b, p) = DEFAULT.get().unwrap()(tcx, def);
  let body: Body<'tcx> = b.borrow().clone();
  let promoted: Promoteds<'tcx> = p.borrow().clone();
  // The bodies are only read again in `after_analysis`, while the same `tcx` is alive.
  let body: Body<'static> = unsafe { std::mem::transmute(body) };
  let promoted: Promoteds<'static> = unsafe { std::mem::transmute(promoted) };
  BODIES.with(|v| v.borrow_mut().push((def, body, promoted)));
  (b, p)
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  env: ty::TypingEnv<'tcx>,
  std: RefCell<BTreeSet<DefId2>>,
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
struct DefId2(u32, u32);

fn s(x: impl Into<String>) -> J {
  J::S(x.into())
}

impl<'tcx> Cx<'tcx> {
  fn path(&self, d: DefId) -> String {
    let mut p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
    if matches!(self.tcx.def_kind(d), DefKind::Static { .. }) {
      // Two statics of one name in one function are two objects.
      let n = self.tcx.def_key(d).disambiguated_data.disambiguator;
      if n != 0 {
        p = format!("{p}#{n}");
      }
    }
    if d.is_local() {
      format!("{}::{}", self.tcx.crate_name(d.krate), p)
    } else {
      p
    }
  }
  /// Independent of re-exports: the definition path, with the crate's name.
  fn dpath(&self, d: DefId) -> String {
    format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
  }
  fn ty(&self, t: Ty<'tcx>) -> J {
    s(with_no_trimmed_paths!(format!("{t}")))
  }
  fn line(&self, sp: rustc_span::Span) -> usize {
    let sp = sp.source_callsite();
    self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
  }
  fn span(&self, sp: rustc_span::Span) -> J {
    let sp = sp.source_callsite();
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let hi = sm.lookup_char_pos(sp.hi());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    J::A(vec![s(f), J::I(lo.line as i128), J::I(hi.line as i128)])
  }
  fn mac(&self, sp: rustc_span::Span) -> J {
    let mut out = String::new();
    let mut sp = sp;
    while sp.from_expansion() {
      let d = sp.ctxt().outer_expn_data();
      if let rustc_span::hygiene::ExpnKind::Macro(_, n) = d.kind {
        out = n.to_string();
      }
      sp = d.call_site;
    }
    if out.is_empty() {
      J::Null
    } else {
      s(out)
    }
  }

  fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
    let mut out = vec![];
    let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
    for e in p.projection.iter() {
      out.push(match e {
        ProjectionElem::Deref => s("*"),
        ProjectionElem::Field(f, fty) => {
          let name = self.field_name(pt, f);
          J::A(vec![s("f"), J::I(f.as_u32() as i128), s(name), self.ty(fty)])
        },
        ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)])
        },
        ProjectionElem::Subslice { from, to, from_end } => {
          J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
        },
        ProjectionElem::Downcast(n, v) => {
          let name = match pt.ty.kind() {
            ty::Adt(a, _) if a.is_enum() => a.variant(v).name.to_string(),
            _ => n.map_or(String::new(), |n| n.to_string()),
          };
          J::A(vec![s("v"), J::I(v.as_u32() as i128), s(name)])
        },
        _ => s("?"),
      });
      pt = pt.projection_ty(self.tcx, e);
    }
    J::A(vec![J::I(p.local.as_u32() as i128), J::A(out)])
  }

  fn field_name(&self, pt: PlaceTy<'tcx>, f: rustc_abi::FieldIdx) -> String {
    match pt.ty.kind() {
      ty::Adt(a, _) => {
        let v = match pt.variant_index {
          Some(v) => a.variant(v),
          None if a.is_enum() => return f.as_u32().to_string(),
          None => a.non_enum_variant(),
        };
        v.fields[f].name.to_string()
      },
      ty::Closure(d, _) | ty::Coroutine(d, _) => {
        let names = self.upvars(*d);
        names.get(f.as_usize()).cloned().unwrap_or_else(|| f.as_u32().to_string())
      },
      _ => f.as_u32().to_string(),
    }
  }
  fn upvars(&self, d: DefId) -> Vec<String> {
    match d.as_local() {
      Some(l) => self
        .tcx
        .closure_captures(l)
        .iter()
        .map(|c| c.to_string(self.tcx))
        .collect(),
      None => vec![],
    }
  }

  fn constant(&self, c: &ConstOperand<'tcx>) -> J {
    let t = c.const_.ty();
    let mut o = vec![("ty".to_string(), self.ty(t))];
    match t.kind() {
      ty::FnDef(d, args) => {
        o.push(("fn".into(), self.callee(*d, args.no_bound_vars().unwrap())));
        return J::O(o);
      },
      ty::Closure(d, _) => {
        o.push(("closure".into(), s(self.dpath(*d))));
      },
      _ => {},
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      o.push(("def".into(), s(self.path(u.def))));
      if let Some(p) = u.promoted {
        o.push(("promoted".into(), J::I(p.as_u32() as i128)));
        return J::O(o);
      }
    }
    let scalar = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_));
    if scalar {
      if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
        let v = match t.kind() {
          ty::Bool => J::B(b != 0),
          ty::Int(_) => {
            let size = t.primitive_size(self.tcx);
            J::I(size.sign_extend(b))
          },
          ty::Float(ty::FloatTy::F64) => s(format!("{}f64", f64::from_bits(b as u64))),
          ty::Float(ty::FloatTy::F32) => s(format!("{}f32", f32::from_bits(b as u32))),
          ty::Char => s(char::from_u32(b as u32).map_or(String::new(), |c| c.to_string())),
          _ => if b > i128::MAX as u128 { s(format!("{b}")) } else { J::I(b as i128) },
        };
        o.push(("v".into(), v));
        return J::O(o);
      }
    }
    if let ty::Adt(a, args) = t.kind() {
      if a.is_struct() && a.non_enum_variant().fields.len() == 1 {
        let f = &a.non_enum_variant().fields[rustc_abi::FieldIdx::from_u32(0)];
        let ft = f.ty(self.tcx, args).skip_norm_wip();
        if matches!(ft.kind(), ty::Int(_) | ty::Uint(_)) {
          if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
            let v = match ft.kind() {
              ty::Int(_) => J::I(ft.primitive_size(self.tcx).sign_extend(b)),
              _ => if b > i128::MAX as u128 { s(format!("{b}")) } else { J::I(b as i128) },
            };
            o.push(("adt".into(), s(self.path(a.did()))));
            o.push(("fname".into(), s(f.name.to_string())));
            o.push(("fv".into(), v));
            return J::O(o);
          }
        }
      }
    }
    if let ty::Ref(_, inner, _) = t.kind() {
      if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8) {
        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
          if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
            o.push(("str".into(), s(String::from_utf8_lossy(b).into_owned())));
            return J::O(o);
          }
        }
      }
    }
    if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), _) = c.const_ {
      let (prov, _) = ptr.into_raw_parts();
      if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
        o.push(("static".into(), s(self.path(d))));
        return J::O(o);
      }
    }
    if let Const::Unevaluated(..) = c.const_ {
      if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
        let text = with_no_trimmed_paths!(format!("{}", Const::Val(v, t)));
        o.push(("txt".into(), s(text)));
      }
      return J::O(o);
    }
    let text = with_no_trimmed_paths!(format!("{}", c.const_));
    o.push(("txt".into(), s(text)));
    J::O(o)
  }

  fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
    let tcx = self.tcx;
    let mut o = vec![("p".to_string(), s(self.path(d))), ("d".to_string(), s(self.dpath(d)))];
    let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
    o.push(("ga".into(), J::A(targs)));
    if let Some(tr) = tcx.trait_of_assoc(d) {
      o.push(("tr".into(), s(self.path(tr))));
      if args.len() > 0 {
        if let Some(t) = args[0].as_type() {
          o.push(("self".into(), self.ty(t)));
          if let ty::Closure(cd, _) | ty::Coroutine(cd, _) = t.peel_refs().kind() {
            o.push(("selfdef".into(), s(self.dpath(*cd))));
          }
        }
      }
    }
    if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
      let args2 = tcx.erase_and_anonymize_regions(args);
      if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, self.env, d, args2) {
        match i.def {
          ty::InstanceKind::Item(rd) => {
            o.push(("r".into(), s(self.path(rd))));
            o.push(("rd".into(), s(self.dpath(rd))));
            self.note(rd);
          },
          ty::InstanceKind::Virtual(rd, _) => o.push(("virt".into(), s(self.path(rd)))),
          ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => o.push(("shim".into(), s("once"))),
          ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => o.push(("shim".into(), s("fnptr"))),
          ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => o.push(("shim".into(), s("clone"))),
          _ => {},
        }
      }
    } else {
      o.push(("ctor".into(), J::B(true)));
    }
    J::O(o)
  }
  fn note(&self, d: DefId) {
    if !d.is_local() {
      self.std.borrow_mut().insert(DefId2(d.krate.as_u32(), d.index.as_u32()));
    }
  }

  fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
    match op {
      Operand::Copy(p) => J::O(vec![("c".into(), self.place(body, p))]),
      Operand::Move(p) => J::O(vec![("m".into(), self.place(body, p))]),
      Operand::Constant(c) => J::O(vec![("k".into(), self.constant(c))]),
      _ => J::O(vec![("k".into(), J::O(vec![("txt".into(), s("runtime-check"))]))]),
    }
  }

  fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
    let op = |o: &Operand<'tcx>| self.operand(body, o);
    J::A(match r {
      Rvalue::Use(o, ..) => vec![s("use"), op(o)],
      Rvalue::Repeat(o, n) => vec![s("repeat"), op(o), s(format!("{n}"))],
      Rvalue::Ref(_, k, p) => {
        let m = match k {
          BorrowKind::Shared => "shared",
          BorrowKind::Fake(_) => "fake",
          BorrowKind::Mut { .. } => "mut",
          #[allow(unreachable_patterns)]
          _ => "other",
        };
        vec![s("ref"), s(m), self.place(body, p)]
      },
      Rvalue::RawPtr(_, p) => vec![s("ref"), s("raw"), self.place(body, p)],
      Rvalue::Cast(k, o, t) => vec![s("cast"), s(format!("{k:?}")), op(o), self.ty(*t)],
      Rvalue::BinaryOp(b, x) => vec![s("bin"), s(format!("{b:?}")), op(&x.0), op(&x.1)],
      Rvalue::UnaryOp(u, o) => vec![s("un"), s(format!("{u:?}")), op(o)],
      Rvalue::Discriminant(p) => {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        let mut vs = vec![];
        let mut name = String::new();
        if let ty::Adt(a, _) = t.kind() {
          name = self.path(a.did());
          if a.is_enum() {
            for (i, d) in a.discriminants(self.tcx) {
              vs.push(J::A(vec![s(format!("{}", d.val)), s(a.variant(i).name.to_string())]));
            }
          }
        }
        vec![s("discr"), self.place(body, p), s(name), J::A(vs)]
      },
      Rvalue::Aggregate(k, ops) => {
        let mut v = vec![s("agg")];
        match &**k {
          AggregateKind::Array(_) => v.push(J::A(vec![s("array")])),
          AggregateKind::Tuple => v.push(J::A(vec![s("tuple")])),
          AggregateKind::Adt(d, vi, _, _, uf) => {
            let a = self.tcx.adt_def(*d);
            let var = a.variant(*vi);
            let mut fields: Vec<J> = var.fields.iter().map(|f| s(f.name.to_string())).collect();
            if let Some(u) = uf {
              fields = vec![s(var.fields[*u].name.to_string())];
            }
            v.push(J::A(vec![
              s("adt"),
              s(self.path(*d)),
              if a.is_enum() { s(var.name.to_string()) } else { J::Null },
              J::A(fields),
            ]));
          },
          AggregateKind::Closure(d, _) => v.push(J::A(vec![s("closure"), s(self.dpath(*d)), J::A(self.upvars(*d).into_iter().map(s).collect())])),
          AggregateKind::Coroutine(d, _) => v.push(J::A(vec![s("coroutine"), s(self.dpath(*d)), J::A(self.upvars(*d).into_iter().map(s).collect())])),
          AggregateKind::CoroutineClosure(d, _) => {
            v.push(J::A(vec![s("coroutine_closure"), s(self.dpath(*d)), J::A(self.upvars(*d).into_iter().map(s).collect())]))
          },
          AggregateKind::RawPtr(..) => v.push(J::A(vec![s("rawptr")])),
        }
        v.push(J::A(ops.iter().map(op).collect()));
        v
      },
      Rvalue::CopyForDeref(p) => vec![s("use"), J::O(vec![("c".into(), self.place(body, p))])],
      Rvalue::ThreadLocalRef(d) => vec![s("tls"), s(self.path(*d))],
      _ => vec![s("other"), s(format!("{r:?}"))],
    })
  }

  fn body(&self, body: &Body<'tcx>) -> Vec<(String, J)> {
    let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
    let mut upnames = vec![];
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = &v.value {
        if p.projection.is_empty() {
          names[p.local.as_usize()] = Some(v.name.to_string());
        } else {
          upnames.push(J::A(vec![s(v.name.to_string()), self.place(body, p)]));
        }
      }
    }
    let locals = body
      .local_decls
      .iter_enumerated()
      .map(|(l, d)| {
        J::A(vec![
          self.ty(d.ty),
          names[l.as_usize()].clone().map_or(J::Null, s),
        ])
      })
      .collect();
    let mut blocks = vec![];
    for bb in body.basic_blocks.iter() {
      let mut st = vec![];
      for x in &bb.statements {
        let ln = J::I(self.line(x.source_info.span) as i128);
        match &x.kind {
          StatementKind::Assign(a) => {
            st.push(J::A(vec![s("="), self.place(body, &a.0), self.rvalue(body, &a.1), ln]));
          },
          StatementKind::SetDiscriminant { place, variant_index } => {
            st.push(J::A(vec![s("setdiscr"), self.place(body, place), J::I(variant_index.as_u32() as i128), ln]));
          },
          StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_u32() as i128)])),
          StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{i:?}"))])),
          _ => {},
        }
      }
      let t = bb.terminator();
      let ln = J::I(self.line(t.source_info.span) as i128);
      let b = |x: BasicBlock| J::I(x.as_u32() as i128);
      let tj = match &t.kind {
        TerminatorKind::Goto { target, .. } => vec![s("goto"), b(*target)],
        TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), b(*real_target)],
        TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), b(*real_target)],
        TerminatorKind::SwitchInt { discr, targets } => {
          let ts = targets.iter().map(|(v, x)| J::A(vec![s(format!("{v}")), b(x)])).collect();
          vec![
            s("switch"),
            self.operand(body, discr),
            J::A(ts),
            b(targets.otherwise()),
            self.ty(discr.ty(&body.local_decls, self.tcx)),
            ln,
          ]
        },
        TerminatorKind::Return => vec![s("ret"), ln],
        TerminatorKind::Unreachable => vec![s("unreachable")],
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("resume")],
        TerminatorKind::CoroutineDrop => vec![s("resume")],
        TerminatorKind::Drop { place, target, .. } => {
          let t = place.ty(&body.local_decls, self.tcx).ty;
          vec![s("drop"), self.place(body, place), b(*target), self.ty(t), ln]
        },
        TerminatorKind::Call { func, args, destination, target, fn_span, .. } => vec![
          s("call"),
          self.operand(body, func),
          J::A(args.iter().map(|a| self.operand(body, &a.node)).collect()),
          self.place(body, destination),
          target.map_or(J::Null, b),
          J::I(self.line(*fn_span) as i128),
          self.mac(t.source_info.span),
          self.ty(destination.ty(&body.local_decls, self.tcx).ty),
        ],
        TerminatorKind::TailCall { .. } => vec![s("unreachable")],
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let k = match &**msg {
            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
            AssertKind::Overflow(o, ..) => format!("overflow:{o:?}"),
            AssertKind::DivisionByZero(_) => "div0".into(),
            AssertKind::RemainderByZero(_) => "rem0".into(),
            _ => "other".into(),
          };
          vec![s("assert"), self.operand(body, cond), J::B(*expected), s(k), b(*target), ln]
        },
        TerminatorKind::Yield { value, resume, resume_arg, .. } => {
          vec![s("yield"), self.operand(body, value), b(*resume), self.place(body, resume_arg), ln]
        },
        TerminatorKind::InlineAsm { targets, .. } => {
          vec![s("goto"), targets.first().map_or(J::Null, |x| b(*x))]
        },
      };
      blocks.push(J::A(vec![J::A(st), J::A(tj), J::B(bb.is_cleanup)]));
    }
    vec![
      ("argc".into(), J::I(body.arg_count as i128)),
      ("locals".into(), J::A(locals)),
      ("up".into(), J::A(upnames)),
      ("blocks".into(), J::A(blocks)),
    ]
  }
}

struct Cb {
  out: Option<String>,
  std_out: Option<String>,
}

impl Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::interface::Config) {
    if self.out.is_some() {
      config.override_queries = Some(|_, p| {
        let _ = DEFAULT.set(p.queries.mir_promoted);
        p.queries.mir_promoted = my_mir_promoted;
      });
    }
  }
  fn after_analysis<'tcx>(
    &mut self,
    _: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> Compilation {
    if let Some(out) = &self.out {
      dump(tcx, out, self.std_out.as_deref());
    }
    Compilation::Continue
  }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, std_out: Option<&str>) {
  // Make sure every body was built.
  for l in tcx.hir_body_owners() {
    if !tcx.is_trivial_const(l) {
      let _ = tcx.ensure_ok().mir_borrowck(tcx.typeck_root_def_id_local(l));
    }
  }
  let bodies = BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
  let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
  let mut fns = vec![];
  let mut std = BTreeSet::new();
  for (def, body, promoted) in &bodies {
    let body: &Body<'tcx> = unsafe { std::mem::transmute(body) };
    let promoted: &Promoteds<'tcx> = unsafe { std::mem::transmute(promoted) };
    let did = def.to_def_id();
    let root = tcx.typeck_root_def_id(did);
    let cx = Cx {
      tcx,
      env: ty::TypingEnv::post_analysis(tcx, root),
      std: RefCell::new(BTreeSet::new()),
    };
    let mut o = vec![("id".to_string(), s(cx.path(did))), ("d".to_string(), s(cx.dpath(did)))];
    o.push(("kind".into(), s(match tcx.def_kind(did) {
      DefKind::Fn | DefKind::AssocFn => "fn",
      DefKind::Closure => if tcx.is_coroutine(did) { "coroutine" } else { "closure" },
      _ => "const",
    })));
    o.push(("span".into(), cx.span(tcx.def_span(did).with_hi(body.span.hi()))));
    if tcx.is_closure_like(did) {
      o.push(("parent".into(), s(cx.dpath(tcx.parent(did)))));
      o.push(("upvars".into(), J::A(cx.upvars(did).into_iter().map(s).collect())));
    } else if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
      o.push(("async".into(), J::B(tcx.asyncness(did).is_async())));
      o.push(("pub".into(), J::B(tcx.visibility(did).is_public())));
      if let Some(imp) = tcx.impl_of_assoc(did) {
        let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
        o.push(("self".into(), cx.ty(t)));
        if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
          o.push(("trait".into(), s(cx.path(tr.skip_binder().def_id))));
        }
      } else if let Some(tr) = tcx.trait_of_assoc(did) {
        o.push(("trait_default".into(), s(cx.path(tr))));
      }
      o.push(("name".into(), s(tcx.item_name(did).to_string())));
    }
    o.extend(cx.body(body));
    let ps = promoted.iter().map(|p| J::O(cx.body(p))).collect();
    o.push(("promoted".into(), J::A(ps)));
    std.extend(cx.std.borrow().iter().copied());
    fns.push(J::O(o));
  }
  // ADTs and impls of this crate.
  let cx = Cx {
    tcx,
    env: ty::TypingEnv::fully_monomorphized(),
    std: RefCell::new(BTreeSet::new()),
  };
  let mut adts = vec![];
  let mut impls = vec![];
  let mut consts = vec![];
  for id in tcx.hir_crate_items(()).definitions() {
    let d = id.to_def_id();
    match tcx.def_kind(d) {
      DefKind::Struct | DefKind::Enum => {
        let a = tcx.adt_def(d);
        let vs = a
          .variants()
          .iter()
          .map(|v| {
            J::A(vec![
              s(v.name.to_string()),
              J::A(
                v.fields
                  .iter()
                  .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::A(vec![s(f.name.to_string()), cx.ty(t), J::B(tcx.visibility(f.did).is_public())])
                  })
                  .collect(),
              ),
            ])
          })
          .collect();
        adts.push(J::O(vec![
          ("id".into(), s(cx.path(d))),
          ("enum".into(), J::B(a.is_enum())),
          ("variants".into(), J::A(vs)),
          ("span".into(), cx.span(tcx.def_span(d))),
        ]));
      },
      DefKind::Impl { of_trait: true } => {
        let tr = tcx.impl_trait_ref(d).skip_binder();
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ms = tcx
          .associated_items(d)
          .in_definition_order()
          .map(|i| J::A(vec![s(i.opt_name().map_or(String::new(), |n| n.to_string())), s(cx.path(i.def_id))]))
          .collect();
        impls.push(J::O(vec![
          ("trait".into(), s(cx.path(tr.def_id))),
          ("ref".into(), s(with_no_trimmed_paths!(format!("{tr}")))),
          ("self".into(), cx.ty(t)),
          ("derived".into(), J::B(tcx.is_automatically_derived(d))),
          ("items".into(), J::A(ms)),
        ]));
      },
      DefKind::Const { .. } | DefKind::Static { .. } => {
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        consts.push(J::A(vec![s(cx.path(d)), cx.ty(t), cx.span(tcx.def_span(d))]));
      },
      _ => {},
    }
  }
  let facts = J::O(vec![
    ("crate".into(), s(krate)),
    ("fns".into(), J::A(fns)),
    ("adts".into(), J::A(adts)),
    ("impls".into(), J::A(impls)),
    ("consts".into(), J::A(consts)),
  ]);
  std::fs::write(out, facts.text()).unwrap();

  // Bodies of the library functions this crate calls (only the small combinator modules).
  if let Some(p) = std_out {
    let mut lib = vec![];
    let mut done = BTreeSet::new();
    let mut queue: Vec<DefId2> = std.into_iter().collect();
    while let Some(d2) = queue.pop() {
      if !done.insert(d2) {
        continue;
      }
      let did = DefId {
        krate: rustc_hir::def_id::CrateNum::from_u32(d2.0),
        index: rustc_hir::def_id::DefIndex::from_u32(d2.1),
      };
      let kn = tcx.crate_name(did.krate).to_string();
      if kn != "core" && kn != "alloc" && kn != "std" {
        continue;
      }
      if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        continue;
      }
      let path = with_no_trimmed_paths!(tcx.def_path_str(did));
      let ok = ["std::option::", "std::result::", "<std::option::", "<std::result::", "std::bool", "core::bool", "std::ops::", "<std::ops::ControlFlow", "std::mem::take", "std::task::", "<bool", "bool::"]
        .iter()
        .any(|x| path.starts_with(x));
      if !ok || !tcx.is_mir_available(did) {
        continue;
      }
      let cx = Cx {
        tcx,
        env: ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did)),
        std: RefCell::new(BTreeSet::new()),
      };
      let body = tcx.optimized_mir(did);
      let mut o = vec![("id".to_string(), s(path)), ("d".to_string(), s(cx.dpath(did))), ("kind".into(), s("std"))];
      o.extend(cx.body(body));
      let ps = tcx.promoted_mir(did).iter().map(|p| J::O(cx.body(p))).collect();
      o.push(("promoted".into(), J::A(ps)));
      lib.push(J::O(o));
      queue.extend(cx.std.borrow().iter().copied());
    }
    std::fs::write(p, J::O(vec![("fns".into(), J::A(lib))]).text()).unwrap();
  }
}

fn main() {
  // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to use.
  let mut args: Vec<String> = std::env::args().collect();
  args.remove(1);
  if let Ok(root) = std::env::var("MIRFACTS_SYSROOT") {
    if !args.iter().any(|a| a == "--sysroot") {
      args.push("--sysroot".into());
      args.push(root);
    }
  }
  let name = args
    .iter()
    .position(|a| a == "--crate-name")
    .map(|i| args[i + 1].clone())
    .unwrap_or_default();
  let dir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
  let test = args.iter().any(|a| a == "--test");
  let want = name.starts_with("bd_") && !dir.is_empty() && !test;
  let mut cb = Cb {
    out: want.then(|| format!("{dir}/{name}.json")),
    std_out: want.then(|| format!("{dir}/{name}.std.json")),
  };
  std::process::exit(if rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut cb)).is_ok() { 0 } else { 1 });
}
