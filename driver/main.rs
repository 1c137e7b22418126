//! kfacts: a rustc driver that dumps the type-checked program of the kompact workspace
//! (MIR bodies with resolved callees, ADTs, impls, constants) as JSON facts.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [kfacts, /path/to/rustc, args...].
//! Crates named in KFACTS_CRATES are dumped to $KFACTS_OUT/<crate>.json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

macro_rules! pr {
    ($e:expr) => {
        with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!($e)))
    };
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    strs: HashMap<String, usize>,
    strv: Vec<String>,
    paths: HashMap<DefId, usize>,
    tys: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn intern(&mut self, s: String) -> usize {
        if let Some(i) = self.strs.get(&s) {
            return *i;
        }
        let i = self.strv.len();
        self.strs.insert(s.clone(), i);
        self.strv.push(s);
        i
    }
    fn path_s(&self, d: DefId) -> String {
        pr!(self.tcx.def_path_str(d))
    }
    fn path(&mut self, d: DefId) -> usize {
        if let Some(i) = self.paths.get(&d) {
            return *i;
        }
        let s = self.path_s(d);
        let i = self.intern(s);
        self.paths.insert(d, i);
        i
    }
    fn ty_s(&self, t: Ty<'tcx>) -> String {
        pr!(format!("{}", t))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let s = self.ty_s(t);
        let i = self.intern(s);
        self.tys.insert(t, i);
        i
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d);
        format!("{:?}", h.0).replace("Fingerprint(", "").replace(")", "").replace(", ", "-")
    }
    fn span(&self, s: Span) -> (String, usize, String) {
        let sm = self.tcx.sess.source_map();
        // outermost macro name, if any
        let mut mac = String::new();
        let mut cur = s;
        while cur.from_expansion() {
            let ed = cur.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, name) = ed.kind {
                mac = name.to_string();
            }
            cur = ed.call_site;
        }
        let loc = sm.lookup_char_pos(cur.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line, mac)
    }
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if adt.variants().len() > v.as_usize() {
                                let vd = adt.variant(v);
                                if vd.fields.len() > f.as_usize() {
                                    name = vd.fields[f].name.to_string();
                                }
                            }
                        }
                        ty::Closure(did, _) => {
                            if let Some(l) = did.as_local() {
                                let caps: Vec<_> = self.tcx.closure_captures(l).iter().map(|c| c.to_string(self.tcx)).collect();
                                if let Some(n) = caps.get(f.as_usize()) {
                                    name = format!("^{}", n);
                                }
                            }
                        }
                        _ => {}
                    }
                    if name.is_empty() {
                        name = format!("{}", f.as_usize());
                    }
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), q(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let n = match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let s = self.path_s(adt.did());
                            self.adts.entry(s).or_insert(adt.did());
                            adt.variant(v).name.to_string()
                        }
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    let _ = write!(o, ",[\"d\",{},{}]", v.as_usize(), q(&n));
                }
                _ => o.push_str(",\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }
    fn fn_ref(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"def\":{},\"h\":{}", self.path(did), q(&self.hash(did)));
        let _ = write!(o, ",\"krate\":{}", q(tcx.crate_name(did.krate).as_str()));
        o.push_str(",\"args\":[");
        let mut first = true;
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "{}", self.ty(t));
            }
        }
        o.push(']');
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", self.path(tr));
            let st = args.type_at(0);
            let _ = write!(o, ",\"self\":{}", self.ty(st));
        } else if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_normalization();
            let _ = write!(o, ",\"self\":{}", self.ty(st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let trd = tr.skip_binder().def_id;
                let _ = write!(o, ",\"trait\":{}", self.path(trd));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, eargs) {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let rd = inst.def_id();
                let _ = write!(o, ",\"rk\":\"{}\",\"res\":{},\"rh\":{}", k, self.path(rd), q(&self.hash(rd)));
            }
        } else {
            o.push_str(",\"ctor\":true");
        }
        o.push('}');
        o
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, a) => {
                let args: ty::GenericArgsRef<'tcx> = a.no_bound_vars().unwrap();
                return format!("{{\"fn\":{}}}", self.fn_ref(*d, args, env));
            }
            ty::Closure(d, _) => {
                return format!("{{\"closure\":{},\"h\":{}}}", self.path(*d), q(&self.hash(*d)));
            }
            _ => {}
        }
        let mut o = format!("{{\"ty\":{}", self.ty(t));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{},\"pof\":{}", p.as_usize(), q(&self.hash(u.def)));
            } else {
                let _ = write!(o, ",\"cdef\":{}", self.path(u.def));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"cty\":{}", q(&pr!(format!("{}", ct))));
        }
        let ev = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_some() => None,
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        if let Some(v) = ev {
            match v {
                ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let _ = write!(o, ",\"v\":\"{}\"", i.to_bits_unchecked());
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        let _ = write!(o, ",\"static\":{}", self.path(d));
                    } else {
                        o.push_str(",\"ptr\":true");
                        // a reference to a byte array: format templates are such constants
                        if let (ty::Ref(_, inner, _), mir::interpret::GlobalAlloc::Memory(a)) =
                            (t.kind(), tcx.global_alloc(prov.alloc_id()))
                        {
                            if matches!(inner.kind(), ty::Array(e, _) if *e == tcx.types.u8) {
                                let a = a.inner();
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                if bytes.len() <= 4096 {
                                    let _ = write!(o, ",\"b\":\"");
                                    for x in bytes {
                                        let _ = write!(o, "{:02x}", x);
                                    }
                                    o.push('"');
                                }
                            }
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(o, ",\"s\":{}", q(&String::from_utf8_lossy(b)));
                    }
                }
                _ => {}
            }
        }
        o.push('}');
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, *p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, *p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            _ => "[\"rt\"]".to_string(),
        }
    }
    fn adt_of(&mut self, t: Ty<'tcx>) -> Option<usize> {
        if let ty::Adt(a, _) = t.kind() {
            let s = self.path_s(a.did());
            self.adts.entry(s.clone()).or_insert(a.did());
            Some(self.path(a.did()))
        } else {
            None
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(body, o, env)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, *p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ks = ks.split(['(', ' ']).next().unwrap_or("").to_string();
                let ks2 = format!("{:?}", k);
                let from = o.ty(body, self.tcx);
                format!(
                    "[\"cast\",\"{}\",{},{},{},{}]",
                    ks,
                    self.operand(body, o, env),
                    self.ty(from),
                    self.ty(*t),
                    q(&ks2)
                )
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(body, &ab.0, env), self.operand(body, &ab.1, env))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let a = self.adt_of(t);
                format!("[\"discr\",{},{}]", self.place(body, *p), a.map(|x| x.to_string()).unwrap_or("null".into()))
            }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let s = self.path_s(*d);
                        self.adts.entry(s).or_insert(*d);
                        let vd = adt.variant(*v);
                        let vn = vd.name.to_string();
                        let fs: Vec<String> = vd.fields.iter().map(|f| q(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},[{}]]", self.path(*d), q(&vn), fs.join(","))
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{},{}]", self.path(*d), q(&self.hash(*d)))
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"coroutine\",{},{}]", self.path(*d), q(&self.hash(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, *p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.path(*d)),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => format!("{}", b.as_usize()),
            UnwindAction::Continue => "-1".into(),
            UnwindAction::Unreachable => "-2".into(),
            UnwindAction::Terminate(_) => "-3".into(),
        }
    }
    fn blocks(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &mut String) {
        o.push_str("\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            o.push_str("\n {\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let (_, line, _) = self.span(st.source_info.span);
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!("[\"=\",{},{},{}]", self.place(body, b.0), self.rvalue(body, &b.1, env), line)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(body, **place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{}]", self.operand(body, op, env)),
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => "[\"cno\"]".into(),
                    },
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let (_, line, mac) = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    v.push(format!("[null,{}]", targets.otherwise().as_usize()));
                    let t = discr.ty(body, self.tcx);
                    format!("[\"switch\",{},[{}],{}]", self.operand(body, discr, env), v.join(","), self.ty(t))
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(body, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        self.place(body, *place),
                        target.as_usize(),
                        self.unwind(unwind),
                        self.ty(t)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(body, *destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        self.unwind(unwind)
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow_{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow_neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let extra: Vec<String> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => vec![self.operand(body, len, env), self.operand(body, index, env)],
                        AssertKind::Overflow(_, a, b) => vec![self.operand(body, a, env), self.operand(body, b, env)],
                        AssertKind::DivisionByZero(a) | AssertKind::RemainderByZero(a) | AssertKind::OverflowNeg(a) => {
                            vec![self.operand(body, a, env)]
                        }
                        _ => vec![],
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{},{},[{}]]",
                        self.operand(body, cond, env),
                        expected,
                        k,
                        target.as_usize(),
                        self.unwind(unwind),
                        extra.join(",")
                    )
                }
                TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{}]", resume.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            o.push_str(&t);
            let _ = write!(o, ",\"l\":{}", line);
            if !mac.is_empty() {
                let m = self.intern(mac);
                let _ = write!(o, ",\"m\":{}", m);
            }
            if bb.is_cleanup {
                o.push_str(",\"cl\":1");
            }
            o.push('}');
        }
        o.push(']');
    }
    fn locals(&mut self, body: &Body<'tcx>, o: &mut String) {
        o.push_str("\"locals\":[");
        let v: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        o.push_str(&v.join(","));
        o.push_str("],\"names\":[");
        let mut first = true;
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let pl = self.place(body, *p);
                let _ = write!(o, "[{},{}]", q(vdi.name.as_str()), pl);
            }
        }
        o.push(']');
    }
    fn body(&mut self, l: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let did = l.to_def_id();
        let kind = tcx.def_kind(did);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody);
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
        );
        if !is_fn && !is_const {
            return None;
        }
        let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o = String::new();
        let id = self.path(did);
        let _ = write!(o, "{{\"id\":{},\"h\":{},\"kind\":{}", id, q(&self.hash(did)), q(&format!("{:?}", kind)));
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(o, ",\"name\":{}", q(n.as_str()));
        }
        let parent = tcx.parent(did);
        let _ = write!(o, ",\"parent\":{}", self.path(parent));
        if kind == DefKind::Closure {
            let base = tcx.typeck_root_def_id(did);
            let _ = write!(o, ",\"base\":{}", self.path(base));
            let caps: Vec<String> = tcx.closure_captures(l).iter().map(|c| q(&c.to_string(tcx))).collect();
            let _ = write!(o, ",\"caps\":[{}]", caps.join(","));
            if tcx.is_coroutine(did) {
                o.push_str(",\"coroutine\":true");
            }
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let _ = write!(o, ",\"self\":{}", self.ty(st));
            if let ty::Adt(a, _) = st.kind() {
                let _ = write!(o, ",\"self_adt\":{}", self.path(a.did()));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_normalization();
                let _ = write!(o, ",\"trait\":{},\"trait_ref\":{}", self.path(tr.def_id), q(&pr!(format!("{}", tr))));
            }
            if let Some(tid) = tcx.trait_item_of(did) {
                let _ = write!(o, ",\"titem\":{}", q(&self.hash(tid)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"in_trait\":{}", self.path(tr));
        }
        if kind != DefKind::Closure {
            let vis = tcx.visibility(did);
            let _ = write!(o, ",\"pub\":{}", vis.is_public());
            if is_fn && kind != DefKind::SyntheticCoroutineBody {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_normalization();
                let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
            }
        }
        let (f, line, mac) = self.span(tcx.def_span(did));
        let _ = write!(o, ",\"file\":{},\"line\":{}", self.intern(f), line);
        if !mac.is_empty() {
            let _ = write!(o, ",\"mac\":{}", q(&mac));
        }
        if is_const {
            let t = tcx.type_of(did).instantiate_identity().skip_normalization();
            let _ = write!(o, ",\"cty\":{}", self.ty(t));
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.generics_of(did).is_empty() {
                if let Ok(v) = tcx.const_eval_poly(did) {
                    if let ConstValue::Scalar(mir::interpret::Scalar::Int(i)) = v {
                        let _ = write!(o, ",\"v\":\"{}\"", i.to_bits_unchecked());
                    } else if let ConstValue::Slice { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"sv\":{}", q(&String::from_utf8_lossy(b)));
                        }
                    }
                }
            }
        }
        let _ = write!(o, ",\"argc\":{},", body.arg_count);
        self.locals(body, &mut o);
        o.push(',');
        self.blocks(body, env, &mut o);
        if is_fn {
            let proms = tcx.promoted_mir(did);
            o.push_str(",\"promoted\":[");
            for (i, p) in proms.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push('{');
                self.locals(p, &mut o);
                o.push(',');
                self.blocks(p, env, &mut o);
                o.push('}');
            }
            o.push(']');
        }
        o.push('}');
        Some(o)
    }
    fn adt(&mut self, name: &str, d: DefId) -> String {
        let tcx = self.tcx;
        let adt = tcx.adt_def(d);
        let mut o = format!(
            "{{\"id\":{},\"kind\":\"{}\",\"local\":{},\"h\":{}",
            q(name),
            adt.descr(),
            d.is_local(),
            q(&self.hash(d))
        );
        if adt.has_dtor(tcx) {
            o.push_str(",\"drop\":true");
        }
        if d.is_local() {
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            let (f, line, _) = self.span(tcx.def_span(d));
            let _ = write!(o, ",\"file\":{},\"line\":{}", self.intern(f), line);
        }
        o.push_str(",\"variants\":[");
        for (i, v) in adt.variants().iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            let discr = if adt.is_enum() { adt.discriminant_for_variant(tcx, i).val } else { 0 };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                fs.push(format!("[{},{},{}]", q(f.name.as_str()), self.ty(t), f.vis.is_public()));
            }
            let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", q(v.name.as_str()), discr, fs.join(","));
        }
        o.push_str("]}");
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = std::env::var("KFACTS_OUT").expect("KFACTS_OUT");
        let mut d = Dump {
            tcx,
            adts: BTreeMap::new(),
            strs: HashMap::new(),
            strv: Vec::new(),
            paths: HashMap::new(),
            tys: HashMap::new(),
        };
        let mut bodies = Vec::new();
        for l in tcx.mir_keys(()).iter() {
            if let Some(b) = d.body(*l) {
                bodies.push(b);
            }
        }
        let mut impls = Vec::new();
        let mut traits = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_normalization();
                    let mut o = format!("{{\"self\":{}", d.ty(st));
                    if let ty::Adt(a, _) = st.kind() {
                        let _ = write!(o, ",\"self_adt\":{}", d.path(a.did()));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_normalization();
                        let _ = write!(o, ",\"trait\":{},\"trait_ref\":{}", d.path(tr.def_id), q(&pr!(format!("{}", tr))));
                        let h = tcx.impl_trait_header(did);
                        let _ = write!(o, ",\"unsafe\":{}", !h.safety.is_safe());
                        let preds: Vec<String> = tcx
                            .clauses_of(did)
                            .instantiate_identity(tcx)
                            .into_iter()
                            .map(|(p, _)| q(&pr!(format!("{}", p.skip_normalization()))))
                            .collect();
                        let _ = write!(o, ",\"preds\":[{}]", preds.join(","));
                        let mut acs = Vec::new();
                        for it in tcx.associated_items(did).in_definition_order() {
                            if let ty::AssocKind::Type { .. } = it.kind {
                                let t = tcx.type_of(it.def_id).instantiate_identity().skip_normalization();
                                acs.push(format!("[{},{}]", q(it.name().as_str()), d.ty(t)));
                            }
                        }
                        let _ = write!(o, ",\"atys\":[{}]", acs.join(","));
                    }
                    let (f, line, mac) = d.span(tcx.def_span(did));
                    let _ = write!(o, ",\"file\":{},\"line\":{},\"mac\":{}}}", d.intern(f), line, q(&mac));
                    impls.push(o);
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let s = d.path_s(did);
                    d.adts.entry(s).or_insert(did);
                }
                DefKind::Trait => {
                    let items: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| {
                            format!(
                                "[{},{},{}]",
                                q(i.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()),
                                q(&d.hash(i.def_id)),
                                i.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    traits.push(format!("{{\"id\":{},\"items\":[{}]}}", d.path(did), items.join(",")));
                }
                _ => {}
            }
        }
        let mut adts = Vec::new();
        let list: Vec<(String, DefId)> = d.adts.iter().map(|(a, b)| (a.clone(), *b)).collect();
        for (n, did) in list {
            let s = d.adt(&n, did);
            adts.push(s);
        }
        let strs: Vec<String> = d.strv.iter().map(|s| q(s)).collect();
        let txt = format!(
            "{{\"crate\":{},\"strs\":[{}],\n\"bodies\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}]}}\n",
            q(&krate),
            strs.join(","),
            bodies.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n")
        );
        let p = format!("{}/{}.json", out, krate);
        let tmp = format!("{}.tmp{}", p, std::process::id());
        std::fs::write(&tmp, txt).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want: Vec<String> =
        std::env::var("KFACTS_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let dump = want.contains(&name);
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::catch_with_exit_code(|| {
        if dump {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    })
}
