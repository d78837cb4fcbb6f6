//! Type-checks one crate of the shadow workspace and writes down, as JSON, what the analyses read: every body's MIR
//! (after borrow checking and drop elaboration; coroutines are state machines whose saved locals are named once), with callees resolved, and the
//! definitions and impls of the crate's own types.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, print::{with_no_trimmed_paths, PrintTraitRefExt as _}, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::BTreeSet;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeSet<(String, DefIdOrd)>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
struct DefIdOrd(DefId);
impl PartialOrd for DefIdOrd { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for DefIdOrd {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0.krate.as_u32(), self.0.index.as_u32()).cmp(&(o.0.krate.as_u32(), o.0.index.as_u32()))
    }
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    let p = self.path(d.did());
                    self.adts.insert((p, DefIdOrd(d.did())));
                }
            }
        }
        with_no_trimmed_paths!(format!("{t}"))
    }
    fn loc(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }
    /// Name of the outermost macro a span comes from ("" if none); desugarings as "~kind".
    fn mac(&self, s: Span) -> String {
        let mut r = String::new();
        let mut s = s;
        while s.from_expansion() {
            let e = s.ctxt().outer_expn_data();
            match e.kind {
                rustc_span::ExpnKind::Macro(_, n) => r = n.to_string(),
                rustc_span::ExpnKind::Desugaring(d) => { if r.is_empty() { r = format!("~{d:?}") } }
                _ => (),
            }
            s = e.call_site;
        }
        r
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, fty) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if d.is_enum() && pt.variant_index.is_none() { f.as_usize().to_string() }
                            else { d.variant(v).fields[f].name.to_string() }
                        }
                        // A local that lives across a suspension has the same place in every state.
                        ty::Coroutine(d, args) if pt.variant_index.is_some() => {
                            let l = self.tcx.coroutine_layout(*d, args).unwrap();
                            format!("~{}", l.variant_fields[pt.variant_index.unwrap()][f].as_usize())
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => self.upvar_name(*d, f.as_usize()),
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(fty);
                    let _ = write!(o, "[\"f\",{},{},{}]", f.as_usize(), js(&name), js(&t));
                }
                ProjectionElem::Downcast(..) if pt.ty.is_coroutine() => o.push_str("[\"oc\"]"),
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).unwrap_or_default();
                    let _ = write!(o, "[\"v\",{},{}]", js(&name), v.as_usize());
                }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, "[\"ci\",{offset},{from_end}]"); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{from},{to},{from_end}]"); }
                _ => o.push_str("[\"oc\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push_str("]]");
        o
    }

    fn upvar_name(&self, d: DefId, i: usize) -> String {
        match d.as_local() {
            Some(l) => {
                let c: Vec<_> = self.tcx.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect();
                c.get(i).cloned().unwrap_or_else(|| i.to_string())
            }
            None => i.to_string(),
        }
    }

    /// The type and const arguments, in the order of the `gn` of the callee.
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|a| match a.kind() {
            ty::GenericArgKind::Type(t) => Some(js(&self.ty(t))),
            ty::GenericArgKind::Const(c) => Some(js(&format!("{c}"))),
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }

    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let path = self.path(d);
        let mut o = format!("{{\"p\":{},\"k\":{}", js(&path), js(&self.key(d)));
        let _ = write!(o, ",\"a\":{}", self.gargs(args));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"t\":{}", js(&self.path(t)));
        }
        if !args.has_escaping_bound_vars() {
            let eargs = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            let eargs = tcx.erase_and_anonymize_regions(eargs);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                let rd = i.def_id();
                // a method of a trait that resolves to its default body is resolved too
                if rd != d || tcx.trait_of_assoc(d).is_some() {
                    let _ = write!(o, ",\"r\":{},\"rk\":{},\"ra\":{}", js(&self.path(rd)), js(&self.key(rd)), self.gargs(i.args));
                }
            }
        }
        o.push('}');
        o
    }

    fn cnst(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.skip_binder(), env);
            return format!("{{\"fn\":{f}}}");
        }
        let ts = self.ty(t);
        let mut o = format!("{{\"ty\":{}", js(&ts));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"n\":{}", js(&self.path(u.def)));
            if let Some(p) = u.promoted { let _ = write!(o, ",\"pr\":[{},{}]", js(&self.key(u.def)), p.as_usize()); }
            if !u.args.is_empty() { let _ = write!(o, ",\"na\":{}", js(&with_no_trimmed_paths!(format!("{:?}", u.args)))); }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if !c.const_.has_non_region_param() {
                if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                    let v: String = match t.kind() {
                        ty::Int(_) => {
                            let sz = tcx.layout_of(env.as_query_input(t)).map(|l| l.size.bits()).unwrap_or(128);
                            let sh = 128 - sz;
                            (((b << sh) as i128) >> sh).to_string()
                        }
                        _ => b.to_string(),
                    };
                    let _ = write!(o, ",\"v\":{}", js(&v));
                }
            }
        } else if !matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some()) {
            let s = with_no_trimmed_paths!(format!("{}", c.const_));
            let _ = write!(o, ",\"s\":{}", js(&s));
        }
        // Statics by address
        if let Some(d) = c.check_static_ptr(tcx) { let _ = write!(o, ",\"static\":{}", js(&self.path(d))); }
        o.push('}');
        o
    }

    fn op(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.cnst(c, env)),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":{\"ty\":\"bool\",\"rt\":1}}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, o, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(body, o, env), js(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ft = self.ty(o.ty(body, self.tcx));
                let tt = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{k:?}")), self.op(body, o, env), js(&ft), js(&tt))
            }
            Rvalue::BinaryOp(b, x) => {
                let t = self.ty(x.0.ty(body, self.tcx));
                format!("[\"bin\",{},{},{},{}]", js(&format!("{b:?}")), self.op(body, &x.0, env), self.op(body, &x.1, env), js(&t))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", js(&format!("{u:?}")), self.op(body, o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ts = self.ty(t);
                let a = match t.kind() { ty::Adt(d, _) => self.path(d.did()), _ => String::new() };
                format!("[\"discr\",{},{},{}]", self.place(body, p), js(&ts), js(&a))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut names: Vec<String> = vec![];
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, uf) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        if let Some(f) = uf { names.push(var.fields[*f].name.to_string()); }
                        else { for f in var.fields.iter() { names.push(f.name.to_string()); } }
                        let p = self.path(*d);
                        self.adts.insert((p.clone(), DefIdOrd(*d)));
                        format!("[\"adt\",{},{},{}]", js(&p), js(if ad.is_enum() { var.name.as_str() } else { "" }), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        for i in 0..ops.len() { names.push(self.upvar_name(*d, i)); }
                        format!("[\"closure\",{}]", js(&self.key(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                let o: Vec<String> = ops.iter().map(|x| self.op(body, x, env)).collect();
                let n: Vec<String> = names.iter().map(|x| js(x)).collect();
                format!("[\"agg\",{},[{}],[{}]]", kk, o.join(","), n.join(","))
            }
            _ => format!("[\"other\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut o = String::new();
        let (file, line) = self.loc(tcx.def_span(did));
        let kind = tcx.def_kind(did);
        let key = match promoted { Some(p) => format!("{}#promoted{}", self.key(did), p), None => self.key(did) };
        let _ = write!(o, "{{\"key\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{}", js(&key), js(&self.path(did)),
            js(&format!("{kind:?}")), js(&file), line);
        if tcx.is_closure_like(did) {
            let _ = write!(o, ",\"parent\":{}", js(&self.key(tcx.parent(did))));
            let _ = write!(o, ",\"root\":{}", js(&self.key(tcx.typeck_root_def_id(did))));
            let _ = write!(o, ",\"coroutine\":{}", tcx.is_coroutine(did));
            let n = tcx.closure_captures(did.expect_local()).len();
            let ups: Vec<String> = (0..n).map(|i| js(&self.upvar_name(did, i))).collect();
            let byref: Vec<String> = tcx.closure_captures(did.expect_local()).iter().map(|c| c.is_by_ref().to_string()).collect();
            let _ = write!(o, ",\"upvars\":[{}],\"upref\":[{}]", ups.join(","), byref.join(","));
        } else if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{}", js(&format!("{:?}", tcx.visibility(did))));
            let _ = write!(o, ",\"async\":{}", tcx.asyncness(did).is_async());
            if let Some(i) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let _ = write!(o, ",\"self\":{}", js(&st));
                if let Some(t) = tcx.impl_opt_trait_ref(i) {
                    let t = t.instantiate_identity().skip_norm_wip();
                    let s = with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()));
                    let _ = write!(o, ",\"trait\":{}", js(&s));
                }
            }
            let _ = write!(o, ",\"name\":{}", js(tcx.item_name(did).as_str()));
        }
        let g = tcx.generics_of(did);
        let gn: Vec<String> = (0..g.count()).map(|i| g.param_at(i, tcx)).filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| js(p.name.as_str())).collect();
        let _ = write!(o, ",\"gn\":[{}]", gn.join(","));
        let _ = write!(o, ",\"argc\":{},\"locals\":[", body.arg_count);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = Some(v.name.to_string()); }
            }
        }
        for (i, (l, d)) in body.local_decls.iter_enumerated().enumerate() {
            if i > 0 { o.push(','); }
            let t = self.ty(d.ty);
            let _ = write!(o, "{{\"ty\":{}", js(&t));
            if let Some(n) = &names[l.as_usize()] { let _ = write!(o, ",\"n\":{}", js(n)); }
            let mut base = d.ty;
            while let ty::Ref(_, t, _) = base.kind() { base = *t; }
            if let ty::Closure(c, _) | ty::Coroutine(c, _) = base.kind() { let _ = write!(o, ",\"cl\":{}", js(&self.key(*c))); }
            o.push('}');
        }
        o.push_str("],\"blocks\":[");
        for (i, b) in body.basic_blocks.iter().enumerate() {
            if i > 0 { o.push(','); }
            let _ = write!(o, "{{\"cl\":{},\"s\":[", b.is_cleanup);
            let mut first = true;
            for s in &b.statements {
                let t = match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(body, &a.0);
                        let r = self.rvalue(body, &a.1, env);
                        format!("[\"=\",{},{},{},{}]", p, r, self.loc(s.source_info.span).1, js(&self.mac(s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::Intrinsic(n) => format!("[\"intr\",{}]", js(&format!("{n:?}"))),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
            let line = self.loc(t.source_info.span).1;
            let mac = js(&self.mac(t.source_info.span));
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.ty(discr.ty(body, tcx));
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{},{},{}]", self.op(body, discr, env), ts.join(","), targets.otherwise().as_usize(), js(&dt), line, mac)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = self.ty(place.ty(body, tcx).ty);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(body, place), target.as_usize(), uw(unwind), js(&pt), line)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|a| self.op(body, &a.node, env)).collect();
                    let ats: Vec<String> = args.iter().map(|a| { let t = a.node.ty(body, tcx); js(&self.ty(t)) }).collect();
                    let dt = self.ty(destination.ty(body, tcx).ty);
                    format!("[\"call\",{},[{}],{},{},{},{},{},[{}],{}]", self.op(body, func, env), a.join(","), self.place(body, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), uw(unwind), self.loc(*fn_span).1, mac, ats.join(","), js(&dt))
                }
                TerminatorKind::TailCall { .. } => "[\"unreachable\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => format!("[\"assert\",{},{},{},{},{},{},{}]", self.op(body, cond, env), expected,
                    js(&format!("{msg:?}")), target.as_usize(), uw(unwind), line, mac),
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{},{}]", self.op(body, value, env), resume.as_usize(), self.place(body, resume_arg), line),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::InlineAsm { .. } => "[\"unreachable\"]".into(),
            };
            o.push_str(&s);
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut o = String::new();
        let _ = write!(o, "{{\"path\":{},\"kind\":\"{}\",\"local\":{}", js(&self.path(d)), a.descr(), d.is_local());
        if d.is_local() {
            let (f, l) = self.loc(tcx.def_span(d));
            let _ = write!(o, ",\"file\":{},\"line\":{},\"vis\":{}", js(&f), l, js(&format!("{:?}", tcx.visibility(d))));
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let env = ty::TypingEnv::post_analysis(tcx, d);
            let cp = tcx.type_is_copy_modulo_regions(env, st);
            let _ = write!(o, ",\"copy\":{cp},\"needs_drop\":{},\"drop\":{}", st.needs_drop(tcx, env), a.destructor(tcx).is_some());
        }
        o.push_str(",\"variants\":[");
        let discrs: Vec<String> = if a.is_enum() { a.discriminants(tcx).map(|(_, d)| d.val.to_string()).collect() } else { vec!["0".into()] };
        for (i, v) in a.variants().iter().enumerate() {
            if i > 0 { o.push(','); }
            let _ = write!(o, "{{\"n\":{},\"d\":{},\"f\":[", js(v.name.as_str()), js(discrs.get(i).map(|s| s.as_str()).unwrap_or("0")));
            for (j, f) in v.fields.iter().enumerate() {
                if j > 0 { o.push(','); }
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = with_no_trimmed_paths!(format!("{t}"));
                let _ = write!(o, "[{},{},{}]", js(f.name.as_str()), js(&t), js(&format!("{:?}", f.vis)));
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        o
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    // A tree whose other parts do not type-check still has its sound bodies analysed.
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if std::env::var("BFX_SALVAGE").is_err() { return rustc_driver::Compilation::Continue; }
        self.dump(tcx, true)
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if std::env::var("BFX_SALVAGE").is_ok() { return rustc_driver::Compilation::Continue; }
        self.dump(tcx, false)
    }
}
impl Cb {
    fn dump<'tcx>(&mut self, tcx: TyCtxt<'tcx>, salvage: bool) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("BFX_OUT") else { return rustc_driver::Compilation::Continue };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if !name.starts_with("bfffs") { return rustc_driver::Compilation::Continue; }
        let mut cx = Cx { tcx, adts: BTreeSet::new() };
        let mut bodies = vec![];
        let mut tainted: Vec<String> = vec![];
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        for l in owners {
            let did = l.to_def_id();
            if salvage {
                let root = tcx.typeck_root_def_id_local(l);
                if tcx.typeck(root).tainted_by_errors.is_some() || tcx.mir_borrowck(root).is_err() { tainted.push(js(&cx.key(did))); continue; }
            }
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(did) { continue; }
                    let b = tcx.mir_drops_elaborated_and_const_checked(l);
                    let b = if b.is_stolen() { tcx.optimized_mir(did).clone() } else { b.borrow().clone() };
                    bodies.push(cx.body(did, &b, None));
                    let pr = tcx.promoted_mir(did);
                    for (i, p) in pr.iter().enumerate() { bodies.push(cx.body(did, p, Some(i))); }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(did).clone();
                    bodies.push(cx.body(did, &b, None));
                    let pr = tcx.promoted_mir(did);
                    for (i, p) in pr.iter().enumerate() { bodies.push(cx.body(did, p, Some(i))); }
                }
                _ => (),
            }
        }
        // Every type the crate defines, mentioned or not.
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let p = cx.path(d);
                cx.adts.insert((p, DefIdOrd(d)));
            }
        }
        let mut impls = vec![];
        for (t, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let i = i.to_def_id();
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let items: Vec<String> = tcx.associated_item_def_ids(i).iter().map(|d| js(&cx.key(*d))).collect();
                let (f, l) = cx.loc(tcx.def_span(i));
                impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":[{}],\"file\":{},\"line\":{}}}", js(&cx.path(*t)), js(&st), items.join(","), js(&f), l));
            }
        }
        let ads: Vec<_> = cx.adts.iter().cloned().collect();
        let adts: Vec<String> = ads.iter().map(|(_, d)| cx.adt(d.0)).collect();
        let s = format!("{{\"crate\":{},\"tainted\":[{}],\"bodies\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n]}}\n", js(&name), tainted.join(","), bodies.join(",\n"), adts.join(",\n"), impls.join(",\n"));
        let tmp = format!("{out}/{name}.json.tmp");
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, format!("{out}/{name}.json")).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    rustc_driver::install_ice_hook("bfx-driver", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
