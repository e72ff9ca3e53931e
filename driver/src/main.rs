//! rustc driver: compiles a crate exactly as rustc would and, after analysis,
//! writes the type-checked program (THIR bodies, ADTs, impls, constants) as JSON
//! to $THIRDUMP_OUT/<crate>-<kind>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_ast::attr::AttributeExt;
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tylist: Vec<String>,
    defs: HashMap<DefId, usize>,
    deflist: Vec<String>,
    scope: u32,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
    }
    fn def(&mut self, d: DefId) -> usize {
        if let Some(i) = self.defs.get(&d) {
            return *i;
        }
        let i = self.deflist.len();
        self.defs.insert(d, i);
        self.deflist.push(String::new());
        let key = self.key(d);
        let path = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let name = self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut tr = "null".to_string();
        let kind = self.tcx.def_kind(d);
        let mut selfty = "null".to_string();
        let mut implof = "null".to_string();
        if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            if let Some(ai) = self.tcx.opt_associated_item(d) {
                let parent = self.tcx.parent(ai.def_id);
                match self.tcx.def_kind(parent) {
                    DefKind::Trait => tr = esc(&self.key(parent)),
                    DefKind::Impl { .. } => {
                        let t = self.tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                        selfty = self.ty(t).to_string();
                        if let Some(t) = self.tcx.impl_opt_trait_id(parent) {
                            implof = esc(&self.key(t));
                        }
                    }
                    _ => {}
                }
            }
        }
        self.deflist[i] = format!(
            "{{\"k\":{},\"p\":{},\"n\":{},\"tr\":{},\"st\":{},\"it\":{}}}",
            esc(&key), esc(&path), esc(&name), tr, selfty, implof
        );
        i
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tylist.len();
        self.tys.insert(t, i);
        self.tylist.push(String::new());
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let (h, args): (String, Vec<Ty<'tcx>>) = match t.kind() {
            ty::Adt(a, args) => (self.key(a.did()), args.types().collect()),
            ty::Ref(_, t, m) => (if m.is_mut() { "&mut".into() } else { "&".into() }, vec![*t]),
            ty::RawPtr(t, _) => ("*".into(), vec![*t]),
            ty::Slice(t) => ("[]".into(), vec![*t]),
            ty::Array(t, _) => ("[;]".into(), vec![*t]),
            ty::Tuple(ts) => ("()".into(), ts.iter().collect()),
            ty::Param(p) => (format!("param:{}", p.name), vec![]),
            ty::FnDef(d, a) => (format!("fn:{}", self.key(*d)), a.no_bound_vars().map(|a| a.types().collect()).unwrap_or_default()),
            ty::Closure(d, _) => (format!("closure:{}", self.key(*d)), vec![]),
            ty::Dynamic(..) => ("dyn".into(), vec![]),
            ty::Alias(..) => ("alias".into(), vec![]),
            ty::Never => ("!".into(), vec![]),
            ty::Str => ("str".into(), vec![]),
            _ => (s.clone(), vec![]),
        };
        let a: Vec<String> = args.into_iter().map(|t| self.ty(t).to_string()).collect();
        self.tylist[i] = format!("{{\"s\":{},\"h\":{},\"a\":[{}]}}", esc(&s), esc(&h), a.join(","));
        i
    }
    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (l.file.name.prefer_local_unconditionally().to_string(), l.line)
    }
    fn pats(&mut self, th: &Thir<'tcx>, ps: &[Pat<'tcx>]) -> String {
        let v: Vec<String> = ps.iter().map(|p| self.pat(th, p)).collect();
        format!("[{}]", v.join(","))
    }
    fn fpats(&mut self, th: &Thir<'tcx>, ps: &[FieldPat<'tcx>]) -> String {
        let v: Vec<String> = ps.iter().map(|p| format!("[{},{}]", p.field.as_usize(), self.pat(th, &p.pattern))).collect();
        format!("[{}]", v.join(","))
    }
    fn cval(&mut self, v: ty::Value<'tcx>) -> String {
        if let Some(l) = v.try_to_leaf() {
            return self.scalar(l, v.ty);
        }
        if let Some(b) = v.try_to_raw_bytes(self.tcx) {
            return esc(&String::from_utf8_lossy(b));
        }
        if let ty::Ref(_, inner, _) = v.ty.kind() {
            let vv = ty::Value { ty: *inner, valtree: v.valtree };
            if let Some(b) = vv.try_to_raw_bytes(self.tcx) {
                return esc(&String::from_utf8_lossy(b));
            }
        }
        format!("{{\"raw\":{}}}", esc(&format!("{v}")))
    }
    fn scalar(&mut self, l: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let sz = l.size();
        match t.kind() {
            ty::Bool => (if l.to_bits(sz) != 0 { "true" } else { "false" }).to_string(),
            ty::Int(_) => l.to_int(sz).to_string(),
            ty::Char => esc(&char::from_u32(l.to_bits(sz) as u32).map(|c| c.to_string()).unwrap_or_default()),
            _ => l.to_bits(sz).to_string(),
        }
    }
    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> String {
        let t = self.ty(p.ty);
        match &p.kind {
            PatKind::Wild | PatKind::Missing => "[\"_\"]".into(),
            PatKind::Binding { name, var, subpattern, mode, .. } => {
                let sub = match subpattern {
                    Some(s) => self.pat(th, s),
                    None => "null".into(),
                };
                let byref = matches!(mode.0, rustc_hir::ByRef::Yes(..));
                format!("[\"bind\",{},{},{},{},{}]", esc(&self.var(*var)), esc(name.as_str()), t, sub, byref)
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let k = esc(&self.key(adt_def.did()));
                let sp = self.fpats(th, subpatterns);
                format!("[\"variant\",{},{},{}]", k, variant_index.as_usize(), sp)
            }
            PatKind::Leaf { subpatterns } => {
                let sp = self.fpats(th, subpatterns);
                format!("[\"leaf\",{},{}]", t, sp)
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => self.pat(th, subpattern),
            PatKind::Constant { value } => {
                let v = self.cval(*value);
                format!("[\"const\",{},{}]", v, t)
            }
            PatKind::Range(r) => format!("[\"range\",{}]", esc(&format!("{r}"))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = self.pats(th, prefix);
                let b = match slice { Some(s) => self.pat(th, s), None => "null".into() };
                let c = self.pats(th, suffix);
                format!("[\"slice\",{},{},{}]", a, b, c)
            }
            PatKind::Or { pats } => format!("[\"or\",{}]", self.pats(th, pats)),
            PatKind::Guard { subpattern, .. } => self.pat(th, subpattern),
            PatKind::Never | PatKind::Error(_) => "[\"_\"]".into(),
        }
    }
    fn var(&self, v: LocalVarId) -> String {
        format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
    }
    fn es(&mut self, th: &Thir<'tcx>, o: DefId, v: &[ExprId]) -> String {
        let r: Vec<String> = v.iter().map(|e| self.expr(th, o, *e)).collect();
        format!("[{}]", r.join(","))
    }
    fn arms(&mut self, th: &Thir<'tcx>, o: DefId, arms: &[ArmId]) -> String {
        let mut v = vec![];
        for a in arms {
            let a = &th.arms[*a];
            let p = self.pat(th, &a.pattern);
            let g = match a.guard { Some(g) => self.expr(th, o, g), None => "null".into() };
            let b = self.expr(th, o, a.body);
            v.push(format!("[{},{},{}]", p, g, b));
        }
        format!("[{}]", v.join(","))
    }
    fn block(&mut self, th: &Thir<'tcx>, o: DefId, b: BlockId) -> String {
        let b = &th.blocks[b];
        let mut v = vec![];
        for s in b.stmts.iter() {
            match &th.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(th, o, *expr);
                    v.push(format!("[\"e\",{}]", e));
                }
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(th, pattern);
                    let i = match initializer { Some(i) => self.expr(th, o, *i), None => "null".into() };
                    let e = match else_block { Some(e) => { let b = self.block(th, o, *e); format!("[\"block\",0,0,{},0]", b) }, None => "null".into() };
                    let l = self.line(*span).1;
                    v.push(format!("[\"let\",{},{},{},{}]", p, i, e, l));
                }
            }
        }
        let tail = match b.expr { Some(e) => self.expr(th, o, e), None => "null".into() };
        let uns = !matches!(b.safety_mode, BlockSafety::Safe);
        format!("[[{}],{},{}]", v.join(","), tail, uns)
    }
    fn callee(&mut self, o: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let i = self.def(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut res = "null".to_string();
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let te = ty::TypingEnv::post_analysis(self.tcx, o);
            let args = self.tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, te, d, args) {
                let rd = inst.def_id();
                if rd != d {
                    res = self.def(rd).to_string();
                }
            }
        }
        format!("{},[{}],{}", i, targs.join(","), res)
    }
    /// expression = [kind, type, line, ...]
    fn expr(&mut self, th: &Thir<'tcx>, o: DefId, e: ExprId) -> String {
        let ex = &th.exprs[e];
        let t = self.ty(ex.ty);
        let l = self.line(ex.span).1;
        macro_rules! h { ($k:expr, $($f:tt)*) => { format!("[\"{}\",{},{},{}]", $k, t, l, format!($($f)*)) } }
        match &ex.kind {
            ExprKind::Scope { value, region_scope, .. } => { self.scope = region_scope.local_id.as_u32(); self.expr(th, o, *value) }
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(th, o, *cond);
                let a = self.expr(th, o, *then);
                let b = match else_opt { Some(x) => self.expr(th, o, *x), None => "null".into() };
                h!("if", "{},{},{}", c, a, b)
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                let a = self.es(th, o, args);
                let c = match ty.kind() {
                    ty::FnDef(d, ga) if ga.no_bound_vars().is_some() => format!("[{}]", self.callee(o, *d, ga.no_bound_vars().unwrap())),
                    _ => format!("[null,{}]", self.expr(th, o, *fun)),
                };
                h!("call", "{},{},{}", c, a, from_hir_call)
            }
            ExprKind::ByUse { expr, .. } => self.expr(th, o, *expr),
            ExprKind::Deref { arg } => { let a = self.expr(th, o, *arg); h!("deref", "{}", a) }
            ExprKind::Binary { op, lhs, rhs } => {
                let a = self.expr(th, o, *lhs); let b = self.expr(th, o, *rhs);
                h!("bin", "\"{:?}\",{},{}", op, a, b)
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let a = self.expr(th, o, *lhs); let b = self.expr(th, o, *rhs);
                h!("logic", "\"{:?}\",{},{}", op, a, b)
            }
            ExprKind::Unary { op, arg } => { let a = self.expr(th, o, *arg); h!("un", "\"{:?}\",{}", op, a) }
            ExprKind::Cast { source } => { let a = self.expr(th, o, *source); h!("cast", "{}", a) }
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } | ExprKind::PointerCoercion { source, .. }
            | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source } | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } | ExprKind::Reborrow { source, .. } => self.expr(th, o, *source),
            ExprKind::Loop { body } => { let sc = self.scope; let a = self.expr(th, o, *body); h!("loop", "{},{}", a, sc) }
            ExprKind::LoopMatch { .. } => h!("unsupported", "\"loopmatch\""),
            ExprKind::Let { expr, pat } => {
                let a = self.expr(th, o, *expr); let p = self.pat(th, pat);
                h!("iflet", "{},{}", p, a)
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(th, o, *scrutinee); let a = self.arms(th, o, arms);
                let ms = match match_source {
                    rustc_hir::MatchSource::ForLoopDesugar => "for",
                    rustc_hir::MatchSource::TryDesugar(_) => "try",
                    rustc_hir::MatchSource::AwaitDesugar => "await",
                    _ => "match",
                };
                h!("match", "\"{}\",{},{}", ms, s, a)
            }
            ExprKind::Block { block } => { let sc = self.scope; let b = self.block(th, o, *block); h!("block", "{},{}", b, sc) }
            ExprKind::Assign { lhs, rhs } => { let a = self.expr(th, o, *lhs); let b = self.expr(th, o, *rhs); h!("assign", "{},{}", a, b) }
            ExprKind::AssignOp { op, lhs, rhs } => { let a = self.expr(th, o, *lhs); let b = self.expr(th, o, *rhs); h!("assignop", "\"{:?}\",{},{}", op, a, b) }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = th.exprs[*lhs].ty;
                let fname = match lt.kind() {
                    ty::Adt(a, _) => {
                        let vi = *variant_index;
                        a.variant(vi).fields[*name].name.to_string()
                    }
                    _ => name.as_usize().to_string(),
                };
                let a = self.expr(th, o, *lhs);
                h!("field", "{},{},{}", a, esc(&fname), variant_index.as_usize())
            }
            ExprKind::Index { lhs, index } => { let a = self.expr(th, o, *lhs); let b = self.expr(th, o, *index); h!("index", "{},{}", a, b) }
            ExprKind::VarRef { id } => h!("var", "{}", esc(&self.var(*id))),
            ExprKind::UpvarRef { var_hir_id, .. } => h!("var", "{}", esc(&self.var(*var_hir_id))),
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                let a = self.expr(th, o, *arg); h!("ref", "{},{}", a, m)
            }
            ExprKind::RawBorrow { arg, .. } => { let a = self.expr(th, o, *arg); h!("ref", "{},true", a) }
            ExprKind::Break { value, label } => {
                let v = match value { Some(v) => self.expr(th, o, *v), None => "null".into() };
                h!("break", "{},{}", v, label.local_id.as_u32())
            }
            ExprKind::Continue { label } => h!("continue", "{}", label.local_id.as_u32()),
            ExprKind::ConstContinue { .. } => h!("unsupported", "\"constcontinue\""),
            ExprKind::Return { value } => { let v = match value { Some(v) => self.expr(th, o, *v), None => "null".into() }; h!("return", "{}", v) }
            ExprKind::Become { value } => { let v = self.expr(th, o, *value); h!("return", "{}", v) }
            ExprKind::ConstBlock { .. } => h!("unsupported", "\"constblock\""),
            ExprKind::Repeat { value, count } => {
                let v = self.expr(th, o, *value);
                let c = count.try_to_target_usize(self.tcx);
                h!("repeat", "{},{}", v, c.map(|c| c.to_string()).unwrap_or("null".into()))
            }
            ExprKind::Array { fields } => { let v = self.es(th, o, fields); h!("array", "{}", v) }
            ExprKind::Tuple { fields } => { let v = self.es(th, o, fields); h!("tuple", "{}", v) }
            ExprKind::Adt(a) => {
                let k = esc(&self.key(a.adt_def.did()));
                let var = a.adt_def.variant(a.variant_index);
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let e = self.expr(th, o, f.expr);
                    fs.push(format!("[{},{}]", esc(var.fields[f.name].name.as_str()), e));
                }
                let base = match &a.base { AdtExprBase::Base(b) => self.expr(th, o, b.base), _ => "null".into() };
                h!("adt", "{},{},[{}],{}", k, a.variant_index.as_usize(), fs.join(","), base)
            }
            ExprKind::Closure(c) => {
                let k = esc(&self.key(c.closure_id.to_def_id()));
                let b = self.body(c.closure_id);
                h!("closure", "{},{}", k, b)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let v = match &lit.node {
                    Str(s, _) => esc(s.as_str()),
                    ByteStr(s, _) | CStr(s, _) => format!("{{\"bytes\":{}}}", esc(&format!("{:?}", s.as_byte_str()))),
                    Byte(b) => b.to_string(),
                    Char(c) => esc(&c.to_string()),
                    Int(n, _) => format!("{}{}", if *neg { "-" } else { "" }, n.get()),
                    Float(s, _) => format!("{{\"float\":{}}}", esc(&format!("{}{}", if *neg { "-" } else { "" }, s))),
                    Bool(b) => b.to_string(),
                    Err(_) => "null".into(),
                };
                h!("lit", "{}", v)
            }
            ExprKind::NonHirLiteral { lit, .. } => { let v = self.scalar(*lit, ex.ty); h!("lit", "{}", v) }
            ExprKind::ZstLiteral { .. } => match ex.ty.kind() {
                ty::FnDef(d, ga) if ga.no_bound_vars().is_some() => { let c = self.callee(o, *d, ga.no_bound_vars().unwrap()); h!("fnref", "[{}]", c) }
                _ => h!("zst", "0"),
            },
            ExprKind::NamedConst { def_id, args, .. } => {
                let d = self.def(*def_id);
                let v = self.eval_const(o, *def_id, args, ex.ty);
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                h!("const", "{},{},[{}]", d, v, targs.join(","))
            }
            ExprKind::ConstParam { param, .. } => h!("constparam", "{}", esc(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => { let d = self.def(*def_id); h!("static", "{}", d) }
            ExprKind::InlineAsm(_) => h!("unsupported", "\"asm\""),
            ExprKind::ThreadLocalRef(d) => { let d = self.def(*d); h!("static", "{}", d) }
            ExprKind::Yield { .. } => h!("unsupported", "\"yield\""),
        }
    }
    fn eval_const(&mut self, o: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>, t: Ty<'tcx>) -> String {
        let te = ty::TypingEnv::post_analysis(self.tcx, o);
        let args = self.tcx.erase_and_anonymize_regions(args);
        if args.has_param() || args.has_infer() { return "null".into(); }
        let uv = rustc_middle::mir::UnevaluatedConst::new(d, args);
        match self.tcx.const_eval_resolve(te, uv, rustc_span::DUMMY_SP) {
            Ok(v) => self.constval(v, t),
            _ => "null".into(),
        }
    }
    fn constval(&mut self, v: rustc_middle::mir::ConstValue, t: Ty<'tcx>) -> String {
        if let Some(s) = v.try_to_scalar_int() {
            return self.scalar(s, t);
        }
        if matches!(t.kind(), ty::Ref(_, i, _) if i.is_str()) {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                return esc(&String::from_utf8_lossy(b));
            }
        }
        "null".into()
    }
    fn body(&mut self, ld: LocalDefId) -> String {
        let Ok((th, root)) = self.tcx.thir_body(ld) else { return "null".into() };
        let th = th.borrow();
        let o = ld.to_def_id();
        let mut ps = vec![];
        for p in th.params.iter() {
            let t = self.ty(p.ty);
            let q = match &p.pat { Some(q) => self.pat(&th, q), None => "null".into() };
            ps.push(format!("[{},{}]", t, q));
        }
        let e = self.expr(&th, o, root);
        format!("{{\"params\":[{}],\"body\":{}}}", ps.join(","), e)
    }
    fn attrs(&self, id: rustc_hir::HirId) -> String {
        let mut v = vec![];
        for a in self.tcx.hir_attrs(id) {
            let n = match a {
                rustc_attr_ir::Attribute::Parsed(p) => { let s = format!("{p:?}"); s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string() }
                _ => a.path().iter().map(|s| s.to_string()).collect::<Vec<_>>().join("::"),
            };
            v.push(esc(&n));
        }
        format!("[{}]", v.join(","))
    }
}

use rustc_middle::ty::TypeVisitableExt;

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D { tcx, tys: HashMap::new(), tylist: vec![], defs: HashMap::new(), deflist: vec![], scope: 0 };
    let cname = tcx.crate_name(LOCAL_CRATE).to_string();
    let is_bin = tcx.entry_fn(()).is_some();
    let (mut adts, mut impls, mut fns, mut consts, mut traits) = (vec![], vec![], vec![], vec![], vec![]);
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in adt.variants().iter_enumerated() {
                    let disc = if adt.is_enum() { 
                        let dd = adt.discriminant_for_variant(tcx, vi);
                        let s = match dd.ty.kind() {
                            ty::Int(_) => { let sz = rustc_abi::Size::from_bits(dd.ty.primitive_size(tcx).bits()); sz.sign_extend(dd.val).to_string() }
                            _ => dd.val.to_string(),
                        };
                        s
                    } else { "null".into() };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let ti = d.ty(ft);
                        let at = f.did.as_local().map(|l| d.attrs(tcx.local_def_id_to_hir_id(l))).unwrap_or("[]".into());
                        let vis = tcx.visibility(f.did).is_public();
                        fs.push(format!("{{\"n\":{},\"t\":{},\"attrs\":{},\"pub\":{}}}", esc(f.name.as_str()), ti, at, vis));
                    }
                    let at = v.def_id.as_local().map(|l| d.attrs(tcx.local_def_id_to_hir_id(l))).unwrap_or("[]".into());
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}],\"attrs\":{}}}", esc(v.name.as_str()), disc, fs.join(","), at));
                }
                let at = d.attrs(tcx.local_def_id_to_hir_id(ld));
                let (f, l) = d.line(tcx.def_span(did));
                let gens: Vec<String> = tcx.generics_of(did).own_params.iter().map(|p| esc(p.name.as_str())).collect();
                adts.push(format!("{{\"k\":{},\"kind\":\"{}\",\"v\":[{}],\"attrs\":{},\"file\":{},\"line\":{},\"gens\":[{}],\"pub\":{}}}",
                    esc(&d.key(did)), if adt.is_enum() {"enum"} else {"struct"}, vs.join(","), at, esc(&f), l, gens.join(","), tcx.visibility(did).is_public()));
            }
            DefKind::Impl { .. } => {
                let st = d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                let (tr, targs) = match tcx.impl_opt_trait_ref(did) {
                    Some(t) => { let t = t.instantiate_identity().skip_norm_wip(); let a: Vec<String> = t.args.types().map(|x| d.ty(x).to_string()).collect(); (esc(&d.key(t.def_id)), a.join(",")) }
                    None => ("null".into(), String::new()),
                };
                let mut its = vec![];
                for i in tcx.associated_item_def_ids(did) {
                    its.push(format!("[{},{}]", esc(tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default().as_str()), esc(&d.key(*i))));
                }
                let derived = tcx.hir_attrs(tcx.local_def_id_to_hir_id(ld)).iter().any(|a| format!("{a:?}").contains("AutomaticallyDerived"));
                let (f, l) = d.line(tcx.def_span(did));
                impls.push(format!("{{\"k\":{},\"self\":{},\"trait\":{},\"targs\":[{}],\"items\":[{}],\"derived\":{},\"file\":{},\"line\":{}}}",
                    esc(&d.key(did)), st, tr, targs, its.join(","), derived, esc(&f), l));
            }
            DefKind::Trait => {
                let mut its = vec![];
                for i in tcx.associated_item_def_ids(did) {
                    let ai = tcx.associated_item(*i);
                    its.push(format!("[{},{},{}]", esc(tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default().as_str()), esc(&d.key(*i)), ai.defaultness(tcx).has_value()));
                }
                traits.push(format!("{{\"k\":{},\"items\":[{}]}}", esc(&d.key(did)), its.join(",")));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_binder();
                let has = tcx.hir_node_by_def_id(ld).body_id().is_some();
                let ins: Vec<String> = sig.inputs().iter().map(|t| d.ty(*t).to_string()).collect();
                let outt = d.ty(sig.output());
                let di = d.def(did);
                let (f, l) = d.line(tcx.def_span(did));
                let preds: Vec<String> = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().filter_map(|p| {
                    let c = p.skip_norm_wip();
                    match c.kind().skip_binder() {
                        ty::ClauseKind::Trait(t) => { let s = d.ty(t.self_ty()); Some(format!("[{},{}]", s, esc(&d.key(t.def_id())))) }
                        _ => None,
                    }
                }).collect();
                let exp = tcx.def_span(did).from_expansion();
                let mut gl: Vec<String> = vec![];
                { let mut g = tcx.generics_of(did); let mut chain = vec![g]; while let Some(p) = g.parent { g = tcx.generics_of(p); chain.push(g); } 
                  for g in chain.iter().rev() { for p in g.own_params.iter() { if matches!(p.kind, ty::GenericParamDefKind::Type{..}) { gl.push(esc(p.name.as_str())); } } } }
                let body = if has { d.body(ld) } else { "null".into() };
                let par = { let pd = tcx.parent(did); if matches!(tcx.def_kind(pd), DefKind::Impl{..} | DefKind::Trait) { esc(&d.key(pd)) } else { "null".into() } };
                fns.push(format!("{{\"def\":{},\"in\":[{}],\"out\":{},\"file\":{},\"line\":{},\"preds\":[{}],\"exp\":{},\"parent\":{},\"pub\":{},\"gens\":[{}],\"b\":{}}}",
                    di, ins.join(","), outt, esc(&f), l, preds.join(","), exp, par, tcx.visibility(did).is_public(), gl.join(","), body));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = d.ty(t);
                let di = d.def(did);
                let has = tcx.hir_node_by_def_id(ld).body_id().is_some();
                let body = if has { d.body(ld) } else { "null".into() };
                let (f, l) = d.line(tcx.def_span(did));
                let mut v = "null".to_string();
                if has && !matches!(tcx.def_kind(did), DefKind::Static{..}) && tcx.generics_of(did).own_requires_monomorphization() == false && !t.has_param() && !t.has_infer() {
                    let args = ty::GenericArgs::identity_for_item(tcx, did);
                    v = d.eval_const(did, did, args, t);
                }
                consts.push(format!("{{\"def\":{},\"t\":{},\"b\":{},\"file\":{},\"line\":{},\"v\":{}}}", di, ti, body, esc(&f), l, v));
            }
            _ => {}
        }
    }
    let s = format!("{{\"crate\":{},\"bin\":{},\"adts\":[\n{}],\"impls\":[\n{}],\"traits\":[\n{}],\"fns\":[\n{}],\"consts\":[\n{}],\"defs\":[\n{}],\"tys\":[\n{}]}}",
        esc(&cname), is_bin, adts.join(",\n"), impls.join(",\n"), traits.join(",\n"), fns.join(",\n"), consts.join(",\n"), d.deflist.join(",\n"), d.tylist.join(",\n"));
    let p = format!("{}/{}{}.json", out, cname, if is_bin { "-bin" } else { "" });
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(p, s).unwrap();
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(o) = std::env::var("THIRDUMP_OUT") {
            dump(tcx, &o);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "-vV" || a == "--version") || args.iter().any(|a| a.starts_with("--print")) {
        rustc_driver::compiler_entrypoint(&args, &mut rustc_driver::TimePassesCallbacks::default());
        return;
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    let _ = code;
    std::process::exit(if format!("{code:?}").contains("0") { 0 } else { 1 });
}
