//! rustc driver that writes the type-checked program (THIR bodies, resolved
//! callees, types, ADT layouts) of the crate being compiled as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{BinOp, BorrowKind, UnOp};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyix: HashMap<Ty<'tcx>, usize>,
    fns: Vec<String>,
    fnix: HashMap<(DefId, GenericArgsRef<'tcx>, DefId), usize>,
    adts: BTreeMap<String, String>,
    files: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        // stable, unique key of a local definition
        self.tcx.def_path(d).to_string_no_crate_verbose()
    }
    fn local_key(&self, d: DefId) -> String {
        if d.is_local() {
            esc(&self.key(d))
        } else {
            "null".into()
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let GenericArgKind::Type(t) = g.kind() {
                v.push(self.ty(t).to_string());
            }
        }
        format!("[{}]", v.join(","))
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) -> String {
        let p = self.path(d.did());
        if !self.adts.contains_key(&p) {
            let vs: Vec<String> = d
                .variants()
                .iter()
                .map(|v| {
                    let fs: Vec<String> =
                        v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                    format!(
                        "{{\"name\":{},\"fields\":[{}]}}",
                        esc(v.name.as_str()),
                        fs.join(",")
                    )
                })
                .collect();
            let kind = if d.is_enum() {
                "enum"
            } else if d.is_union() {
                "union"
            } else {
                "struct"
            };
            self.adts.insert(
                p.clone(),
                format!(
                    "{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}",
                    kind,
                    d.did().is_local(),
                    vs.join(",")
                ),
            );
        }
        p
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyix.get(&t) {
            return *i;
        }
        let ix = self.types.len();
        self.types.push(String::new());
        self.tyix.insert(t, ix);
        let s = match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".to_string(),
            ty::Char => "{\"k\":\"char\"}".to_string(),
            ty::Str => "{\"k\":\"str\"}".to_string(),
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", i.name_str()),
            ty::Uint(i) => format!("{{\"k\":\"uint\",\"n\":\"{}\"}}", i.name_str()),
            ty::Float(i) => format!("{{\"k\":\"float\",\"n\":\"{}\"}}", i.name_str()),
            ty::Adt(d, a) => {
                let p = self.adt(*d);
                let a = self.args(a);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&p), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{}}}", i, m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{}}}", i, m.is_mut())
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    "{{\"k\":\"array\",\"t\":{},\"n\":{}}}",
                    i,
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let f = self.fnref(*d, a, *d);
                format!("{{\"k\":\"fndef\",\"f\":{}}}", f)
            }
            ty::FnPtr(..) => "{\"k\":\"fnptr\"}".to_string(),
            ty::Closure(d, _) => {
                format!("{{\"k\":\"closure\",\"key\":{}}}", self.local_key(*d))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(p.name.as_str())),
            _ => format!(
                "{{\"k\":\"other\",\"s\":{}}}",
                esc(&with_no_trimmed_paths!(t.to_string()))
            ),
        };
        self.types[ix] = s;
        ix
    }
    /// A reference to a function item, with the instance it resolves to when
    /// it is a trait method and the types decide it.
    fn fnref(&mut self, d: DefId, a: GenericArgsRef<'tcx>, owner: DefId) -> usize {
        if let Some(i) = self.fnix.get(&(d, a, owner)) {
            return *i;
        }
        let ix = self.fns.len();
        self.fns.push(String::new());
        self.fnix.insert((d, a, owner), ix);
        let tcx = self.tcx;
        let p = self.path(d);
        let args = self.args(a);
        let trait_ = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let mut res = "null".to_string();
        if trait_.is_some() {
            let env = if owner.is_local() && owner != d {
                TypingEnv::post_analysis(tcx, owner)
            } else {
                TypingEnv::fully_monomorphized()
            };
            let args2 = tcx.erase_and_anonymize_regions(a);
            if !ty::TypeVisitableExt::has_infer(&args2) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args2) {
                    let rd = inst.def_id();
                    let derived = tcx
                        .impl_of_assoc(rd)
                        .map(|i| tcx.is_builtin_derived(i))
                        .unwrap_or(false);
                    let rp = self.path(rd);
                    let ra = self.args(inst.args);
                    res = format!(
                        "{{\"p\":{},\"key\":{},\"derived\":{},\"a\":{}}}",
                        esc(&rp),
                        self.local_key(rd),
                        derived,
                        ra
                    );
                }
            }
        }
        let (ctor, ctorv) = match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                let (adt_did, vix) = match tcx.def_kind(parent) {
                    DefKind::Variant => {
                        let ad = tcx.parent(parent);
                        (ad, tcx.adt_def(ad).variant_index_with_id(parent).as_usize())
                    }
                    _ => (parent, 0),
                };
                (esc(&self.adt(tcx.adt_def(adt_did))), vix.to_string())
            }
            _ => ("null".to_string(), "null".to_string()),
        };
        let impl_self = match tcx.impl_of_assoc(d) {
            Some(i) if tcx.impl_opt_trait_ref(i).is_none() => {
                let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                self.ty(t).to_string()
            }
            _ => "null".to_string(),
        };
        self.fns[ix] = format!(
            "{{\"p\":{},\"name\":{},\"crate\":{},\"key\":{},\"a\":{},\"trait\":{},\"res\":{},\"ctor\":{},\"variant\":{},\"self\":{}}}",
            esc(&p),
            esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            esc(tcx.crate_name(d.krate).as_str()),
            self.local_key(d),
            args,
            trait_.map(|t| esc(&t)).unwrap_or("null".into()),
            res,
            ctor,
            ctorv,
            impl_self
        );
        ix
    }
    fn span(&mut self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let i = match self.files.iter().position(|x| *x == f) {
            Some(i) => i,
            None => {
                self.files.push(f);
                self.files.len() - 1
            }
        };
        format!("[{},{}]", i, lo.line)
    }

    fn valtree(&mut self, v: ty::Value<'tcx>) -> String {
        let t = self.ty(v.ty);
        let v = match v.ty.kind() {
            ty::Str => ty::Value {
                ty: Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_static, v.ty),
                valtree: v.valtree,
            },
            _ => v,
        };
        if let Some(b) = v.try_to_raw_bytes(self.tcx) {
            if let Ok(s) = std::str::from_utf8(b) {
                return format!("{{\"t\":{},\"str\":{}}}", t, esc(s));
            }
        }
        if let Some(l) = v.try_to_leaf() {
            let bits = l.to_bits_unchecked();
            return format!("{{\"t\":{},\"bits\":\"{}\",\"size\":{}}}", t, bits, l.size().bytes());
        }
        format!("{{\"t\":{},\"dbg\":{}}}", t, esc(&format!("{:?}", v)))
    }

    fn pat(&mut self, p: &Pat<'tcx>, owner: DefId) -> String {
        let t = self.ty(p.ty);
        let b = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"wild\"".to_string(),
            PatKind::Never => "\"k\":\"never\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let sub = match subpattern {
                    Some(s) => self.pat(s, owner),
                    None => "null".into(),
                };
                let by = match mode.0 {
                    rustc_ast::ByRef::Yes(..) => "true",
                    rustc_ast::ByRef::No => "false",
                };
                format!(
                    "\"k\":\"bind\",\"name\":{},\"var\":{},\"byref\":{},\"sub\":{}",
                    esc(name.as_str()),
                    esc(&var_id(*var)),
                    by,
                    sub
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let a = self.adt(*adt_def);
                let subs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(&f.pattern, owner)))
                    .collect();
                format!(
                    "\"k\":\"variant\",\"adt\":{},\"v\":{},\"subs\":[{}]",
                    esc(&a),
                    variant_index.as_usize(),
                    subs.join(",")
                )
            }
            PatKind::Leaf { subpatterns } => {
                let subs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| format!("[{},{}]", f.field.as_usize(), self.pat(&f.pattern, owner)))
                    .collect();
                format!("\"k\":\"leaf\",\"subs\":[{}]", subs.join(","))
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                format!("\"k\":\"deref\",\"sub\":{}", self.pat(subpattern, owner))
            }
            PatKind::Constant { value } => {
                format!("\"k\":\"const\",\"value\":{}", self.valtree(*value))
            }
            PatKind::Range(r) => {
                let f = |d: &mut Self, b: &PatRangeBoundary<'tcx>| match b {
                    PatRangeBoundary::Finite(v) => {
                        let val = ty::Value { ty: r.ty, valtree: *v };
                        d.valtree(val)
                    }
                    _ => "null".to_string(),
                };
                let lo = f(self, &r.lo);
                let hi = f(self, &r.hi);
                let incl = matches!(r.end, rustc_hir::RangeEnd::Included);
                format!("\"k\":\"range\",\"lo\":{},\"hi\":{},\"incl\":{}", lo, hi, incl)
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let pr: Vec<String> = prefix.iter().map(|p| self.pat(p, owner)).collect();
                let su: Vec<String> = suffix.iter().map(|p| self.pat(p, owner)).collect();
                let sl = match slice {
                    Some(s) => self.pat(s, owner),
                    None => "null".into(),
                };
                format!(
                    "\"k\":\"slice\",\"pre\":[{}],\"mid\":{},\"suf\":[{}]",
                    pr.join(","),
                    sl,
                    su.join(",")
                )
            }
            PatKind::Or { pats } => {
                let ps: Vec<String> = pats.iter().map(|p| self.pat(p, owner)).collect();
                format!("\"k\":\"or\",\"pats\":[{}]", ps.join(","))
            }
            other => format!("\"k\":\"unsupported\",\"dbg\":{}", esc(&format!("{:?}", other).chars().take(80).collect::<String>())),
        };
        format!("{{\"t\":{},{}}}", t, b)
    }

    fn body(&mut self, ld: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let d = ld.to_def_id();
        let (steal, root) = match tcx.thir_body(ld) {
            Ok(x) => x,
            Err(_) => return None,
        };
        let thir = steal.borrow();
        if thir.exprs.is_empty() {
            return None;
        }
        let mut out = String::new();
        let kind = match tcx.def_kind(d) {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "fn",
            DefKind::Closure => "closure",
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const",
            DefKind::Static { .. } => "static",
            _ => "other",
        };
        let sp = self.span(tcx.def_span(d));
        let derived = {
            let root_d = tcx.typeck_root_def_id(d);
            tcx.impl_of_assoc(root_d).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false)
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let ret = match thir.body_type {
            BodyTy::Fn(sig) => self.ty(sig.output()).to_string(),
            BodyTy::Const(t) => self.ty(t).to_string(),
            _ => "null".into(),
        };
        let params: Vec<String> = thir
            .params
            .iter()
            .map(|p| {
                let t = self.ty(p.ty);
                match &p.pat {
                    Some(pt) => format!("{{\"t\":{},\"pat\":{}}}", t, self.pat(pt, d)),
                    None => format!("{{\"t\":{},\"pat\":null}}", t),
                }
            })
            .collect();
        let _ = write!(
            out,
            "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":\"{}\",\"derived\":{},\"span\":{},\"ret\":{},\"root\":{},\"params\":[{}],\n\"exprs\":[",
            esc(&self.key(d)),
            esc(&self.path(d)),
            esc(&name),
            kind,
            derived,
            sp,
            ret,
            root.as_usize(),
            params.join(",")
        );
        for (i, e) in thir.exprs.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let s = self.expr(e, d);
            out.push_str(&s);
        }
        out.push_str("],\n\"arms\":[");
        for (i, a) in thir.arms.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let p = self.pat(&a.pattern, d);
            let _ = write!(
                out,
                "{{\"pat\":{},\"guard\":{},\"body\":{}}}",
                p,
                a.guard.map(|g| g.as_usize().to_string()).unwrap_or("null".into()),
                a.body.as_usize()
            );
        }
        out.push_str("],\n\"blocks\":[");
        for (i, b) in thir.blocks.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let st: Vec<String> = b.stmts.iter().map(|s| s.as_usize().to_string()).collect();
            let unsafe_ = matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_));
            let _ = write!(
                out,
                "{{\"stmts\":[{}],\"expr\":{},\"scope\":{},\"tb\":{},\"unsafe\":{}}}",
                st.join(","),
                b.expr.map(|g| g.as_usize().to_string()).unwrap_or("null".into()),
                esc(&scope(b.region_scope)),
                b.targeted_by_break,
                unsafe_
            );
        }
        out.push_str("],\n\"stmts\":[");
        for (i, s) in thir.stmts.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            match &s.kind {
                StmtKind::Expr { expr, .. } => {
                    let _ = write!(out, "{{\"k\":\"expr\",\"e\":{}}}", expr.as_usize());
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern, d);
                    let _ = write!(
                        out,
                        "{{\"k\":\"let\",\"pat\":{},\"init\":{},\"els\":{}}}",
                        p,
                        initializer.map(|g| g.as_usize().to_string()).unwrap_or("null".into()),
                        else_block.map(|g| g.as_usize().to_string()).unwrap_or("null".into())
                    );
                }
            }
        }
        out.push_str("]}");
        Some(out)
    }

    fn ids(v: &[ExprId]) -> String {
        let s: Vec<String> = v.iter().map(|e| e.as_usize().to_string()).collect();
        format!("[{}]", s.join(","))
    }

    fn expr(&mut self, e: &Expr<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = self.ty(e.ty);
        let sp = self.span(e.span);
        let b = match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                format!("\"k\":\"Scope\",\"scope\":{},\"e\":{}", esc(&scope(*region_scope)), value.as_usize())
            }
            ExprKind::If { cond, then, else_opt, .. } => format!(
                "\"k\":\"If\",\"c\":{},\"th\":{},\"el\":{}",
                cond.as_usize(),
                then.as_usize(),
                else_opt.map(|g| g.as_usize().to_string()).unwrap_or("null".into())
            ),
            ExprKind::Call { ty: fty, fun, args, from_hir_call, .. } => {
                let f = match fty.kind() {
                    ty::FnDef(d, a) => self.fnref(*d, a.skip_binder(), owner).to_string(),
                    _ => "null".into(),
                };
                format!(
                    "\"k\":\"Call\",\"fn\":{},\"fun\":{},\"args\":{},\"hir\":{}",
                    f,
                    fun.as_usize(),
                    Self::ids(args),
                    from_hir_call
                )
            }
            ExprKind::ByUse { expr, .. } => format!("\"k\":\"Use\",\"e\":{}", expr.as_usize()),
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => format!("\"k\":\"Use\",\"e\":{}", source.as_usize()),
            ExprKind::NeverToAny { source } => format!("\"k\":\"Never\",\"e\":{}", source.as_usize()),
            ExprKind::Deref { arg } => format!("\"k\":\"Deref\",\"e\":{}", arg.as_usize()),
            ExprKind::Binary { op, lhs, rhs } => format!(
                "\"k\":\"Bin\",\"op\":\"{}\",\"l\":{},\"r\":{}",
                binop(*op),
                lhs.as_usize(),
                rhs.as_usize()
            ),
            ExprKind::LogicalOp { op, lhs, rhs } => format!(
                "\"k\":\"Logic\",\"op\":\"{}\",\"l\":{},\"r\":{}",
                match op {
                    LogicalOp::And => "and",
                    LogicalOp::Or => "or",
                },
                lhs.as_usize(),
                rhs.as_usize()
            ),
            ExprKind::Unary { op, arg } => format!(
                "\"k\":\"Un\",\"op\":\"{}\",\"e\":{}",
                match op {
                    UnOp::Not => "not",
                    UnOp::Neg => "neg",
                    UnOp::PtrMetadata => "meta",
                },
                arg.as_usize()
            ),
            ExprKind::Cast { source } => format!("\"k\":\"Cast\",\"e\":{}", source.as_usize()),
            ExprKind::PointerCoercion { cast, source, .. } => format!(
                "\"k\":\"Coerce\",\"c\":{},\"e\":{}",
                esc(&format!("{:?}", cast)),
                source.as_usize()
            ),
            ExprKind::Reborrow { source, .. } => format!("\"k\":\"Use\",\"e\":{}", source.as_usize()),
            ExprKind::Loop { body } => format!("\"k\":\"Loop\",\"e\":{}", body.as_usize()),
            ExprKind::Let { expr, pat } => {
                format!("\"k\":\"Let\",\"e\":{},\"pat\":{}", expr.as_usize(), self.pat(pat, owner))
            }
            ExprKind::Match { scrutinee, arms, .. } => {
                let a: Vec<String> = arms.iter().map(|a| a.as_usize().to_string()).collect();
                format!("\"k\":\"Match\",\"e\":{},\"arms\":[{}]", scrutinee.as_usize(), a.join(","))
            }
            ExprKind::Block { block } => format!("\"k\":\"Block\",\"b\":{}", block.as_usize()),
            ExprKind::Assign { lhs, rhs } => {
                format!("\"k\":\"Assign\",\"l\":{},\"r\":{}", lhs.as_usize(), rhs.as_usize())
            }
            ExprKind::AssignOp { op, lhs, rhs } => format!(
                "\"k\":\"AssignOp\",\"op\":\"{}\",\"l\":{},\"r\":{}",
                binop((*op).into()),
                lhs.as_usize(),
                rhs.as_usize()
            ),
            ExprKind::Field { lhs, variant_index, name } => format!(
                "\"k\":\"Field\",\"e\":{},\"v\":{},\"f\":{}",
                lhs.as_usize(),
                variant_index.as_usize(),
                name.as_usize()
            ),
            ExprKind::Index { lhs, index } => {
                format!("\"k\":\"Index\",\"e\":{},\"i\":{}", lhs.as_usize(), index.as_usize())
            }
            ExprKind::VarRef { id } => format!("\"k\":\"Var\",\"var\":{}", esc(&var_id(*id))),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                format!("\"k\":\"Upvar\",\"var\":{}", esc(&var_id(*var_hir_id)))
            }
            ExprKind::Borrow { borrow_kind, arg } => format!(
                "\"k\":\"Borrow\",\"mut\":{},\"e\":{}",
                matches!(borrow_kind, BorrowKind::Mut { .. }),
                arg.as_usize()
            ),
            ExprKind::RawBorrow { arg, .. } => {
                format!("\"k\":\"RawBorrow\",\"e\":{}", arg.as_usize())
            }
            ExprKind::Break { label, value } => format!(
                "\"k\":\"Break\",\"scope\":{},\"e\":{}",
                esc(&scope(*label)),
                value.map(|g| g.as_usize().to_string()).unwrap_or("null".into())
            ),
            ExprKind::Continue { label } => {
                format!("\"k\":\"Continue\",\"scope\":{}", esc(&scope(*label)))
            }
            ExprKind::Return { value } => format!(
                "\"k\":\"Return\",\"e\":{}",
                value.map(|g| g.as_usize().to_string()).unwrap_or("null".into())
            ),
            ExprKind::Repeat { value, count } => format!(
                "\"k\":\"Repeat\",\"e\":{},\"n\":{}",
                value.as_usize(),
                count.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            ExprKind::Array { fields } => format!("\"k\":\"Array\",\"a\":{}", Self::ids(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"Tuple\",\"a\":{}", Self::ids(fields)),
            ExprKind::Adt(a) => {
                let p = self.adt(a.adt_def);
                let fs: Vec<String> = a
                    .fields
                    .iter()
                    .map(|f| format!("[{},{}]", f.name.as_usize(), f.expr.as_usize()))
                    .collect();
                let base = match &a.base {
                    AdtExprBase::None => "null".to_string(),
                    AdtExprBase::Base(b) => b.base.as_usize().to_string(),
                    AdtExprBase::DefaultFields(_) => "\"default\"".to_string(),
                };
                format!(
                    "\"k\":\"Adt\",\"adt\":{},\"v\":{},\"fs\":[{}],\"base\":{}",
                    esc(&p),
                    a.variant_index.as_usize(),
                    fs.join(","),
                    base
                )
            }
            ExprKind::Closure(c) => {
                format!(
                    "\"k\":\"Closure\",\"key\":{},\"up\":{}",
                    esc(&self.key(c.closure_id.to_def_id())),
                    Self::ids(&c.upvars)
                )
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let l = match &lit.node {
                    Str(s, _) => format!("\"str\":{}", esc(s.as_str())),
                    Char(c) => format!("\"char\":{}", esc(&c.to_string())),
                    Int(n, _) => format!("\"int\":\"{}\"", n.get()),
                    Bool(b) => format!("\"bool\":{}", b),
                    Byte(b) => format!("\"int\":\"{}\"", b),
                    ByteStr(b, _) => format!("\"bytes\":{:?}", b.as_byte_str().to_vec()),
                    other => format!("\"dbg\":{}", esc(&format!("{:?}", other))),
                };
                format!("\"k\":\"Lit\",\"neg\":{},{}", neg, l)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                format!("\"k\":\"Bits\",\"bits\":\"{}\"", lit.to_bits_unchecked())
            }
            ExprKind::ZstLiteral { .. } => {
                let f = match e.ty.kind() {
                    ty::FnDef(d, a) => self.fnref(*d, a.skip_binder(), owner).to_string(),
                    _ => "null".into(),
                };
                format!("\"k\":\"Zst\",\"fn\":{}", f)
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let mut val = "null".to_string();
                if (e.ty.is_integral() || e.ty.is_char() || e.ty.is_bool())
                    && !ty::TypeVisitableExt::has_param(args)
                    && !def_id.is_local()
                {
                    let uv = rustc_middle::mir::UnevaluatedConst::new(*def_id, args);
                    if let Ok(c) = tcx.const_eval_resolve(
                        TypingEnv::fully_monomorphized(),
                        uv,
                        e.span,
                    ) {
                        if let Some(s) = c.try_to_scalar_int() {
                            val = esc(&s.to_bits_unchecked().to_string());
                        }
                    }
                }
                format!(
                    "\"k\":\"NamedConst\",\"p\":{},\"key\":{},\"bits\":{}",
                    esc(&self.path(*def_id)),
                    self.local_key(*def_id),
                    val
                )
            }
            ExprKind::StaticRef { def_id, .. } => format!(
                "\"k\":\"Static\",\"p\":{},\"key\":{}",
                esc(&self.path(*def_id)),
                self.local_key(*def_id)
            ),
            ExprKind::ConstBlock { did, .. } => {
                format!("\"k\":\"ConstBlock\",\"key\":{}", self.local_key(*did))
            }
            other => format!(
                "\"k\":\"Unsupported\",\"dbg\":{}",
                esc(&format!("{:?}", other).chars().take(120).collect::<String>())
            ),
        };
        format!("{{\"t\":{},\"s\":{},{}}}", t, sp, b)
    }
}

fn var_id(v: LocalVarId) -> String {
    format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32())
}

fn scope(s: rustc_middle::middle::region::Scope) -> String {
    format!("{}.{:?}", s.local_id.as_u32(), s.data)
}

fn binop(op: BinOp) -> &'static str {
    use BinOp::*;
    match op {
        Add | AddUnchecked | AddWithOverflow => "+",
        Sub | SubUnchecked | SubWithOverflow => "-",
        Mul | MulUnchecked | MulWithOverflow => "*",
        Div => "/",
        Rem => "%",
        BitXor => "^",
        BitAnd => "&",
        BitOr => "|",
        Shl | ShlUnchecked => "<<",
        Shr | ShrUnchecked => ">>",
        Eq => "==",
        Lt => "<",
        Le => "<=",
        Ne => "!=",
        Ge => ">=",
        Gt => ">",
        Cmp => "cmp",
        Offset => "offset",
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump {
            tcx,
            types: vec![],
            tyix: HashMap::new(),
            fns: vec![],
            fnix: HashMap::new(),
            adts: BTreeMap::new(),
            files: vec![],
        };
        let mut bodies = vec![];
        let mut failed = vec![];
        for ld in tcx.hir_body_owners() {
            match d.body(ld) {
                Some(b) => bodies.push(b),
                None => failed.push(esc(&d.key(ld.to_def_id()))),
            }
        }
        let ck = tcx
            .crate_types()
            .iter()
            .map(|c| esc(&format!("{:?}", c)))
            .collect::<Vec<_>>()
            .join(",");
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let files: Vec<String> = d.files.iter().map(|f| esc(f)).collect();
        let s = format!(
            "{{\"crate\":{},\"types_of_crate\":[{}],\"files\":[{}],\n\"types\":[{}],\n\"fns\":[{}],\n\"adts\":{{{}}},\n\"failed\":[{}],\n\"bodies\":[{}]}}\n",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            ck,
            files.join(","),
            d.types.join(",\n"),
            d.fns.join(",\n"),
            adts.join(",\n"),
            failed.join(","),
            bodies.join(",\n")
        );
        let name = format!("{}/{}.json", self.out, tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE));
        let tmp = format!("{}.tmp", name);
        std::fs::write(&tmp, s).expect("write dump");
        std::fs::rename(&tmp, &name).expect("rename dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let info = args.iter().any(|a| a == "--print" || a == "-vV" || a.starts_with("--print="));
    if out.is_empty() || is_build_script || info {
        struct No;
        impl Callbacks for No {}
        rustc_driver::compiler_entrypoint(&args, &mut No);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
