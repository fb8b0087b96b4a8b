// Dumps the type-checked program (THIR + items) of one crate as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write;

enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn s(x: impl Into<String>) -> J { J::S(x.into()) }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => write!(o, "{}", n).unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            },
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.w(o);
                }
                o.push(']');
            },
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o);
                }
                o.push('}');
            },
        }
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    ext_adts: HashMap<DefId, J>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)));
        if d.is_local() { format!("crate::{}", p) } else { p }
    }
    fn key(&self, d: LocalDefId) -> J {
        J::s(self.tcx.def_path(d.to_def_id()).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        // expansion root, so that macro-generated code points at its invocation as well
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}:{}", name, lo.line, lo.col.0 + 1))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) { return J::N(*i as i64); }
        let i = self.types.len();
        self.tmap.insert(t, i);
        self.types.push(J::Null);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::s(self.path(def.did()))));
                if !def.did().is_local() { self.ext_adt(*def); }
                let a = self.args(args);
                o.push(("args", a));
            },
            ty::Ref(_, t2, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*t2);
                o.push(("t", x));
            },
            ty::RawPtr(t2, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty(*t2);
                o.push(("t", x));
            },
            ty::Slice(t2) => { o.push(("k", J::s("slice"))); let x = self.ty(*t2); o.push(("t", x)); },
            ty::Array(t2, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*t2); o.push(("t", x));
                o.push(("n", J::s(format!("{}", n))));
            },
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(v)));
            },
            ty::Param(p) => { o.push(("k", J::s("param"))); o.push(("name", J::s(p.name.as_str()))); },
            ty::Closure(did, _) => {
                o.push(("k", J::s("closure")));
                if let Some(l) = (*did).as_local() { let k = self.key(l); o.push(("key", k)); }
            },
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                let p = self.path((*did).into());
                o.push(("path", J::s(p)));
                let args = args.skip_binder();
                let a = self.args(args);
                o.push(("args", a));
            },
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Char | ty::Str =>
                o.push(("k", J::s("prim"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::O(o);
        J::N(i as i64)
    }
    fn ext_adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.ext_adts.contains_key(&def.did()) { return; }
        let vs = self.variants(def);
        self.ext_adts.insert(def.did(), J::O(vec![
            ("path", J::s(self.path(def.did()))),
            ("enum", J::B(def.is_enum())),
            ("variants", vs),
        ]));
    }
    fn variants(&mut self, def: ty::AdtDef<'tcx>) -> J {
        let tcx = self.tcx;
        J::A(def.variants().iter().map(|v| J::O(vec![
            ("name", J::s(v.name.as_str())),
            ("fields", J::A(v.fields.iter().map(|f| J::O(vec![
                ("name", J::s(f.name.as_str())),
                ("public", J::B(f.vis.is_public())),
                ("ty", if def.did().is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); self.ty(t)
                } else { J::Null }),
            ])).collect())),
        ])).collect())
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t)).collect();
        J::A(v)
    }
    /// Callee description of a function item type.
    fn callee(&mut self, owner: LocalDefId, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o: Vec<(&'static str, J)> = vec![("path", J::s(self.path(did)))];
        let a = self.args(args);
        o.push(("args", a));
        o.push(("name", J::s(tcx.item_name(did).as_str())));
        o.push(("local", J::B(did.is_local())));
        if let Some(l) = did.as_local() { let k = self.key(l); o.push(("key", k)); }
        let kind = tcx.def_kind(did);
        o.push(("kind", J::s(format!("{:?}", kind))));
        if matches!(kind, DefKind::Ctor(..)) {
            let var = tcx.parent(did);
            let (adt, vname) = match tcx.def_kind(var) {
                DefKind::Variant => (tcx.parent(var), tcx.item_name(var).as_str().to_string()),
                _ => (var, tcx.item_name(var).as_str().to_string()),
            };
            o.push(("adt", J::s(self.path(adt))));
            let idx = tcx.adt_def(adt).variants().iter().position(|v| v.def_id == var).unwrap_or(0);
            o.push(("variant", J::N(idx as i64)));
            o.push(("vname", J::s(vname)));
            if !adt.is_local() { self.ext_adt(tcx.adt_def(adt)); }
            return J::O(o);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::s(self.path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("implself", st));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::post_analysis(tcx, owner);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args) {
                let rd = inst.def_id();
                let mut r: Vec<(&'static str, J)> = vec![("path", J::s(self.path(rd)))];
                r.push(("local", J::B(rd.is_local())));
                if let Some(l) = rd.as_local() { let k = self.key(l); r.push(("key", k)); }
                let a = self.args(inst.args);
                r.push(("args", a));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    r.push(("implself", st));
                }
                o.push(("resolved", J::O(r)));
            }
        }
        J::O(o)
    }
}

struct Body<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> J {
        J::s(format!("{}.{}", self.d.tcx.def_path(v.0.owner.to_def_id()).to_string_no_crate_verbose(),
            v.0.local_id.as_u32()))
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        let t = self.d.ty(p.ty);
        o.push(("ty", t));
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => o.push(("k", J::s("Wild"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("k", J::s("Bind")));
                o.push(("name", J::s(name.as_str())));
                let v = self.var(*var);
                o.push(("var", v));
                o.push(("byref", J::B(matches!(mode.0, hir::ByRef::Yes(..)))));
                o.push(("mut", J::B(mode.1.is_mut())));
                if let hir::ByRef::Yes(_, m) = mode.0 { o.push(("refmut", J::B(m.is_mut()))); }
                if let Some(s) = subpattern { let s = self.pat(s); o.push(("sub", s)); }
            },
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("k", J::s("Variant")));
                o.push(("adt", J::s(self.d.path(adt_def.did()))));
                if !adt_def.did().is_local() { self.d.ext_adt(*adt_def); }
                o.push(("variant", J::N(variant_index.as_u32() as i64)));
                o.push(("vname", J::s(adt_def.variant(*variant_index).name.as_str())));
                let f = self.fpats(subpatterns);
                o.push(("fields", f));
            },
            PatKind::Leaf { subpatterns } => {
                o.push(("k", J::s("Leaf")));
                let f = self.fpats(subpatterns);
                o.push(("fields", f));
            },
            PatKind::Deref { subpattern, .. } => {
                o.push(("k", J::s("Deref")));
                let s = self.pat(subpattern);
                o.push(("sub", s));
            },
            PatKind::DerefPattern { subpattern, .. } => {
                o.push(("k", J::s("DerefPattern")));
                let s = self.pat(subpattern);
                o.push(("sub", s));
            },
            PatKind::Constant { value } => {
                o.push(("k", J::s("Const")));
                o.push(("value", J::s(format!("{}", value))));
            },
            PatKind::Range(r) => {
                o.push(("k", J::s("Range")));
                o.push(("value", J::s(format!("{}", r))));
            },
            PatKind::Or { pats } => {
                o.push(("k", J::s("Or")));
                let v: Vec<J> = pats.iter().map(|p| self.pat(p)).collect();
                o.push(("pats", J::A(v)));
            },
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o.push(("k", J::s("Slice")));
                let v: Vec<J> = prefix.iter().map(|p| self.pat(p)).collect();
                o.push(("prefix", J::A(v)));
                if let Some(s) = slice { let s = self.pat(s); o.push(("slice", s)); }
                let v: Vec<J> = suffix.iter().map(|p| self.pat(p)).collect();
                o.push(("suffix", J::A(v)));
            },
            _ => { o.push(("k", J::s("Unknown"))); },
        }
        J::O(o)
    }
    fn fpats(&mut self, s: &[FieldPat<'tcx>]) -> J {
        J::A(s.iter().map(|f| {
            let p = self.pat(&f.pattern);
            J::A(vec![J::N(f.field.as_u32() as i64), p])
        }).collect())
    }
    fn block(&mut self, b: BlockId) -> J {
        let thir = self.thir;
        let b = &thir.blocks[b];
        let mut o: Vec<(&'static str, J)> = vec![("k", J::s("Block"))];
        let mut st = vec![];
        for s in b.stmts.iter() {
            match &thir.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(*expr);
                    st.push(J::O(vec![("k", J::s("Expr")), ("e", e)]));
                },
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(pattern);
                    let i = match initializer { Some(i) => self.expr(*i), None => J::Null };
                    let e = match else_block { Some(b) => self.block(*b), None => J::Null };
                    let sp = self.d.span(*span);
                    st.push(J::O(vec![("k", J::s("Let")), ("pat", p), ("init", i), ("else", e), ("sp", sp)]));
                },
            }
        }
        o.push(("stmts", J::A(st)));
        let e = match b.expr { Some(e) => self.expr(e), None => J::Null };
        o.push(("expr", e));
        o.push(("targeted", J::B(b.targeted_by_break)));
        o.push(("scope", J::s(format!("{:?}", b.region_scope))));
        o.push(("unsafe", J::B(matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_)))));
        let sp = self.d.span(b.span);
        o.push(("sp", sp));
        J::O(o)
    }
    fn exprs(&mut self, v: &[ExprId]) -> J { J::A(v.iter().map(|e| self.expr(*e)).collect()) }
    fn opt(&mut self, e: &Option<ExprId>) -> J { match e { Some(e) => self.expr(*e), None => J::Null } }
    fn expr(&mut self, id: ExprId) -> J {
        let thir = self.thir;
        let e = &thir.exprs[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($s:expr) => { o.push(("k", J::s($s))) } }
        macro_rules! f { ($n:expr, $v:expr) => {{ let v = $v; o.push(($n, v)); }} }
        match &e.kind {
            ExprKind::Scope { region_scope, value, .. } => {
                // keep the scope only where a break/continue can name it
                let inner = &thir.exprs[*value];
                if matches!(inner.kind, ExprKind::Loop { .. } | ExprKind::Block { .. } | ExprKind::Scope { .. }
                    | ExprKind::Match { .. }) {
                    k!("Scope");
                    f!("scope", J::s(format!("{:?}", region_scope)));
                    f!("e", self.expr(*value));
                    return J::O(o);
                }
                return self.expr(*value);
            },
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("If");
                f!("cond", self.expr(*cond));
                f!("then", self.expr(*then));
                f!("else", self.opt(else_opt));
            },
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                k!("Call");
                match ty.kind() {
                    ty::FnDef(did, ga) => {
                        let c = self.d.callee(self.owner, (*did).into(), ga.skip_binder());
                        o.push(("callee", c));
                    },
                    _ => { f!("fun", self.expr(*fun)); },
                }
                f!("args", self.exprs(args));
                f!("overloaded", J::B(!*from_hir_call));
            },
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => { k!("Deref"); f!("e", self.expr(*arg)); },
            ExprKind::Binary { op, lhs, rhs } => {
                k!("Binary");
                f!("op", J::s(format!("{:?}", op)));
                f!("l", self.expr(*lhs));
                f!("r", self.expr(*rhs));
            },
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("Logical");
                f!("op", J::s(match op { LogicalOp::And => "And", LogicalOp::Or => "Or" }));
                f!("l", self.expr(*lhs));
                f!("r", self.expr(*rhs));
            },
            ExprKind::Unary { op, arg } => {
                k!("Unary");
                f!("op", J::s(format!("{:?}", op)));
                f!("e", self.expr(*arg));
            },
            ExprKind::Cast { source } => { k!("Cast"); f!("e", self.expr(*source)); },
            ExprKind::ValueExpr { source } => return self.expr(*source),
            ExprKind::NeverToAny { source } => { k!("Never"); f!("e", self.expr(*source)); },
            ExprKind::PointerCoercion { cast, source, .. } => {
                k!("Coerce");
                f!("cast", J::s(format!("{:?}", cast)));
                f!("e", self.expr(*source));
            },
            ExprKind::Loop { body } => { k!("Loop"); f!("body", self.expr(*body)); },
            ExprKind::Let { expr, pat } => {
                k!("LetCond");
                f!("e", self.expr(*expr));
                f!("pat", self.pat(pat));
            },
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("Match");
                f!("src", J::s(format!("{:?}", match_source)));
                f!("e", self.expr(*scrutinee));
                let v: Vec<J> = arms.iter().map(|a| {
                    let a = &thir.arms[*a];
                    let p = self.pat(&a.pattern);
                    let g = self.opt(&a.guard);
                    let b = self.expr(a.body);
                    let sp = self.d.span(a.span);
                    J::O(vec![("pat", p), ("guard", g), ("body", b), ("sp", sp)])
                }).collect();
                f!("arms", J::A(v));
            },
            ExprKind::Block { block } => {
                let b = self.block(*block);
                if let J::O(v) = b { o = v; }
            },
            ExprKind::Assign { lhs, rhs } => {
                k!("Assign");
                f!("l", self.expr(*lhs));
                f!("r", self.expr(*rhs));
            },
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("AssignOp");
                f!("op", J::s(format!("{:?}", op)));
                f!("l", self.expr(*lhs));
                f!("r", self.expr(*rhs));
            },
            ExprKind::Field { lhs, variant_index, name } => {
                k!("Field");
                f!("e", self.expr(*lhs));
                f!("variant", J::N(variant_index.as_u32() as i64));
                f!("idx", J::N(name.as_u32() as i64));
                let t = thir.exprs[*lhs].ty;
                if let ty::Adt(def, _) = t.kind() {
                    f!("fname", J::s(def.variant(*variant_index).fields[*name].name.as_str()));
                }
            },
            ExprKind::Index { lhs, index } => {
                k!("Index");
                f!("e", self.expr(*lhs));
                f!("i", self.expr(*index));
            },
            ExprKind::VarRef { id } => { k!("Var"); f!("var", self.var(*id)); },
            ExprKind::UpvarRef { var_hir_id, .. } => { k!("Upvar"); f!("var", self.var(*var_hir_id)); },
            ExprKind::Borrow { borrow_kind, arg } => {
                k!("Borrow");
                f!("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })));
                f!("e", self.expr(*arg));
            },
            ExprKind::RawBorrow { mutability, arg } => {
                k!("RawBorrow");
                f!("mut", J::B(mutability.is_mut()));
                f!("e", self.expr(*arg));
            },
            ExprKind::Break { label, value } => {
                k!("Break");
                f!("label", J::s(format!("{:?}", label)));
                f!("e", self.opt(value));
            },
            ExprKind::Continue { label } => { k!("Continue"); f!("label", J::s(format!("{:?}", label))); },
            ExprKind::Return { value } => { k!("Return"); f!("e", self.opt(value)); },
            ExprKind::Repeat { value, count } => {
                k!("Repeat");
                f!("e", self.expr(*value));
                f!("n", J::s(format!("{}", count)));
            },
            ExprKind::Array { fields } => { k!("Array"); f!("es", self.exprs(fields)); },
            ExprKind::Tuple { fields } => { k!("Tuple"); f!("es", self.exprs(fields)); },
            ExprKind::Adt(a) => {
                k!("Adt");
                f!("adt", J::s(self.d.path(a.adt_def.did())));
                if !a.adt_def.did().is_local() { self.d.ext_adt(a.adt_def); }
                f!("variant", J::N(a.variant_index.as_u32() as i64));
                f!("vname", J::s(a.adt_def.variant(a.variant_index).name.as_str()));
                let fs: Vec<J> = a.fields.iter().map(|fe| {
                    let nm = a.adt_def.variant(a.variant_index).fields[fe.name].name.as_str().to_string();
                    let e = self.expr(fe.expr);
                    J::A(vec![J::N(fe.name.as_u32() as i64), J::S(nm), e])
                }).collect();
                f!("fields", J::A(fs));
                match &a.base {
                    AdtExprBase::Base(b) => { f!("base", self.expr(b.base)); },
                    AdtExprBase::None => {},
                    _ => { f!("base", J::s("default")); },
                }
            },
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. }
                => return self.expr(*source),
            ExprKind::Closure(c) => {
                k!("Closure");
                f!("key", self.d.key(c.closure_id));
                let tcx = self.d.tcx;
                let caps: Vec<J> = tcx.closure_captures(c.closure_id).iter().map(|cp| {
                    let byref = matches!(cp.info.capture_kind, ty::UpvarCapture::ByRef(_));
                    let v = self.var(LocalVarId(cp.get_root_variable().into_hir_id(self.d.tcx, c.closure_id)));
                    J::O(vec![("var", v), ("byref", J::B(byref))])
                }).collect();
                f!("caps", J::A(caps));
            },
            ExprKind::Literal { lit, neg } => {
                k!("Lit");
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Int(n, _) => { f!("v", J::s(format!("{}", n))); f!("lk", J::s("int")); },
                    Float(s, _) => { f!("v", J::s(s.as_str())); f!("lk", J::s("float")); },
                    Bool(b) => { f!("v", J::s(format!("{}", b))); f!("lk", J::s("bool")); },
                    Str(s, _) => { f!("v", J::s(s.as_str())); f!("lk", J::s("str")); },
                    ByteStr(b, _) => {
                        f!("v", J::s(b.as_byte_str().iter().map(|x| format!("{:02x}", x)).collect::<String>()));
                        f!("lk", J::s("bytestr"));
                    },
                    Char(c) => { f!("v", J::s(c.to_string())); f!("lk", J::s("char")); },
                    other => { f!("v", J::s(format!("{:?}", other))); f!("lk", J::s("other")); },
                }
                f!("neg", J::B(*neg));
            },
            ExprKind::NonHirLiteral { lit, .. } => { k!("Lit"); f!("v", J::s(format!("{:?}", lit))); f!("lk", J::s("nonhir")); },
            ExprKind::ZstLiteral { .. } => {
                match e.ty.kind() {
                    ty::FnDef(did, ga) => {
                        k!("FnItem");
                        let c = self.d.callee(self.owner, (*did).into(), ga.skip_binder());
                        o.push(("callee", c));
                    },
                    _ => k!("Zst"),
                }
            },
            ExprKind::NamedConst { def_id, .. } => {
                k!("Const");
                f!("path", J::s(self.d.path(*def_id)));
                if let Some(l) = def_id.as_local() { f!("key", self.d.key(l)); }
            },
            ExprKind::ConstBlock { did, .. } => { k!("Const"); f!("path", J::s(self.d.path(*did)));
                if let Some(l) = did.as_local() { f!("key", self.d.key(l)); } },
            ExprKind::ConstParam { param, .. } => { k!("ConstParam"); f!("name", J::s(param.name.as_str())); },
            ExprKind::StaticRef { def_id, .. } => { k!("Static"); f!("path", J::s(self.d.path(*def_id))); },
            ExprKind::ThreadLocalRef(def_id) => { k!("Static"); f!("path", J::s(self.d.path(*def_id))); f!("tls", J::B(true)); },
            ExprKind::Reborrow { source, .. } => return self.expr(*source),
            other => {
                k!("Unknown");
                let s = format!("{:?}", other);
                f!("what", J::s(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string()));
            },
        }
        if !o.iter().any(|(k, _)| *k == "ty") { let t = self.d.ty(e.ty); o.push(("ty", t)); }
        if !o.iter().any(|(k, _)| *k == "sp") { let s = self.d.span(e.span); o.push(("sp", s)); }
        J::O(o)
    }
}

trait RootVar { fn into_hir_id(self, tcx: TyCtxt<'_>, c: LocalDefId) -> hir::HirId; }
impl RootVar for hir::HirId { fn into_hir_id(self, _: TyCtxt<'_>, _: LocalDefId) -> hir::HirId { self } }

struct Cb { out: String }

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, types: vec![], tmap: HashMap::new(), ext_adts: HashMap::new() };
        let mut fns = vec![];
        let effvis = tcx.effective_visibilities(());
        for owner in tcx.hir_body_owners() {
            let did = owner.to_def_id();
            let kind = tcx.def_kind(did);
            let mut o: Vec<(&'static str, J)> = vec![];
            o.push(("key", d.key(owner)));
            o.push(("path", J::s(d.path(did))));
            o.push(("kind", J::s(format!("{:?}", kind).split('(').next().unwrap().trim())));
            o.push(("sp", d.span(tcx.def_span(did))));
            o.push(("pub", J::B(effvis.is_reachable(owner))));
            if let Some(n) = tcx.opt_item_name(did) { o.push(("name", J::s(n.as_str()))); }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                let sig = sig.skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| d.ty(*t)).collect();
                o.push(("inputs", J::A(ins)));
                let out = d.ty(sig.output());
                o.push(("output", out));
                let preds: Vec<J> = tcx.clauses_of(did).clauses.iter()
                    .map(|(p, _)| J::s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p)))).collect();
                o.push(("preds", J::A(preds)));
            }
            if matches!(kind, DefKind::Static { .. }) {
                let t = d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                o.push(("statty", t));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = d.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                o.push(("implself", st));
                if let Some(l) = im.as_local() { o.push(("impl", d.key(l))); }
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(d.path(tr.def_id))));
                    let a = d.args(tcx.erase_and_anonymize_regions(tr.args));
                    o.push(("traitargs", a));
                    o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                o.push(("intrait", J::s(d.path(tr))));
            }
            if matches!(kind, DefKind::Closure) {
                o.push(("parent", d.key(tcx.local_parent(owner))));
            }
            if let Ok((thir, root)) = tcx.thir_body(owner) {
                let thir = thir.borrow();
                let mut b = Body { d: &mut d, thir: &thir, owner };
                let params: Vec<J> = thir.params.iter().map(|p: &thir::Param<'tcx>| {
                    match &p.pat { Some(p) => b.pat(p), None => J::Null }
                }).collect();
                let body = b.expr(root);
                o.push(("params", J::A(params)));
                o.push(("body", body));
            }
            fns.push(J::O(o));
        }
        // items
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let vs = d.variants(def);
                    let gens: Vec<J> = tcx.generics_of(did).own_params.iter()
                        .map(|p| J::O(vec![("name", J::s(p.name.as_str())),
                            ("ty", J::B(matches!(p.kind, ty::GenericParamDefKind::Type { .. })))])).collect();
                    adts.push(J::O(vec![
                        ("path", J::s(d.path(did))),
                        ("key", d.key(id)),
                        ("enum", J::B(def.is_enum())),
                        ("pub", J::B(effvis.is_reachable(id))),
                        ("generics", J::A(gens)),
                        ("preds", J::A(tcx.clauses_of(did).clauses.iter()
                            .map(|(p, _)| J::s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p)))).collect())),
                        ("sp", d.span(tcx.def_span(did))),
                        ("variants", vs),
                    ]));
                },
                DefKind::Impl { of_trait } => {
                    let st = d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    let mut o = vec![("key", d.key(id)), ("self", st), ("sp", d.span(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(d.path(tr.def_id))));
                        let a = d.args(tcx.erase_and_anonymize_regions(tr.args));
                        o.push(("traitargs", a));
                        o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                        let sf = tcx.impl_trait_header(did);
                        o.push(("unsafe", J::B(!sf.safety.is_safe())));
                    }
                    let preds: Vec<J> = tcx.clauses_of(did).clauses.iter()
                        .map(|(p, _)| J::s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", p)))).collect();
                    o.push(("preds", J::A(preds)));
                    let items: Vec<J> = tcx.associated_item_def_ids(did).iter()
                        .filter_map(|x| x.as_local()).map(|x| d.key(x)).collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::O(o));
                },
                DefKind::Trait => {
                    let items: Vec<J> = tcx.associated_items(did).in_definition_order()
                        .map(|x| J::O(vec![("name", J::s(x.opt_name().map(|n| n.as_str().to_string()).unwrap_or_default())),
                            ("key", x.def_id.as_local().map(|l| d.key(l)).unwrap_or(J::Null)),
                            ("default", J::B(x.defaultness(tcx).has_value()))])).collect();
                    traits.push(J::O(vec![("path", J::s(d.path(did))), ("key", d.key(id)),
                        ("pub", J::B(effvis.is_reachable(id))), ("items", J::A(items))]));
                },
                DefKind::Static { mutability, .. } => {
                    statics.push(J::O(vec![("path", J::s(d.path(did))), ("mut", J::B(mutability.is_mut())),
                        ("sp", d.span(tcx.def_span(did)))]));
                },
                _ => {},
            }
        }
        let ext: Vec<J> = std::mem::take(&mut d.ext_adts).into_values().collect();
        let types = std::mem::take(&mut d.types);
        let top = J::O(vec![
            ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("fns", J::A(fns)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("traits", J::A(traits)),
            ("statics", J::A(statics)), ("ext_adts", J::A(ext)), ("types", J::A(types)),
        ]);
        let mut s = String::new();
        top.w(&mut s);
        std::fs::write(&self.out, s).expect("cannot write extraction output");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let target = std::env::var("EXTRACT_CRATE").unwrap_or_default();
    let out = std::env::var("EXTRACT_OUT").unwrap_or_default();
    let pos = args.iter().position(|a| a == "--crate-name");
    let name = pos.and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if !out.is_empty() && name == target {
        // the same crate as a build without debug assertions sees it, next to the main output
        let mut other = None;
        if std::env::var("EXTRACT_PLAIN").is_err() {
            let dir = format!("{out}.nodebug.d");
            let _ = std::fs::create_dir_all(&dir);
            let mut alt: Vec<String> = vec![];
            let mut i = 1;
            while i < args.len() {
                if args[i] == "--out-dir" { alt.push(args[i].clone()); alt.push(dir.clone()); i += 2; continue; }
                if args[i] == "-C" && args.get(i + 1).map_or(false, |a| a.starts_with("incremental=")) { i += 2; continue; }
                if args[i].starts_with("-Cincremental=") { i += 1; continue; }
                alt.push(args[i].clone());
                i += 1;
            }
            alt.push("-Cdebug-assertions=off".into());
            if let Ok(me) = std::env::current_exe() {
                other = std::process::Command::new(me).args(&alt)
                    .env("EXTRACT_OUT", format!("{out}.nodebug")).env("EXTRACT_PLAIN", "1")
                    .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null())
                    .spawn().ok();
            }
        }
        args.push("-Zno-steal-thir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        if let Some(mut c) = other { let _ = c.wait(); }
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
