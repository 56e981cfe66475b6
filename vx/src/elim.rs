//! Early exits (`return`, `?`) of a helper or closure body turned into nested matches, so that the body can
//! stand as an expression anywhere: `let x = E?; REST` becomes `match E { Ok(v) => { let x = v; REST } Err(e) => Err(from(e)) }`.
use crate::desugar::{has_try, last_seg};
use crate::index::Kind;
use quote::{format_ident, quote};
use std::collections::BTreeSet;
use syn::*;

pub struct Elim { kind: Kind, n: usize, fuel: usize }

/// the body as an expression without early exits
pub fn elim(b: &Block, kind: Kind) -> Option<Expr> {
    let mut e = Elim { kind, n: 0, fuel: 60 };
    e.stmts(&b.stmts)
}

/// the kind of value a body with early exits yields
pub fn body_kind(e: &Expr) -> Kind {
    match e {
        Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => body_kind(e), _ => Kind::Result },
        Expr::Paren(p) => body_kind(&p.expr),
        Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => body_kind(e), _ => Kind::Result },
        Expr::Match(m) => if m.arms.iter().any(|a| body_kind(&a.body) == Kind::Option) { Kind::Option } else { Kind::Result },
        Expr::Path(p) if p.path.is_ident("None") => Kind::Option,
        Expr::Call(c) => match &*c.func { Expr::Path(p) if last_seg(&p.path) == "Some" => Kind::Option, _ => Kind::Result },
        _ => Kind::Result,
    }
}

fn stmt_exits(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| has_try(&i.expr) || i.diverge.as_ref().map_or(false, |d| has_try(&d.1))),
        Stmt::Expr(e, _) => has_try(e),
        _ => false,
    }
}
fn has_loop(ss: &[Stmt]) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_while(&mut self, _: &'a ExprWhile) { self.0 = true; }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) { self.0 = true; }
    }
    let mut v = V(false);
    for s in ss { syn::visit::Visit::visit_stmt(&mut v, s); }
    v.0
}
/// control never falls out of the end
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Paren(p) => diverges(&p.expr),
        Expr::Block(b) => block_diverges(&b.block),
        Expr::If(i) => block_diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |e| diverges(&e.1)),
        Expr::Match(m) => m.arms.iter().all(|a| diverges(&a.body)),
        _ => false,
    }
}
fn block_diverges(b: &Block) -> bool {
    b.stmts.iter().any(|s| match s { Stmt::Expr(e, _) => diverges(e), Stmt::Local(l) => l.init.as_ref().map_or(false, |i| diverges(&i.expr)), _ => false })
}
fn pure(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => pure(&p.expr),
        Expr::Group(p) => pure(&p.expr),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Unary(u) => pure(&u.expr),
        Expr::Cast(c) => pure(&c.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        _ => false,
    }
}
/// names bound by the lets of a statement list
fn bound(ss: &[Stmt], o: &mut BTreeSet<String>) {
    struct P<'a>(&'a mut BTreeSet<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for P<'a> { fn visit_pat_ident(&mut self, p: &'b PatIdent) { self.0.insert(p.ident.to_string()); } }
    for s in ss { if let Stmt::Local(l) = s { syn::visit::Visit::visit_pat(&mut P(o), &l.pat); } }
}
fn mentions(ss: &[Stmt], names: &BTreeSet<String>) -> bool {
    fn go(ts: proc_macro2::TokenStream, names: &BTreeSet<String>) -> bool {
        ts.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(i) => names.contains(&i.to_string()), proc_macro2::TokenTree::Group(g) => go(g.stream(), names), _ => false })
    }
    ss.iter().any(|s| go(quote!(#s), names))
}

impl Elim {
    fn fresh(&mut self) -> Ident { self.n += 1; format_ident!("vx_h{}", self.n) }

    /// `match E { Ok(x) => REST, Err(e) => Err(from(e)) }`
    fn bind(&self, x: &Ident, e: &Expr, rest: Expr) -> Expr {
        if self.kind == Kind::Option { parse_quote!(match #e { Some(#x) => #rest, None => None }) }
        else { parse_quote!(match #e { Ok(#x) => #rest, Err(vx_e) => Err(vx_from(vx_e)) }) }
    }

    /// the first `?` in evaluation order, replaced by a name; what is evaluated before it must be pure
    fn hoist(&mut self, e: &mut Expr) -> Option<(Ident, Expr)> {
        match e {
            Expr::Try(t) => {
                if has_try(&t.expr) { return self.hoist(&mut t.expr); }
                if crate::desugar::is_map_collect(&t.expr) { return None; }
                let x = self.fresh();
                let inner = (*t.expr).clone();
                *e = parse_quote!(#x);
                Some((x, inner))
            }
            Expr::Paren(p) => self.hoist(&mut p.expr),
            Expr::Group(p) => self.hoist(&mut p.expr),
            Expr::Reference(p) => self.hoist(&mut p.expr),
            Expr::Field(p) => self.hoist(&mut p.base),
            Expr::Unary(p) => self.hoist(&mut p.expr),
            Expr::Cast(p) => self.hoist(&mut p.expr),
            Expr::Let(p) => self.hoist(&mut p.expr),
            Expr::Assign(p) => if pure(&p.left) { self.hoist(&mut p.right) } else { None },
            Expr::Binary(b) => {
                if has_try(&b.left) { return self.hoist(&mut b.left); }
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) || !pure(&b.left) { return None; }
                self.hoist(&mut b.right)
            }
            Expr::Index(i) => {
                if has_try(&i.expr) { return self.hoist(&mut i.expr); }
                if !pure(&i.expr) { return None; }
                self.hoist(&mut i.index)
            }
            Expr::MethodCall(m) => {
                if has_try(&m.receiver) { return self.hoist(&mut m.receiver); }
                if !pure(&m.receiver) { return None; }
                self.hoist_list(m.args.iter_mut())
            }
            Expr::Call(c) => { if !pure(&c.func) { return None; } self.hoist_list(c.args.iter_mut()) }
            Expr::Tuple(t) => self.hoist_list(t.elems.iter_mut()),
            Expr::Array(t) => self.hoist_list(t.elems.iter_mut()),
            Expr::Struct(s) => { if s.rest.is_some() { return None; } self.hoist_list(s.fields.iter_mut().map(|f| &mut f.expr)) }
            Expr::If(i) => if has_try(&i.cond) { self.hoist(&mut i.cond) } else { None },
            Expr::Match(m) => if has_try(&m.expr) { self.hoist(&mut m.expr) } else { None },
            _ => None,
        }
    }
    fn hoist_list<'a>(&mut self, it: impl Iterator<Item = &'a mut Expr>) -> Option<(Ident, Expr)> {
        for a in it {
            if has_try(a) { return self.hoist(a); }
            if !pure(a) { return None; }
        }
        None
    }

    fn stmts(&mut self, ss: &[Stmt]) -> Option<Expr> {
        if self.fuel == 0 { return None; }
        self.fuel -= 1;
        let k = match ss.iter().position(stmt_exits) {
            None => return Some(parse_quote!({ #(#ss)* })),
            Some(k) => k,
        };
        let (pre, s, rest) = (&ss[..k], &ss[k], &ss[k + 1..]);
        let e = match s {
            Stmt::Expr(e, semi) => {
                if rest.is_empty() && semi.is_none() { self.tail(e)? } else { self.stmt(e, rest)? }
            }
            Stmt::Local(l) => self.local(l, rest)?,
            _ => return None,
        };
        Some(parse_quote!({ #(#pre)* #e }))
    }

    fn local(&mut self, l: &Local, rest: &[Stmt]) -> Option<Expr> {
        let i = l.init.as_ref()?;
        let p = &l.pat;
        if let Some((_, d)) = &i.diverge {
            if has_try(&i.expr) || !diverges(d) { return None; }
            let d = self.tail(d)?;
            let r = self.stmts(rest)?;
            let x = &i.expr;
            return Some(parse_quote!(match #x { #p => #r, _ => #d }));
        }
        let mut x = (*i.expr).clone();
        if let Some((v, inner)) = self.hoist(&mut x) {
            let mut ss: Vec<Stmt> = vec![parse_quote!(let #p = #x;)];
            ss.extend(rest.iter().cloned());
            let r = self.stmts(&ss)?;
            return Some(self.bind(&v, &inner, r));
        }
        self.branch(&x, rest, &|v| parse_quote!(let #p = #v;))
    }

    /// `K(if/match/block); REST`, the branches that exit yielding their value
    fn branch(&mut self, x: &Expr, rest: &[Stmt], k: &dyn Fn(&Expr) -> Stmt) -> Option<Expr> {
        let mut falls = 0;
        match x {
            Expr::Paren(p) => self.branch(&p.expr, rest, k),
            Expr::Block(b) if b.label.is_none() => self.fall(&b.block.stmts, rest, k),
            Expr::If(i) => {
                if !block_diverges(&i.then_branch) { falls += 1; }
                if !i.else_branch.as_ref().map_or(false, |e| diverges(&e.1)) { falls += 1; }
                if falls > 1 && has_loop(rest) { return None; }
                let t = if block_diverges(&i.then_branch) { self.stmts(&i.then_branch.stmts)? } else { self.fall(&i.then_branch.stmts, rest, k)? };
                let e = match &i.else_branch {
                    None => { let u: Expr = parse_quote!(()); self.fall(&[Stmt::Expr(u, None)], rest, k)? }
                    Some((_, e)) => self.arm(e, rest, k)?,
                };
                let c = &i.cond;
                Some(parse_quote!(if #c #t else { #e }))
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    if !diverges(&a.body) { falls += 1; }
                    if a.guard.as_ref().map_or(false, |g| has_try(&g.1)) { return None; }
                }
                if falls > 1 && has_loop(rest) { return None; }
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    let mut a2 = a.clone();
                    a2.body = Box::new(self.arm(&a.body, rest, k)?);
                    a2.comma = Some(Default::default());
                    // the pattern's names must not capture those of what follows
                    let mut ns = BTreeSet::new();
                    let p = &a.pat;
                    bound(&[parse_quote!(let #p = ();)], &mut ns);
                    if !diverges(&a.body) && mentions(rest, &ns) { return None; }
                    arms.push(a2);
                }
                let c = &m.expr;
                Some(parse_quote!(match #c { #(#arms)* }))
            }
            _ => None,
        }
    }
    fn arm(&mut self, e: &Expr, rest: &[Stmt], k: &dyn Fn(&Expr) -> Stmt) -> Option<Expr> {
        if diverges(e) { return self.tail(e); }
        match e {
            Expr::Block(b) if b.label.is_none() => self.fall(&b.block.stmts, rest, k),
            Expr::If(_) | Expr::Match(_) if has_try(e) => self.branch(e, rest, k),
            e => self.fall(&[Stmt::Expr(e.clone(), None)], rest, k),
        }
    }
    /// a branch that falls through: its value goes to K, then the rest
    fn fall(&mut self, b: &[Stmt], rest: &[Stmt], k: &dyn Fn(&Expr) -> Stmt) -> Option<Expr> {
        let mut ns = BTreeSet::new();
        bound(b, &mut ns);
        if mentions(rest, &ns) { return None; }
        let mut ss: Vec<Stmt> = vec![];
        match b.last() {
            Some(Stmt::Expr(e, None)) => { ss.extend(b[..b.len() - 1].iter().cloned()); ss.push(k(e)); }
            _ => { ss.extend(b.iter().cloned()); let u: Expr = parse_quote!(()); ss.push(k(&u)); }
        }
        ss.extend(rest.iter().cloned());
        self.stmts(&ss)
    }

    fn stmt(&mut self, e: &Expr, rest: &[Stmt]) -> Option<Expr> {
        if let Expr::Return(r) = e { return self.ret(r); }
        let mut x = e.clone();
        if let Some((v, inner)) = self.hoist(&mut x) {
            let mut ss: Vec<Stmt> = vec![Stmt::Expr(x, Some(Default::default()))];
            ss.extend(rest.iter().cloned());
            let r = self.stmts(&ss)?;
            return Some(self.bind(&v, &inner, r));
        }
        self.branch(e, rest, &|v| if pure(v) && matches!(v, Expr::Tuple(t) if t.elems.is_empty()) { parse_quote!(let _ = ();) } else { Stmt::Expr(v.clone(), Some(Default::default())) })
    }
    fn ret(&mut self, r: &ExprReturn) -> Option<Expr> {
        match &r.expr { Some(e) => self.tail(e), None => Some(parse_quote!(())) }
    }

    fn tail(&mut self, e: &Expr) -> Option<Expr> {
        if !has_try(e) { return Some(e.clone()); }
        match e {
            Expr::Return(r) => return self.ret(r),
            Expr::Paren(p) => return self.tail(&p.expr),
            Expr::Block(b) if b.label.is_none() => return self.stmts(&b.block.stmts),
            _ => {}
        }
        let mut x = e.clone();
        if let Some((v, inner)) = self.hoist(&mut x) {
            let r = self.tail(&x)?;
            return Some(self.bind(&v, &inner, r));
        }
        match e {
            Expr::If(i) => {
                let c = &i.cond;
                let t = self.stmts(&i.then_branch.stmts)?;
                let el = match &i.else_branch { Some((_, e)) => self.tail(e)?, None => parse_quote!({}) };
                Some(parse_quote!(if #c #t else { #el }))
            }
            Expr::Match(m) => {
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().map_or(false, |g| has_try(&g.1)) { return None; }
                    let mut a2 = a.clone();
                    a2.body = Box::new(self.tail(&a.body)?);
                    a2.comma = Some(Default::default());
                    arms.push(a2);
                }
                let c = &m.expr;
                Some(parse_quote!(match #c { #(#arms)* }))
            }
            _ => None,
        }
    }
}
