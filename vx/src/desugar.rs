//! Semantics-preserving syntactic rules applied to extracted bodies.
use crate::index::{ty_kind, Index, Kind, Shape};
use quote::{format_ident, quote};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
    pub ix: &'a Index,
    pub rules: &'a mut BTreeMap<String, usize>,
    pub ret: Kind,
    pub closure_depth: usize,
    pub loops: usize,
    pub tmp: usize,
    pub assoc_self: Option<Type>,
    pub self_name: Option<String>,
    /// bound renames T: AsRef<[u8]> -> VxAsRef are done elsewhere
    pub unsupported: Vec<String>,
}

impl<'a> Ctx<'a> {
    fn hit(&mut self, r: &str) {
        *self.rules.entry(r.to_string()).or_default() += 1;
    }
    fn fresh(&mut self) -> usize {
        self.tmp += 1;
        self.tmp
    }
}

pub fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn mac_name(m: &Macro) -> String {
    m.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

fn is_log(m: &Macro) -> bool {
    let n = mac_name(m);
    n.starts_with("log::") || ["debug", "trace", "info", "warn", "println", "eprintln", "debug_assert", "dbg"].contains(&n.as_str()) && n != "debug_assert" && n != "dbg"
}

fn is_lit_str(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

/// expressions without effects that may be dropped when they stand as statements
fn pure_noop(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(pure_noop),
        Expr::Paren(p) => pure_noop(&p.expr),
        Expr::Reference(r) => pure_noop(&r.expr),
        Expr::Field(f) => pure_noop(&f.base),
        Expr::Block(b) => b.block.stmts.is_empty(),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let n = last_seg(&p.path);
                (n == "black_box" || n == "drop" || n == "identity") && c.args.iter().all(pure_noop)
            } else { false }
        }
        _ => false,
    }
}

pub fn kind_of(ix: &Index, e: &Expr) -> Option<Kind> {
    match e {
        Expr::Paren(p) => kind_of(ix, &p.expr),
        Expr::Group(p) => kind_of(ix, &p.expr),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let n = last_seg(&p.path);
                match n.as_str() {
                    "Ok" | "Err" => return Some(Kind::Result),
                    "Some" => return Some(Kind::Option),
                    "cast" => return Some(Kind::Option),
                    "try_from" => return Some(Kind::Result),
                    "from_utf8" => return Some(Kind::Result),
                    "from_str" => return Some(Kind::Result),
                    _ => {}
                }
                let k = p.path.segments.len();
                if k >= 2 {
                    if let Some(x) = ix_kind(ix, &format!("{}::{}", p.path.segments[k - 2].ident, n)) { return Some(x); }
                }
                return ix_kind(ix, &n);
            }
            None
        }
        Expr::Path(p) if p.path.is_ident("None") => Some(Kind::Option),
        Expr::Path(p) if p.path.get_ident().is_some() => {
            let l = ix.locals.borrow();
            let v = l.get(&p.path.get_ident()?.to_string())?;
            if v.iter().all(|k| *k == v[0]) { v[0] } else { None }
        }
        Expr::Reference(r) => kind_of(ix, &r.expr),
        Expr::Try(t) => inner_of(ix, &t.expr),
        Expr::Field(f) => match &f.member {
            Member::Named(id) => {
                if let (Expr::Path(p), Some(t)) = (strip_paren(&f.base), ix.cur_self.borrow().as_ref()) {
                    if p.path.is_ident("self") {
                        if let Some(v) = ix.fields.get(&format!("{t}.{id}")) { return one_kind(v); }
                    }
                }
                let v = ix.fields.get(&id.to_string())?;
                if v.iter().all(|k| *k == v[0]) { Some(v[0]) } else { None }
            }
            _ => None,
        },
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if let (Expr::Path(p), Some(t)) = (strip_paren(&m.receiver), ix.cur_self.borrow().as_ref()) {
                if p.path.is_ident("self") { if let Some(k) = ix_kind(ix, &format!("{t}::{n}")) { return Some(k); } }
            }
            match n.as_str() {
                "map_err" | "parse" | "try_into" | "ok_or" | "ok_or_else" | "transpose" => Some(Kind::Result),
                "get" | "get_mut" | "first" | "last" | "last_mut" | "pop" | "next" | "next_back" | "ok" | "err" | "rposition" | "position" | "find"
                | "checked_add" | "checked_sub" | "checked_mul" | "checked_shl" | "checked_shr" | "checked_next_power_of_two"
                | "checked_add_signed" | "checked_rem" | "checked_div" | "split_first" | "split_last" | "split_once" | "strip_prefix" | "strip_suffix" | "min_by" | "max" | "copied" | "cloned"
                    => Some(Kind::Option),
                "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "filter" | "or" | "and" | "inspect" => kind_of(ix, &m.receiver),
                _ => ix_kind(ix, &n),
            }
        }
        Expr::Match(m) => m.arms.iter().find_map(|a| kind_of(ix, &a.body)),
        Expr::If(i) => block_kind(ix, &i.then_branch).or_else(|| i.else_branch.as_ref().and_then(|e| kind_of(ix, &e.1))),
        Expr::Block(b) => block_kind(ix, &b.block),
        Expr::Cast(_) => Some(Kind::Other),
        _ => None,
    }
}

fn inner_of(ix: &Index, e: &Expr) -> Option<Kind> {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == "map_err" => inner_of(ix, &m.receiver),
        Expr::MethodCall(m) => one_kind(ix.inner.get(&m.method.to_string())?),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => one_kind(ix.inner.get(&last_seg(&p.path))?), _ => None },
        _ => None,
    }
}
fn one_kind(v: &[Kind]) -> Option<Kind> { if v.iter().all(|k| *k == v[0]) { Some(v[0]) } else { None } }

/// shape of the value returned by a call of a function in the sources
fn shape_of(ix: &Index, e: &Expr) -> Shape {
    let n = match strip_paren(e) {
        Expr::MethodCall(m) => m.method.to_string(),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => last_seg(&p.path), _ => return Shape::Other },
        _ => return Shape::Other,
    };
    match ix.shapes.get(&n) { Some(v) if v.iter().all(|k| *k == v[0]) => v[0], _ => Shape::Other }
}

fn block_kind(ix: &Index, b: &Block) -> Option<Kind> {
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) => kind_of(ix, e),
        _ => None,
    }
}

fn ix_kind(ix: &Index, n: &str) -> Option<Kind> {
    let v = ix.kinds.get(n)?;
    if v.iter().all(|k| *k == v[0]) { Some(v[0]) } else { None }
}

/// an expression that makes a Vec
fn owned_vec(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Macro(m) => last_seg(&m.mac.path) == "vec",
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() >= 2 && p.path.segments[p.path.segments.len() - 2].ident == "Vec"),
        Expr::MethodCall(m) => m.method == "to_vec",
        _ => false,
    }
}

/// the kinds of the locals of a function: a name counts only if all its bindings agree
pub fn local_kinds(ix: &Index, sig: &Signature, b: &Block) {
    ix.locals.borrow_mut().clear();
    ix.vecs.borrow_mut().clear();
    let put = |n: String, k: Option<Kind>| ix.locals.borrow_mut().entry(n).or_default().push(k);
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { put(p.ident.to_string(), Some(crate::index::type_kind(&t.ty))); } }
    }
    struct V<'a>(&'a Index, &'a dyn Fn(String, Option<Kind>));
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_local(&mut self, l: &'b Local) {
            if let Some(i) = &l.init {
                self.visit_expr(&i.expr);
                if let Some((_, d)) = &i.diverge { self.visit_expr(d); }
            }
            match &l.pat {
                Pat::Ident(p) => {
                    let k = l.init.as_ref().and_then(|i| kind_of(self.0, &i.expr));
                    if l.init.as_ref().map_or(false, |i| owned_vec(&i.expr)) { self.0.vecs.borrow_mut().insert(p.ident.to_string()); }
                    (self.1)(p.ident.to_string(), k);
                }
                Pat::Type(t) => match &*t.pat {
                    Pat::Ident(p) => (self.1)(p.ident.to_string(), Some(crate::index::type_kind(&t.ty))),
                    p => self.visit_pat(p),
                },
                p => self.visit_pat(p),
            }
        }
        fn visit_pat_ident(&mut self, p: &'b PatIdent) { (self.1)(p.ident.to_string(), None); syn::visit::visit_pat_ident(self, p); }
    }
    syn::visit::Visit::visit_block(&mut V(ix, &put), b);
}

/// `loop { .. break v .. }` as the value of the function: the break is a return
pub fn tail_loops(b: &mut Block) -> usize {
    struct B(usize);
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(x) if x.label.is_none() && x.expr.is_some() => {
                    let mut v = x.expr.take().unwrap();
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!(return #v);
                    self.0 += 1;
                }
                // a break in here is not this loop's (a while loop's has no value)
                Expr::Loop(_) | Expr::Closure(_) => {}
                e => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    fn tail_e(e: &mut Expr) -> usize {
        match e {
            Expr::Block(b) => tail_loops(&mut b.block),
            Expr::If(i) if i.else_branch.is_some() => tail_loops(&mut i.then_branch) + tail_e(&mut i.else_branch.as_mut().unwrap().1),
            Expr::Match(m) => m.arms.iter_mut().map(|a| tail_e(&mut a.body)).sum(),
            Expr::Loop(l) if l.label.is_none() => { let mut v = B(0); v.visit_block_mut(&mut l.body); v.0 }
            _ => 0,
        }
    }
    match b.stmts.last_mut() { Some(Stmt::Expr(e, None)) => tail_e(e), _ => 0 }
}

/// `Some(&x)` binds the reference and copies what it points to: `Some(r)` with `let x = *r;` first
pub fn ref_pats(b: &mut Block) -> usize {
    #[derive(Default)]
    struct P { binds: Vec<Stmt>, subst: Vec<(Ident, Ident)>, tests: Vec<Expr>, arm: bool, k: usize }
    impl VisitMut for P {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                match &*r.pat {
                    Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => {
                        let (x, m) = (i.ident.clone(), i.mutability);
                        let n = format_ident!("vx_rp_{x}");
                        self.binds.push(parse_quote!(let #m #x = *#n;));
                        self.subst.push((x, n.clone()));
                        *p = parse_quote!(#n);
                        return;
                    }
                    Pat::Wild(_) => { *p = parse_quote!(_); return; }
                    Pat::Lit(l) if self.arm => {
                        let n = format_ident!("vx_rl_{}", self.k);
                        self.k += 1;
                        self.tests.push(parse_quote!(*#n == #l));
                        *p = parse_quote!(#n);
                        return;
                    }
                    _ => {}
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
        fn visit_expr_mut(&mut self, _: &mut Expr) {}
    }
    struct G<'a>(&'a [(Ident, Ident)]);
    impl<'a> VisitMut for G<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(p) = e { for (x, n) in self.0 { if p.path.is_ident(x) { *e = parse_quote!((*#n)); return; } } }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    struct V(usize);
    impl V {
        fn pre(&mut self, p: P, b: &mut Block) {
            self.0 += p.binds.len();
            let rest = std::mem::take(&mut b.stmts);
            b.stmts = p.binds.into_iter().chain(rest).collect();
        }
    }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                    let mut p = P::default();
                    p.visit_pat_mut(&mut l.pat);
                    self.pre(p, &mut i.then_branch);
                },
                Expr::While(i) => if let Expr::Let(l) = &mut *i.cond {
                    let mut p = P::default();
                    p.visit_pat_mut(&mut l.pat);
                    self.pre(p, &mut i.body);
                },
                Expr::Match(m) => for a in &mut m.arms {
                    let mut p = P { arm: !matches!(a.pat, Pat::Or(_)), ..P::default() };
                    p.visit_pat_mut(&mut a.pat);
                    if p.binds.is_empty() && p.tests.is_empty() { continue; }
                    if let Some((_, g)) = &mut a.guard { G(&p.subst).visit_expr_mut(g); }
                    for t in std::mem::take(&mut p.tests) {
                        self.0 += 1;
                        a.guard = Some(match a.guard.take() { Some((i, g)) => (i, parse_quote!(#t && (#g))), None => (Default::default(), Box::new(t)) });
                    }
                    if !p.binds.is_empty() {
                        let body = &a.body;
                        let mut bl: Block = parse_quote!({ #body });
                        self.pre(p, &mut bl);
                        a.body = parse_quote!(#bl);
                        a.comma = Some(Default::default());
                    }
                },
                _ => {}
            }
        }
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                let mut p = P::default();
                if let Stmt::Local(l) = &mut s { if l.init.as_ref().map_or(false, |i| i.diverge.is_some()) { p.visit_pat_mut(&mut l.pat); } }
                self.0 += p.binds.len();
                out.push(s);
                out.extend(p.binds);
            }
            b.stmts = out;
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut v = V(0);
    v.visit_block_mut(b);
    v.0
}

/// what a closure or function applied to a value yields
fn fn_kind(ix: &Index, f: &Expr) -> Option<Kind> {
    match f {
        Expr::Closure(c) => kind_of(ix, &c.body),
        Expr::Path(p) => {
            let n = last_seg(&p.path);
            match n.as_str() { "Some" => Some(Kind::Option), "Ok" | "Err" | "try_from" | "from_str" => Some(Kind::Result), _ => ix_kind(ix, &n) }
        }
        _ => None,
    }
}

struct HasTry(bool);
impl<'a> syn::visit::Visit<'a> for HasTry {
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_try(e: &Expr) -> bool {
    let mut h = HasTry(false);
    syn::visit::visit_expr(&mut h, e);
    if let Expr::Try(_) | Expr::Return(_) = e { h.0 = true }
    h.0
}
pub fn block_has_try(b: &Block) -> bool {
    let mut h = HasTry(false);
    syn::visit::visit_block(&mut h, b);
    h.0
}

/// a closure's body as an expression without early exits
fn closure_body(c: &ExprClosure) -> Option<Expr> {
    if !has_try(&c.body) { return Some((*c.body).clone()); }
    let b: Block = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
    crate::elim::elim(&b, crate::elim::body_kind(&c.body))
}

/// Apply closure or function path to an expression.
fn apply(f: &Expr, v: Expr) -> Option<Expr> {
    match f {
        Expr::Closure(c) => {
            let body = closure_body(c)?;
            match c.inputs.len() {
                0 => Some(parse_quote!(#body)),
                1 => {
                    let p = &c.inputs[0];
                    let pat: Pat = match p { Pat::Type(t) => (*t.pat).clone(), o => o.clone() };
                    if let Pat::Wild(_) = pat { return Some(parse_quote!(#body)); }
                    Some(parse_quote!({ let #p = #v; #body }))
                }
                _ => None,
            }
        }
        Expr::Path(p) => {
            let s = crate::index::norm(quote!(#p).to_string());
            if s == "AsRef::as_ref" || s == "String::as_str" { return Some(parse_quote!(#v.as_str())); }
            if s == "TryInto::try_into" || s == "TryFrom::try_from" { return Some(parse_quote!(vx_try_into(#v))); }
            if s == "Into::into" || s == "From::from" { return Some(parse_quote!(vx_from(#v))); }
            if p.path.segments.len() == 2 && last_seg(&p.path) == "from" {
                let t = &p.path.segments[0];
                return Some(parse_quote!(<#t as VxFrom<_>>::vx_conv(#v)));
            }
            Some(parse_quote!(#p(#v)))
        }
        _ => None,
    }
}

/// where the items of an iterator expression come from
enum Src { Ref(Expr), Vals(Expr), Own(Expr), Range(Expr, Expr) }

/// `X.iter().skip(n)` as a slice
fn skip_slice(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(s) = strip_paren(e) else { return None };
    if s.method != "skip" || s.args.len() != 1 { return None; }
    let Expr::MethodCall(i) = strip_paren(&s.receiver) else { return None };
    if i.method != "iter" || !i.args.is_empty() { return None; }
    let (x, n) = (&i.receiver, &s.args[0]);
    Some(parse_quote!(#x.vx_skip(#n)))
}
/// `I.copied()`, `I.cloned()`
fn by_value(e: &Expr) -> Option<&Expr> {
    match strip_paren(e) {
        Expr::MethodCall(m) if (m.method == "copied" || m.method == "cloned") && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}
fn iter_src(ix: &Index, e: &Expr) -> Option<Src> {
    if let Some(x) = split_call(e) { return Some(Src::Vals(x)); }
    if let Some(x) = skip_slice(e) { return Some(Src::Ref(x)); }
    if let Some(r) = by_value(e) {
        return match iter_src(ix, r)? { Src::Ref(x) => Some(Src::Vals(x)), o => Some(o) };
    }
    if let Expr::Range(r) = strip_paren(e) {
        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) { return Some(Src::Range((**a).clone(), (**b).clone())); }
    }
    if let Expr::MethodCall(i) = strip_paren(e) {
        if i.args.is_empty() && i.method == "iter" {
            let x = &i.receiver;
            return Some(if shape_of(ix, x) == Shape::Slice { Src::Ref(parse_quote!(#x)) } else { Src::Ref(parse_quote!(&#x)) });
        }
        if i.args.is_empty() && i.method == "into_iter" {
            if let Expr::Path(_) = strip_paren(&i.receiver) { return Some(Src::Own((*i.receiver).clone())); }
        }
    }
    if shape_of(ix, e) == Shape::Iter { return Some(Src::Vals(parse_quote!(vx_items(#e)))); }
    None
}

/// a closure's parameter pattern and body, or a path applied to a fresh name
fn fn_parts(f: &Expr) -> Option<(Pat, Expr)> {
    match f {
        Expr::Closure(f) => {
            if f.inputs.len() != 1 { return None; }
            let pat = match &f.inputs[0] { Pat::Type(t) => (*t.pat).clone(), o => o.clone() };
            Some((pat, closure_body(f)?))
        }
        Expr::Path(_) => apply(f, parse_quote!(vx_x)).map(|b| (parse_quote!(vx_x), b)),
        _ => None,
    }
}

/// whether a map-collect yields a plain Vec (and not a Result)
fn plain_vec(ix: &Index, e: &Expr, mc: &MapCollect) -> bool {
    if mc.err.is_some() { return false; }
    let Expr::MethodCall(c) = strip_paren(e) else { return false };
    match &c.turbofish {
        Some(t) => match t.args.first() { Some(GenericArgument::Type(Type::Path(p))) => last_seg(&p.path) == "Vec", _ => false },
        None => !matches!(kind_of(ix, &mc.body), Some(Kind::Result) | Some(Kind::Option)),
    }
}

struct MapCollect { src: Src, while_: Option<(Pat, Expr)>, pat: Pat, body: Expr, err: Option<Expr> }

/// SRC[.take_while(P)].map(F).collect()[.map_err(G)]
fn iter_map_collect(ix: &Index, e: &Expr) -> Option<MapCollect> {
    let Expr::MethodCall(c) = strip_paren(e) else { return None };
    if c.method == "map_err" && c.args.len() == 1 {
        let mut r = iter_map_collect(ix, &c.receiver)?;
        let e: Expr = r.err.take().unwrap_or(parse_quote!(vx_e));
        r.err = Some(apply(&c.args[0], e)?);
        return Some(r);
    }
    if c.method != "collect" { return None; }
    let Expr::MethodCall(m) = strip_paren(&c.receiver) else { return None };
    if m.method != "map" || m.args.len() != 1 { return None; }
    let (pat, body) = fn_parts(&m.args[0])?;
    let mut while_ = None;
    let mut s = strip_paren(&m.receiver).clone();
    if let Expr::MethodCall(w) = &s {
        if w.method == "take_while" && w.args.len() == 1 {
            while_ = Some(fn_parts(&w.args[0])?);
            let r = strip_paren(&w.receiver).clone();
            s = r;
        }
    }
    Some(MapCollect { src: iter_src(ix, &s)?, while_, pat, body, err: None })
}

/// `X.split('c')`
fn split_call(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = strip_paren(e) else { return None };
    if m.method != "split" || m.args.len() != 1 { return None; }
    let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] else { return None };
    let r = &m.receiver;
    let r: Expr = match strip_paren(r) {
        Expr::Index(i) => match strip_paren(&i.index) { Expr::Range(_) => parse_quote!((&#r)), _ => parse_quote!(#r) },
        _ => parse_quote!(#r.vx_as_str()),
    };
    Some(parse_quote!(vx_split(#r, #c)))
}

/// a string that is split but not stored anywhere: it has to live as long as its parts
fn keep_split(x: &Expr, k: usize) -> (Option<Stmt>, Expr) {
    if let Expr::Call(c) = x {
        if let (Expr::Path(p), Some(Expr::MethodCall(m))) = (&*c.func, c.args.first()) {
            if p.path.is_ident("vx_split") && m.method == "vx_as_str" && !matches!(strip_paren(&m.receiver), Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Reference(_)) {
                let t = format_ident!("vx_t{}", k);
                let (r, ch) = (&m.receiver, &c.args[1]);
                return (Some(parse_quote!(let #t = #r;)), parse_quote!(vx_split(#t.vx_as_str(), #ch)));
            }
        }
    }
    (None, x.clone())
}

fn mut_chain(e: &Expr) -> Option<(Expr, bool, Option<(Pat, Expr)>)> {
    let Expr::MethodCall(m) = strip_paren(e) else { return None };
    let n = m.method.to_string();
    match (n.as_str(), m.args.len()) {
        ("take_while", 1) => {
            let (v, r, s) = mut_chain(&m.receiver)?;
            if s.is_some() { return None; }
            Some((v, r, Some(fn_parts(&m.args[0])?)))
        }
        ("rev", 0) => {
            let (v, r, s) = mut_chain(&m.receiver)?;
            if s.is_some() { return None; }
            Some((v, !r, None))
        }
        ("iter_mut", 0) => Some(((*m.receiver).clone(), false, None)),
        _ => None,
    }
}

/// an element count that some existing collection already has (up to constants)
fn len_bounded(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Lit(_) => true,
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => true,
        Expr::MethodCall(m) if m.method == "min" && m.args.len() == 1 => len_bounded(&m.receiver) || len_bounded(&m.args[0]),
        Expr::MethodCall(m) if m.method == "saturating_sub" && m.args.len() == 1 => len_bounded(&m.receiver),
        Expr::Binary(b) => match b.op {
            BinOp::Add(_) => len_bounded(&b.left) && len_bounded(&b.right),
            BinOp::Mul(_) => len_bounded(&b.left) && matches!(strip_paren(&b.right), Expr::Lit(_)),
            BinOp::Sub(_) | BinOp::Div(_) => len_bounded(&b.left),
            _ => false,
        },
        _ => false,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(g) => strip_paren(&g.expr), o => o }
}

impl<'a> VisitMut for Ctx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Macro(m) if is_log(&m.mac) => { self.hit("drop log macro statement"); continue; }
                Stmt::Expr(Expr::Macro(m), Some(_)) if is_log(&m.mac) => { self.hit("drop log macro statement"); continue; }
                Stmt::Expr(e, Some(_)) if pure_noop(e) => { self.hit("drop effect-free statement"); continue; }
                Stmt::Local(l) => {
                    if let (Pat::Wild(_), Some(i)) = (&l.pat, &l.init) {
                        if i.diverge.is_none() && pure_noop(&i.expr) { self.hit("drop effect-free statement"); continue; }
                    }
                    out.push(s);
                }
                Stmt::Item(_) => out.push(s),
                _ => out.push(s),
            }
        }
        b.stmts = out;
        // let x: T = E.try_into()? / E.into()
        for s in &mut b.stmts {
            if let Stmt::Local(l) = s {
                if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
                    let ty = (*pt.ty).clone();
                    retarget(&ty, &mut init.expr, self);
                }
            }
        }
        // let [a, b] = E;
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Slice(ps), Some(init)) = (&l.pat, &l.init) {
                    if init.diverge.is_none() && ps.elems.iter().all(|p| matches!(p, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) || matches!(p, Pat::Wild(_))) {
                        self.hit("array pattern becomes indexing");
                        let k = self.fresh();
                        let n = format_ident!("vx_a{k}");
                        let e = &init.expr;
                        out.push(parse_quote!(let #n = #e;));
                        for (j, p) in ps.elems.iter().enumerate() {
                            let l = proc_macro2::Literal::usize_unsuffixed(j);
                            if !matches!(p, Pat::Wild(_)) { out.push(parse_quote!(let #p = #n[#l];)); }
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites that need original shape
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                if let (Some(q), Some(l)) = (&p.qself, p.path.segments.last()) {
                    if let (Type::Array(a), None, true) = (&*q.ty, &q.as_token, l.ident == "try_from") {
                        let (n, x) = (&a.len, &c.args[0]);
                        let r: Expr = parse_quote!(vx_array::<{ #n }>(#x));
                        self.hit("<[u64; N]>::try_from becomes vx_array");
                        *e = r;
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = mac_name(&m.mac);
            if is_log(&m.mac) {
                self.hit("drop log macro expression");
                *e = parse_quote!(());
                return;
            }
            match n.as_str() {
                "format" => {
                    self.hit("format! message text abstracted");
                    *e = parse_quote!(vx_string());
                    return;
                }
                "matches" => {
                    struct MA(Expr, Pat, Option<Expr>);
                    impl parse::Parse for MA {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e: Expr = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                            let _ = i.parse::<Option<Token![,]>>();
                            Ok(MA(e, p, g))
                        }
                    }
                    if let Ok(MA(x, p, g)) = m.mac.parse_body::<MA>() {
                        self.hit("matches! expanded");
                        *e = match g {
                            None => parse_quote!(match #x { #p => true, _ => false }),
                            Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                        };
                    }
                }
                "unimplemented" | "todo" | "unreachable" | "panic" => {
                    self.hit("panic-family macro becomes a call that requires false");
                    *e = parse_quote!(vx_panic());
                    return;
                }
                "vec" => {
                    let toks = m.mac.tokens.clone();
                    if toks.is_empty() {
                        *e = parse_quote!(Vec::new());
                        self.hit("vec![] expanded");
                        return;
                    }
                    if let Ok(mut rp) = syn::parse2::<ExprRepeat>(quote!([#toks])) {
                        self.visit_expr_mut(&mut rp.expr);
                        let bounded = len_bounded(&rp.len);
                        self.visit_expr_mut(&mut rp.len);
                        let (x, n) = (&rp.expr, &rp.len);
                        self.hit("vec![x; n] becomes vx_repeat, which carries the allocation bound");
                        *e = if bounded { parse_quote!(vx_repeat_len(#x, #n)) } else { parse_quote!(vx_repeat(#x, #n)) };
                        return;
                    }
                    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                    if let Ok(items) = parse::Parser::parse2(parser, toks) {
                        let mut its: Vec<Expr> = items.into_iter().collect();
                        for i in &mut its { self.visit_expr_mut(i); }
                        self.hit("vec![..] expanded");
                        let n = its.len();
                        if n == 1 {
                            let a = &its[0];
                            *e = parse_quote!(vx_vec1(#a));
                        } else {
                            let k = self.fresh();
                            let v = format_ident!("vx_vec{}", k);
                            *e = parse_quote!({ let mut #v = Vec::new(); #( #v.push(#its); )* #v });
                        }
                        return;
                    }
                }
                "assert" => {}
                _ => {}
            }
        }
        if let Expr::ForLoop(_) = e {
            self.for_loop(e);
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                self.hit("while let becomes loop { if let .. else break }");
                let (c, b, label) = (l.clone(), &w.body, w.label.clone());
                let mut n: ExprLoop = parse_quote!(loop { if #c #b else { break; } });
                n.label = label;
                *e = Expr::Loop(n);
            }
        }
        if let Expr::Loop(w) = e {
            // loop { if C { break; } .. } with no other break
            if let (Some(Stmt::Expr(Expr::If(i), _)), None) = (w.body.stmts.first(), &w.label) {
                let brk = |b: &Block| b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Break(x), _) if x.label.is_none() && x.expr.is_none());
                if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && brk(&i.then_branch) && w.body.stmts.len() > 1 && !w.body.stmts[1..].iter().any(own_break) && !has_try(&i.cond) {
                    self.hit("loop { if C { break; } .. } becomes while !C { .. }");
                    let c = negate(&i.cond);
                    let rest = &w.body.stmts[1..];
                    *e = parse_quote!(while #c { #(#rest)* });
                }
            }
        }
        // number loops in pre-order
        match e {
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                mark(&mut w.body, k);
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                mark(&mut w.body, k);
            }
            _ => {}
        }
        // "lit".into()/to_string()/to_owned(), String::from("lit")
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if is_lit_str(strip_paren(&m.receiver)) && ["into", "to_string", "to_owned"].contains(&n.as_str()) {
                self.hit("literal message text abstracted");
                *e = parse_quote!(vx_string());
                return;
            }
        }
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && is_lit_str(&c.args[0]) {
                if let Expr::Path(p) = &*c.func {
                    if crate::index::norm(quote!(#p).to_string()) == "String::from" {
                        self.hit("literal message text abstracted");
                        *e = parse_quote!(vx_string());
                        return;
                    }
                }
            }
            // constructor call: no spec difference
        }
        // (a..=b).contains(&x)
        if let Expr::MethodCall(m) = e {
            if m.method == "contains" && m.args.len() == 1 {
                if let (Expr::Range(r), Expr::Reference(x)) = (strip_paren(&m.receiver), &m.args[0]) {
                    let x = &x.expr;
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let op: BinOp = match r.limits { RangeLimits::Closed(_) => parse_quote!(<=), _ => parse_quote!(<) };
                        self.hit("range contains expanded");
                        *e = parse_quote!(((#a) <= (#x) && (#x) #op (#b)));
                    }
                }
            }
        }
        // &x[a..b]
        if let Expr::Reference(r) = e {
            if let Expr::Index(i) = strip_paren(&r.expr) {
                if let Expr::Range(rg) = strip_paren(&i.index) {
                    if r.mutability.is_none() && matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                        let x = &i.expr;
                        let n: Expr = match (&rg.start, &rg.end) {
                            (Some(a), Some(b)) => parse_quote!(#x.vx_sub(#a, #b)),
                            (Some(a), None) => parse_quote!(#x.vx_tail(#a)),
                            (None, Some(b)) => parse_quote!(#x.vx_sub(0, #b)),
                            (None, None) => parse_quote!(#x.vx_tail(0)),
                        };
                        self.hit("slice range expression becomes a bounds-checked call");
                        *e = n;
                    }
                }
            }
        }
        if let Expr::Index(i) = e {
            if let Expr::Range(rg) = strip_paren(&i.index) {
                if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                    let x = &i.expr;
                    let n: Option<Expr> = match (&rg.start, &rg.end) {
                        (Some(a), Some(b)) => Some(parse_quote!(#x.vx_sub(#a, #b))),
                        (Some(a), None) => Some(parse_quote!(#x.vx_tail(#a))),
                        (None, Some(b)) => Some(parse_quote!(#x.vx_sub(0, #b))),
                        (None, None) => None,
                    };
                    if let Some(n) = n { self.hit("slice range expression becomes a bounds-checked call"); *e = n; }
                }
            }
        }
        if let Expr::Struct(s) = e {
            let n = last_seg(&s.path);
            let n = if n == "Self" { self.self_name.clone().unwrap_or(n) } else { n };
            let mut hit = false;
            for f in &mut s.fields {
                let v = &f.expr;
                if crate::index::norm(quote!(#v).to_string()) != "Default::default()" { continue; }
                let Member::Named(id) = &f.member else { continue };
                for t in self.ix.types.values() {
                    if let crate::index::TypeItem::Struct(_, st) = t {
                        if st.ident == n {
                            if let Some(fd) = st.fields.iter().find(|x| x.ident.as_ref() == Some(id)) {
                                let ty = &fd.ty;
                                f.expr = parse_quote!(<#ty>::default());
                                hit = true;
                            }
                        }
                    }
                }
            }
            if hit { self.hit("Default::default() of a field becomes its type's default"); }
        }
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                if p.path.segments.len() >= 2 && last_seg(&p.path) == "try_from" {
                    let t = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    let t = if t == "Self" { self.self_name.clone().unwrap_or(t) } else { t };
                    let n = try_froms(self.ix, &t);
                    if n > 1 {
                        let id = format_ident!("{}", t);
                        let a = &c.args[0];
                        self.hit("overloaded try_from dispatched by argument type");
                        *e = parse_quote!(<#id as VxTryFrom<_>>::vx_tconv(#a));
                    }
                }
            }
        }
        self.idioms(e);
        self.combinator(e);
        // `A | B if g => body` becomes one arm per alternative
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
                let mut out = vec![];
                for a in std::mem::take(&mut m.arms) {
                    match (&a.guard, &a.pat) {
                        (Some(_), Pat::Or(o)) => {
                            for c in &o.cases {
                                let mut b = a.clone();
                                b.pat = c.clone();
                                b.comma = Some(Default::default());
                                out.push(b);
                            }
                        }
                        _ => out.push(a),
                    }
                }
                m.arms = out;
                self.hit("guarded or-pattern arm split");
            }
        }
        // ? operator
        if let Expr::Try(t) = e {
            if self.closure_depth == 0 {
                let x = &t.expr;
                let k = kind_of(self.ix, x).unwrap_or(self.ret);
                if k == Kind::Option || (self.ret == Kind::Option) {
                    self.hit("? on Option expanded");
                    *e = parse_quote!(match #x { Some(vx_v) => vx_v, None => return None });
                } else {
                    self.hit("? on Result expanded");
                    *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_from(vx_e)) });
                }
            }
        }
        if let Expr::Closure(c) = e {
            self.unsupported.push(format!("closure `{}`", crate::index::norm(quote!(#c).to_string())));
            self.closure_depth += 1;
            visit_mut::visit_expr_closure_mut(self, c);
            self.closure_depth -= 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// how many try_from functions a type has, a derived one included
fn try_froms(ix: &Index, t: &str) -> usize {
    let suf = format!("::{t}");
    ix.fns.values().filter(|f| f.sig.ident == "try_from" && f.self_ty.as_ref().map(crate::index::ty_name).as_deref() == Some(t)).count()
        + ix.types.iter().filter(|(k, v)| k.ends_with(&suf) && matches!(v, crate::index::TypeItem::Enum(_, e) if e.attrs.iter().any(|a| a.path().is_ident("derive") && crate::index::norm(quote!(#a).to_string()).contains("TryFromPrimitive")))).count()
}

fn retarget(ty: &Type, e: &mut Expr, c: &mut Ctx) {
    // let x: T = E.try_into()?;   let x: T = E.into();  let x: T = num::cast(E)...
    match e {
        Expr::Try(t) => {
            retarget(ty, &mut t.expr, c)
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "try_into" => {
            let r = &m.receiver;
            c.hit("typed try_into becomes T::try_from");
            let n = last_ty(ty);
            let cnt = try_froms(c.ix, &n);
            *e = if cnt > 1 { parse_quote!(<#ty as VxTryFrom<_>>::vx_tconv(#r)) } else { parse_quote!(#ty::try_from(#r)) };
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "into" => {
            let r = &m.receiver;
            c.hit("typed into becomes T::from");
            let n = last_ty(ty);
            let cnt = c.ix.fns.values().filter(|f| f.sig.ident == "from" && f.self_ty.as_ref().map(crate::index::ty_name).as_deref() == Some(n.as_str())).count();
            *e = if cnt > 1 { parse_quote!(<#ty as VxFrom<_>>::vx_conv(#r)) } else { parse_quote!(#ty::from(#r)) };
        }
        _ => {}
    }
}

fn last_ty(t: &Type) -> String { crate::index::ty_name(t) }

fn negate(c: &Expr) -> Expr {
    match strip_paren(c) {
        Expr::Binary(b) => {
            let op: Option<BinOp> = match b.op {
                BinOp::Ge(_) => Some(parse_quote!(<)), BinOp::Gt(_) => Some(parse_quote!(<=)), BinOp::Le(_) => Some(parse_quote!(>)), BinOp::Lt(_) => Some(parse_quote!(>=)),
                BinOp::Eq(_) => Some(parse_quote!(!=)), BinOp::Ne(_) => Some(parse_quote!(==)), _ => None };
            if let Some(op) = op { let (l, r) = (&b.left, &b.right); return parse_quote!(#l #op #r); }
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => return (*u.expr).clone(),
        _ => {}
    }
    parse_quote!(!(#c))
}
/// a break out of the loop this statement is in
fn own_break(s: &Stmt) -> bool {
    struct B(bool);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut b = B(false);
    syn::visit::Visit::visit_stmt(&mut b, s);
    b.0
}
/// `let x: T = s.parse()?` is `s.parse::<T>()?`
pub fn typed_parse(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_local_mut(&mut self, l: &mut Local) {
            visit_mut::visit_local_mut(self, l);
            if let (Pat::Type(pt), Some(init)) = (&l.pat, &mut l.init) {
                let ty = &pt.ty;
                if let Expr::Try(t) = &mut *init.expr {
                    let mut e = &mut *t.expr;
                    if let Expr::MethodCall(m) = e { if m.method == "map_err" { e = &mut *m.receiver; } else { e = &mut *t.expr; } }
                    if let Expr::MethodCall(m) = e {
                        if m.method == "parse" && m.args.is_empty() && m.turbofish.is_none() { m.turbofish = Some(parse_quote!(::<#ty>)); }
                    }
                }
            }
        }
    }
    V.visit_block_mut(b);
}
/// a loop over elements that stops early leaves its index at the element it stopped at
fn stop_at(b: &[Stmt], i: &Ident) -> Vec<Stmt> {
    struct B<'a>(&'a Ident);
    impl<'a> VisitMut for B<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(x) if x.label.is_none() => { let i = self.0; *e = parse_quote!({ #i -= 1; #x }); }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                e => visit_mut::visit_expr_mut(self, e),
            }
        }
        fn visit_stmt_mut(&mut self, s: &mut Stmt) {
            if let Stmt::Expr(Expr::Break(x), _) = s { if x.label.is_none() { let i = self.0; *s = parse_quote!({ #i -= 1; #x; }); return; } }
            visit_mut::visit_stmt_mut(self, s);
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut v = b.to_vec();
    for s in &mut v { B(i).visit_stmt_mut(s); }
    v
}
fn mark(b: &mut Block, k: usize) {
    let l = proc_macro2::Literal::usize_unsuffixed(k);
    let s: Stmt = parse_quote!(__vx_inv!(#l););
    b.stmts.insert(0, s);
    let s: Stmt = parse_quote!(__vx_loopstart!(#l););
    b.stmts.insert(1, s);
}

impl<'a> Ctx<'a> {
    fn for_loop(&mut self, e: &mut Expr) {
        let Expr::ForLoop(f) = e else { return };
        let k = self.loops;
        let (i, n, s) = (format_ident!("vx_i{}", k), format_ident!("vx_n{}", k), format_ident!("vx_s{}", k));
        let pat = &f.pat;
        let body = &f.body.stmts;
        let label = &f.label;
        let src = strip_paren(&f.expr).clone();
        if let Expr::Range(r) = &src {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                self.hit("for over a range becomes while");
                let bind: Option<Stmt> = if let Pat::Wild(_) = **pat { None } else { Some(parse_quote!(let #pat = #i;)) };
                *e = parse_quote!({
                    let mut #i = #a;
                    let #n = #b;
                    #label while #i < #n { #bind #i += 1; #(#body)* }
                });
                return;
            }
            if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&r.start, &r.end, &r.limits) {
                self.hit("for over an inclusive range becomes while");
                let bind: Option<Stmt> = if let Pat::Wild(_) = **pat { None } else { Some(parse_quote!(let #pat = #i;)) };
                let d = format_ident!("vx_d{}", k);
                *e = parse_quote!({
                    let mut #i = #a;
                    let #n = #b;
                    let mut #d = #i > #n;
                    #label while !#d { #bind if #i == #n { #d = true; } else { #i += 1; } #(#body)* }
                });
                return;
            }
        }
        // V.iter_mut()[.rev()][.take_while(P)]
        if let Some((v, rev, stop)) = mut_chain(&src) {
            self.hit("for over iter_mut becomes an index loop");
            let chk: Option<Stmt> = stop.map(|(p, c)| parse_quote!(if !({ let #p = &&#v[#i]; #c }) { break; }));
            *e = if rev { parse_quote!({
                let mut #i: usize = #v.len();
                #label while #i > 0 { #i -= 1; #chk let #pat = &mut #v[#i]; #(#body)* }
            }) } else { parse_quote!({
                let mut #i: usize = 0;
                #label while #i < #v.len() { #chk let #pat = &mut #v[#i]; #i += 1; #(#body)* }
            }) };
            return;
        }
        // &X.records, X.records.into_iter()
        let src = match &src {
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() && self.is_seqfield(&m.receiver) => { let r = &m.receiver; parse_quote!(&#r.0) }
            Expr::Reference(r) if r.mutability.is_none() && self.is_seqfield(&r.expr) => { let r = &r.expr; parse_quote!(&#r.0) }
            o => o.clone(),
        };
        // X.iter().enumerate() / X.iter() / &X
        let (base, en) = match &src {
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => ((*m.receiver).clone(), true),
            o => (o.clone(), false),
        };
        if let (Some(v), false) = (split_call(&base), en) {
            self.hit("for over str::split becomes an index loop over its parts");
            let bx: Stmt = parse_quote!(let #pat = #s[#i];);
            let (keep, v) = keep_split(&v, k);
            *e = parse_quote!({
                #keep
                let #s = #v;
                let mut #i: usize = 0;
                #label while #i < #s.len() { #bx #i += 1; #(#body)* }
            });
            return;
        }
        let (base, val) = match by_value(&base) { Some(r) if !en => (r.clone(), true), _ => (base, false) };
        let base2 = match &base {
            o if skip_slice(o).is_some() => { let x = skip_slice(o); Some(parse_quote!((*#x))) }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((*m.receiver).clone()),
            Expr::Reference(r) if r.mutability.is_none() => Some((*r.expr).clone()),
            o if shape_of(self.ix, o) == Shape::Slice => Some(parse_quote!((*#o))),
            _ => None,
        };
        if let Some(x) = base2 {
            self.hit("for over a slice iterator becomes an index loop");
            let (p_i, p_x): (Option<Pat>, Pat) = if en {
                match &**pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                    _ => { self.unsupported.push("enumerate pattern".into()); return; }
                }
            } else { (None, (**pat).clone()) };
            let bi: Option<Stmt> = match p_i { Some(Pat::Wild(_)) | None => None, Some(p) => Some(parse_quote!(let #p = #i;)) };
            let bx: Option<Stmt> = match &p_x {
                Pat::Wild(_) => None,
                q if val => Some(parse_quote!(let #q = #s[#i];)),
                Pat::Reference(r) => { let q = &r.pat; Some(parse_quote!(let #q = #s[#i];)) }
                q => Some(parse_quote!(let #q = &#s[#i];)),
            };
            let body = &stop_at(body, &i);
            *e = parse_quote!({
                let #s = &#x;
                let mut #i: usize = 0;
                #label while #i < #s.len() { #bi #bx #i += 1; #(#body)* }
            });
            return;
        }
        if let (true, false) = (shape_of(self.ix, &base) == Shape::Iter, en) {
            self.hit("for over a returned iterator becomes an index loop over its items");
            let bx: Stmt = parse_quote!(let #pat = #s[#i];);
            *e = parse_quote!({
                let #s = vx_items(#base);
                let mut #i: usize = 0;
                #label while #i < #s.len() { #bx #i += 1; #(#body)* }
            });
            return;
        }
        let own = match strip_paren(&base) { Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => strip_paren(&m.receiver).clone(), o => o.clone() };
        if let (Expr::Path(p), false) = (&own, en) {
            if p.path.get_ident().map_or(false, |i| self.ix.vecs.borrow().contains(&i.to_string())) {
                self.hit("for over an owned Vec becomes a loop taking its first element");
                *e = parse_quote!({
                    let mut #s = #own;
                    #label while #s.len() > 0 { let #pat = vx_take_first(&mut #s); #(#body)* }
                });
                return;
            }
        }
        // anything else: materialise through a trusted conversion to a Vec
        let x = &src;
        self.hit("for over another iterator: items taken from a Vec conversion");
        let inner = if en { base.clone() } else { x.clone() };
        let (p_i, p_x): (Option<Pat>, Pat) = if en {
            match &**pat {
                Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                _ => { self.unsupported.push("enumerate pattern".into()); return; }
            }
        } else { (None, (**pat).clone()) };
        let bi: Option<Stmt> = match p_i { Some(Pat::Wild(_)) | None => None, Some(p) => Some(parse_quote!(let #p = #i;)) };
        let bx: Stmt = parse_quote!(let #p_x = vx_take(&#s, #i););
        *e = parse_quote!({
            let #s = vx_to_items(#inner);
            let mut #i: usize = 0;
            #label while #i < #s.len() { #bi #bx #i += 1; #(#body)* }
        });
    }

    fn is_seqfield(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Field(f) => match &f.member { Member::Named(id) => self.ix.seqfields.get(&id.to_string()) == Some(&true), _ => false },
            _ => false,
        }
    }

    /// std idioms that have a direct statement form or a verified helper
    fn idioms(&mut self, e: &mut Expr) {
        // X.iter().map(|p| E).collect::<Result<Vec<_>, _>>()?
        // X.iter().map(|p| E).collect::<Vec<_>>()
        let found = match &*e {
            Expr::Try(t) => iter_map_collect(self.ix, &t.expr).map(|m| (m, false)),
            Expr::MethodCall(_) => iter_map_collect(self.ix, e).and_then(|m| if plain_vec(self.ix, e, &m) { Some((m, true)) } else { None }),
            _ => None,
        };
        {
            if let Some((mc, plain)) = found {
                let k = self.loops;
                let (i, s, o) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k), format_ident!("vx_o{}", k));
                let pat = &mc.pat;
                let body = &mc.body;
                let err: Expr = mc.err.clone().unwrap_or(parse_quote!(vx_e));
                let step: Stmt = if plain { parse_quote!(#o.push(#body);) } else { parse_quote!(match #body { Ok(vx_v) => { #o.push(vx_v); } Err(vx_e) => { return Err(vx_from(#err)); } }) };
                let item: Expr = match &mc.src { Src::Ref(_) => parse_quote!(&#s[#i]), _ => parse_quote!(#s[#i]) };
                let stop: Option<Stmt> = match (&mc.while_, &mc.src) {
                    (Some(_), Src::Own(_) | Src::Range(..)) => { self.unsupported.push("take_while on owned items".into()); return; }
                    (Some((p, c)), _) => Some(parse_quote!(if !({ let #p = &#item; #c }) { break; })),
                    _ => None,
                };
                self.hit(if plain { "iter().map().collect::<Vec>() becomes an index loop" } else { "iter().map().collect::<Result<Vec,_>>()? becomes an index loop" });
                *e = match &mc.src {
                    Src::Own(x) => parse_quote!({
                        let mut #s = #x;
                        let mut #o = Vec::new();
                        while #s.len() > 0 {
                            let #pat = vx_take_first(&mut #s);
                            #step
                        }
                        #o
                    }),
                    Src::Range(a, b) => {
                        let n = format_ident!("vx_n{}", k);
                        let bind: Option<Stmt> = if let Pat::Wild(_) = pat { None } else { Some(parse_quote!(let #pat = #i;)) };
                        parse_quote!({
                            let mut #i = #a;
                            let #n = #b;
                            let mut #o = Vec::new();
                            while #i < #n { #bind #i += 1; #step }
                            #o
                        })
                    }
                    Src::Ref(x) | Src::Vals(x) => {
                        let bind: Stmt = match (&mc.src, pat) {
                            (Src::Ref(_), Pat::Reference(r)) => { let q = &r.pat; parse_quote!(let #q = #s[#i];) }
                            _ => parse_quote!(let #pat = #item;),
                        };
                        let (keep, x) = keep_split(x, k);
                        parse_quote!({
                            #keep
                            let #s = #x;
                            let mut #o = Vec::new();
                            let mut #i: usize = 0;
                            while #i < #s.len() {
                                #stop
                                #bind
                                #i += 1;
                                #step
                            }
                            #o
                        })
                    }
                };
                return;
            }
        }
        let Expr::MethodCall(m) = &*e else {
            if let Expr::Call(c) = &*e {
                if let Expr::Path(p) = &*c.func {
                    let n = crate::index::norm(quote!(#p).to_string());
                    let a = &c.args;
                    if p.path.segments.len() == 2 && n.ends_with("::from") && a.len() == 1 {
                        let t = p.path.segments[0].ident.to_string();
                        let cnt = self.ix.fns.values().filter(|f| f.sig.ident == "from" && f.self_ty.as_ref().map(crate::index::ty_name).as_deref() == Some(t.as_str())).count();
                        if cnt > 1 {
                            self.hit("T::from with several impls becomes VxFrom");
                            let t = &p.path.segments[0];
                            *e = parse_quote!(<#t as VxFrom<_>>::vx_conv(#a));
                        }
                    } else if (n == "std::mem::take" || n == "mem::take") && a.len() == 1 {
                        self.hit("mem::take becomes vx_mem_take");
                        *e = parse_quote!(vx_mem_take(#a));
                    } else if (n == "std::mem::replace" || n == "mem::replace") && a.len() == 2 {
                        self.hit("mem::replace becomes vx_mem_replace");
                        *e = parse_quote!(vx_mem_replace(#a));
                    } else if (n == "iter::once" || n == "std::iter::once" || n == "once") && a.len() == 1 {
                        self.hit("iter::once becomes a one-element Vec");
                        *e = parse_quote!(vx_vec1(#a));
                    } else if (n == "TryInto::try_into" || n == "std::convert::TryInto::try_into") && a.len() == 1 {
                        self.hit("try_into() becomes vx_try_into");
                        *e = parse_quote!(vx_try_into(#a));
                    } else if (n == "Into::into" || n == "std::convert::Into::into") && a.len() == 1 {
                        self.hit("into() becomes vx_from");
                        *e = parse_quote!(vx_from(#a));
                    } else if n == "Vec::with_capacity" {
                        if a.len() == 1 && len_bounded(&a[0]) {
                            self.hit("with_capacity of an existing length becomes new");
                            *e = parse_quote!(Vec::new());
                        } else {
                            self.hit("with_capacity carries the allocation bound");
                            *e = parse_quote!(vx_with_capacity(#a));
                        }
                    }
                }
            }
            return;
        };
        let n = m.method.to_string();
        let r = &m.receiver;
        let a = &m.args;
        let lit = a.first().and_then(|x| match x { Expr::Lit(l) => Some(l.lit.clone()), _ => None });
        let new: Option<(Expr, &str)> = match (n.as_str(), a.len()) {
            ("collect", 0) if split_call(r).is_some() => Some((split_call(r).unwrap(), "str::split().collect() becomes vx_split")),
            ("split", 1) if split_call(e).is_some() => Some((split_call(e).unwrap(), "str::split becomes vx_split")),
            ("next", 0) if matches!(strip_paren(r), Expr::MethodCall(c) if c.method == "chars" && c.args.is_empty()) => {
                let Expr::MethodCall(c) = strip_paren(r) else { return };
                let x = &c.receiver;
                Some((parse_quote!(#x.vx_first_char()), "chars().next() becomes vx_first_char"))
            }
            ("chars", 0) => Some((parse_quote!(#r.vx_chars()), "chars() becomes vx_chars")),
            ("is_ascii", 0) => Some((parse_quote!(#r.vx_is_ascii()), "is_ascii becomes vx_is_ascii")),
            ("starts_with", 1) if matches!(lit, Some(Lit::Char(_))) => Some((parse_quote!(#r.vx_starts_with(#a)), "str::starts_with(char) becomes vx_starts_with")),
            ("strip_prefix", 1) if matches!(lit, Some(Lit::Char(_))) => Some((parse_quote!(#r.vx_strip_prefix(#a)), "str::strip_prefix(char) becomes vx_strip_prefix")),
            ("parse", 0) => m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|t| match t { GenericArgument::Type(t) => Some(t), _ => None }).map(|t| {
                let n = crate::index::norm(quote!(#t).to_string());
                if ["u8", "u16", "u32", "u64", "usize"].contains(&n.as_str()) {
                    let f = format_ident!("vx_parse_{}", n);
                    (parse_quote!(#r.#f()), "str::parse::<uN> becomes vx_parse_uN")
                } else {
                    (parse_quote!(#t::from_str(#r.vx_as_str())), "str::parse::<T> becomes T::from_str")
                }
            }),
            ("try_into", 0) => Some((parse_quote!(vx_try_into(#r)), "try_into() becomes vx_try_into")),
            ("rposition", 1) | ("position", 1) => (|| {
                let Expr::MethodCall(it) = strip_paren(r) else { return None };
                if it.method != "iter" || !it.args.is_empty() { return None; }
                let Expr::Closure(f) = &a[0] else { return None };
                if f.inputs.len() != 1 || has_try(&f.body) { return None; }
                let x = &it.receiver;
                let body = &f.body;
                let k = self.loops;
                let (i, s, o) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k), format_ident!("vx_o{}", k));
                let bind: Stmt = match &f.inputs[0] {
                    Pat::Reference(p) => { let q = &p.pat; parse_quote!(let #q = #s[#i];) }
                    q => parse_quote!(let #q = &#s[#i];),
                };
                Some((if n == "rposition" { parse_quote!({
                    let #s = &#x;
                    let mut #i: usize = #s.len();
                    let mut #o: Option<usize> = None;
                    while #i > 0 { #i -= 1; #bind if #body { #o = Some(#i); break; } }
                    #o
                }) } else { parse_quote!({
                    let #s = &#x;
                    let mut #i: usize = 0;
                    let mut #o: Option<usize> = None;
                    while #i < #s.len() { #bind if #body { #o = Some(#i); break; } #i += 1; }
                    #o
                }) }, "iter().position/rposition becomes an index loop"))
            })(),
            ("find", 1) | ("any", 1) | ("all", 1) => (|| {
                let Expr::MethodCall(it) = strip_paren(r) else { return None };
                if it.method != "iter" || !it.args.is_empty() { return None; }
                let x = &it.receiver;
                let k = self.loops;
                let (i, s, o) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k), format_ident!("vx_o{}", k));
                let (bind, body): (Stmt, Expr) = match &a[0] {
                    Expr::Closure(f) => {
                        if f.inputs.len() != 1 || has_try(&f.body) { return None; }
                        let b: Stmt = match &f.inputs[0] {
                            Pat::Reference(p) if n == "find" => { match &*p.pat { Pat::Reference(q) => { let q = &q.pat; parse_quote!(let #q = #s[#i];) } q => parse_quote!(let #q = &#s[#i];) } }
                            Pat::Reference(p) => { let q = &p.pat; parse_quote!(let #q = #s[#i];) }
                            q => parse_quote!(let #q = &#s[#i];),
                        };
                        (b, (*f.body).clone())
                    }
                    Expr::Path(f) if n != "find" => (parse_quote!(let vx_x = &#s[#i];), parse_quote!(#f(vx_x))),
                    _ => return None,
                };
                Some((match n.as_str() {
                    "find" => parse_quote!({
                        let #s = &#x;
                        let mut #i: usize = 0;
                        let mut #o = None;
                        while #i < #s.len() { #bind if #body { #o = Some(&#s[#i]); break; } #i += 1; }
                        #o
                    }),
                    "any" => parse_quote!({
                        let #s = &#x;
                        let mut #i: usize = 0;
                        let mut #o: bool = false;
                        while #i < #s.len() { #bind if #body { #o = true; break; } #i += 1; }
                        #o
                    }),
                    _ => parse_quote!({
                        let #s = &#x;
                        let mut #i: usize = 0;
                        let mut #o: bool = true;
                        while #i < #s.len() { #bind if !(#body) { #o = false; break; } #i += 1; }
                        #o
                    }),
                }, "iter().find/any/all becomes an index loop"))
            })(),
            ("filter", 1) => (|| {
                let Src::Ref(x) = iter_src(self.ix, r)? else { return None };
                let (p, body) = fn_parts(&a[0])?;
                let k = self.loops;
                let (i, s, o) = (format_ident!("vx_i{}", k), format_ident!("vx_s{}", k), format_ident!("vx_o{}", k));
                Some((parse_quote!({
                    let #s = #x;
                    let mut #o = Vec::new();
                    let mut #i: usize = 0;
                    while #i < #s.len() {
                        if { let #p = &&#s[#i]; #body } { #o.push(&#s[#i]); }
                        #i += 1;
                    }
                    vx_iter(#o)
                }), "iter().filter() becomes an index loop"))
            })(),
            ("flatten", 0) => (|| {
                let Expr::MethodCall(g) = strip_paren(r) else { return None };
                if g.method != "into_iter" || !g.args.is_empty() { return None; }
                let x = &g.receiver;
                Some((parse_quote!(vx_iter_flat(#x)), "Option::into_iter().flatten() becomes vx_iter_flat"))
            })(),
            ("get", 1) => (|| {
                let Expr::Range(g) = strip_paren(&a[0]) else { return None };
                if !matches!(g.limits, RangeLimits::HalfOpen(_)) { return None; }
                match (&g.start, &g.end) {
                    (Some(x), None) => Some((parse_quote!(#r.vx_get_tail(#x)), "slice::get(a..) becomes vx_get_tail")),
                    (Some(x), Some(y)) => Some((parse_quote!(#r.vx_get_sub(#x, #y)), "slice::get(a..b) becomes vx_get_sub")),
                    _ => None,
                }
            })(),
            ("collect", 0) => (|| {
                let Expr::MethodCall(f) = strip_paren(r) else { return None };
                if f.method != "flatten" { return None; }
                let Expr::MethodCall(g) = strip_paren(&f.receiver) else { return None };
                if g.method != "into_iter" { return None; }
                let x = &g.receiver;
                Some((parse_quote!(vx_flatten(#x)), "into_iter().flatten().collect() becomes vx_flatten"))
            })(),
            ("push", 1) => (|| {
                let Expr::MethodCall(f) = strip_paren(r) else { return None };
                let fnm = f.method.to_string();
                if fnm == "or_insert_with" && f.args.len() == 1 {
                    let x = &f.args[0];
                    let t = crate::index::norm(quote!(#x).to_string());
                    if !["Vec::new", "Vec::default", "||Vec::new()", "||vec![]", "Default::default"].contains(&t.as_str()) { return None; }
                } else if fnm == "or_insert" && f.args.len() == 1 {
                    let x = &f.args[0];
                    let t = crate::index::norm(quote!(#x).to_string());
                    if !["Vec::new()", "vec![]", "Default::default()"].contains(&t.as_str()) { return None; }
                } else if fnm != "or_default" { return None; }
                let Expr::MethodCall(g) = strip_paren(&f.receiver) else { return None };
                if g.method != "entry" || g.args.len() != 1 { return None; }
                let (mm, k, v) = (&g.receiver, &g.args[0], &a[0]);
                Some((parse_quote!(vx_map_push(&mut #mm, #k, #v)), "entry().or_insert_with(Vec::new).push() becomes vx_map_push"))
            })(),
            ("extend", 1) | ("append", 1) if n == "extend" => Some((parse_quote!(#r.vx_extend(#a)), "extend by a Vec becomes vx_extend")),
            ("into", 0) => Some((parse_quote!(vx_from(#r)), "into() becomes vx_from")),
            ("len", 0) if self.ix.strlen => Some((parse_quote!(#r.vx_len()), "len() becomes vx_len (str or slice)")),
            ("as_ref", 0) => (|| {
                let Expr::Field(f) = strip_paren(r) else { return None };
                let Member::Named(id) = &f.member else { return None };
                if !matches!(strip_paren(&f.base), Expr::Path(p) if p.path.is_ident("self")) { return None; }
                let me = self.self_name.clone()?;
                let boxed = self.ix.types.values().any(|t| matches!(t, crate::index::TypeItem::Struct(_, st) if st.ident == me
                    && st.fields.iter().any(|x| x.ident.as_ref() == Some(id) && crate::index::ty_name(&x.ty) == "Box")));
                if boxed { Some((parse_quote!((&*#r)), "as_ref() of a Box field becomes a reborrow")) } else { None }
            })(),
            ("reserve" | "reserve_exact", 1) => Some((if len_bounded(&a[0]) { parse_quote!(()) } else { parse_quote!(vx_capacity(#a)) }, "reserve carries the allocation bound")),
            ("is_power_of_two", 0) if matches!(strip_paren(r), Expr::Path(_) | Expr::Field(_)) => Some((parse_quote!((#r != 0 && #r & (#r - 1) == 0)), "is_power_of_two by its definition")),
            ("to_vec", 0) => Some((parse_quote!(#r.vx_to_vec()), "to_vec() becomes vx_to_vec")),
            _ => None,
        };
        if let Some((x, h)) = new {
            let h = h.to_string();
            self.hit(&h);
            *e = x;
        }
    }

    fn combinator(&mut self, e: &mut Expr) {
        loop {
            let Expr::MethodCall(m) = &*e else { return };
            let n = m.method.to_string();
            let r = &m.receiver;
            let a = &m.args;
            let k = kind_of(self.ix, r);
            let ve: Expr = parse_quote!(vx_v);
            let ee: Expr = parse_quote!(vx_e);
            let k = match (k, n.as_str(), a.len()) {
                (None, "and_then" | "or_else", 1) => fn_kind(self.ix, &a[0]),
                (None, "unwrap_or_else", 1) => match &a[0] { Expr::Closure(c) => Some(if c.inputs.is_empty() { Kind::Option } else { Kind::Result }), _ => None },
                _ => k,
            };
            let new: Option<Expr> = match (n.as_str(), a.len()) {
                ("filter", 1) if k == Some(Kind::Option) => fn_parts(&a[0]).map(|(p, b)| parse_quote!(match #r { Some(vx_v) => if { let #p = &vx_v; #b } { Some(vx_v) } else { None }, None => None })),
                ("is_some_and", 1) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => false })),
                ("is_none_or", 1) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => true })),
                ("is_ok_and", 1) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Ok(vx_v) => #b, Err(_) => false })),
                ("is_err_and", 1) => apply(&a[0], ee).map(|b| parse_quote!(match #r { Ok(_) => false, Err(vx_e) => #b })),
                ("then", 1) if matches!(&a[0], Expr::Closure(_)) => apply(&a[0], ve).map(|b| parse_quote!(if #r { Some(#b) } else { None })),
                ("then_some", 1) if !has_try(&a[0]) => { let b = &a[0]; Some(parse_quote!(if #r { Some(#b) } else { None })) }
                ("or", 1) if k.is_some() && !has_try(&a[0]) => {
                    let b = &a[0];
                    match k { Some(Kind::Option) => Some(parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b })), _ => Some(parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(_) => #b })) }
                }
                ("cloned", 0) if k == Some(Kind::Option) => Some(parse_quote!(match #r { Some(vx_v) => Some(vx_v.clone()), None => None })),
                ("err", 0) if k == Some(Kind::Result) => Some(parse_quote!(match #r { Ok(_) => None, Err(vx_e) => Some(vx_e) })),
                ("map", 1) => match k {
                    Some(Kind::Result) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(#b), Err(vx_e) => Err(vx_e) })),
                    Some(Kind::Option) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => Some(#b), None => None })),
                    _ => None,
                },
                ("map_err", 1) => apply(&a[0], ee).map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(#b) })),
                ("and_then", 1) => match k {
                    Some(Kind::Result) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Ok(vx_v) => #b, Err(vx_e) => Err(vx_e) })),
                    Some(Kind::Option) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => #b, None => None })),
                    _ => None,
                },
                ("ok_or_else", 1) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) })),
                ("ok_or", 1) if !has_try(&a[0]) => {
                    let b = &a[0];
                    Some(parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }))
                }
                ("unwrap_or_else", 1) => match k {
                    Some(Kind::Result) => apply(&a[0], ee).map(|b| parse_quote!(match #r { Ok(vx_v) => vx_v, Err(vx_e) => #b })),
                    Some(Kind::Option) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => vx_v, None => #b })),
                    _ => None,
                },
                ("unwrap_or", 1) if !has_try(&a[0]) => {
                    let b = &a[0];
                    match k {
                        Some(Kind::Result) => Some(parse_quote!(match #r { Ok(vx_v) => vx_v, Err(_) => #b })),
                        Some(Kind::Option) => Some(parse_quote!(match #r { Some(vx_v) => vx_v, None => #b })),
                        _ => None,
                    }
                }
                ("map_or_else", 2) => match k {
                    Some(Kind::Result) => match (apply(&a[0], ee), apply(&a[1], ve)) {
                        (Some(d), Some(f)) => Some(parse_quote!(match #r { Ok(vx_v) => #f, Err(vx_e) => #d })),
                        _ => None,
                    },
                    Some(Kind::Option) => match (apply(&a[0], ee), apply(&a[1], ve)) {
                        (Some(d), Some(f)) => Some(parse_quote!(match #r { Some(vx_v) => #f, None => #d })),
                        _ => None,
                    },
                    _ => None,
                },
                ("map_or", 2) if !has_try(&a[0]) => {
                    let d = &a[0];
                    match k {
                        Some(Kind::Result) => apply(&a[1], ve).map(|f| parse_quote!(match #r { Ok(vx_v) => #f, Err(_) => #d })),
                        Some(Kind::Option) => apply(&a[1], ve).map(|f| parse_quote!(match #r { Some(vx_v) => #f, None => #d })),
                        _ => None,
                    }
                }
                ("or_else", 1) => match k {
                    Some(Kind::Result) => apply(&a[0], ee).map(|b| parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => #b })),
                    Some(Kind::Option) => apply(&a[0], ve).map(|b| parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b })),
                    _ => None,
                },
                ("transpose", 0) if k == Some(Kind::Option) => Some(parse_quote!(match #r { None => Ok(None), Some(vx_v) => match vx_v { Ok(vx_v) => Ok(Some(vx_v)), Err(vx_e) => Err(vx_e) } })),
                ("copied", 0) if k == Some(Kind::Option) => Some(parse_quote!(match #r { Some(vx_v) => Some(*vx_v), None => None })),
                ("ok", 0) => Some(parse_quote!(match #r { Ok(vx_v) => Some(vx_v), Err(_) => None })),
                ("unwrap", 0) | ("expect", 1) if k == Some(Kind::Result) => Some(parse_quote!(match #r { Ok(vx_v) => vx_v, Err(_) => vx_panic() })),
                _ => None,
            };
            match new {
                Some(x) => {
                    self.hit(&format!("Option/Result .{n}() expanded to match"));
                    *e = x;
                    return;
                }
                None => return,
            }
        }
    }
}

/// Types in signatures/bodies: AsRef bound rename and associated types.
pub struct TyFix<'a> {
    pub assoc: Vec<(String, Type)>,
    pub renames: &'a BTreeMap<String, String>,
    pub self_ty: Option<Type>,
}
impl<'a> VisitMut for TyFix<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, ty)) = self.assoc.iter().find(|(a, _)| *a == n) {
                    *t = ty.clone();
                    self.visit_type_mut(t);
                    return;
                }
            }
        }
        // impl IntoIterator<Item = X>  ->  Vec<X>
        if let Type::ImplTrait(i) = t {
            if let Some(TypeParamBound::Trait(tb)) = i.bounds.first() {
                let s = tb.path.segments.last().unwrap();
                if s.ident == "Iterator" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::AssocType(b)) = a.args.first() {
                            let x = &b.ty;
                            *t = parse_quote!(VxIter<#x>);
                            visit_mut::visit_type_mut(self, t);
                            return;
                        }
                    }
                }
                if s.ident == "IntoIterator" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::AssocType(b)) = a.args.first() {
                            let x = &b.ty;
                            *t = parse_quote!(Vec<#x>);
                            visit_mut::visit_type_mut(self, t);
                            return;
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let s = { let p = &b.path; crate::index::norm(quote!(#p).to_string()) };
        if s == "AsRef<[u8]>" {
            b.path = parse_quote!(VxAsRef);
            return;
        }
        visit_mut::visit_trait_bound_mut(self, b);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        {
            let n = p.segments.len();
            for i in 0..n.saturating_sub(1) {
                let a = p.segments[i].ident.to_string();
                let b = p.segments[i + 1].ident.to_string();
                let to = match (a.as_str(), b.as_str()) {
                    ("io", "Error") => "IoError",
                    ("io", "ErrorKind") => "IoErrorKind",
                    ("io", "Result") => "IoResult",
                    ("cmp", "min") => "vx_min",
                    ("cmp", "max") => "vx_max",
                    ("str", "from_utf8") => "vx_from_utf8",
                    _ => continue,
                };
                let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(i + 1).cloned().collect();
                segs[0].ident = format_ident!("{}", to);
                p.segments = segs;
                p.leading_colon = None;
                visit_mut::visit_path_mut(self, p);
                return;
            }
        }
        // Self::Assoc::X
        if p.segments.len() >= 3 && p.segments[0].ident == "Self" {
            let n = p.segments[1].ident.to_string();
            if let Some((_, Type::Path(ty))) = self.assoc.iter().find(|(a, _)| *a == n) {
                if ty.qself.is_none() {
                    let mut np = ty.path.clone();
                    if let Some(l) = np.segments.last_mut() { l.arguments = PathArguments::None; }
                    for s in p.segments.iter().skip(2) { np.segments.push(s.clone()); }
                    *p = np;
                    self.visit_path_mut(p);
                    return;
                }
            }
        }
        // strip leading module qualifiers (crate::, super::, self::, io::, abbrev::, ...)
        while p.segments.len() > 1 {
            let f = p.segments[0].ident.to_string();
            let lower = f.chars().next().map_or(false, |c| c.is_lowercase());
            let prim = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "str", "bool", "char", "f32", "f64"].contains(&f.as_str());
            if lower && !prim && f != "vstd" {
                let rest: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
                p.segments = rest;
                p.leading_colon = None;
            } else { break; }
        }
        if let Some(s) = p.segments.first_mut() {
            if let Some(n) = self.renames.get(&s.ident.to_string()) {
                s.ident = format_ident!("{}", n);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}

pub fn ret_kind(sig: &Signature) -> Kind { ty_kind(&sig.output) }

/// a `map().collect()` whose value is not visibly a plain Vec or an Option
pub fn is_map_collect(e: &Expr) -> bool {
    let Expr::MethodCall(c) = strip_paren(e) else { return false };
    if c.method == "map_err" && c.args.len() == 1 { return is_map_collect(&c.receiver); }
    if c.method != "collect" || !c.args.is_empty() { return false; }
    let Expr::MethodCall(m) = strip_paren(&c.receiver) else { return false };
    if m.method != "map" || m.args.len() != 1 { return false; }
    match &c.turbofish {
        Some(t) => match t.args.first() { Some(GenericArgument::Type(Type::Path(p))) => last_seg(&p.path) == "Result", _ => false },
        None => true,
    }
}

/// what the desugared loop k would have called vx_ok (its output) and vx_ik (its index), for a loop that has its own names
pub fn loop_names(b: &Block) -> Vec<(String, String)> {
    struct L { decl: std::collections::BTreeSet<String>, out: Vec<(String, String)> }
    struct P(std::collections::BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for P {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if m.method == "push" { if let Expr::Path(p) = &*m.receiver { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    }
    impl L {
        fn one(&mut self, cond: Option<&Expr>, body: &Block) {
            let Some(k) = body.stmts.iter().find_map(|s| match s { Stmt::Macro(m) if last_seg(&m.mac.path) == "__vx_inv" => m.mac.tokens.to_string().trim().parse::<usize>().ok(), _ => None }) else { return };
            let (o, i) = (format!("vx_o{k}"), format!("vx_i{k}"));
            if !self.decl.contains(&o) {
                let mut p = P(Default::default());
                syn::visit::Visit::visit_block(&mut p, body);
                let c: Vec<&String> = p.0.iter().filter(|x| self.decl.contains(*x)).collect();
                if c.len() == 1 { self.out.push((o, c[0].clone())); }
            }
            if !self.decl.contains(&i) {
                if let Some(Expr::Binary(b)) = cond {
                    if let (Expr::Path(p), BinOp::Lt(_) | BinOp::Ne(_)) = (&*b.left, &b.op) { if let Some(x) = p.path.get_ident() { self.out.push((i, x.to_string())); } }
                }
            }
        }
    }
    struct D<'x>(&'x mut std::collections::BTreeSet<String>);
    impl<'x, 'a> syn::visit::Visit<'a> for D<'x> { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); } }
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.one(Some(&w.cond), &w.body); syn::visit::visit_expr_while(self, w); }
        fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.one(None, &w.body); syn::visit::visit_expr_loop(self, w); }
    }
    let mut l = L { decl: Default::default(), out: vec![] };
    syn::visit::Visit::visit_block(&mut D(&mut l.decl), b);
    syn::visit::Visit::visit_block(&mut l, b);
    l.out
}

/// a bound name that collides with a name of the contract gets another one
pub struct Rename<'a> { pub from: &'a str, pub to: Ident }
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.from { p.ident = self.to.clone(); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_pat_mut(self, f); }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.from)) { self.visit_expr_mut(&mut c.func); }
        for a in c.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(self.from) { p.path = self.to.clone().into(); } }
}
pub fn bound_names(b: &Block, sig: &Signature) -> std::collections::BTreeSet<String> {
    struct D(std::collections::BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for D { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.insert(p.ident.to_string()); } }
    let mut d = D(Default::default());
    syn::visit::Visit::visit_block(&mut d, b);
    syn::visit::Visit::visit_signature(&mut d, sig);
    d.0
}
