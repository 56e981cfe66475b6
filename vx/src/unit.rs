use crate::desugar::*;
use crate::index::*;
use crate::index::Index;
use crate::print;
use quote::{format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub source: String,
    pub key: String,
    pub as_name: Option<String>,
    pub params: Vec<String>,
    /// (name in the contract, how the initializer of the local it stands for begins)
    pub locals: Vec<(String, String)>,
    pub optlocals: BTreeSet<String>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub loopexit: BTreeMap<usize, String>,
    pub start: String,
    pub end: String,
    pub onret: String,
    pub after: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub rewrites: Vec<(String, String)>,
    pub sigrewrites: Vec<(String, String)>,
    pub trusted: bool,
    /// the unit that proves this contract, when it is only used here
    pub elsewhere: Option<String>,
    pub no_self_rename: bool,
}

#[derive(Clone, Debug)]
pub enum Dir {
    Verbatim(String),
    Type { source: String, name: String, derive: String },
    EnumTry { source: String, name: String, spec: String },
    EnumInto { source: String, name: String, spec: String },
    ErrFrom { source: String, name: String },
    Derives { source: String, name: String, traits: Vec<String> },
    Fn(FnSpec),
}

#[derive(Default)]
pub struct Unit {
    pub sources: Vec<String>,
    pub renames: BTreeMap<String, BTreeMap<String, String>>,
    pub dirs: Vec<Dir>,
    pub noinline: Vec<String>,
    loaded: BTreeSet<String>,
}

impl Unit {
    pub fn load(path: &str) -> Unit {
        let mut u = Unit::default();
        u.load_into(path, None);
        u
    }
    fn load_into(&mut self, path: &str, elsewhere: Option<&str>) {
        let u = self;
        // each file once
        if !u.loaded.insert(path.to_string()) { return; }
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut cur_src = String::new();
        let mut cur: Option<FnSpec> = None;
        let mut sink: Option<String> = None; // which field text goes to
        let mut buf = String::new();
        let mut en: Option<(String, String)> = None;
        fn flush(cur: &mut Option<FnSpec>, sink: &mut Option<String>, buf: &mut String, u: &mut Unit, en: &mut Option<(String, String)>) {
            let t = std::mem::take(buf);
            if let Some(s) = sink.take() {
                let mut it = s.splitn(2, ' ');
                let kind = it.next().unwrap();
                let arg = it.next().unwrap_or("").trim().to_string();
                match kind {
                    "verbatim" => u.dirs.push(Dir::Verbatim(t)),
                    "enumtry" => {
                        let (s, n) = en.take().unwrap();
                        if !u.dirs.iter().any(|d| matches!(d, Dir::EnumTry { source, name, .. } if *source == s && *name == n)) { u.dirs.push(Dir::EnumTry { source: s, name: n, spec: t }) }
                    }
                    k => {
                        let f = cur.as_mut().expect("no fn");
                        match k {
                            "spec" => f.spec = t,
                            "loop" => { f.loops.insert(arg.parse().unwrap(), t); }
                            "loopstart" => { f.loopstart.insert(arg.parse().unwrap(), t); }
                            "loopexit" => { f.loopexit.insert(arg.parse().unwrap(), t); }
                            "loopend" => { f.loopend.insert(arg.parse().unwrap(), t); }
                            "start" => f.start = t,
                            "end" => f.end = t,
                            "onret" => f.onret = t,
                            "after" => f.after.push((norm(arg), t)),
                            "before" => f.before.push((norm(arg), t)),
                            _ => panic!("sink {k}"),
                        }
                    }
                }
            }
        }
        let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
        for line in text.lines() {
            if let Some(d) = line.strip_prefix("@@") {
                flush(&mut cur, &mut sink, &mut buf, u, &mut en);
                let d = d.trim();
                let mut it = d.splitn(2, ' ');
                let k = it.next().unwrap();
                let arg = it.next().unwrap_or("").trim().to_string();
                let toplevel = ["source", "type", "fn", "verbatim", "end", "enumtry", "enuminto", "errfrom", "derives", "include", "uses", "noinline"].contains(&k) && !(k == "end" && !arg.is_empty());
                if toplevel && k != "end" {
                    if let Some(f) = cur.take() { u.dirs.push(Dir::Fn(f)); }
                }
                match k {
                    "#" => {}
                    "include" => {
                        let p = dir.join(&arg);
                        u.load_into(p.to_str().unwrap(), elsewhere);
                    }
                    // contracts proved in another unit of the property, used here without their bodies
                    "uses" => {
                        let (file, n) = arg.split_once(" as ").unwrap_or((&arg, arg.trim_end_matches(".vc")));
                        let p = dir.join(file);
                        let n = elsewhere.unwrap_or(n).to_string();
                        u.load_into(p.to_str().unwrap(), Some(&n));
                    }
                    "strlen" => u.noinline.push("flag:strlen".into()),
                    "noinline" => u.noinline.extend(arg.split_whitespace().map(|s| s.to_string())),
                    "source" => {
                        let mut w = arg.split_whitespace();
                        cur_src = w.next().unwrap().to_string();
                        if !u.sources.contains(&cur_src) { u.sources.push(cur_src.clone()); }
                        for r in w {
                            let (a, b) = r.split_once('=').unwrap();
                            u.renames.entry(cur_src.clone()).or_default().insert(a.into(), b.into());
                        }
                    }
                    "type" => {
                        let mut w = arg.splitn(2, ' ');
                        let name = w.next().unwrap().to_string();
                        let derive: String = w.next().unwrap_or("").into();
                        // the same type in two included files: the one with attributes wins
                        if !derive.is_empty() {
                            for d in &mut u.dirs {
                                if let Dir::Type { source, name: n, derive: x } = d {
                                    if *source == cur_src && *n == name && x.is_empty() { *x = derive.clone(); }
                                }
                            }
                        }
                        u.dirs.push(Dir::Type { source: cur_src.clone(), name, derive });
                    }
                    "derives" => {
                        let mut w = arg.split_whitespace().map(|s| s.to_string());
                        let name = w.next().unwrap();
                        u.dirs.push(Dir::Derives { source: cur_src.clone(), name, traits: w.collect() });
                    }
                    "enuminto" => {
                        let mut w = arg.split_whitespace().map(|s| s.to_string());
                        u.dirs.push(Dir::EnumInto { source: cur_src.clone(), name: w.next().unwrap(), spec: w.next().unwrap() });
                    }
                    "errfrom" => u.dirs.push(Dir::ErrFrom { source: cur_src.clone(), name: arg }),
                    "enumtry" => { en = Some((cur_src.clone(), arg)); sink = Some("enumtry".into()); }
                    "verbatim" => sink = Some("verbatim".into()),
                    "end" => {}
                    "fn" => cur = Some(FnSpec { source: cur_src.clone(), key: arg, elsewhere: elsewhere.map(|s| s.to_string()), ..Default::default() }),
                    "spec" | "loop" | "loopstart" | "loopend" | "loopexit" | "start" | "atend" | "onret" | "after" | "before" => {
                        let k = if k == "atend" { "end" } else { k };
                        sink = Some(format!("{k} {arg}"));
                    }
                    "as" => cur.as_mut().unwrap().as_name = Some(arg),
                    "optlocal" => { let (n, i) = arg.split_once(' ').unwrap_or((&arg, "")); let f = cur.as_mut().unwrap(); f.locals.push((n.to_string(), norm(i.to_string()))); f.optlocals.insert(n.to_string()); }
                    "local" => { let (n, i) = arg.split_once(' ').unwrap_or((&arg, "")); cur.as_mut().unwrap().locals.push((n.to_string(), norm(i.to_string()))); }
                    "params" => cur.as_mut().unwrap().params = arg.split_whitespace().map(|s| s.to_string()).collect(),
                    "ret" => cur.as_mut().unwrap().ret = Some(arg),
                    "attr" => cur.as_mut().unwrap().attrs.push(arg),
                    "trusted" => cur.as_mut().unwrap().trusted = true,
                    "rewrite" | "sigrewrite" => {
                        let (a, b) = arg.split_once("=>").unwrap();
                        let v = (a.trim().to_string(), b.trim().to_string());
                        let f = cur.as_mut().unwrap();
                        if k == "rewrite" { f.rewrites.push(v) } else { f.sigrewrites.push(v) }
                    }
                    o => panic!("{path}: unknown directive {o}"),
                }
            } else if sink.is_some() {
                buf.push_str(line);
                buf.push('\n');
            } else if !line.trim().is_empty() && !line.starts_with('#') {
                panic!("{path}: stray text: {line}");
            }
        }
        flush(&mut cur, &mut sink, &mut buf, u, &mut en);
        if let Some(f) = cur.take() { u.dirs.push(Dir::Fn(f)); }
    }
}

pub struct OutFn {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub status: String,
    pub why: String,
    pub file: String,
    pub src_line: usize,
    pub has_contract: bool,
    pub probed: bool,
    pub loops: usize,
    pub inlined: Vec<String>,
    /// proof hints that found no place in the changed text
    pub soft: Vec<String>,
}

#[derive(Default)]
pub struct Out {
    pub text: String,
    pub fns: Vec<OutFn>,
    pub rules: BTreeMap<String, usize>,
    pub types: Vec<String>,
    pub lost: Vec<String>,
    pub fatal: Vec<String>,
}

impl Out {
    fn line(&self) -> usize { self.text.matches('\n').count() + 1 }
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        if !s.ends_with('\n') { self.text.push('\n'); }
    }
}

/// enum cast `X::V as uN` to its discriminant; consts used
struct EnumCast<'a> { ix: &'a Index, n: usize }
pub fn discs(ix: &Index, e: &ItemEnum) -> Option<Vec<(String, i128)>> {
    let mut cur: i128 = 0;
    let mut out = vec![];
    for v in &e.variants {
        if !matches!(v.fields, Fields::Unit) { return None; }
        if let Some((_, d)) = &v.discriminant {
            cur = eval_ix(Some(ix), d)?;
        }
        out.push((v.ident.to_string(), cur));
        cur += 1;
    }
    Some(out)
}
pub fn eval(e: &Expr) -> Option<i128> { eval_ix(None, e) }
pub fn eval_ix(ix: Option<&Index>, e: &Expr) -> Option<i128> {
    let eval = |e: &Expr| eval_ix(ix, e);
    match e {
        Expr::Path(p) => {
            // a variant of an enumeration
            let n = p.path.segments.len();
            if n >= 2 {
                let (t, v) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
                let suf = format!("::{t}");
                let es: Vec<_> = ix?.types.iter().filter(|(k, _)| k.ends_with(&suf)).filter_map(|(_, t)| match t { TypeItem::Enum(_, e) => Some(e), _ => None }).collect();
                if es.len() == 1 {
                    if let Some(d) = discs(ix?, es[0])?.into_iter().find(|d| d.0 == v) { return Some(d.1); }
                }
            }
            // a constant, when its name is unique among the sources of the unit
            let n = &p.path.segments.last()?.ident;
            let cs: Vec<_> = ix?.consts.iter().filter(|c| *n == c.name && c.self_name.is_none()).collect();
            if cs.len() == 1 { eval(&cs[0].expr) } else { None }
        }
        Expr::Cast(c) => eval(&c.expr),
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<i128>().ok(),
        Expr::Paren(p) => eval(&p.expr),
        Expr::Unary(u) => match u.op { UnOp::Neg(_) => Some(-eval(&u.expr)?), _ => None },
        Expr::Binary(b) => {
            let (l, r) = (eval(&b.left)?, eval(&b.right)?);
            Some(match b.op {
                BinOp::Add(_) => l + r, BinOp::Sub(_) => l - r, BinOp::Mul(_) => l * r,
                BinOp::Shl(_) => l << r, BinOp::BitOr(_) => l | r, _ => return None,
            })
        }
        _ => None,
    }
}
impl<'a> VisitMut for EnumCast<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Cast(c) = e {
            if let Expr::Path(p) = &*c.expr {
                if p.path.segments.len() >= 2 {
                    let n = p.path.segments.len();
                    let t = p.path.segments[n - 2].ident.to_string();
                    let v = p.path.segments[n - 1].ident.to_string();
                    for ti in self.ix.types.values() {
                        if let TypeItem::Enum(_, en) = ti {
                            if en.ident == t {
                                if let Some(d) = discs(self.ix, en) {
                                    if let Some((_, val)) = d.iter().find(|(n, _)| *n == v) {
                                        let ty = &c.ty;
                                        let tn = norm(quote!(#ty).to_string());
                                        let lit: Expr = parse_str(&format!("{val}{tn}")).unwrap();
                                        *e = parse_quote!(#lit);
                                        self.n += 1;
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s = norm(quote!(#p).to_string());
                if s.starts_with("std::mem::size_of::<") || s.starts_with("mem::size_of::<") || s.starts_with("size_of::<") {
                    let t = s.split("::<").nth(1).unwrap().trim_end_matches('>');
                    let n = match t { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" => 4, "u64" | "i64" | "usize" | "isize" => 8, _ => 0 };
                    if n > 0 {
                        let l: Expr = parse_str(&format!("{n}usize")).unwrap();
                        *e = l;
                        self.n += 1;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// substitute `self` and parameters when inlining
struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") { *e = self.0.clone(); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Inliner<'a> {
    ix: &'a Index,
    known: &'a BTreeSet<String>, // fn names available in the unit
    noinline: &'a [String],
    file: String,
    self_name: Option<String>,
    inlined: Vec<String>,
    failed: Vec<String>,
    depth: usize,
    ret: String,
    ret_kind: Kind,
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

/// the tail value of a Result-returning body that is a `collect()` becomes `Ok(collect()?)`
fn tail_collect(b: &mut Block) {
    fn e(x: &mut Expr) {
        match x {
            Expr::Block(b) => tail_collect(&mut b.block),
            Expr::Paren(p) => e(&mut p.expr),
            Expr::If(i) => { tail_collect(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { e(x); } }
            Expr::Match(m) => for a in &mut m.arms { e(&mut a.body); },
            Expr::MethodCall(_) => {
                if crate::desugar::is_map_collect(x) { let y = x.clone(); *x = parse_quote!(Ok(#y?)); }
            }
            _ => {}
        }
    }
    if let Some(Stmt::Expr(x, None)) = b.stmts.last_mut() { e(x); }
}
/// the error type of `Result<T, E>`, if it can be named anywhere
fn err_type(sig: &Signature, generic: bool) -> Option<Type> {
    let ReturnType::Type(_, t) = &sig.output else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "Result" || generic { return None; }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let Some(GenericArgument::Type(e)) = a.args.iter().nth(1) else { return None };
    let ts = norm(quote!(#e).to_string());
    if ts.contains("Self") || ts.contains('&') || ts.contains("impl") { return None; }
    Some(e.clone())
}
/// exits of a helper that become exits of its caller: errors pass through the helper's error type (and `map`)
struct ErrThrough { ty: Type, map: Option<Expr> }
impl VisitMut for ErrThrough {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let t = &self.ty;
        match e {
            Expr::Try(x) => {
                let i = &x.expr;
                let y: Expr = parse_quote!(#i.map_err(|vx_e0| { let vx_he: #t = vx_from(vx_e0); vx_he }));
                x.expr = Box::new(match &self.map { Some(m) => parse_quote!(#y.map_err(#m)), None => y });
            }
            Expr::Return(r) => {
                if let Some(Expr::Call(c)) = r.expr.as_deref() {
                    let a = &c.args;
                    let v: Expr = parse_quote!({ let vx_he: #t = #a; vx_he });
                    let v: Expr = match &self.map {
                        Some(Expr::Closure(c)) if c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); parse_quote!({ let #p = #v; #b }) }
                        Some(m) => parse_quote!(#m(#v)),
                        None => v,
                    };
                    *r = parse_quote!(return Err(vx_from(#v)));
                }
            }
            _ => {}
        }
    }
}

impl<'a> Inliner<'a> {
    fn find(&self, e: &Expr) -> Option<(String, FnItem, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.known.contains(&n) || self.noinline.contains(&n) { return None; }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                // receiver self -> own type first
                let cands: Vec<(&String, &FnItem)> = self.ix.fns.iter().filter(|(k, f)| {
                    f.sig.ident == n && f.self_ty.is_some() && f.sig.receiver().is_some() && !k.contains("dyn ") && f.trait_name.as_deref().map_or(true, |t| !["Iterator"].contains(&t))
                }).collect();
                let own: Vec<_> = cands.iter().filter(|(_, f)| f.self_ty.as_ref().map(ty_name) == self.self_name && f.file == self.file).collect();
                let is_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let pick = if is_self && own.len() == 1 { Some(*own[0]) }
                    else if !is_self && cands.len() == 1 && ["get","len","push","pop","iter","map","insert","next","last","first","clone","into","into_iter","iter_mut","as_mut","to_vec","is_empty","clear","remove","contains","by_ref","as_ref","read","parse","filter","cmp","eq","partial_cmp","extend"].contains(&n.as_str()) == false { Some(cands[0]) } else { None };
                pick.map(|(k, f)| (k.clone(), f.clone(), Some((*m.receiver).clone()), args))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last()?.clone();
                if self.known.contains(&n) || self.noinline.contains(&n) { return None; }
                if n.starts_with("vx_") { return None; }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let ty = if segs.len() >= 2 {
                    let t = segs[segs.len() - 2].clone();
                    if t == "Self" { self.self_name.clone() } else { Some(t) }
                } else { None };
                for (k, f) in &self.ix.fns {
                    if f.sig.ident != n || f.sig.receiver().is_some() { continue; }
                    let fty = f.self_ty.as_ref().map(ty_name);
                    let tymatch = match (&ty, &fty) {
                        (None, None) => f.file == self.file,
                        (Some(a), Some(b)) => a == b,
                        (Some(a), None) => a.chars().next().map_or(false, |c| c.is_lowercase()),
                        _ => false,
                    };
                    if tymatch && f.trait_name.is_none() {
                        return Some((k.clone(), f.clone(), None, args));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn body(&mut self, k: &str, f: &FnItem, recv: Option<Expr>, args: Vec<Expr>, tail: bool, try_: bool) -> Option<Expr> {
        self.body2(k, f, recv, args, tail, try_, None)
    }
    fn body2(&mut self, k: &str, f: &FnItem, recv: Option<Expr>, args: Vec<Expr>, tail: bool, try_: bool, errmap: Option<&Expr>) -> Option<Expr> {
        if self.depth > 4 { return None; }
        let mut b = f.block.clone();
        crate::desugar::typed_parse(&mut b);
        if crate::desugar::ret_kind(&f.sig) == Kind::Result { tail_collect(&mut b); }
        let ht = block_has_try(&b);
        // early exits in a position where they cannot be the caller's: nested matches
        let mut flat = None;
        let early_ok = |b: &Block| {
            struct R(bool);
            impl<'b> syn::visit::Visit<'b> for R {
                fn visit_expr_return(&mut self, r: &'b ExprReturn) {
                    if !matches!(&r.expr, Some(e) if matches!(&**e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if last_seg(&p.path) == "Err"))) { self.0 = true; }
                }
            }
            let mut r = R(false);
            syn::visit::visit_block(&mut r, b);
            r.0
        };
        let o = &f.sig.output;
        let otherret = norm(quote!(#o).to_string()) != self.ret;
        if ht && ((!tail && !try_) || (tail && otherret) || (try_ && !tail && (early_ok(&b) || otherret))) {
            flat = crate::elim::elim(&b, crate::desugar::ret_kind(&f.sig));
            if let Some(x) = &flat { b = parse_quote!({ #x }); }
        }
        if ht && flat.is_none() && try_ && !tail && (otherret || errmap.is_some()) && !early_ok(&b) && crate::desugar::ret_kind(&f.sig) == Kind::Result && self.ret_kind == Kind::Result {
            let ty = err_type(&f.sig, !f.sig.generics.params.is_empty() || !f.generics.params.is_empty())?;
            ErrThrough { ty, map: errmap.cloned() }.visit_block_mut(&mut b);
        } else if errmap.is_some() && ht && flat.is_none() { return None; }
        let ht = ht && flat.is_none();
        let try_ = try_ && flat.is_none();
        let tail = tail && flat.is_none();
        if ht && !tail && !try_ { return None; }
        if tail && ht {
            let o = &f.sig.output;
            let r = norm(quote!(#o).to_string());
            if r != self.ret { return None; }
        }
        if try_ {
            // early `return Ok(..)` cannot be expressed
            struct R(bool);
            impl<'b> syn::visit::Visit<'b> for R {
                fn visit_expr_return(&mut self, r: &'b ExprReturn) {
                    match &r.expr {
                        Some(e) => if let Expr::Call(c) = &**e {
                            if let Expr::Path(p) = &*c.func { if last_seg(&p.path) == "Err" { return; } }
                            self.0 = true;
                        } else { self.0 = true },
                        None => self.0 = true,
                    }
                }
            }
            let mut r = R(false);
            syn::visit::visit_block(&mut r, &b);
            if r.0 { return None; }
        }
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(_) => {
                    let r = recv.clone()?;
                    if !is_place(&r) { return None; }
                    if !matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
                        SubstSelf(r).visit_block_mut(&mut b);
                    }
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let p = &t.pat;
                    let ty = &t.ty;
                    let gen = !f.sig.generics.params.is_empty() || matches!(**ty, Type::ImplTrait(_)) || norm(quote!(#ty).to_string()).contains("Self");
                    if let (Pat::Ident(pi), Expr::Path(ap)) = (&**p, &a) {
                        if ap.path.is_ident(&pi.ident) { continue; }
                    }
                    let into = match &**ty {
                        Type::ImplTrait(i) => match i.bounds.first() {
                            Some(TypeParamBound::Trait(b)) => match b.path.segments.last() {
                                Some(s) if s.ident == "Into" => match &s.arguments {
                                    PathArguments::AngleBracketed(x) => match x.args.first() { Some(GenericArgument::Type(t)) => Some(t.clone()), _ => None },
                                    _ => None,
                                },
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(x) = into { binds.push(parse_quote!(let #p: #x = vx_from(#a);)); }
                    else if gen { binds.push(parse_quote!(let #p = #a;)); } else { binds.push(parse_quote!(let #p: #ty = #a;)); }
                }
            }
        }
        if f.self_ty.as_ref().map(ty_name) != self.self_name {
            if let Some(st) = &f.self_ty {
                struct S(Type);
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut Path) {
                        if p.segments.first().map_or(false, |s| s.ident == "Self") {
                            let n = format_ident!("{}", ty_name(&self.0));
                            p.segments[0].ident = n;
                        }
                        visit_mut::visit_path_mut(self, p);
                    }
                }
                S(st.clone()).visit_block_mut(&mut b);
            }
        }
        self.inlined.push(k.to_string());
        self.depth += 1;
        if tail { self.tail_block(&mut b); } else { self.visit_block_mut(&mut b); }
        self.depth -= 1;
        let stmts = &b.stmts;
        // the declared type settles the error type
        if let (ReturnType::Type(_, t), false) = (&f.sig.output, tail) {
            let ts = norm(quote!(#t).to_string());
            let words: Vec<String> = quote!(#t).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').map(|x| x.to_string()).collect();
            let generic = f.sig.generics.params.iter().chain(f.generics.params.iter()).any(|g| match g { GenericParam::Type(p) => words.contains(&p.ident.to_string()), _ => true });
            if (ts.starts_with("Result<") || ts.starts_with("Option<")) && !ts.contains("Self") && !ts.contains('&') && !ts.contains("impl") && !generic {
                return Some(parse_quote!({ #(#binds)* let vx_ht: #t = { #(#stmts)* }; vx_ht }));
            }
        }
        Some(parse_quote!({ #(#binds)* #(#stmts)* }))
    }

    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s { self.tail_expr(e); continue; }
            }
            self.visit_stmt_mut(s);
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x); }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms { self.tail_expr(&mut a.body); }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some((k, f, r, a)) = self.find(e) {
                    match self.body(&k, &f, r, a, true, false) {
                        Some(x) => *e = x,
                        None => self.failed.push(k),
                    }
                } else { self.visit_expr_mut(e); }
            }
            _ => self.visit_expr_mut(e),
        }
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let inner = t.expr.clone();
            if let Some((k, f, r, a)) = self.find(&inner) {
                match self.body(&k, &f, r, a, false, true) {
                    Some(x) => { t.expr = Box::new(x); }
                    None => self.failed.push(k),
                }
                return;
            }
            // H(..).map_err(F)?
            if let Expr::MethodCall(m) = &*inner {
                if m.method == "map_err" && m.args.len() == 1 {
                    if let Some((k, f, r, a)) = self.find(&m.receiver) {
                        let g = m.args[0].clone();
                        let pure = match &g { Expr::Path(_) => true, Expr::Closure(c) => !crate::desugar::has_try(&c.body), _ => false };
                        if pure {
                            match self.body2(&k, &f, r, a, false, true, Some(&g)) {
                                Some(x) => { t.expr = Box::new(parse_quote!(#x.map_err(#g))); }
                                None => self.failed.push(k),
                            }
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr { self.tail_expr(x); }
            return;
        }
        if let Expr::Call(_) | Expr::MethodCall(_) = e {
            if let Some((k, f, r, a)) = self.find(e) {
                match self.body(&k, &f, r, a, false, false) {
                    Some(x) => *e = x,
                    None => self.failed.push(k),
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// proof text placement by statement prefix, in any nested block
struct Place<'a> { after: &'a [(String, String)], before: &'a [(String, String)], raws: &'a mut Vec<String>, used: BTreeSet<usize> }
impl<'a> VisitMut for Place<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let t = norm(quote!(#s).to_string());
            let mut post = vec![];
            for (i, (p, text)) in self.before.iter().enumerate() {
                if t.contains(p.as_str()) && !self.used.contains(&(1000 + i)) {
                    self.used.insert(1000 + i);
                    self.raws.push(text.clone());
                    let l = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                    out.push(parse_quote!(__vx_raw!(#l);));
                }
            }
            for (i, (p, text)) in self.after.iter().enumerate() {
                if t.contains(p.as_str()) && !self.used.contains(&i) {
                    self.used.insert(i);
                    self.raws.push(text.clone());
                    let l = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                    post.push(parse_quote!(__vx_raw!(#l);));
                }
            }
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
    }
}

struct LoopEnd<'a> { exits: &'a BTreeMap<usize, String>, ends: &'a BTreeMap<usize, String>, starts: &'a BTreeMap<usize, String>, invs: &'a BTreeMap<usize, String>, raws: &'a mut Vec<String> }
impl<'a> VisitMut for LoopEnd<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut k = None;
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                let n = last_seg(&m.mac.path);
                if n == "__vx_inv" || n == "__vx_loopstart" {
                    let i: usize = m.mac.tokens.to_string().trim().parse().unwrap();
                    k = Some(i);
                    let src = if n == "__vx_inv" { self.invs.get(&i) } else { self.starts.get(&i) };
                    let text = src.cloned().unwrap_or_default();
                    self.raws.push(text);
                    let l = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                    if n == "__vx_inv" { out.push(parse_quote!(__vx_inv!(#l);)); } else { out.push(parse_quote!(__vx_raw!(#l);)); }
                    continue;
                }
            }
            out.push(s);
        }
        if let Some(i) = k {
            if let Some(t) = self.exits.get(&i) {
                // before each break and continue of this loop, and at its end
                struct X(proc_macro2::Literal);
                impl VisitMut for X {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        match e {
                            Expr::Break(_) | Expr::Continue(_) => { let l = &self.0; *e = parse_quote!({ __vx_raw!(#l); #e }); }
                            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                            e => visit_mut::visit_expr_mut(self, e),
                        }
                    }
                }
                self.raws.push(t.clone());
                let mut x = X(proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1));
                for s in out.iter_mut() { x.visit_stmt_mut(s); }
            }
            if let Some(t) = self.ends.get(&i).or(self.exits.get(&i)) {
                self.raws.push(t.clone());
                let l = proc_macro2::Literal::usize_unsuffixed(self.raws.len() - 1);
                if let Some(Stmt::Expr(_, semi @ None)) = out.last_mut() { *semi = Some(Default::default()); }
                out.push(parse_quote!(__vx_raw!(#l);));
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

/// what a shift by or a mask with a literal is, in the arithmetic of the contracts
fn literal_ops(b: &Block) -> String {
    struct L(BTreeSet<(char, u32)>);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &*b.right {
                if let Ok(n) = n.base10_parse::<u64>() {
                    match b.op {
                        BinOp::Shr(_) | BinOp::ShrAssign(_) if n > 0 && n < 64 => { self.0.insert(('r', n as u32)); }
                        BinOp::Shl(_) | BinOp::ShlAssign(_) if n > 0 && n < 64 => { self.0.insert(('l', n as u32)); }
                        BinOp::BitAnd(_) | BinOp::BitAndAssign(_) if n > 0 && n < u64::MAX && (n + 1).is_power_of_two() => { self.0.insert(('m', (n + 1).trailing_zeros())); }
                        _ => {}
                    }
                }
            }
            syn::visit::visit_expr_binary(self, b);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut l = L(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut l, b);
    let mut t = String::new();
    for (op, k) in l.0 {
        let m = 1u64 << k;
        for (ty, w) in [("u32", 32), ("u64", 64), ("usize", 64)] {
            if k >= w { continue; }
            match op {
                'r' => t += &format!("assert(forall|vx_x: {ty}| #[trigger] (vx_x >> {k}) == vx_x / {m}) by (bit_vector);\n"),
                'l' => t += &format!("assert(forall|vx_x: {ty}| vx_x <= {} ==> #[trigger] (vx_x << {k}) == vx_x * {m}) by (bit_vector);\n", if w == 32 { (u32::MAX >> k) as u64 } else { u64::MAX >> k }),
                _ => t += &format!("assert(forall|vx_x: {ty}| #[trigger] (vx_x & {}) == vx_x % {m}) by (bit_vector);\n", m - 1),
            }
        }
    }
    t
}

fn replace_tokens(text: &str, from: &str, to: &str) -> (String, bool) {
    // whitespace-insensitive replacement on printed tokens
    let f: Vec<char> = from.chars().filter(|c| !c.is_whitespace()).collect();
    let t: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut hit = false;
    while i < t.len() {
        let (mut a, mut b) = (i, 0);
        while a < t.len() && b < f.len() {
            if t[a].is_whitespace() { if b == 0 { break; } a += 1; continue; }
            if t[a] != f[b] { break; }
            a += 1;
            b += 1;
        }
        if b == f.len() && !f.is_empty() {
            out.push(' ');
            out.push_str(to);
            out.push(' ');
            i = a;
            hit = true;
        } else {
            out.push(t[i]);
            i += 1;
        }
    }
    (out, hit)
}

pub fn emit(u: &Unit, ix: &Index, degrade: &[String], vacuity: bool) -> Out {
    let mut o = Out::default();
    o.push("#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut known: BTreeSet<String> = BTreeSet::new();
    for d in &u.dirs {
        if let Dir::Fn(f) = d {
            known.insert(f.as_name.clone().unwrap_or_else(|| f.key.rsplit("::").next().unwrap().to_string()));
            known.insert(f.key.rsplit("::").next().unwrap().to_string());
        }
    }
    let mut used_text = String::new();
    let mut bodies: Vec<String> = vec![];
    // consts emitted on demand after functions
    for d in &u.dirs {
        match d {
            Dir::Verbatim(t) => { o.push(t); used_text.push_str(t); }
            Dir::Type { source, name, derive } => {
                let key = format!("{source}::{name}");
                if o.types.contains(&key) { continue; }
                let rn = u.renames.get(source).cloned().unwrap_or_default();
                match ix.types.get(&key) {
                    None => o.lost.push(format!("type {key}")),
                    Some(t) => {
                        o.types.push(key);
                        let mut fix = TyFix { assoc: vec![], renames: &rn, self_ty: None };
                        let dv = if derive.is_empty() { String::new() } else { format!("{derive}\n") };
                        let newname = rn.get(name).cloned().unwrap_or(name.clone());
                        let ident = format_ident!("{}", newname);
                        let s = match t.clone() {
                            TypeItem::Struct(_, mut s) => {
                                fix.visit_item_struct_mut(&mut s);
                                s.ident = ident;
                                s.vis = parse_quote!(pub);
                                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); f.attrs.clear(); }
                                s.attrs.clear();
                                quote!(#s)
                            }
                            TypeItem::Enum(_, mut s) => {
                                let ds = if s.attrs.iter().any(|a| a.path().is_ident("repr")) { discs(ix, &s) } else { None };
                                fix.visit_item_enum_mut(&mut s);
                                s.ident = ident;
                                s.vis = parse_quote!(pub);
                                s.attrs.clear();
                                for (k, v) in s.variants.iter_mut().enumerate() { v.attrs.clear(); v.discriminant = match &ds {
                                    Some(d) if d[k].1 >= 0 => { let l = proc_macro2::Literal::i128_unsuffixed(d[k].1); Some((Default::default(), parse_quote!(#l))) }
                                    _ => None,
                                }; for f in v.fields.iter_mut() { f.attrs.clear(); } }
                                quote!(#s)
                            }
                            TypeItem::Alias(_, mut s) => {
                                fix.visit_item_type_mut(&mut s);
                                s.attrs.clear();
                                s.ident = ident;
                                s.vis = parse_quote!(pub);
                                quote!(#s)
                            }
                        };
                        let txt = print::print(s, &[]);
                        used_text.push_str(&txt);
                        o.push(&format!("{dv}{txt}"));
                    }
                }
            }
            Dir::Derives { source, name, traits } => {
                let key = format!("{source}::{name}");
                let at = match ix.types.get(&key) { Some(TypeItem::Struct(_, s)) => s.attrs.clone(), Some(TypeItem::Enum(_, s)) => s.attrs.clone(), _ => vec![] };
                let ds: Vec<String> = at.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| {
                    let mut v = vec![];
                    let _ = a.parse_nested_meta(|m| { v.push(last_seg(&m.path)); Ok(()) });
                    v
                }).collect();
                for t in traits {
                    if !ds.contains(t) { o.lost.push(format!("derive {key} {t}")); o.fatal.push(format!("{name} no longer derives {t}")); }
                }
            }
            Dir::ErrFrom { source, name } => {
                let key = format!("{source}::{name}");
                let rn = u.renames.get(source).cloned().unwrap_or_default();
                if let Some(TypeItem::Enum(_, e)) = ix.types.get(&key) {
                    let newname = rn.get(name).cloned().unwrap_or(name.clone());
                    let id = format_ident!("{}", newname);
                    let mut s = String::new();
                    for v in &e.variants {
                        for f in &v.fields {
                            if f.attrs.iter().any(|a| a.path().is_ident("from")) {
                                let mut ty = f.ty.clone();
                                TyFix { assoc: vec![], renames: &rn, self_ty: None }.visit_type_mut(&mut ty);
                                let t = norm(quote!(#ty).to_string());
                                let vn = &v.ident;
                                s.push_str(&format!("impl VxFrom<{t}> for {id} {{ open spec fn vx_spec(a: {t}) -> {id} {{ {id}::{vn}(a) }} fn vx_conv(a: {t}) -> (r: {id}) {{ {id}::{vn}(a) }} }}\n"));
                            }
                        }
                    }
                    o.push(&s);
                } else { o.lost.push(format!("type {key}")); }
            }
            Dir::EnumInto { source, name, spec } => {
                let key = format!("{source}::{name}");
                let Some(TypeItem::Enum(_, e)) = ix.types.get(&key) else { o.lost.push(format!("enum {key}")); continue };
                let derives: String = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| norm(quote!(#a).to_string())).collect();
                let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| norm(quote!(#a).to_string()).replace("#[repr(", "").replace(")]", "")).unwrap_or("u64".into());
                let (Some(ds), true) = (discs(ix, e), derives.contains("IntoPrimitive")) else { o.lost.push(format!("enum derive {key}")); continue };
                let start = o.line();
                let fname = format!("{name} as IntoPrimitive::into");
                let deg = degrade.contains(&fname);
                let probe = "";
                let mut s = format!("impl VxFrom<{name}> for {repr} {{\n  open spec fn vx_spec(a: {name}) -> {repr} {{ {spec}(a) as {repr} }}\n");
                if deg { s.push_str("#[verifier::external_body]\n"); }
                s.push_str(&format!("  fn vx_conv(a: {name}) -> (r: {repr}) {{\n{probe} match a {{\n"));
                for (n, d) in &ds { s.push_str(&format!("    {name}::{n} => {d},\n")); }
                s.push_str("  }\n}\n}\n");
                *o.rules.entry("num_enum IntoPrimitive derive expanded to a match".into()).or_default() += 1;
                o.push(&s);
                let end = o.line();
                o.fns.push(OutFn { name: fname, start, end, status: if deg { "degraded".into() } else { "contract".into() }, why: String::new(),
                    file: source.clone(), src_line: e.ident.span().start().line, has_contract: true, loops: 0, inlined: vec![], soft: vec![], probed: false });
            }
            Dir::EnumTry { source, name, spec } => {
                let key = format!("{source}::{name}");
                let Some(TypeItem::Enum(_, e)) = ix.types.get(&key) else { o.lost.push(format!("enum {key}")); continue };
                let rn = u.renames.get(source).cloned().unwrap_or_default();
                let newname = rn.get(name).cloned().unwrap_or(name.clone());
                let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| norm(quote!(#a).to_string()).replace("#[repr(", "").replace(")]", "")).unwrap_or("u64".into());
                let ds = discs(ix, e);
                let derives: String = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(|a| norm(quote!(#a).to_string())).collect();
                if ds.is_none() || !(derives.contains("TryFromPrimitive") || derives.contains("IntoPrimitive") || derives.contains("FromPrimitive")) {
                    o.lost.push(format!("enum derive {key}"));
                    continue;
                }
                let mut default = None;
                let mut alts: Vec<(String, String)> = vec![];
                let mut strange = false;
                for v in &e.variants {
                    for a in &v.attrs {
                        let s = norm(quote!(#a).to_string());
                        if s.contains("num_enum(default)") || s.contains("#[default]") { default = Some(v.ident.to_string()); }
                        else if let Some(t) = s.strip_prefix("#[num_enum(alternatives=[") {
                            let t = t.trim_end_matches(")]").trim_end_matches(']');
                            for x in t.split(',').filter(|x| !x.is_empty()) {
                                if x.contains("..") && !x.contains("..=") { strange = true; }
                                alts.push((v.ident.to_string(), x.to_string()));
                            }
                        } else if s.contains("num_enum") { strange = true; }
                    }
                }
                if strange { o.lost.push(format!("enum attributes {key}")); continue; }
                let start = o.line();
                let fname = format!("{newname} as TryFromPrimitive::try_from");
                let deg = degrade.contains(&fname);
                let probe = "";
                let mut s = String::new();
                if deg { s.push_str("#[verifier::external_body]\n"); }
                if derives.contains("FromPrimitive") && !derives.contains("TryFromPrimitive") {
                    s.push_str(&format!("impl {newname} {{\npub fn from(vx_p: {repr}) -> (r: {newname})\n{spec}\n{{\n{probe} match vx_p {{\n"));
                    for (n, d) in ds.as_ref().unwrap() { s.push_str(&format!("  {d} => {newname}::{n},\n")); }
                    for (n, d) in &alts { s.push_str(&format!("  {d} => {newname}::{n},\n")); }
                    s.push_str(&format!("  _ => {newname}::{},\n }}\n}}\n}}\n", default.unwrap_or("VX_NO_DEFAULT".into())));
                } else {
                    s.push_str(&format!("impl {newname} {{\npub fn try_from(vx_p: {repr}) -> (r: Result<{newname}, TryFromPrimitiveError<{newname}>>)\n{spec}\n{{\n{probe} match vx_p {{\n"));
                    for (n, d) in ds.as_ref().unwrap() { s.push_str(&format!("  {d} => Ok({newname}::{n}),\n")); }
                    for (n, d) in &alts { s.push_str(&format!("  {d} => Ok({newname}::{n}),\n")); }
                    match &default {
                        Some(n) => s.push_str(&format!(" _ => Ok({newname}::{n}),\n }}\n}}\n}}\n")),
                        None => s.push_str(" _ => Err(vx_tfpe()),\n }\n}\n}\n"),
                    }
                }
                *o.rules.entry("num_enum derive expanded to a match on the discriminants".into()).or_default() += 1;
                o.push(&s);
                let end = o.line();
                o.fns.push(OutFn { name: fname, start, end, status: if deg { "degraded".into() } else { "contract".into() }, why: String::new(),
                    file: source.clone(), src_line: e.ident.span().start().line, has_contract: true, loops: 0, inlined: vec![], soft: vec![], probed: false });
            }
            Dir::Fn(fs) => {
                let s = emit_fn(u, ix, fs, degrade, vacuity, &known, &mut o);
                if let Some(s) = s { bodies.push(s); }
            }
        }
    }
    for b in &bodies { used_text.push_str(b); }
    // consts referenced
    let mut done: BTreeSet<String> = BTreeSet::new();
    loop {
        let mut added = false;
        for c in &ix.consts {
            let id = format!("{}::{:?}::{}", c.file, c.self_name, c.name);
            if done.contains(&id) { continue; }
            if word(&used_text, &c.name) {
                if c.self_name.is_some() && !used_text.contains(&format!(" {} ", c.self_name.as_ref().unwrap())) && !used_text.contains("Self") { continue; }
                if let Some(sn) = &c.self_name { if !u.dirs.iter().any(|d| matches!(d, Dir::Type { name, .. } if name == sn)) { continue; } }
                let rn = u.renames.get(&c.file).cloned().unwrap_or_default();
                let mut fix = TyFix { assoc: vec![], renames: &rn, self_ty: None };
                let mut g = c.generics.clone();
                fix.visit_generics_mut(&mut g);
                let mut ex = c.expr.clone();
                let mut ty = c.ty.clone();
                fix.visit_expr_mut(&mut ex);
                fix.visit_type_mut(&mut ty);
                let mut ec = EnumCast { ix, n: 0 };
                ec.visit_expr_mut(&mut ex);
                let tn = norm(quote!(#ty).to_string());
                if ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&tn.as_str()) && !matches!(ex, Expr::Lit(_)) {
                    if let Some(v) = eval(&ex) { if v >= 0 {
                        let l: Expr = parse_str(&format!("{v}{tn}")).unwrap();
                        ex = l;
                        *o.rules.entry("constant integer expression evaluated".into()).or_default() += 1;
                    } }
                }
                let n = format_ident!("{}", c.name);
                if u.noinline.contains(&format!("const:{}", c.name)) { continue; }
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &ex {
                    let v = b.value();
                    let ts: Vec<_> = v.iter().map(|x| proc_macro2::Literal::u8_unsuffixed(*x)).collect();
                    let k = proc_macro2::Literal::usize_unsuffixed(v.len());
                    ex = parse_quote!([#(#ts),*]);
                    ty = parse_quote!([u8; #k]);
                    *o.rules.entry("byte string constant becomes an array constant".into()).or_default() += 1;
                }
                let txt = match &c.self_ty {
                    Some(t) => {
                        let mut t = t.clone();
                        fix.visit_type_mut(&mut t);
                        let (ig, _, wc) = g.split_for_impl();
                        print::print(quote!(impl #ig #t #wc { pub const #n : #ty = #ex; }), &[])
                    }
                    None => print::print(quote!(pub const #n : #ty = #ex;), &[]),
                };
                used_text.push_str(&txt);
                o.push(&txt);
                done.insert(id);
                added = true;
            }
        }
        if !added { break; }
    }
    if vacuity {
        let start = o.line();
        o.push("proof fn vx_context_probe() { assert(false); }\n");
        let end = o.line();
        o.fns.push(OutFn { name: "(context)".into(), start, end, status: "contract".into(), why: String::new(), file: String::new(), src_line: 0,
            has_contract: true, loops: 0, inlined: vec![], soft: vec![], probed: true });
    }
    o.push("} // verus!\nfn main() {}\n");
    o
}

fn word(t: &str, w: &str) -> bool {
    let mut i = 0;
    while let Some(p) = t[i..].find(w) {
        let a = i + p;
        let b = a + w.len();
        let pre = t[..a].chars().last().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        let post = t[b..].chars().next().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        if pre && post { return true; }
        i = b;
    }
    false
}

/// the local whose initializer begins with the given text
/// the first local whose initial value starts with (one of) `init` (one called `name` is preferred), or else
/// the local called `name`
fn find_local(b: &Block, name: &str, init: &str) -> Option<String> {
    struct N<'a>(&'a str, Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for N<'a> {
        fn visit_local(&mut self, l: &'b Local) {
            let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if matches!(p, Pat::Ident(p) if p.ident == self.0) { self.1.push(l.init.as_ref().map(|i| { let e = &i.expr; norm(quote!(#e).to_string()) }).unwrap_or_default()); }
            syn::visit::visit_local(self, l);
        }
    }
    let mut n = N(name, vec![]);
    syn::visit::Visit::visit_block(&mut n, b);
    let alts: Vec<&str> = init.split('|').map(|i| i.trim()).collect();
    if n.1.iter().any(|i| alts.iter().any(|a| i.starts_with(a.split('#').next().unwrap()))) { return Some(name.into()); }
    alts.iter().find_map(|i| find_init(b, i)).or(if n.1.is_empty() { None } else { Some(name.into()) })
}
/// `PREFIX` or `PREFIX#n` (the n-th)
fn find_init(b: &Block, init: &str) -> Option<String> {
    struct F<'a>(&'a str, Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'b> for F<'a> {
        fn visit_local(&mut self, l: &'b Local) {
            if let Some(i) = &l.init {
                let e = &i.expr;
                let p = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
                if let (Pat::Ident(p), true) = (p, norm(quote!(#e).to_string()).starts_with(self.0)) { self.1.push(p.ident.to_string()); }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let (init, n) = match init.rsplit_once('#') { Some((a, n)) => (a, n.parse().unwrap_or(1)), None => (init, 1) };
    let mut f = F(init, vec![]);
    syn::visit::Visit::visit_block(&mut f, b);
    f.1.into_iter().nth(n - 1)
}

fn subst_params(text: &str, map: &[(String, String)]) -> String {
    if map.is_empty() { return text.to_string(); }
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let s = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1; }
            let w: String = cs[s..i].iter().collect();
            let prev_dot = s > 0 && cs[s - 1] == '.';
            match map.iter().find(|(a, _)| *a == w) {
                Some((_, b)) if !prev_dot => out.push_str(b),
                _ => out.push_str(&w),
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

fn emit_fn(u: &Unit, ix: &Index, fs: &FnSpec, degrade: &[String], vacuity: bool, known: &BTreeSet<String>, o: &mut Out) -> Option<String> {
    let key = format!("{}::{}", fs.source, fs.key);
    let Some(f) = ix.fns.get(&key) else {
        o.lost.push(format!("fn {key}"));
        return None;
    };
    let rn = u.renames.get(&fs.source).cloned().unwrap_or_default();
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let mut rules = std::mem::take(&mut o.rules);
    let mut why = String::new();
    // 0. a pattern parameter becomes a name and a let
    for (k, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i {
            if !matches!(&*t.pat, Pat::Ident(_)) {
                let n = format_ident!("vx_p{}", k);
                let p = (*t.pat).clone();
                if !matches!(p, Pat::Wild(_)) { block.stmts.insert(0, parse_quote!(let #p = #n;)); }
                t.pat = parse_quote!(#n);
                *rules.entry("pattern parameter named and destructured by let".into()).or_default() += 1;
            }
        }
    }
    // `impl Into<X>` parameters become generic over a conversion
    let mut preds: Vec<String> = vec![];
    for (k, i) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = i {
            if let Type::ImplTrait(it) = &*t.ty {
                if let Some(TypeParamBound::Trait(b)) = it.bounds.first() {
                    let sgm = b.path.segments.last().unwrap();
                    if sgm.ident == "Into" {
                        if let PathArguments::AngleBracketed(a) = &sgm.arguments {
                            if let Some(GenericArgument::Type(x)) = a.args.first() {
                                let mut x = x.clone();
                                TyFix { assoc: vec![], renames: &rn, self_ty: None }.visit_type_mut(&mut x);
                                let g = format_ident!("VxT{}", k);
                                if let Pat::Ident(pi) = &*t.pat {
                                    struct IntoTo(String, Type);
                                    impl VisitMut for IntoTo {
                                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                                            if let Expr::MethodCall(m) = e {
                                                if m.method == "into" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.0)) {
                                                    let (r, t) = (&m.receiver, &self.1);
                                                    *e = parse_quote!(VxInto::<#t>::vx_into(#r));
                                                    return;
                                                }
                                            }
                                            visit_mut::visit_expr_mut(self, e);
                                        }
                                    }
                                    IntoTo(pi.ident.to_string(), x.clone()).visit_block_mut(&mut block);
                                }
                                preds.push(format!("{g}: VxInto<{}>", print::print(quote!(#x), &[]).trim()));
                                t.ty = parse_quote!(#g);
                                sig.generics.params.push(parse_quote!(#g));
                                *rules.entry("impl Into<X> parameter becomes generic".into()).or_default() += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    *ix.cur_self.borrow_mut() = f.self_ty.as_ref().map(ty_name);
    // 1. inline helpers without contract
    let outp = &f.sig.output;
    let mut inl = Inliner {
        ix, known, noinline: &u.noinline, file: f.file.clone(), self_name: f.self_ty.as_ref().map(ty_name), inlined: vec![], failed: vec![],
        depth: 0, ret: norm(quote!(#outp).to_string()), ret_kind: crate::desugar::ret_kind(&f.sig),
    };
    crate::desugar::typed_parse(&mut block);
    if crate::desugar::ret_kind(&f.sig) == Kind::Result { tail_collect(&mut block); }
    inl.tail_block(&mut block);
    let inlined = inl.inlined.clone();
    if !inlined.is_empty() { *rules.entry("helper without contract inlined".into()).or_default() += inlined.len(); }
    if !inl.failed.is_empty() { why = format!("calls functions without contract: {}", inl.failed.join(", ")); }
    // 2. desugar
    let n = crate::desugar::ref_pats(&mut block);
    if n > 0 { *rules.entry("reference pattern becomes a binding and a copy".into()).or_default() += n; }
    let n = crate::desugar::tail_loops(&mut block);
    if n > 0 { *rules.entry("break with the function's value becomes return".into()).or_default() += n; }
    crate::desugar::local_kinds(ix, &f.sig, &block);
    let mut ctx = Ctx { ix, rules: &mut rules, ret: crate::desugar::ret_kind(&f.sig), closure_depth: 0, loops: 0, tmp: 0, assoc_self: None, self_name: f.self_ty.as_ref().map(ty_name), unsupported: vec![] };
    ctx.visit_block_mut(&mut block);
    let nloops = ctx.loops;
    if !ctx.unsupported.is_empty() { why = ctx.unsupported.join("; "); }
    let mut ec = EnumCast { ix, n: 0 };
    ec.visit_block_mut(&mut block);
    if ec.n > 0 { *rules.entry("enum discriminant cast / size_of of a primitive evaluated".into()).or_default() += ec.n; }
    // names bound by the code must not hide the functions its contract applies
    let text: String = [&fs.spec, &fs.start, &fs.end, &fs.onret].into_iter().chain(fs.loops.values()).chain(fs.loopstart.values()).chain(fs.loopend.values()).chain(fs.loopexit.values()).chain(fs.after.iter().map(|x| &x.1)).chain(fs.before.iter().map(|x| &x.1)).fold(String::new(), |a, b| a + b + "\n");
    for n in bound_names(&block, &sig) {
        if fs.params.contains(&n) { continue; }
        let mut called = false;
        for (i, _) in text.match_indices(&format!("{n}(")) { called |= i == 0 || !(text.as_bytes()[i - 1].is_ascii_alphanumeric() || matches!(text.as_bytes()[i - 1], b'_' | b'.' | b':')); }
        if called {
            let to = format_ident!("vx_n_{}", n);
            let mut r = Rename { from: &n, to };
            r.visit_block_mut(&mut block);
            r.visit_signature_mut(&mut sig);
            *rules.entry("a bound name that hides a name of the contract is renamed".into()).or_default() += 1;
        }
    }
    let locals: Vec<(String, Option<String>)> = fs.locals.iter().map(|(n, i)| (n.clone(), find_local(&block, n, i))).collect();
    // 3. types
    let mut fix = TyFix { assoc: f.assoc.clone(), renames: &rn, self_ty: f.self_ty.clone() };
    fix.visit_block_mut(&mut block);
    fix.visit_signature_mut(&mut sig);
    let mut generics = f.generics.clone();
    fix.visit_generics_mut(&mut generics);
    // a trait method becomes inherent: what only the trait mentions moves to the method
    if let (Some(t), Some(_)) = (&f.self_ty, &f.trait_name) {
        let mut ids = vec![];
        fn idents(ts: proc_macro2::TokenStream, o: &mut Vec<String>) {
            for t in ts { match t { proc_macro2::TokenTree::Ident(i) => o.push(i.to_string()), proc_macro2::TokenTree::Group(g) => idents(g.stream(), o), _ => {} } }
        }
        idents(quote!(#t), &mut ids);
        let (keep, mv): (Vec<GenericParam>, Vec<GenericParam>) = generics.params.iter().cloned().partition(|g| match g {
            GenericParam::Type(t) => ids.contains(&t.ident.to_string()), _ => true });
        if !mv.is_empty() {
            generics.params = keep.into_iter().collect();
            for g in mv { sig.generics.params.push(g); }
        }
    }
    // iter::once(x) -> vec
    // parameter names
    let mut pmap = vec![];
    let mut names = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(_) => names.push("self".to_string()),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(p) => names.push(p.ident.to_string()),
                _ => names.push("_".into()),
            },
        }
    }
    if fs.params.len() == names.len() {
        for (a, b) in fs.params.iter().zip(&names) { if a != b && b != "_" { pmap.push((a.clone(), b.clone())); } }
    } else if !fs.params.is_empty() && why.is_empty() {
        why = format!("parameter list changed: {:?}", names);
    }
    let mut gone: Vec<String> = vec![];
    for (n, l) in &locals {
        match l { Some(l) => if l != n { pmap.push((n.clone(), l.clone())); }, None if fs.optlocals.contains(n) => gone.push(n.clone()), None if why.is_empty() => why = format!("no local for {n}"), None => {} }
    }
    for (a, b) in crate::desugar::loop_names(&block) { if !pmap.iter().any(|(x, _)| *x == a) { pmap.push((a, b)); } }
    // mut params: verus needs `mut x` kept; fine
    let mut raws: Vec<String> = vec![];
    // what mentions a local that is not there any more is left out
    let s = |t: &str| {
        if gone.is_empty() { return subst_params(t, &pmap); }
        let kept: String = t.lines().filter(|l| !gone.iter().any(|g| word(l, g))).map(|l| format!("{l}\n")).collect();
        subst_params(&kept, &pmap)
    };
    let after: Vec<_> = fs.after.iter().map(|(a, b)| (norm(s(a).trim().to_string()), s(b))).collect();
    let before: Vec<_> = fs.before.iter().map(|(a, b)| (norm(s(a).trim().to_string()), s(b))).collect();
    let mut place = Place { after: &after, before: &before, raws: &mut raws, used: BTreeSet::new() };
    place.visit_block_mut(&mut block);
    let mut soft: Vec<String> = vec![];
    for (i, (a, _)) in after.iter().enumerate() { if !place.used.contains(&i) { soft.push(a.clone()); } }
    for (i, (a, _)) in before.iter().enumerate() { if !place.used.contains(&(1000 + i)) { soft.push(a.clone()); } }
    if nloops != fs.loops.len() && why.is_empty() && fs.elsewhere.is_none() && !fs.trusted { why = format!("{nloops} loops, the contract has {}", fs.loops.len()); }
    let mut invs = BTreeMap::new();
    for (k, v) in &fs.loops { invs.insert(*k, s(v)); }
    let starts: BTreeMap<_, _> = fs.loopstart.iter().map(|(k, v)| (*k, s(v))).collect();
    let ends: BTreeMap<_, _> = fs.loopend.iter().map(|(k, v)| (*k, s(v))).collect();
    let exits: BTreeMap<_, _> = fs.loopexit.iter().map(|(k, v)| (*k, s(v))).collect();
    LoopEnd { exits: &exits, ends: &ends, starts: &starts, invs: &invs, raws: &mut raws }.visit_block_mut(&mut block);
    if !fs.onret.is_empty() {
        raws.push(s(&fs.onret));
        let l = proc_macro2::Literal::usize_unsuffixed(raws.len() - 1);
        let rty = match &sig.output { ReturnType::Type(_, t) if !matches!(**t, Type::ImplTrait(_)) => Some((**t).clone()), _ => None };
        let mk = |e: &Expr| -> Expr { match &rty {
            Some(t) => parse_quote!({ let vx_ret: #t = #e; __vx_raw!(#l); vx_ret }),
            None => parse_quote!({ let vx_ret = #e; __vx_raw!(#l); vx_ret }),
        } };
        struct R<'a>(&'a dyn Fn(&Expr) -> Expr);
        impl<'a> VisitMut for R<'a> {
            fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
                visit_mut::visit_expr_return_mut(self, r);
                if let Some(e) = &r.expr { r.expr = Some(Box::new((self.0)(e))); }
            }
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        }
        R(&mk).visit_block_mut(&mut block);
        fn tail(b: &mut Block, mk: &dyn Fn(&Expr) -> Expr) {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { tail_e(e, mk); }
        }
        fn tail_e(e: &mut Expr, mk: &dyn Fn(&Expr) -> Expr) {
            match e {
                Expr::Block(b) => tail(&mut b.block, mk),
                Expr::If(i) if i.else_branch.is_some() => {
                    tail(&mut i.then_branch, mk);
                    tail_e(&mut i.else_branch.as_mut().unwrap().1, mk);
                }
                Expr::Match(m) => for a in &mut m.arms { tail_e(&mut a.body, mk); },
                Expr::Return(_) => {}
                Expr::Loop(_) => {}
                o => { let n = mk(o); *o = n; }
            }
        }
        tail(&mut block, &mk);
    }
    if !fs.end.is_empty() {
        raws.push(s(&fs.end));
        let l = proc_macro2::Literal::usize_unsuffixed(raws.len() - 1);
        let st: Stmt = parse_quote!(__vx_raw!(#l););
        let n = block.stmts.len();
        let unit = matches!(sig.output, ReturnType::Default);
        match block.stmts.last_mut() {
            Some(Stmt::Expr(_, semi @ None)) if unit => { *semi = Some(Default::default()); block.stmts.push(st) }
            Some(Stmt::Expr(_, None)) => block.stmts.insert(n - 1, st),
            _ => block.stmts.push(st),
        }
    }
    // only a precondition can make a body vacuous (inconsistent assumptions: see the context probe)
    let probed = vacuity && word(&fs.spec, "requires");
    let facts = literal_ops(&block);
    if !fs.start.is_empty() || probed || !facts.is_empty() {
        let mut t = s(&fs.start);
        t = if t.trim_start().starts_with("hide(") || facts.is_empty() { format!("{t}\n{facts}") } else { format!("{facts}\n{t}") };
        if probed { t = if t.trim_start().starts_with("hide(") { format!("{t}\nassert(false); // vacuity probe: must fail\n") } else { format!("\nassert(false); // vacuity probe: must fail\n{t}") }; }
        raws.push(t);
        let l = proc_macro2::Literal::usize_unsuffixed(raws.len() - 1);
        block.stmts.insert(0, parse_quote!(__vx_raw!(#l);));
    }
    let name = fs.as_name.clone().unwrap_or(sig.ident.to_string());
    sig.ident = format_ident!("{}", name);
    // signature text
    let output = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let r = fs.ret.clone().unwrap_or("r".into());
            format!("-> ({r}: {})", print::print(quote!(#t), &[]))
        }
    };
    let mut sig2 = sig.clone();
    sig2.output = ReturnType::Default;
    let wc = sig2.generics.where_clause.take();
    let _ = wc;
    let mut head = print::print(quote!(pub #sig2), &[]);
    let mut body = print::print(quote!(#block), &raws);
    let mut outtxt = output;
    if !preds.is_empty() { outtxt.push_str(&format!(" where {},", preds.join(", "))); }
    for (a, b) in &fs.sigrewrites {
        head = replace_tokens(&head, a, b).0;
        outtxt = replace_tokens(&outtxt, a, b).0;
    }
    for (a, b) in &fs.rewrites {
        let (t, h) = replace_tokens(&body, a, b);
        body = t;
        if h { *rules.entry(format!("unit rewrite `{a}` => `{b}`")).or_default() += 1; }
    }
    let disp = match &f.self_ty { Some(t) => { let n = ty_name(t); format!("{}::{}", rn.get(&n).unwrap_or(&n), name) } None => name.clone() };
    let full = fs.key.clone();
    let deg = degrade.contains(&full) || !why.is_empty() || fs.trusted || fs.elsewhere.is_some();
    let status = if fs.elsewhere.is_some() { why = format!("proved in unit {}", fs.elsewhere.as_ref().unwrap()); "elsewhere" } else if fs.trusted { "trusted" } else if deg { "degraded" } else { "contract" };
    let mut txt = String::new();
    for a in &fs.attrs { txt.push_str(a); txt.push('\n'); }
    if deg || (vacuity && !probed) {
        txt.push_str(&match &fs.elsewhere { Some(u) => format!("#[verifier::external_body] // proved in unit {u}\n"), None => "#[verifier::external_body]\n".into() });
        body = "{ unimplemented!() }\n".into();
    }
    txt.push_str(&format!("{head} {outtxt}\n{}\n{body}", s(&fs.spec)));
    let txt = match &f.self_ty {
        Some(t) => {
            let mut t = t.clone();
            fix.visit_type_mut(&mut t);
            let (ig, _, wc) = generics.split_for_impl();
            format!("{} {{\n{}}}\n", print::print(quote!(impl #ig #t #wc), &[]), txt)
        }
        None => txt,
    };
    let _ = disp;
    o.rules = rules;
    o.push(&format!("// {} ({}:{})", full, fs.source, f.line));
    let start = o.line();
    o.push(&txt);
    let end = o.line() - 1;
    o.fns.push(OutFn { name: full, start, end, status: status.into(), why, file: fs.source.clone(), src_line: f.line,
        has_contract: !fs.spec.trim().is_empty(), loops: nloops, inlined, soft, probed: probed && !deg });
    Some(txt)
}
