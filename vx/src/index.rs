//! Index of the items of the source files a unit names.
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub file: String,
    pub self_ty: Option<Type>,
    pub generics: Generics,
    pub trait_name: Option<String>,
    pub assoc: Vec<(String, Type)>,
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
}

#[derive(Clone)]
pub struct ConstItem {
    pub file: String,
    pub self_name: Option<String>,
    pub self_ty: Option<Type>,
    pub generics: Generics,
    pub name: String,
    pub ty: Type,
    pub expr: Expr,
}

#[derive(Clone)]
pub enum TypeItem {
    Struct(String, ItemStruct),
    Enum(String, ItemEnum),
    Alias(String, ItemType),
}

#[derive(Default)]
pub struct Index {
    /// key: "file::Type::fn", "file::fn", "file::Type as Trait<..>::fn"
    pub fns: BTreeMap<String, FnItem>,
    pub consts: Vec<ConstItem>,
    pub types: BTreeMap<String, TypeItem>,
    /// function/method name -> return type kinds seen
    pub kinds: BTreeMap<String, Vec<Kind>>,
    /// function/method name -> kinds of T in a returned Result<T, _> / Option<T>
    pub inner: BTreeMap<String, Vec<Kind>>,
    /// field name -> kinds of the field's type
    pub fields: BTreeMap<String, Vec<Kind>>,
    /// function/method name -> shape of the returned type
    pub shapes: BTreeMap<String, Vec<Shape>>,
    /// fields whose type is a newtype of Vec that iterates as its Vec
    pub seqfields: BTreeMap<String, bool>,
    pub missing: Vec<String>,
    pub macros: BTreeMap<String, Vec<crate::mac::Arm>>,
    pub expanded: usize,
    /// `.len()` may be called on a str in this unit
    pub strlen: bool,
    /// local name -> kinds of its bindings in the function being processed
    pub locals: std::cell::RefCell<BTreeMap<String, Vec<Option<Kind>>>>,
    /// locals that are made as a Vec
    pub vecs: std::cell::RefCell<std::collections::BTreeSet<String>>,
    /// the type whose function is being processed
    pub cur_self: std::cell::RefCell<Option<String>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape { Iter, Slice, Other }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Option,
    Result,
    Other,
}

pub fn type_kind(t: &Type) -> Kind {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            let n = s.ident.to_string();
            if n == "Option" { return Kind::Option; }
            if n == "Result" || n == "FmtResult" { return Kind::Result; }
        }
    }
    Kind::Other
}
pub fn ty_kind(t: &ReturnType) -> Kind {
    match t { ReturnType::Type(_, t) => type_kind(t), _ => Kind::Other }
}
fn inner_kind(t: &ReturnType) -> Kind {
    if let ReturnType::Type(_, t) = t {
        if let Type::Path(p) = &**t {
            if let Some(s) = p.path.segments.last() {
                if s.ident == "Option" || s.ident == "Result" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(t)) = a.args.first() { return type_kind(t); }
                    }
                }
            }
        }
    }
    Kind::Other
}
fn shape(t: &ReturnType) -> Shape {
    match t {
        ReturnType::Type(_, t) => match &**t {
            Type::ImplTrait(i) => match i.bounds.first() {
                Some(TypeParamBound::Trait(b)) if b.path.segments.last().map_or(false, |s| s.ident == "Iterator") => Shape::Iter,
                _ => Shape::Other,
            },
            Type::Reference(r) if r.mutability.is_none() => match &*r.elem {
                Type::Slice(_) => Shape::Slice,
                e if ty_name(e) == "Vec" => Shape::Slice,
                _ => Shape::Other,
            },
            _ => Shape::Other,
        },
        _ => Shape::Other,
    }
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") { return false; }
        let s = quote::ToTokens::to_token_stream(a).to_string();
        s.contains("test") && !s.contains("not (")
    })
}

/// code under `#[cfg(vx_hooks)]`: test access only, not part of the crate as built
pub fn is_hook(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && norm(quote::ToTokens::to_token_stream(a).to_string()) == "#[cfg(vx_hooks)]")
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Mod(x) => &x.attrs, Item::Struct(x) => &x.attrs, Item::Enum(x) => &x.attrs,
        Item::Const(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Use(x) => &x.attrs, Item::Macro(x) => &x.attrs, Item::Type(x) => &x.attrs, Item::Trait(x) => &x.attrs,
        _ => &[],
    }
}
fn impl_item_attrs(i: &ImplItem) -> &[Attribute] {
    match i { ImplItem::Fn(x) => &x.attrs, ImplItem::Const(x) => &x.attrs, ImplItem::Macro(x) => &x.attrs, ImplItem::Type(x) => &x.attrs, _ => &[] }
}
fn stmt_attrs(s: &Stmt) -> &[Attribute] {
    match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Item(i) => item_attrs(i),
        Stmt::Expr(e, _) => match e {
            Expr::Call(x) => &x.attrs, Expr::MethodCall(x) => &x.attrs, Expr::Block(x) => &x.attrs, Expr::If(x) => &x.attrs, Expr::Match(x) => &x.attrs,
            Expr::Macro(x) => &x.attrs, Expr::Assign(x) => &x.attrs, Expr::ForLoop(x) => &x.attrs, Expr::While(x) => &x.attrs, Expr::Loop(x) => &x.attrs,
            _ => &[],
        },
    }
}
/// drops what is not compiled into the crate: test and hook code
struct Strip;
impl VisitMut for Strip {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| !is_hook(item_attrs(i)) && !is_test(item_attrs(i)));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_impl_mut(&mut self, f: &mut ItemImpl) {
        f.items.retain(|i| !is_hook(impl_item_attrs(i)) && !is_test(impl_item_attrs(i)));
        visit_mut::visit_item_impl_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !is_hook(stmt_attrs(s)) && !is_test(stmt_attrs(s)));
        visit_mut::visit_block_mut(self, b);
    }
}

/// expands macro_rules! macros (of the function, or of the file) inside a body
struct MacExp { scopes: Vec<BTreeMap<String, Vec<crate::mac::Arm>>>, n: usize }
impl MacExp {
    fn expand(&self, m: &Macro) -> Option<proc_macro2::TokenStream> {
        if self.n > 2000 { return None; }
        let name = m.path.get_ident()?.to_string();
        let arms = self.scopes.iter().rev().find_map(|s| s.get(&name))?;
        crate::mac::expand(arms, m.tokens.clone())
    }
}
impl VisitMut for MacExp {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut sc = BTreeMap::new();
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Macro(m)) => match &m.ident {
                Some(id) => { sc.insert(id.to_string(), crate::mac::arms(m.mac.tokens.clone())); false }
                None => true,
            },
            _ => true,
        });
        self.scopes.push(sc);
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if let Some(ts) = self.expand(&m.mac) {
                    let semi = m.semi_token;
                    let e = parse2::<Expr>(ts.clone()).or_else(|_| parse2::<Expr>(quote::quote!({ #ts })));
                    if let Ok(e) = e { self.n += 1; *s = Stmt::Expr(e, semi); }
                }
            }
            self.visit_stmt_mut(s);
        }
        self.scopes.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(ts) = self.expand(&m.mac) {
                let x = parse2::<Expr>(ts.clone()).or_else(|_| parse2::<Expr>(quote::quote!({ #ts })));
                if let Ok(x) = x { self.n += 1; *e = parse_quote!((#x)); }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// takes functions declared inside a body out of it
struct Nested(Vec<ItemFn>);
impl VisitMut for Nested {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) => self.0.push(f),
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => "?".into(),
    }
}

/// a type's text without lifetimes
pub fn norm_ty(s: String) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |c| c.is_alphanumeric() || *c == '_') { it.next(); }
            while it.peek().map_or(false, |c| c.is_whitespace()) { it.next(); }
            if it.peek() == Some(&',') { it.next(); }
        } else { o.push(c); }
    }
    norm(o).replace("<>", "")
}
pub fn norm(s: String) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Index {
    pub fn load(&mut self, repo: &str, file: &str) {
        let p = format!("{repo}/{file}");
        let Ok(src) = std::fs::read_to_string(&p) else { self.missing.push(file.into()); return };
        let Ok(mut f) = syn::parse_file(&src) else { self.missing.push(file.into()); return };
        Strip.visit_file_mut(&mut f);
        self.items(file, f.items);
    }

    fn add(&mut self, key: String, f: FnItem) {
        let mut f = f;
        let pre = format!("{}::", f.file);
        let fm: BTreeMap<String, Vec<crate::mac::Arm>> = self.macros.iter().filter_map(|(k, v)| k.strip_prefix(&pre).map(|k| (k.to_string(), v.clone()))).collect();
        let mut me = MacExp { scopes: vec![fm], n: 0 };
        me.visit_block_mut(&mut f.block);
        self.expanded += me.n;
        let mut ne = Nested(vec![]);
        ne.visit_block_mut(&mut f.block);
        for n in ne.0 {
            let line = n.sig.ident.span().start().line;
            let k = format!("{}::{}", f.file, n.sig.ident);
            if self.fns.contains_key(&k) { continue; }
            self.add(k, FnItem { file: f.file.clone(), self_ty: None, generics: Generics::default(), trait_name: None, assoc: vec![], sig: n.sig, block: *n.block, line });
        }
        self.kinds.entry(f.sig.ident.to_string()).or_default().push(ty_kind(&f.sig.output));
        self.inner.entry(f.sig.ident.to_string()).or_default().push(inner_kind(&f.sig.output));
        self.shapes.entry(f.sig.ident.to_string()).or_default().push(shape(&f.sig.output));
        if let Some(t) = &f.self_ty { self.kinds.entry(format!("{}::{}", ty_name(t), f.sig.ident)).or_default().push(ty_kind(&f.sig.output)); }
        self.fns.insert(key, f);
    }

    fn items(&mut self, file: &str, items: Vec<Item>) {
        for it in items {
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = m.content { self.items(file, its); }
                }
                Item::Struct(s) if !is_test(&s.attrs) => {
                    self.types.insert(format!("{file}::{}", s.ident), TypeItem::Struct(file.into(), s));
                }
                Item::Enum(s) if !is_test(&s.attrs) => {
                    self.types.insert(format!("{file}::{}", s.ident), TypeItem::Enum(file.into(), s));
                }
                Item::Type(s) => {
                    self.types.insert(format!("{file}::{}", s.ident), TypeItem::Alias(file.into(), s));
                }
                Item::Const(c) if !is_test(&c.attrs) => self.consts.push(ConstItem {
                    file: file.into(), self_name: None, self_ty: None, generics: Generics::default(),
                    name: c.ident.to_string(), ty: *c.ty, expr: *c.expr,
                }),
                Item::Static(c) => self.consts.push(ConstItem {
                    file: file.into(), self_name: None, self_ty: None, generics: Generics::default(),
                    name: c.ident.to_string(), ty: *c.ty, expr: *c.expr,
                }),
                Item::Fn(f) if !is_test(&f.attrs) => {
                    let line = f.sig.ident.span().start().line;
                    self.add(format!("{file}::{}", f.sig.ident), FnItem {
                        file: file.into(), self_ty: None, generics: Generics::default(), trait_name: None,
                        assoc: vec![], sig: f.sig, block: *f.block, line,
                    });
                }
                Item::Macro(m) => self.macro_item(file, m),
                Item::Trait(t) => {
                    for ti in t.items {
                        if let TraitItem::Fn(f) = ti {
                            if let Some(b) = f.default {
                                let line = f.sig.ident.span().start().line;
                                self.add(format!("{file}::trait {}::{}", t.ident, f.sig.ident), FnItem {
                                    file: file.into(), self_ty: None, generics: t.generics.clone(),
                                    trait_name: Some(t.ident.to_string()), assoc: vec![], sig: f.sig, block: b, line });
                            }
                        }
                    }
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let tn = ty_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| {
                        let s = p.segments.last().unwrap();
                        norm_ty(quote::quote!(#s).to_string())
                    });
                    let assoc: Vec<(String, Type)> = im.items.iter().filter_map(|i| match i {
                        ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                        _ => None,
                    }).collect();
                    let full = norm({ let t = &im.self_ty; quote::quote!(#t).to_string() });
                    for i in im.items {
                        match i {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                let line = f.sig.ident.span().start().line;
                                let fi = FnItem {
                                    file: file.into(), self_ty: Some((*im.self_ty).clone()),
                                    generics: im.generics.clone(), trait_name: tr.clone(), assoc: assoc.clone(),
                                    sig: f.sig.clone(), block: f.block, line,
                                };
                                let key = match &tr {
                                    None => format!("{file}::{tn}::{}", f.sig.ident),
                                    Some(t) => format!("{file}::{tn} as {t}::{}", f.sig.ident),
                                };
                                if tn.contains('?') || self.fns.contains_key(&key) {
                                    let key2 = match &tr {
                                        None => format!("{file}::{full}::{}", f.sig.ident),
                                        Some(t) => format!("{file}::{full} as {t}::{}", f.sig.ident),
                                    };
                                    self.add(key2, fi);
                                } else {
                                    self.add(key, fi);
                                }
                            }
                            ImplItem::Const(c) => self.consts.push(ConstItem {
                                file: file.into(), self_name: Some(tn.clone()), self_ty: Some((*im.self_ty).clone()),
                                generics: im.generics.clone(), name: c.ident.to_string(), ty: c.ty, expr: c.expr,
                            }),
                            ImplItem::Macro(m) => self.impl_macro(file, &tn, &im.self_ty, &im.generics, &m.mac),
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// facts that need all sources
    pub fn finish(&mut self) {
        let mut nt: Vec<String> = vec![];
        for f in self.fns.values() {
            if f.trait_name.as_deref() != Some("IntoIterator") || f.sig.ident != "into_iter" { continue; }
            let Some(Type::Reference(r)) = &f.self_ty else { continue };
            let b = &f.block;
            if norm(quote::quote!(#b).to_string()) == "{self.0.iter()}" { nt.push(ty_name(&r.elem)); }
        }
        let mut kinds: BTreeMap<String, Vec<Kind>> = BTreeMap::new();
        let mut seq: BTreeMap<String, bool> = BTreeMap::new();
        for t in self.types.values() {
            if let TypeItem::Struct(_, s) = t {
                for f in &s.fields {
                    let Some(id) = &f.ident else { continue };
                    kinds.entry(id.to_string()).or_default().push(type_kind(&f.ty));
                    kinds.entry(format!("{}.{}", s.ident, id)).or_default().push(type_kind(&f.ty));
                    let is = nt.contains(&ty_name(&f.ty)) && !matches!(f.ty, Type::Reference(_));
                    let e = seq.entry(id.to_string()).or_insert(is);
                    *e = *e && is;
                }
            }
        }
        self.fields = kinds;
        self.seqfields = seq;
    }

    fn macro_item(&mut self, file: &str, m: ItemMacro) {
        if let Some(id) = &m.ident {
            self.macros.insert(format!("{file}::{id}"), crate::mac::arms(m.mac.tokens));
            return;
        }
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let ts = if name == "paste" { Some(crate::mac::paste(m.mac.tokens)) } else { self.macros.get(&format!("{file}::{name}")).and_then(|a| crate::mac::expand(a, m.mac.tokens)) };
        if let Some(ts) = ts {
            if let Ok(f) = syn::parse2::<File>(ts) { self.expanded += 1; self.items(file, f.items); }
        }
    }

    /// macros in impl blocks: macro_rules! of the same file and paste!
    fn impl_macro(&mut self, file: &str, tn: &str, ty: &Type, g: &Generics, m: &Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let Some(ts) = self.macros.get(&format!("{file}::{name}")).and_then(|a| crate::mac::expand(a, m.tokens.clone())) else { return };
        let Ok(im) = syn::parse2::<ItemImpl>(quote::quote!(impl #ty { #ts })) else { return };
        self.expanded += 1;
        for i in im.items {
            if let ImplItem::Const(c) = i {
                self.consts.push(ConstItem { file: file.into(), self_name: Some(tn.into()), self_ty: Some(ty.clone()), generics: g.clone(),
                    name: c.ident.to_string(), ty: c.ty, expr: c.expr });
            }
        }
    }
}
