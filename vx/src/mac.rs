//! Expansion of macro_rules! macros defined in the same file (no repetitions), and of paste!.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[derive(Clone)]
pub struct Arm { pat: Vec<TokenTree>, body: TokenStream }

fn punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }

/// arms of a `macro_rules!` body
pub fn arms(ts: TokenStream) -> Vec<Arm> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut out = vec![];
    while i + 3 < v.len() {
        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&v[i], &v[i + 3]) {
            if punct(&v[i + 1], '=') && punct(&v[i + 2], '>') {
                out.push(Arm { pat: p.stream().into_iter().collect(), body: b.stream() });
                i += 4;
                if i < v.len() && punct(&v[i], ';') { i += 1; }
                continue;
            }
        }
        break;
    }
    out
}

fn matches(pat: &[TokenTree], args: &[TokenTree]) -> Option<Vec<(String, TokenStream)>> {
    let mut b = vec![];
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        if punct(&pat[i], '$') && i + 3 < pat.len() + 0 && punct(&pat[i + 2], ':') {
            let (TokenTree::Ident(n), TokenTree::Ident(f)) = (&pat[i + 1], &pat[i + 3]) else { return None };
            i += 4;
            let one = ["ident", "literal", "tt"].contains(&f.to_string().as_str());
            let mut got = vec![];
            if one {
                if j < args.len() && punct(&args[j], '-') { got.push(args[j].clone()); j += 1; }
                got.push(args.get(j)?.clone());
                j += 1;
            } else {
                while j < args.len() && !(i < pat.len() && tok_eq(&pat[i], &args[j])) { got.push(args[j].clone()); j += 1; }
                if got.is_empty() { return None; }
            }
            let ts: TokenStream = got.into_iter().collect();
            let ts = if f == "expr" { TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)).into() } else { ts };
            b.push((n.to_string(), ts));
        } else if punct(&pat[i], '$') {
            // $(,)? at the end
            if j == args.len() { return Some(b); }
            if j + 1 == args.len() && punct(&args[j], ',') { return Some(b); }
            return None;
        } else {
            if j >= args.len() || !tok_eq(&pat[i], &args[j]) { return None; }
            i += 1;
            j += 1;
        }
    }
    if j == args.len() { Some(b) } else { None }
}

fn tok_eq(a: &TokenTree, b: &TokenTree) -> bool { a.to_string() == b.to_string() }

fn subst(ts: TokenStream, b: &[(String, TokenStream)]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if punct(&v[i], '$') {
            if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                if let Some((_, t)) = b.iter().find(|(m, _)| *n == m) {
                    out.extend(t.clone());
                    i += 2;
                    continue;
                }
                if n == "crate" { out.extend([v[i + 1].clone()]); i += 2; continue; }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), b)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn paste_ident(ts: TokenStream) -> Option<Ident> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    if v.len() < 3 || !punct(&v[0], '<') || !punct(&v[v.len() - 1], '>') { return None; }
    let mut s = String::new();
    let mut i = 1;
    while i < v.len() - 1 {
        let mut p = match &v[i] {
            TokenTree::Ident(x) => x.to_string(),
            TokenTree::Literal(x) => x.to_string().trim_matches('"').to_string(),
            _ => return None,
        };
        i += 1;
        while i + 1 < v.len() - 1 + 1 && punct(&v[i], ':') {
            match v[i + 1].to_string().as_str() { "upper" => p = p.to_uppercase(), "lower" => p = p.to_lowercase(), _ => return None }
            i += 2;
        }
        s.push_str(&p);
    }
    Some(Ident::new(&s, Span::call_site()))
}

pub fn paste(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(n) = &v[i] {
            if n == "paste" && i + 2 < v.len() && punct(&v[i + 1], '!') {
                if let TokenTree::Group(g) = &v[i + 2] { out.extend(paste(g.stream())); i += 3; continue; }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    if let Some(id) = paste_ident(g.stream()) { out.extend([TokenTree::Ident(id)]); i += 1; continue; }
                }
                out.extend([TokenTree::Group(Group::new(g.delimiter(), paste(g.stream())))]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub fn expand(arms: &[Arm], args: TokenStream) -> Option<TokenStream> {
    let a: Vec<TokenTree> = args.into_iter().collect();
    for m in arms {
        if let Some(b) = matches(&m.pat, &a) { return Some(paste(subst(m.body.clone(), &b))); }
    }
    None
}
