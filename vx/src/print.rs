//! Token printer with newlines after `{`, `;`, `}` and raw-text markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Raw texts referenced by markers `__vx_inv!(k)` (placed before the brace
/// that contains it) and `__vx_raw!(k)` (in place).
pub fn print(ts: TokenStream, raws: &[String]) -> String {
    let mut p = P { out: String::new(), raws };
    p.stream(ts);
    p.out
}

struct P<'a> {
    out: String,
    raws: &'a [String],
}

fn marker(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) =
        (v.get(i), v.get(i + 1), v.get(i + 2))
    {
        if id == name && b.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'a> P<'a> {
    fn sp(&mut self) {
        if !self.out.ends_with(' ') && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = marker(&v, i, "__vx_raw") {
                self.out.push('\n');
                self.out.push_str(&self.raws[k]);
                self.out.push('\n');
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{\n", "}\n"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let mut skip = 0;
                    if g.delimiter() == Delimiter::Brace {
                        if let Some(k) = marker(&inner, 0, "__vx_inv") {
                            self.out.push('\n');
                            self.out.push_str(&self.raws[k]);
                            self.out.push('\n');
                            skip = 4;
                        }
                        self.sp();
                    }
                    self.out.push_str(o);
                    self.stream(inner.into_iter().skip(skip).collect());
                    if c == "}\n" && !self.out.ends_with('\n') {
                        self.out.push('\n');
                    }
                    self.out.push_str(c);
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.out.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                t => {
                    let s = t.to_string();
                    // keep lifetimes tight, separate everything else
                    if !self.out.ends_with('\'') {
                        self.sp();
                    }
                    self.out.push_str(&s);
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
