//! Construction macros.
use proc_macro2::{Delimiter, Group, Ident, TokenStream, TokenTree};
use std::collections::BTreeSet;
use syn::*;

fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// The macro's text without `$crate::` and without pointer kinds.
pub fn strip(ts: TokenStream, kinds: &BTreeSet<String>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') && matches!(v.get(i + 1), Some(TokenTree::Ident(c)) if c == "crate") && punct(v.get(i + 2), ':') {
            i += 4;
            continue;
        }
        // `, $ptr_kind >` in type arguments
        if punct(v.get(i), ',') && punct(v.get(i + 1), '$') && matches!(v.get(i + 2), Some(TokenTree::Ident(_))) && punct(v.get(i + 3), '>') {
            i += 3;
            continue;
        }
        // `, P >` for a pointer kind parameter or a concrete pointer kind
        if punct(v.get(i), ',') && matches!(v.get(i + 1), Some(TokenTree::Ident(c)) if kinds.contains(&c.to_string()) || c == "RcK" || c == "ArcTK") && punct(v.get(i + 2), '>') {
            i += 2;
            continue;
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), strip(g.stream(), kinds))),
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}

/// `($($e:expr),*) => { .. $( body($e); )* .. }` as a loop over `vx_items`.
pub fn as_loop(ts: TokenStream) -> Option<Block> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let TokenTree::Group(pat) = v.first()? else { return None };
    if !(punct(v.get(1), '=') && punct(v.get(2), '>')) {
        return None;
    }
    let TokenTree::Group(body) = v.get(3)? else { return None };
    if v.len() > 5 || (v.len() == 5 && !punct(v.get(4), ';')) {
        return None;
    }
    // pattern: one repetition, possibly an optional trailing comma
    let p: Vec<TokenTree> = pat.stream().into_iter().collect();
    if !punct(p.first(), '$') {
        return None;
    }
    let TokenTree::Group(inner) = p.get(1)? else { return None };
    let rest: String = p[2..].iter().map(|t| t.to_string()).collect::<String>().replace(' ', "");
    if !matches!(rest.as_str(), ",*" | ",*$(,)?") {
        return None;
    }
    let q: Vec<TokenTree> = inner.stream().into_iter().collect();
    let mut names: Vec<Ident> = vec![];
    let mut i = 0;
    while i < q.len() {
        if punct(q.get(i), '$') {
            let (Some(TokenTree::Ident(n)), true, Some(TokenTree::Ident(k))) = (q.get(i + 1), punct(q.get(i + 2), ':'), q.get(i + 3)) else { return None };
            if k != "expr" {
                return None;
            }
            names.push(n.clone());
            i += 4;
        } else {
            i += 1;
        }
    }
    if names.is_empty() {
        return None;
    }
    let mut loops = 0;
    let t = conv(body.stream(), &names, false, &mut loops)?;
    if loops != 1 {
        return None;
    }
    let mut b: Block = syn::parse2(TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, t)))).ok()?;
    while b.stmts.len() == 1 {
        match &b.stmts[0] {
            Stmt::Expr(Expr::Block(x), None) => b = x.block.clone(),
            _ => break,
        }
    }
    Attrs.visit_block_mut(&mut b);
    // the collection under construction has one name
    let acc = b.stmts.iter().find_map(|s| match s {
        Stmt::Local(l) => match &l.pat {
            Pat::Ident(i) if i.mutability.is_some() => Some(i.ident.to_string()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) if i.mutability.is_some() => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    });
    match acc {
        Some(a) if !names.iter().any(|n| *n == a) => {
            let t = crate::xform::rename_ident(quote::ToTokens::to_token_stream(&b), &a, "vx_acc");
            syn::parse2(t).ok()
        }
        _ => Some(b),
    }
}

struct Attrs;
use syn::visit_mut::VisitMut;
impl VisitMut for Attrs {
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        syn::visit_mut::visit_local_mut(self, l);
    }
}

fn conv(ts: TokenStream, names: &[Ident], inside: bool, loops: &mut usize) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(c)) if c == "crate" => {
                    i += 4;
                    continue;
                }
                Some(TokenTree::Ident(c)) if inside && names.contains(c) => {
                    out.push(TokenTree::Ident(c.clone()));
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if !inside && punct(v.get(i + 2), '*') => {
                    *loops += 1;
                    let b = conv(g.stream(), names, true, loops)?;
                    let l = if names.len() == 1 {
                        let n = &names[0];
                        quote::quote!(for #n in vx_items { #b })
                    } else {
                        quote::quote!(for (#(#names),*) in vx_items { #b })
                    };
                    out.extend(l);
                    i += 3;
                    continue;
                }
                _ => return None,
            }
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), conv(g.stream(), names, inside, loops)?)),
            t => t.clone(),
        });
        i += 1;
    }
    Some(out.into_iter().collect())
}
