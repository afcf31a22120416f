//! Syntactic transformations.  Each one is semantics-preserving for the Rust subset used; see DESIGN.md.
use crate::contracts::{norm, FnContract};
use crate::{tok, Ctx, Helper};
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::*;
use syn::*;

pub const PTR_KINDS: [&str; 3] = ["RcK", "ArcK", "ArcTK"];

/// Type parameters bounded by `SharedPointerKind` anywhere in the file.
pub fn collect_ptr_kinds(f: &File, out: &mut BTreeSet<String>) {
    struct V<'a>(&'a mut BTreeSet<String>);
    fn has(b: &Punctuated<TypeParamBound, Token![+]>) -> bool {
        b.iter().any(|x| tok(x).contains("SharedPointerKind"))
    }
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_generics(&mut self, g: &'b Generics) {
            for t in g.type_params() {
                if has(&t.bounds) {
                    self.0.insert(t.ident.to_string());
                }
            }
            if let Some(w) = &g.where_clause {
                for p in &w.predicates {
                    if let WherePredicate::Type(t) = p {
                        if has(&t.bounds) {
                            self.0.insert(tok(&t.bounded_ty));
                        }
                    }
                }
            }
            syn::visit::visit_generics(self, g);
        }
    }
    V(out).visit_file(f);
    // type aliases use the conventional name without a bound
    out.insert("P".into());
    out.insert("PO".into());
}

pub struct Strip {
    pub dropped: BTreeSet<String>,
    /// (struct, field) pairs that only mention the pointer kind
    pub gone: BTreeSet<(String, String)>,
}

impl Strip {
    fn is_dropped(&self, t: &Type) -> bool {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                let s = p.path.segments[0].ident.to_string();
                return self.dropped.contains(&s) || PTR_KINDS.contains(&s.as_str());
            }
        }
        false
    }
}

/// Fields of the file's structs that only mention a dropped type parameter.
pub fn gone_fields(file: &File, dropped: &BTreeSet<String>) -> BTreeSet<(String, String)> {
    struct G<'a>(&'a BTreeSet<String>, BTreeSet<(String, String)>);
    impl<'ast> syn::visit::Visit<'ast> for G<'_> {
        fn visit_item_struct(&mut self, s: &'ast ItemStruct) {
            for f in &s.fields {
                let t = norm(&tok(&f.ty));
                if let Some(id) = &f.ident {
                    if self.0.iter().map(String::as_str).chain(PTR_KINDS.iter().copied()).any(|d| t.ends_with(&format!("PhantomData<{d}>"))) {
                        self.1.insert((s.ident.to_string(), id.to_string()));
                    }
                }
            }
        }
    }
    let mut g = G(dropped, Default::default());
    syn::visit::Visit::visit_file(&mut g, file);
    g.1
}

impl VisitMut for Strip {
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        visit_expr_struct_mut(self, e);
        let name = e.path.segments.last().unwrap().ident.to_string();
        e.fields = std::mem::take(&mut e.fields).into_iter().filter(|f| !matches!(&f.member, Member::Named(i) if self.gone.contains(&(name.clone(), i.to_string())))).collect();
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let d = self.dropped.clone();
        let ps: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !d.contains(&t.ident.to_string()),
                _ => true,
            })
            .cloned()
            .collect();
        g.params = ps.into_iter().collect();
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                if t.default.as_ref().is_some_and(|d| self.is_dropped(d)) {
                    t.default = None;
                    t.eq_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let ps: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter(|p| match p {
                    WherePredicate::Type(t) => !self.is_dropped(&t.bounded_ty),
                    _ => true,
                })
                .cloned()
                .collect();
            w.predicates = ps.into_iter().collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        visit_generics_mut(self, g);
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        let args: Vec<GenericArgument> = a
            .args
            .iter()
            .filter(|x| match x {
                GenericArgument::Type(t) => !self.is_dropped(t),
                _ => true,
            })
            .cloned()
            .collect();
        a.args = args.into_iter().collect();
        visit_angle_bracketed_generic_arguments_mut(self, a);
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        visit_type_path_mut(self, t);
        if let Some(s) = t.path.segments.last_mut() {
            if s.ident == "SharedPointer" {
                s.ident = Ident::new("Rc", s.ident.span());
            }
            // the inline capacity of a small vector is not observed
            if s.ident == "SmallVec" {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    for x in a.args.iter_mut() {
                        if let GenericArgument::Type(Type::Array(t)) = x {
                            *x = GenericArgument::Type((*t.elem).clone());
                        }
                    }
                }
            }
        }
        let names: Vec<String> = t.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).filter(|s| !matches!(*s, "core" | "std" | "alloc")).collect();
        let model = match names.as_slice() {
            ["slice", "Iter"] => "VxSliceIter",
            ["iter", "Once"] => "VxOnce",
            _ => return,
        };
        let mut seg = t.path.segments.last().unwrap().clone();
        seg.ident = Ident::new(model, Span::call_site());
        t.path = Path { leading_colon: None, segments: [seg].into_iter().collect() };
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_stmt_mut(self, s);
    }
}

/// `core::iter::Map<I, fn(&A) -> &B>` in a type alias.
pub struct MapAlias {
    pub lt: Option<Lifetime>,
}
struct AddLt(Option<Lifetime>);
impl VisitMut for AddLt {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() || r.lifetime.as_ref().unwrap().ident == "_" {
            r.lifetime = self.0.clone();
        }
        visit_type_reference_mut(self, r);
    }
}
impl VisitMut for MapAlias {
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        visit_type_path_mut(self, t);
        let p = norm(&tok(&t.path));
        if p.starts_with("core::iter::") || p.starts_with("iter::") {
            let mut seg = t.path.segments.last().unwrap().clone();
            seg.ident = Ident::new(&format!("Vx{}", seg.ident), Span::call_site());
            if let PathArguments::AngleBracketed(a) = &mut seg.arguments {
                let mut args: Punctuated<GenericArgument, Token![,]> = Punctuated::new();
                for x in &a.args {
                    match x {
                        GenericArgument::Type(Type::BareFn(b)) => {
                            let mut ins: Vec<Type> = b.inputs.iter().map(|i| i.ty.clone()).collect();
                            assert_eq!(ins.len(), 1);
                            let mut o: Type = match &b.output {
                                ReturnType::Type(_, t) => (**t).clone(),
                                _ => parse_quote!(()),
                            };
                            AddLt(self.lt.clone()).visit_type_mut(&mut ins[0]);
                            AddLt(self.lt.clone()).visit_type_mut(&mut o);
                            args.push(GenericArgument::Type(ins.remove(0)));
                            args.push(GenericArgument::Type(o));
                        }
                        x => args.push(x.clone()),
                    }
                }
                a.args = args;
            }
            t.path = Path { leading_colon: None, segments: [seg].into_iter().collect() };
        }
    }
}

pub struct SelfAssoc<'a> {
    pub tbl: &'a BTreeMap<String, Type>,
}
impl<'a> VisitMut for SelfAssoc<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(x) = self.tbl.get(&p.path.segments[1].ident.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_type_mut(self, t);
    }
}

/// Removes nested functions from the top level of a body.
pub fn hoist(b: &mut Block, out: &mut Vec<ItemFn>) {
    b.stmts.retain(|s| match s {
        Stmt::Item(Item::Fn(f)) => {
            out.push(f.clone());
            false
        }
        _ => true,
    });
}

pub struct RenameCalls {
    pub names: BTreeMap<String, String>,
}
impl VisitMut for RenameCalls {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() == 1 {
            if let Some(n) = self.names.get(&p.path.segments[0].ident.to_string()) {
                p.path.segments[0].ident = Ident::new(n, Span::call_site());
            }
        }
    }
}

pub fn marker(id: usize) -> Stmt {
    let n = LitInt::new(&id.to_string(), Span::call_site());
    parse_quote!(__vx!(#n);)
}
fn inv_marker(id: usize) -> Stmt {
    let n = LitInt::new(&id.to_string(), Span::call_site());
    parse_quote!(__vx_inv!(#n);)
}
pub fn parse_quote_expr_stmt(s: &str) -> Stmt {
    Stmt::Expr(parse_str(s).unwrap(), None)
}

pub fn inlinable(sig: &Signature, b: &Block) -> bool {
    struct V(bool);
    impl<'b> Visit<'b> for V {
        fn visit_expr_return(&mut self, _: &'b ExprReturn) {
            self.0 = false
        }
        fn visit_expr_try(&mut self, _: &'b ExprTry) {
            self.0 = false
        }
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
    }
    let mut v = V(true);
    v.visit_block(b);
    let name = sig.ident.to_string();
    v.0 && !rename_ident(quote::ToTokens::to_token_stream(b), &name, "vx__found").to_string().contains("vx__found")
}

/// Renames the variable `from` everywhere in `b`; false (and nothing done) if `to` is in use there.
pub fn alpha_rename(b: &mut Block, from: &str, to: &str) -> bool {
    struct A {
        from: String,
        to: Ident,
        clash: bool,
        dry: bool,
    }
    impl A {
        fn toks(&mut self, ts: TokenStream) -> TokenStream {
            let mut out = TokenStream::new();
            let (mut p1, mut p2) = (' ', ' ');
            for t in ts {
                let (mut c, mut t) = (' ', t);
                match &t {
                    proc_macro2::TokenTree::Group(g) => {
                        let mut n = proc_macro2::Group::new(g.delimiter(), self.toks(g.stream()));
                        n.set_span(g.span());
                        t = n.into();
                    }
                    proc_macro2::TokenTree::Punct(p) => c = p.as_char(),
                    proc_macro2::TokenTree::Ident(i) => {
                        let field = p1 == '.' && p2 != '.' || p1 == ':' && p2 == ':';
                        self.clash |= !field && *i == self.to;
                        if !field && *i == self.from && !self.dry {
                            t = self.to.clone().into();
                        }
                    }
                    _ => (),
                }
                p2 = p1;
                p1 = c;
                out.extend([t]);
            }
            out
        }
    }
    impl VisitMut for A {
        fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
            if let Some(i) = p.path.get_ident().cloned() {
                self.clash |= i == self.to;
                if i == self.from && !self.dry {
                    p.path = self.to.clone().into();
                }
            }
            visit_expr_path_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
            if f.colon_token.is_none() && !self.dry {
                f.colon_token = Some(Default::default());
            }
            visit_field_value_mut(self, f);
        }
        fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
            if f.colon_token.is_none() && !self.dry {
                f.colon_token = Some(Default::default());
            }
            visit_field_pat_mut(self, f);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
            self.clash |= p.ident == self.to;
            if p.ident == self.from && !self.dry {
                p.ident = self.to.clone();
            }
            visit_pat_ident_mut(self, p);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            let t = self.toks(m.tokens.clone());
            if !self.dry {
                m.tokens = t;
            }
        }
    }
    let mut a = A { from: from.to_string(), to: quote::format_ident!("{to}"), clash: false, dry: true };
    a.visit_block_mut(b);
    if a.clash {
        return false;
    }
    a.dry = false;
    a.visit_block_mut(b);
    true
}

pub fn rename_ident(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_ident(g.stream(), from, to));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

/// Inlines helpers that have no contract.
pub struct Inline<'a> {
    pub helpers: &'a [Helper],
    pub ty: String,
    /// method names that other types have under contract
    pub taken: &'a BTreeSet<String>,
    pub key: String,
    pub depth: usize,
    pub did: Vec<String>,
}
impl<'a> Inline<'a> {
    fn expand(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 || h.key == self.key {
            return None;
        }
        let byref = matches!(h.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_some());
        let sname = format!("{}{}_{}", if byref { "vx_rself" } else { "vx_self" }, h.n, self.depth);
        let mut stmts: Vec<Stmt> = vec![];
        let mut inputs: Vec<&FnArg> = h.sig.inputs.iter().collect();
        let mut args: std::collections::VecDeque<Expr> = args.into();
        let mut body = quote::ToTokens::to_token_stream(&h.block);
        if let Some(FnArg::Receiver(r)) = inputs.first() {
            let sid = Ident::new(&sname, Span::call_site());
            let e = match recv {
                Some(e) => e,
                None => args.pop_front()?,
            };
            let es = norm(&tok(&e));
            let plain_self = es == "self" || (es.starts_with("vx_rself") && !es.contains('.'));
            let explicit_ref = matches!(e, Expr::Reference(_));
            let st: Stmt = if explicit_ref {
                parse_quote!(let #sid = #e;)
            } else if r.reference.is_some() {
                let m = r.mutability.is_some();
                match (plain_self, m) {
                    (true, true) => parse_quote!(let #sid = &mut *#e;),
                    (true, false) => parse_quote!(let #sid = &*#e;),
                    (false, true) => parse_quote!(let #sid = &mut #e;),
                    (false, false) => parse_quote!(let #sid = &#e;),
                }
            } else {
                parse_quote!(let mut #sid = #e;)
            };
            stmts.push(st);
            body = rename_ident(body, "self", &sname);
            inputs.remove(0);
        } else if recv.is_some() {
            return None;
        }
        if inputs.len() != args.len() {
            return None;
        }
        // evaluate arguments first, then bind the parameter patterns (no capture)
        let mut tmp = vec![];
        for (i, a) in args.into_iter().enumerate() {
            let t = Ident::new(&format!("vx_arg{}_{}_{i}", h.n, self.depth), Span::call_site());
            stmts.push(parse_quote!(let #t = #a;));
            tmp.push(t);
        }
        for (f, t) in inputs.iter().zip(tmp) {
            if let FnArg::Typed(p) = f {
                let pat = &p.pat;
                stmts.push(parse_quote!(let #pat = #t;));
            }
        }
        let mut block: Block = parse2(body).ok()?;
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.did.push(h.key.clone());
        stmts.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block }), None));
        let b = Block { brace_token: Default::default(), stmts };
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }))
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        let helpers = self.helpers;
        let new = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // `self.f()` reaches a method of this type; on another receiver the name must be unambiguous
                let recv = norm(&tok(&m.receiver));
                let own: Option<String> = if recv == "self" {
                    Some(self.ty.clone())
                } else {
                    let n = recv.strip_prefix("vx_rself").or(recv.strip_prefix("vx_self")).and_then(|r| r.split('_').next()?.parse::<usize>().ok());
                    n.and_then(|n| helpers.iter().find(|h| h.n == n)).and_then(|h| h.ty.clone())
                };
                let c: Vec<&Helper> = helpers
                    .iter()
                    .filter(|h| h.name == name && h.sig.receiver().is_some() && if own.is_some() { h.ty == own } else { !self.taken.contains(&name) && !Desugar::is_iter_expr(&m.receiver) })
                    // a closure is not meant for a parameter of a plain type
                    .filter(|h| !h.sig.inputs.iter().skip(1).zip(&m.args).any(|(p, a)| matches!(a, Expr::Closure(_)) && matches!(p, FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(_)))))
                    .collect();
                if c.len() == 1 {
                    self.expand(c[0], Some((*m.receiver).clone()), m.args.iter().cloned().collect())
                } else {
                    None
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let q = if segs.len() >= 2 { Some(segs[segs.len() - 2].clone()) } else { None };
                    let ty = self.ty.clone();
                    let cs: Vec<&Helper> = helpers
                        .iter()
                        .filter(|h| {
                            h.name == name
                                && match (&h.ty, &q) {
                                    (Some(t), Some(q)) => t == q || (q == "Self" && t == &ty),
                                    (None, None) => true,
                                    (None, Some(q)) => h.key.ends_with(&format!("{q}::{name}")),
                                    _ => false,
                                }
                        })
                        .collect();
                    if cs.len() == 1 {
                        self.expand(cs[0], None, c.args.iter().cloned().collect())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `use core::ops::Bound::*` inside a body names the model type.
pub fn model_uses(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
            let s = norm(&tok(&u.tree));
            for p in ["core::ops::Bound", "std::ops::Bound"] {
                if let Some(t) = s.strip_prefix(p) {
                    *u = parse_str(&format!("use crate::vx::Bound{t};")).unwrap();
                    return;
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// Macros, Option combinators, for loops, library paths.
pub struct Desugar {
    pub deref: Vec<String>,
    pub twin: bool,
    pub unsupported: Vec<String>,
}

thread_local! { static FORCTR: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

thread_local! {
    static RESULT_LOCALS: std::cell::RefCell<std::collections::HashSet<String>> = Default::default();
}

impl Desugar {
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok();
        let asrt = |c: Expr| -> Expr {
            if self.twin {
                parse_quote!(vx_assert_rt(#c))
            } else {
                parse_quote!(vx_assert(#c))
            }
        };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                let c = a.first()?.clone();
                Some(asrt(c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let (x, y) = (a[0].clone(), a[1].clone());
                Some(asrt(parse_quote!((#x) == (#y))))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let (x, y) = (a[0].clone(), a[1].clone());
                Some(asrt(parse_quote!((#x) != (#y))))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(if self.twin { parse_quote!(vx_panic_rt()) } else { parse_quote!(vx_panic()) }),
            "matches" => {
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok((e, p, g))
                };
                let (e, p, g) = p.parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                })
            }
"vec" => {
                let a = args()?;
                let a: Vec<&Expr> = a.iter().collect();
                Some(parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#a);)* vx_v }))
            }
            "__vx" | "__vxe" | "__vx_inv" => Some(Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() })),
            _ => None,
        }
    }

    fn is_iter_expr(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "iter_ptr" | "keys" | "values" | "into_iter" | "range" | "rev" | "chain" | "chars")
                || (matches!(m.method.to_string().as_str(), "map" | "filter" | "take" | "skip") && Desugar::is_iter_expr(&m.receiver)),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if Desugar::is_iter_expr(e)),
            Expr::Struct(s) => s.path.segments.last().is_some_and(|s| s.ident.to_string().ends_with("IterPtr") || s.ident.to_string().ends_with("Iter")),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = &p.path.segments;
                    s.len() >= 2 && {
                        let t = s[s.len() - 2].ident.to_string();
                        t.ends_with("IterPtr") || t.ends_with("Iter")
                    }
                } else {
                    false
                }
            }
            Expr::Paren(p) => Desugar::is_iter_expr(&p.expr),
            _ => false,
        }
    }

    fn is_option_expr(e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "get" | "first" | "last" | "as_ref" | "peek"),
            Expr::Paren(p) => Desugar::is_option_expr(&p.expr),
            _ => false,
        }
    }

    /// Notes the local variables of `block` that hold a `Result`.
    pub fn note_results(block: &Block) {
        struct V;
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_local(&mut self, l: &'a Local) {
                let name = match &l.pat {
                    Pat::Type(t) => match (&*t.pat, &*t.ty) {
                        (Pat::Ident(i), Type::Path(p)) if p.path.segments.last().is_some_and(|s| s.ident == "Result") => Some(i.ident.to_string()),
                        _ => None,
                    },
                    Pat::Ident(i) if l.init.as_ref().is_some_and(|x| Desugar::is_result_expr(&x.expr)) => Some(i.ident.to_string()),
                    _ => None,
                };
                if let Some(n) = name {
                    RESULT_LOCALS.with(|r| r.borrow_mut().insert(n));
                }
                syn::visit::visit_local(self, l);
            }
        }
        RESULT_LOCALS.with(|r| r.borrow_mut().clear());
        syn::visit::Visit::visit_block(&mut V, block);
    }

    /// An expression that is known to be a `Result` rather than an `Option`.
    fn is_result_expr(e: &Expr) -> bool {
        let res = |n: &str| matches!(n, "deserialize" | "deserialize_seq" | "deserialize_map" | "visit_seq" | "visit_map" | "try_unwrap" | "collect_seq" | "collect_map" | "serialize");
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                res(&n) || n == "ok_or" || n == "map_err" || (matches!(n.as_str(), "map" | "and_then") && Desugar::is_result_expr(&m.receiver))
            }
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| res(&s.ident.to_string()))),
            Expr::Paren(p) => Desugar::is_result_expr(&p.expr),
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| RESULT_LOCALS.with(|r| r.borrow().contains(&i.to_string()))),
            // the already rewritten form
            Expr::Match(m) => m.arms.iter().any(|a| matches!(&a.pat, Pat::TupleStruct(t) if t.path.is_ident("Ok"))),
            _ => false,
        }
    }

    /// Applies closure or path `f` to `Some(pattern)`: returns (pattern, body)
    fn apply(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 || has_return(&c.body) {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(_) => Some((parse_quote_pat("vx_x"), parse_quote!(#f(vx_x)))),
            _ => None,
        }
    }
    fn thunk(&mut self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() && !has_return(&c.body) => Some((*c.body).clone()),
            Expr::Path(_) => Some(parse_quote!(#f())),
            _ => None,
        }
    }
}

fn parse_quote_pat(s: &str) -> Pat {
    Pat::parse_single.parse_str(s).unwrap()
}
fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'b> Visit<'b> for V {
        fn visit_expr_return(&mut self, _: &'b ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'b ExprTry) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// `&mut S { ref a, ref mut b }` as a default-binding pattern; false when a binding is by value.
struct UnRef(bool);
impl VisitMut for UnRef {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.by_ref.is_none() {
            self.0 = false;
        }
        p.by_ref = None;
        p.mutability = None;
        visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        visit_field_pat_mut(self, f);
        if let (None, Member::Named(n), Pat::Ident(_)) = (&f.colon_token, &f.member, &*f.pat) {
            let n = n.clone();
            f.pat = Box::new(parse_quote_pat(&n.to_string()));
        }
    }
}

impl VisitMut for Desugar {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            if matches!(&*i.expr, Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                *i.expr = parse_quote!(RangeFull);
            }
        }
        visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let d = DEPTH.with(|d| {
            let x = d.get();
            d.set(x + 1);
            x
        });
        if d == 0 {
            FORCTR.with(|c| c.set(0));
        }
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                match self.mac(&m.mac) {
                    Some(e) => {
                        if !matches!(e, Expr::Macro(_)) {
                            let semi = m.semi_token;
                            *s = Stmt::Expr(e, semi);
                        }
                    }
                    None => self.unsupported.push(format!("macro {}", tok(&m.mac.path))),
                }
            }
        }
        visit_block_mut(self, b);
        DEPTH.with(|x| x.set(d));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros first, then children
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac) {
                Some(n) => {
                    let same = matches!(n, Expr::Macro(_));
                    *e = n;
                    if same {
                        return;
                    }
                }
                None => {
                    self.unsupported.push(format!("macro {}", tok(&m.mac.path)));
                    return;
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let k = FORCTR.with(|c| {
                let x = c.get();
                c.set(x + 1);
                x
            });
            let it = Ident::new(&format!("vx_it{k}"), Span::call_site());
            let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body, &f.label);
            let l: Expr = parse_quote!(#label loop { match Iterator::next(&mut #it) { Some(#pat) => #body None => break, } });
            *e = parse_quote!({ let mut #it = IntoIterator::into_iter(#ex); #l });
        }
        if let Expr::Match(m) = e {
            for arm in m.arms.iter_mut() {
                if let Pat::Reference(pr) = &arm.pat {
                    if matches!(&*pr.pat, Pat::Struct(_) | Pat::TupleStruct(_)) {
                        let mut inner = (*pr.pat).clone();
                        let mut u = UnRef(true);
                        u.visit_pat_mut(&mut inner);
                        if u.0 {
                            arm.pat = inner;
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            for a in c.args.iter_mut() {
                if matches!(a, Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                    *a = parse_quote!(RangeFull);
                }
            }
        }
        visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let mut r = (*m.receiver).clone();
                if self.deref.contains(&norm(&tok(&r))) {
                    r = parse_quote!((*#r));
                }
                let a: Vec<Expr> = m.args.iter().cloned().collect();
                match (name.as_str(), a.len()) {
                    ("map", 1) if Desugar::is_result_expr(&m.receiver) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })),
                    ("and_then", 1) if Desugar::is_result_expr(&m.receiver) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) })),
                    ("unwrap_or_else", 1) if Desugar::is_result_expr(&m.receiver) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Ok(vx_x) => vx_x, Err(#p) => #b })),
                    ("map", 1) if !Desugar::is_iter_expr(&m.receiver) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
                    ("and_then", 1) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => None })),
                    ("is_some_and", 1) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => false })),
                    ("is_none_or", 1) => self.apply(&a[0]).map(|(p, b)| parse_quote!(match #r { Some(#p) => #b, None => true })),
                    ("map_or", 2) => {
                        let d = a[0].clone();
                        self.apply(&a[1]).map(|(p, b)| parse_quote!({ let vx_d = #d; match #r { Some(#p) => #b, None => vx_d } }))
                    }
                    ("map_or_else", 2) => match (self.thunk(&a[0]), self.apply(&a[1])) {
                        (Some(d), Some((p, b))) => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                        _ => None,
                    },
                    ("unwrap_or_else", 1) => self.thunk(&a[0]).map(|d| parse_quote!(match #r { Some(vx_x) => vx_x, None => #d })),
                    ("or_else", 1) => self.thunk(&a[0]).map(|d| parse_quote!(match #r { Some(vx_x) => Some(vx_x), None => #d })),
                    // `bool::then`: `Ordering::then` takes no closure
                    ("then", 1) if matches!(&a[0], Expr::Closure(c) if c.inputs.is_empty()) => self.thunk(&a[0]).map(|d| parse_quote!(if #r { Some(#d) } else { None })),
                    ("then_some", 1) => {
                        let d = a[0].clone();
                        Some(parse_quote!({ let vx_c = #r; let vx_d = #d; if vx_c { Some(vx_d) } else { None } }))
                    }
                    ("any", 1) if matches!(&a[0], Expr::Closure(c) if c.inputs.len() == 1) => {
                        let Expr::Closure(c) = &a[0] else { unreachable!() };
                        let mut c = c.clone();
                        let b = &c.body;
                        c.body = Box::new(parse_quote!(!(#b)));
                        Some(parse_quote!((!#r.all(#c))))
                    }
                    ("copied", 0) if Desugar::is_option_expr(&m.receiver) => Some(parse_quote!(match #r { Some(vx_x) => Some(*vx_x), None => None })),
                    ("is_lt", 0) => Some(parse_quote!(match #r { Ordering::Less => true, _ => false })),
                    ("is_eq", 0) => Some(parse_quote!(match #r { Ordering::Equal => true, _ => false })),
                    ("is_gt", 0) => Some(parse_quote!(match #r { Ordering::Greater => true, _ => false })),
                    ("is_ge", 0) => Some(parse_quote!(match #r { Ordering::Less => false, _ => true })),
                    ("is_ne", 0) => Some(parse_quote!(match #r { Ordering::Equal => false, _ => true })),
                    ("is_le", 0) => Some(parse_quote!(match #r { Ordering::Greater => false, _ => true })),
                    ("ilog2", 0) => Some(parse_quote!(vx_ilog2(#r))),
                    ("div_ceil", 1) => {
                        let d = a[0].clone();
                        Some(parse_quote!(vx_div_ceil(#r, #d)))
                    }
                    ("unwrap_or", 1) => {
                        let d = a[0].clone();
                        Some(parse_quote!({ let vx_d = #d; match #r { Some(vx_x) => vx_x, None => vx_d } }))
                    }
                    ("expect", 1) => Some(if self.twin { parse_quote!(vx_unwrap_rt(#r)) } else { parse_quote!((#r).unwrap()) }),
                    ("unwrap", 0) if self.twin => Some(parse_quote!(vx_unwrap_rt(#r))),
                    ("clone_from", 1) => {
                        let src = &a[0];
                        Some(if matches!(r, Expr::Path(_)) { parse_quote!(*#r = (#src).clone()) } else { parse_quote!(#r = (#src).clone()) })
                    }
                    ("into_iter", 0) => Some(parse_quote!(IntoIterator::into_iter(#r))),
                    ("cast", 0) => Some(parse_quote!((#r).vx_cast())),
                    ("as_ref", 0) => Some(parse_quote!((#r).vx_as_ref())),
                    ("leading_zeros", 0) => Some(parse_quote!(vx_leading_zeros(#r))),
                    ("trailing_zeros", 0) => Some(parse_quote!(vx_trailing_zeros(#r))),
                    ("count_ones", 0) => Some(parse_quote!(vx_count_ones(#r))),
                    ("is_power_of_two", 0) => Some(parse_quote!(vx_is_power_of_two(#r))),
                    _ => None,
                }
            }
            // comparison with a constant ordering
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let ord = |e: &Expr| match e {
                    Expr::Path(p) if p.path.segments.len() >= 2 => {
                        let s = &p.path.segments;
                        s[s.len() - 2].ident == "Ordering" && matches!(s[s.len() - 1].ident.to_string().as_str(), "Less" | "Equal" | "Greater")
                    }
                    _ => false,
                };
                let (l, r) = (&b.left, &b.right);
                let o = match (ord(l), ord(r)) {
                    (false, true) => Some((l, r)),
                    (true, false) => Some((r, l)),
                    _ => None,
                };
                let (t, f): (Expr, Expr) = if matches!(b.op, BinOp::Eq(_)) { (parse_quote!(true), parse_quote!(false)) } else { (parse_quote!(false), parse_quote!(true)) };
                o.map(|(v, c)| parse_quote!(match #v { #c => #t, _ => #f }))
            }
            Expr::Path(p) => {
                let s = norm(&tok(&p.path));
                match s.as_str() {
                    "Vec::with_capacity" => Some(parse_quote!(vx_with_capacity)),
                    "AsRef::as_ref" => Some(parse_quote!(VxAsRef::vx_as_ref)),
                    "usize::BITS" => Some(parse_quote!(VX_USIZE_BITS)),
                    "core::ptr::eq" => Some(parse_quote!(vx_ptr_eq)),
                    "core::ptr::null" => Some(parse_quote!(vx_ptr_null)),
                    "core::cmp::min" => Some(parse_quote!(vx_min)),
                    "core::mem::size_of_val" | "size_of_val" => Some(parse_quote!(vx_size_of_val)),
                    "iter::once" | "core::iter::once" => Some(parse_quote!(vx_once)),
                    "usize::from" => Some(parse_quote!(vx_usize_from)),
                    "u32::from" => Some(parse_quote!(vx_u32_from)),
                    "u64::from" => Some(parse_quote!(vx_u64_from)),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
        if let Expr::Match(m) = e {
            let mut arms = vec![];
            for a in std::mem::take(&mut m.arms) {
                match (&a.pat, &a.guard) {
                    // `A | B if g => E` becomes `A if g => E, B if g => E`
                    (p, Some(_)) => arms.extend(no_or(p).into_iter().map(|pat| Arm { pat, ..a.clone() })),
                    _ => arms.push(a),
                }
            }
            m.arms = arms;
            unguard(m);
            merge_guard(m);
        }
    }
}

/// The or-free patterns `p` is the union of.
fn no_or(p: &Pat) -> Vec<Pat> {
    fn all(ps: &Punctuated<Pat, Token![,]>) -> Vec<Punctuated<Pat, Token![,]>> {
        let mut out = vec![Punctuated::new()];
        for q in ps {
            let alts = no_or(q);
            out = out.iter().flat_map(|o| alts.iter().map(move |a| { let mut o = o.clone(); o.push(a.clone()); o })).collect();
        }
        out
    }
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(no_or).collect(),
        Pat::Paren(q) => no_or(&q.pat),
        Pat::Tuple(t) => all(&t.elems).into_iter().map(|elems| Pat::Tuple(PatTuple { elems, ..t.clone() })).collect(),
        Pat::TupleStruct(t) => all(&t.elems).into_iter().map(|elems| Pat::TupleStruct(PatTupleStruct { elems, ..t.clone() })).collect(),
        Pat::Reference(r) => no_or(&r.pat).into_iter().map(|q| Pat::Reference(PatReference { pat: Box::new(q), ..r.clone() })).collect(),
        _ => vec![p.clone()],
    }
}

/// `P if g => E` becomes `P => if g { E } else { match with the other arms }` when the guard does not use what P binds
/// and the scrutinee is a variable (Verus has no guards next to bindings by mutable reference).
fn unguard(m: &mut ExprMatch) {
    if !matches!(&*m.expr, Expr::Path(_)) {
        return;
    }
    let plain = |t: &str| !t.contains('|') && !["loop", "while", "for"].iter().any(|k| t.split_whitespace().any(|w| &w == k));
    let Some(g) = m.arms.iter().position(|a| a.guard.is_some()) else { return };
    let guard = (*m.arms[g].guard.as_ref().unwrap().1).clone();
    let words = |t: &str| t.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(str::to_string).collect::<Vec<_>>();
    let bound = words(&tok(&m.arms[g].pat));
    if words(&tok(&guard)).iter().any(|w| !w.is_empty() && bound.contains(w)) || !m.arms.iter().all(|a| plain(&tok(&a.body))) {
        return;
    }
    let mut rest = m.clone();
    rest.arms.remove(g);
    unguard(&mut rest);
    let body = &m.arms[g].body;
    m.arms[g].body = parse_quote!(if #guard { #body } else { #rest });
    m.arms[g].guard = None;
    unguard(m);
}

/// `X(a) if g => E` with a later unguarded `X(b) => F`, `X(_) => F` becomes `X(a) => if g { E } else { let b = a; F }`
/// (Verus has no guards next to bindings by mutable reference).
fn merge_guard(m: &mut ExprMatch) {
    let flat = |p: &Pat| -> Option<(String, Vec<Option<Ident>>)> {
        let Pat::TupleStruct(t) = p else { return None };
        let e = t.elems.iter().map(|x| match x {
            Pat::Wild(_) => Some(None),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => Some(Some(i.ident.clone())),
            _ => None,
        });
        Some((norm(&tok(&t.path)), e.collect::<Option<Vec<_>>>()?))
    };
    let Some(g) = m.arms.iter().position(|a| a.guard.is_some()) else { return };
    let Some((path, binds)) = flat(&m.arms[g].pat) else { return };
    for k in g + 1..m.arms.len() {
        if matches!(&m.arms[k].pat, Pat::TupleStruct(_)) && flat(&m.arms[k].pat).is_some_and(|(p, _)| p != path) {
            continue;
        }
        let plain = |t: &str| !["loop", "while", "for", "|"].iter().any(|k| t.split_whitespace().any(|w| &w == k));
        if matches!(&m.arms[k].pat, Pat::Wild(_)) && m.arms[k].guard.is_none() && plain(&tok(&m.arms[k].body)) {
            let (guard, yes, no) = ((*m.arms[g].guard.as_ref().unwrap().1).clone(), m.arms[g].body.clone(), m.arms[k].body.clone());
            m.arms[g].body = parse_quote!(if #guard { #yes } else { #no });
            m.arms[g].guard = None;
            return merge_guard(m);
        }
        let Some((p, other)) = flat(&m.arms[k].pat) else { return };
        if p != path || other.len() != binds.len() || m.arms[k].guard.is_some() {
            return;
        }
        let mut lets: Vec<Stmt> = vec![];
        for (a, b) in binds.iter().zip(&other) {
            match (a, b) {
                (_, None) => {}
                (Some(a), Some(b)) if a == b => {}
                (Some(a), Some(b)) => lets.push(parse_quote!(let #b = #a;)),
                (None, Some(_)) => return,
            }
        }
        let (guard, yes, no) = ((*m.arms[g].guard.as_ref().unwrap().1).clone(), m.arms[g].body.clone(), m.arms[k].body.clone());
        m.arms[g].body = parse_quote!(if #guard { #yes } else { #(#lets)* #no });
        m.arms[g].guard = None;
        m.arms.remove(k);
        merge_guard(m);
        return;
    }
}

/// Inserts contracts of loops and closures and proof hints.
pub struct Annot<'a> {
    pub ctx: &'a mut Ctx,
    pub con: &'a FnContract,
    pub nloop: usize,
    pub nclosure: usize,
    pub key: String,
    pub lost: Vec<String>,
    pub done: AnnotDone,
}
#[derive(Default)]
pub struct AnnotDone {
    pub anchors: BTreeSet<usize>,
    pub seen: BTreeMap<String, usize>,
    pub indexed: BTreeSet<(String, usize)>,
}

impl<'a> Annot<'a> {
    pub fn block(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }
    pub fn finish(self) -> Vec<String> {
        let mut lost = self.lost;
        for (i, (k, p, n, _)) in self.con.anchors.iter().enumerate() {
            if !self.done.anchors.contains(&i) {
                lost.push(format!("lost anchor {k} {p} #{n}"));
            }
        }
        for k in self.con.indexed.keys() {
            if !self.done.indexed.contains(k) {
                lost.push(format!("lost anchor {} {}", k.0, k.1));
            }
        }
        lost
    }
    fn idx(&mut self, kind: &str, n: usize) -> Option<String> {
        let k = (kind.to_string(), n);
        let t = self.con.indexed.get(&k).cloned();
        if t.is_some() {
            self.done.indexed.insert(k);
        }
        t
    }
    fn loop_body(&mut self, n: usize, body: &mut Block) {
        let tail = body.stmts.last().map(|s| matches!(s, Stmt::Expr(_, None))).unwrap_or(false);
        if let Some(t) = self.idx("loopend", n) {
            if tail {
                if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            let id = self.ctx.text(t);
            body.stmts.push(marker(id));
        }
        let mut start = String::new();
        if self.ctx.canary == "loop" && !self.con.nocanary {
            start.push_str("assert(false); /*VXCANARY*/\n");
        }
        if let Some(t) = self.idx("loopbody", n) {
            start.push_str(&t);
        }
        if !start.is_empty() {
            let id = self.ctx.text(start);
            body.stmts.insert(0, marker(id));
        }
        match self.idx("loop", n) {
            Some(t) => {
                let id = self.ctx.text(t);
                body.stmts.insert(0, inv_marker(id));
            }
            None => self.lost.push(format!("loop {n} without invariant")),
        }
    }
    fn matches(&mut self, s: &str) -> (Vec<usize>, Vec<usize>) {
        let (mut b, mut a) = (vec![], vec![]);
        let mut hit: BTreeSet<String> = BTreeSet::new();
        for (i, (k, p, n, _)) in self.con.anchors.iter().enumerate() {
            if s.starts_with(p.as_str()) {
                let seen = *self.done.seen.get(p).unwrap_or(&0);
                hit.insert(p.clone());
                if seen == *n {
                    self.done.anchors.insert(i);
                    if k == "before" {
                        b.push(i)
                    } else {
                        a.push(i)
                    }
                }
            }
        }
        for p in hit {
            *self.done.seen.entry(p).or_default() += 1;
        }
        (b, a)
    }
    fn anchor(&mut self, i: usize) -> Stmt {
        let t = self.con.anchors[i].3.clone();
        let id = self.ctx.text(t);
        marker(id)
    }
}

fn clean(s: &str) -> String {
    norm(s)
}

/// Whether a `break` in `b` leaves the loop `b` is the body of.
fn has_break(b: &Block) -> bool {
    struct F(bool, usize);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
            self.0 |= self.1 == 0 || b.label.is_some();
            syn::visit::visit_expr_break(self, b);
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
            self.1 += 1;
            syn::visit::visit_expr_loop(self, l);
            self.1 -= 1;
        }
        fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
            self.1 += 1;
            syn::visit::visit_expr_while(self, l);
            self.1 -= 1;
        }
    }
    let mut f = F(false, 0);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}

/// Puts the exit proof at every `return` (and at every `?` of a function that returns an Option).
pub struct ExitReturns(pub usize, pub Option<Type>);
impl VisitMut for ExitReturns {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        let m = marker(self.0);
        match e {
            Expr::Return(r) => {
                if let (Some(v), Some(t)) = (&r.expr, &self.1) {
                    *e = parse_quote!({ let vx_ret: #t = #v; #m return vx_ret; });
                } else if r.expr.is_none() && self.1.is_none() {
                    *e = parse_quote!({ #m return; });
                }
            }
            Expr::Try(t) => {
                let is_option = matches!(&self.1, Some(Type::Path(p)) if p.path.segments.last().is_some_and(|s| s.ident == "Option"));
                if is_option {
                    let (x, rt) = (&t.expr, &self.1);
                    *e = parse_quote!(match #x { Some(vx_x) => vx_x, None => { let vx_ret: #rt = None; #m return vx_ret; } });
                }
            }
            _ => (),
        }
    }
}

impl<'a> VisitMut for Annot<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let len = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let (bf, af) = self.matches(&clean(&tok(&s)));
            for k in bf {
                let m = self.anchor(k);
                b.stmts.push(m);
            }
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_) | Expr::While(_), _));
            let ln = self.nloop;
            if is_loop {
                if let Some(t) = self.idx("beforeloop", ln) {
                    let id = self.ctx.text(t);
                    b.stmts.push(marker(id));
                }
            }
            self.visit_stmt_mut(&mut s);
            let mut after: Vec<Stmt> = vec![];
            // a tail `loop` left by `return` only: nothing runs after it
            let no_exit = matches!(&s, Stmt::Expr(Expr::Loop(l), None) if i + 1 == len && !has_break(&l.body));
            if is_loop {
                let text = self.idx("afterloop", ln);
                if text.is_some() && no_exit {
                    self.lost.push(format!("loop {ln} is left by `return` only: nothing comes after it"));
                }
                if let Some(t) = text.filter(|_| !no_exit) {
                    let id = self.ctx.text(t);
                    after.push(marker(id));
                }
            }
            for k in af {
                let m = self.anchor(k);
                after.push(m);
            }
            if !after.is_empty() && i + 1 == len {
                if let Stmt::Expr(_, semi) = &mut s {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
            }
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if !matches!(&*a.body, Expr::Block(_)) {
            let s = clean(&tok(&a.body));
            if self.con.anchors.iter().any(|(_, p, _, _)| s.starts_with(p.as_str())) {
                let e = &a.body;
                a.body = Box::new(parse_quote!({ #e }));
            }
        }
        visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let n = self.nloop;
                self.nloop += 1;
                visit_expr_loop_mut(self, l);
                self.loop_body(n, &mut l.body);
            }
            Expr::While(l) => {
                let n = self.nloop;
                self.nloop += 1;
                visit_expr_while_mut(self, l);
                self.loop_body(n, &mut l.body);
            }
            Expr::Closure(c) => {
                let n = self.nclosure;
                self.nclosure += 1;
                visit_expr_closure_mut(self, c);
                match self.idx("closure", n) {
                    Some(t) => {
                        let (params, spec) = t.split_once('\n').unwrap_or((t.as_str(), ""));
                        let mut body = String::new();
                        for (i, p) in c.inputs.iter().enumerate() {
                            let p = match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            body.push_str(&format!("let {} = vx_a{i};\n", tok(&p)));
                        }
                        body.push_str(&tok(&c.body));
                        let mv = if c.capture.is_some() { "move " } else { "" };
                        let mut text = format!("{mv}|{params}| {spec} {{ {body} }}");
                        if let Some(pr) = self.idx("closureproof", n) {
                            text = format!("{{ let vx_c{n} = {text}; {pr} vx_c{n} }}");
                        }
                        let id = self.ctx.text(text);
                        let n = LitInt::new(&id.to_string(), Span::call_site());
                        *e = parse_quote!(__vxe!(#n));
                    }
                    None => self.lost.push(format!("closure {n} without contract")),
                }
            }
            Expr::Continue(c) if c.label.is_some() => self.lost.push("a labelled jump leaves an inner loop".to_string()),
            Expr::Break(b) if b.label.is_some() => {
                self.lost.push("a labelled jump leaves an inner loop".to_string());
                visit_expr_mut(self, e);
            }
            _ => visit_expr_mut(self, e),
        }
    }
}

/// In a twin, calls of partial functions go to their twins.
pub struct TwinCalls<'a>(pub &'a [String]);
impl VisitMut for TwinCalls<'_> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        syn::visit_mut::visit_expr_method_call_mut(self, m);
        if self.0.iter().any(|n| m.method == n) {
            m.method = quote::format_ident!("{}__partial", m.method);
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        syn::visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &mut *c.func {
            let l = p.path.segments.last_mut().unwrap();
            if self.0.iter().any(|n| l.ident == n) {
                l.ident = quote::format_ident!("{}__partial", l.ident);
            }
        }
    }
}
