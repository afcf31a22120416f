//! Mechanical extraction of Rust functions into Verus input with contracts spliced in.
//! usage: vx-extract REPO CONTRACT_DIR GROUP OUT.rs OUT.json [--external KEY]* [--canary entry|exit|loop] [--noinline]
mod contracts;
mod drops;
mod macros;
mod xform;
use contracts::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;
use xform::*;

pub struct Ctx {
    pub texts: Vec<String>,
    pub external: BTreeSet<String>,
    pub canary: String,
    pub fns: Vec<FnInfo>,
    pub lost: Vec<(String, String)>,
    pub dropped: BTreeMap<String, usize>,
    pub omit: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    /// drops are made explicit
    pub drops: bool,
    /// parameter names the contracts were written for, and those of this source
    pub params: BTreeMap<String, Vec<String>>,
    pub params_now: BTreeMap<String, Vec<String>>,
}

#[derive(Debug, Clone)]
pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub src_line: usize,
    pub contracted: bool,
    pub external: bool,
    pub trusted: bool,
    pub twin: bool,
    pub props: Vec<String>,
    pub nocanary: bool,
}

pub struct Helper {
    pub key: String,
    pub ty: Option<String>,
    pub name: String,
    pub sig: Signature,
    pub block: Block,
    pub n: usize,
}

pub fn tok<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// Newline after `;`, `{`, `}` outside string literals.
fn pretty(s: &str) -> String {
    let mut out = String::new();
    let mut instr = false;
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if instr {
            out.push(c);
            if c == '\\' {
                i += 1;
                out.push(cs[i]);
            } else if c == '"' {
                instr = false;
            }
        } else {
            out.push(c);
            match c {
                '"' => instr = true,
                ';' | '{' | '}' => {
                    if !(c == '}' && cs.get(i + 1) == Some(&' ') && matches!(cs.get(i + 2), Some(',') | Some(';') | Some(')') | Some('.'))) {
                        out.push('\n')
                    }
                }
                _ => {}
            }
        }
        i += 1;
    }
    out
}

impl Ctx {
    pub fn text(&mut self, t: String) -> usize {
        self.texts.push(t);
        self.texts.len() - 1
    }

    /// Replaces the markers by their texts.
    fn subst(&self, s: &str) -> String {
        let mut s = s.to_string();
        loop {
            let mut out = String::new();
            let mut rest = s.as_str();
            let mut any = false;
            while let Some(p) = rest.find("__vx") {
                // forms: `__vx_inv ! (N) ;` `__vx ! (N) ;` `__vxe ! (N)`
                let (head, tail) = rest.split_at(p);
                let close = tail.find(')').expect("marker");
                let open = tail.find('(').expect("marker");
                let n: usize = tail[open + 1..close].trim().parse().expect("marker number");
                let kind = tail[..open].trim().trim_end_matches('!').trim().to_string();
                let mut after = &tail[close + 1..];
                any = true;
                match kind.as_str() {
                    "__vx_inv" => {
                        let h = head.trim_end();
                        assert!(h.ends_with('{'), "invariant marker not at block start: ...{}", &h[h.len().saturating_sub(40)..]);
                        out.push_str(&h[..h.len() - 1]);
                        out.push('\n');
                        out.push_str(&self.texts[n]);
                        out.push_str("{\n");
                        after = after.trim_start().strip_prefix(';').unwrap();
                    }
                    "__vx" => {
                        out.push_str(head);
                        out.push('\n');
                        out.push_str(&self.texts[n]);
                        after = after.trim_start().strip_prefix(';').unwrap_or(after);
                    }
                    "__vxe" => {
                        out.push_str(head);
                        out.push_str(&self.texts[n]);
                    }
                    k => panic!("marker {k}"),
                }
                rest = after;
            }
            out.push_str(rest);
            s = out;
            if !any {
                return s;
            }
        }
    }
}

struct FileCtx<'a> {
    module: String,
    con: &'a mut Contracts,
    ctx: &'a mut Ctx,
    dropped: BTreeSet<String>,
    gone: BTreeSet<(String, String)>,
    helpers: &'a [Helper],
    noinline: bool,
    taken: &'a BTreeSet<String>,
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = contracts::norm(&tok(a));
        s.contains("cfg(test)")
    })
}

fn feature_gated(attrs: &[Attribute]) -> Option<String> {
    attrs.iter().find_map(|a| {
        let s = contracts::norm(&tok(a));
        s.find("feature=\"").map(|p| s[p + 9..].split('"').next().unwrap().to_string())
    })
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => contracts::norm(&tok(t)),
    }
}

impl<'a> FileCtx<'a> {
    fn strip(&self) -> Strip {
        Strip { dropped: self.dropped.clone(), gone: self.gone.clone() }
    }

    /// Emits one function.
    fn emit_fn(&mut self, key: &str, sig: &Signature, block: &Block, in_trait_impl: bool, line: usize, out: &mut String) {
        if let Some(r) = self.con.skip.get(key) {
            *self.ctx.dropped.entry(format!("function {key}: {r}")).or_default() += 1;
            return;
        }
        let mut con = match self.con.fns.get_mut(key) {
            Some(c) => {
                c.used = true;
                Some(c.clone())
            }
            None => None,
        };
        // an overridden provided method has the contract of the model trait
        let provided = in_trait_impl && matches!(key.rsplit("::").next(), Some("nth" | "count" | "last" | "nth_back"));
        if con.is_none() && provided {
            self.ctx.lost.push((key.to_string(), "provided method overridden: judged by the contract of the trait".into()));
            con = Some(FnContract::default());
        }
        if con.is_none() && !self.noinline && self.helpers.iter().any(|h| h.key == key) {
            // un-contracted helper: inlined at its call sites
            self.ctx.inlined.insert(key.to_string());
            return;
        }
        if con.is_none() {
            self.ctx.lost.push((key.to_string(), "function without contract".into()));
            if self.ctx.omit.contains(key) {
                self.ctx.lost.push((key.to_string(), "contracted function not found: left out, the front end rejects it".into()));
                return;
            }
        }
        let contracted = con.is_some();
        let twin = con.as_mut().and_then(|c| c.twin.take());
        let external = self.ctx.external.contains(key);
        self.emit_one(key, sig, block, con.clone().unwrap_or_default(), false, external, in_trait_impl, line, contracted, out);
        if let Some(t) = twin {
            let mut c = con.clone().unwrap();
            c.spec = Some(t);
            self.emit_one(key, sig, block, c, true, external, in_trait_impl, line, contracted, out);
        }
    }

    /// Parameters get the names that the contract uses (where a name is taken, the body starts with `let name = parameter`).
    fn param_names(&mut self, key: &str, sig: &mut Signature, block: &mut Block) {
        let k = format!("{}|{key}", self.module);
        let name = |a: &FnArg| match a {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i.ident.to_string(),
                _ => "_".to_string(),
            },
        };
        let now: Vec<String> = sig.inputs.iter().map(name).collect();
        self.ctx.params_now.insert(k.clone(), now.clone());
        let Some(want) = self.ctx.params.get(&k).cloned() else { return };
        if want == now || want.len() != now.len() || want.iter().zip(&now).any(|(w, n)| (w == "self") != (n == "self") || (w == "_") != (n == "_")) {
            return;
        }
        let mut lets: Vec<Stmt> = vec![];
        // both sides are simultaneous: a permutation of the names must not be confused
        if want.iter().any(|w| now.contains(w) && now.iter().position(|n| n == w) != want.iter().position(|n| n == w)) {
            return;
        }
        for (a, w) in sig.inputs.iter_mut().zip(&want) {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &mut *t.pat {
                    if i.ident != w.as_str() {
                        let (old, new, m) = (i.ident.clone(), quote::format_ident!("{w}"), i.mutability.take());
                        if xform::alpha_rename(block, &old.to_string(), w) {
                            i.mutability = m;
                        } else {
                            lets.push(parse_quote!(let #m #old = #new;));
                        }
                        i.ident = new;
                    }
                }
            }
        }
        for (n, l) in lets.into_iter().enumerate() {
            block.stmts.insert(n, l);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_one(&mut self, key: &str, sig: &Signature, block: &Block, con: FnContract, twin: bool, external: bool, in_trait: bool, line: usize, contracted: bool, out: &mut String) {
        let mut sig = sig.clone();
        let mut block = block.clone();
        let mut st = self.strip();
        st.visit_signature_mut(&mut sig);
        st.visit_block_mut(&mut block);
        if contracted {
            self.param_names(key, &mut sig, &mut block);
        }
        // `mut self` by value
        let own = match sig.receiver() {
            Some(r) => r.reference.is_none() && r.mutability.is_some(),
            None => false,
        };
        if own {
            if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
                r.mutability = None;
            }
            let b = xform::rename_ident(quote::ToTokens::to_token_stream(&block), "self", "vx_own");
            block = syn::parse2(b).unwrap();
            block.stmts.insert(0, parse_quote!(let mut vx_own = self;));
        }
        // nested functions were hoisted by the caller
        if !self.noinline && !external {
            let mut inl = Inline { helpers: self.helpers, ty: key.split("::").next().unwrap().to_string(), taken: self.taken, key: key.to_string(), depth: 0, did: vec![] };
            inl.visit_block_mut(&mut block);
            for k in inl.did {
                self.ctx.lost.push((key.to_string(), format!("inlined helper {k}")));
            }
            st.visit_block_mut(&mut block);
        }
        let mut d = Desugar { deref: con.deref.clone(), twin, unsupported: vec![] };
        Desugar::note_results(&block);
        d.visit_block_mut(&mut block);
        if !self.noinline && !external {
            // calls that the rewriting brought about: `.map(helper)`
            let mut inl = Inline { helpers: self.helpers, ty: key.split("::").next().unwrap().to_string(), taken: self.taken, key: key.to_string(), depth: 0, did: vec![] };
            inl.visit_block_mut(&mut block);
            let again = !inl.did.is_empty();
            for k in inl.did {
                self.ctx.lost.push((key.to_string(), format!("inlined helper {k}")));
            }
            if again {
                st.visit_block_mut(&mut block);
                d.visit_block_mut(&mut block);
            }
        }
        if twin {
            TwinCalls(&con.twincalls).visit_block_mut(&mut block);
        }
        let mut con = con;
        if alias_iters(&mut con, &tok(&block)) {
            self.ctx.lost.push((key.to_string(), "a `for` loop of the contract is written out".to_string()));
        }
        model_uses(&mut block);
        for u in d.unsupported {
            self.ctx.lost.push((key.to_string(), format!("unsupported: {u}")));
        }
        if self.ctx.drops && !con.drops.is_empty() && !external {
            let lost = drops::Drops::run(self.ctx, &con.drops, &mut block, &sig);
            for l in lost {
                self.ctx.lost.push((key.to_string(), l));
            }
        }
        if !external {
            let mut an = Annot { ctx: self.ctx, con: &con, nloop: 0, nclosure: 0, key: key.to_string(), lost: vec![], done: Default::default() };
            an.block(&mut block);
            let lost = an.finish();
            for l in lost {
                self.ctx.lost.push((key.to_string(), l));
            }
            let mut entry = String::new();
            let canary = self.ctx.canary.clone();
            if canary == "entry" && !con.nocanary && !twin {
                entry.push_str("assert(false); /*VXCANARY*/\n");
            }
            if in_trait && !twin {
                // names the specification functions of this very impl, so that their definitions precede the obligation
                entry.push_str(match sig.ident.to_string().as_str() {
                    "hash" => "proof { assert(self.toks() == self.toks() && (self.hwf() ==> self.hwf())); }\n",
                    "next" | "next_back" | "nth" | "nth_back" | "count" | "last" => "proof { assert(self.rest() == self.rest() && (self.iwf() ==> self.iwf())); }\n",
                    "into_iter" => "proof { assert(self.into_rest() == self.into_rest() && (self.into_wf() ==> self.into_wf())); }\n",
                    "deserialize" if matches!(sig.inputs.first(), Some(FnArg::Typed(t)) if tok(&t.pat) == "deserializer") => {
                        "proof { assert((Self::de_pre(deserializer) ==> Self::de_pre(deserializer)) && forall|vx_r: Self| #[trigger] Self::de_post(deserializer, vx_r) ==> Self::de_post(deserializer, vx_r)); }\n"
                    }
                    _ => "",
                });
            }
            entry.push_str(&con.entry);
            let mut exit = con.exit.clone();
            if canary == "exit" && !con.nocanary && !twin {
                exit.push_str("assert(false); /*VXCANARY*/\n");
            }
            if !exit.is_empty() {
                let id = self.ctx.text(exit);
                let tail_is_expr = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)));
                let unit = matches!(sig.output, ReturnType::Default);
                let rt = match &sig.output {
                    ReturnType::Type(_, t) if !matches!(**t, Type::ImplTrait(_)) => Some((**t).clone()),
                    _ => None,
                };
                ExitReturns(id, rt).visit_block_mut(&mut block);
                if tail_is_expr && !unit {
                    let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
                    let rt: Type = match &sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => unreachable!() };
                    let has_impl = matches!(rt, Type::ImplTrait(_));
                    let rt_has_self = false;
                    let s: Stmt = if has_impl || rt_has_self { parse_quote!(let vx_ret = #e;) } else { parse_quote!(let vx_ret: #rt = #e;) };
                    block.stmts.push(s);
                    block.stmts.push(marker(id));
                    block.stmts.push(parse_quote_expr_stmt("vx_ret"));
                } else {
                    if let Some(Stmt::Expr(_, semi)) = block.stmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    block.stmts.push(marker(id));
                }
            }
            if !entry.is_empty() {
                let id = self.ctx.text(entry);
                block.stmts.insert(0, marker(id));
            }
        }
        let name = if twin { format!("{}__partial", sig.ident) } else { sig.ident.to_string() };
        for a in &con.attrs {
            writeln!(out, "{a}").unwrap();
        }
        if external || con.trusted {
            writeln!(out, "#[verifier::external_body]").unwrap();
        }
        let fkey = if twin { format!("{key}@twin") } else { key.to_string() };
        writeln!(out, "/*VXFN {fkey}*/").unwrap();
        let gens = tok(&sig.generics);
        let wh = sig.generics.where_clause.as_ref().map(|w| tok(w).trim_end_matches(',').trim_end().to_string() + ",\n").unwrap_or_default();
        let inputs = tok(&sig.inputs);
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let r = con.ret.clone().unwrap_or("r".into());
                if matches!(&**t, Type::Never(_)) { "-> !".into() } else { format!("-> ({r}: {})", tok(t)) }
            }
        };
        let vis = if in_trait { "" } else { "pub " };
        let spec = con.spec.clone().unwrap_or_default();
        let body = if external || con.trusted { "{ unimplemented!() }".to_string() } else { self.ctx.subst(&pretty(&tok(&block))) };
        writeln!(out, "{vis}fn {name}{gens}({inputs}) {ret}\n{wh}{spec}{body}\n/*VXEND*/\n").unwrap();
        self.ctx.fns.push(FnInfo { key: fkey, module: self.module.clone(), src_line: line, contracted, external, trusted: con.trusted, twin, props: con.props.clone(), nocanary: con.nocanary || con.trusted });
    }

    fn emit_with_nested(&mut self, key: &str, tyname: Option<&str>, sig: &Signature, block: &Block, in_trait: bool, line: usize, out: &mut String, hoisted: &mut String) {
        let mut block = block.clone();
        let mut nested = vec![];
        hoist(&mut block, &mut nested);
        let prefix = match tyname {
            Some(t) => format!("{t}_{}", sig.ident),
            None => sig.ident.to_string(),
        };
        let names: BTreeMap<String, String> = nested.iter().map(|f| (f.sig.ident.to_string(), format!("{prefix}_{}", f.sig.ident))).collect();
        if !names.is_empty() {
            let mut rn = RenameCalls { names: names.clone() };
            rn.visit_block_mut(&mut block);
            let uses: Vec<Stmt> = vec![];
            for f in &nested {
                let mut f = f.clone();
                rn.visit_block_mut(&mut f.block);
                for u in &uses {
                    f.block.stmts.insert(0, u.clone());
                }
                let k = format!("{key}::{}", f.sig.ident);
                let l = f.sig.ident.span().start().line;
                let mut s = f.sig.clone();
                s.ident = Ident::new(&names[&f.sig.ident.to_string()], f.sig.ident.span());
                self.emit_fn(&k, &s, &f.block, false, l, hoisted);
            }
        }
        self.emit_fn(key, sig, &block, in_trait, line, out);
    }

    fn emit_items(&mut self, items: &[Item], modpath: &str, out: &mut String, depth: usize) {
        for it in items {
            match it {
                Item::Use(u) => {
                    let s = contracts::norm(&tok(&u.tree));
                    let child = items.iter().any(|i| matches!(i, Item::Mod(m) if s.starts_with(&format!("{}::", m.ident))));
                    if child || s.starts_with("super::") || s.starts_with("self::") || s.starts_with("crate::") || s.starts_with("Color::") {
                        let mut u = u.clone();
                        u.attrs.clear();
                        writeln!(out, "{}", tok(&u)).unwrap();
                    }
                }
                Item::Mod(m) => {
                    if is_test_cfg(&m.attrs) || m.content.is_none() {
                        continue;
                    }
                    let name = m.ident.to_string();
                    let full = if modpath.is_empty() { name.clone() } else { format!("{modpath}::{name}") };
                    if let Some(r) = self.con.skip.get(&format!("mod:{name}")) {
                        *self.ctx.dropped.entry(format!("module {}::{full}: {r}", self.module)).or_default() += 1;
                        continue;
                    }
                    writeln!(out, "pub mod {name} {{\nuse crate::vx::*;\nbroadcast use crate::vx::ax_rc_clone;\n").unwrap();
                    let key = format!("mod:{name}");
                    if let Some(t) = self.con.impls.get(&key) {
                        // an impl for a type that is no longer in the module is left out
                        let subject: String = t.split(" for ").nth(1).unwrap_or("").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        let found = m.content.as_ref().unwrap().1.iter().any(|i| match i {
                            Item::Struct(s) => s.ident == subject.as_str(),
                            Item::Enum(e) => e.ident == subject.as_str(),
                            _ => false,
                        });
                        if subject.is_empty() || found || !subject.ends_with("Visitor") {
                            out.push_str(t);
                        } else {
                            self.ctx.lost.push((format!("{subject}"), "type of the contract not found in the source".into()));
                        }
                    }
                    self.emit_items(&m.content.as_ref().unwrap().1, &full, out, depth + 1);
                    writeln!(out, "}}").unwrap();
                }
                Item::Struct(s) => {
                    let mut s = s.clone();
                    let derives_clone = s.attrs.iter().any(|a| a.path().is_ident("derive") && tok(a).contains("Clone"));
                    let name = s.ident.to_string();
                    if let Some(r) = self.con.skip.get(&format!("type:{name}")) {
                        *self.ctx.dropped.entry(format!("type {name}: {r}")).or_default() += 1;
                        continue;
                    }
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                        f.attrs.clear();
                    }
                    if let Fields::Named(n) = &mut s.fields {
                        let st = self.strip();
                        n.named = std::mem::take(&mut n.named)
                            .into_iter()
                            .filter(|f| !st.gone.contains(&(name.clone(), f.ident.as_ref().unwrap().to_string())))
                            .collect();
                    }
                    self.strip().visit_item_struct_mut(&mut s);
                    if let Some(a) = self.con.structs.get(&name) {
                        out.push_str(a);
                    }
                    writeln!(out, "{}", pretty(&tok(&s))).unwrap();
                    if derives_clone {
                        let (ig, tg, wc) = s.generics.split_for_impl();
                        let preds: Vec<String> = s.generics.type_params().map(|t| format!("{}: Clone", t.ident)).collect();
                        assert!(wc.is_none());
                        let fields: Vec<String> = s.fields.iter().map(|f| { let n = f.ident.as_ref().unwrap(); format!("{n}: self.{n}.clone()") }).collect();
                        let sig: Signature = parse_str(&format!("fn clone(&self) -> {name}{}", tok(&tg))).unwrap();
                        let block: Block = parse_str(&format!("{{ {name} {{ {} }} }}", fields.join(","))).unwrap();
                        writeln!(out, "impl{} Clone for {name}{} where {} {{", tok(&ig), tok(&tg), preds.join(", ")).unwrap();
                        self.emit_fn(&format!("{name}::clone"), &sig, &block, true, s.ident.span().start().line, out);
                        writeln!(out, "}}").unwrap();
                    }
                }
                Item::Enum(e) => {
                    let mut e = e.clone();
                    let name = e.ident.to_string();
                    if let Some(r) = self.con.skip.get(&format!("type:{name}")) {
                        *self.ctx.dropped.entry(format!("type {name}: {r}")).or_default() += 1;
                        continue;
                    }
                    let simple = e.variants.iter().all(|v| v.fields.is_empty());
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in e.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    self.strip().visit_item_enum_mut(&mut e);
                    if simple {
                        writeln!(out, "#[derive(Clone, Copy, PartialEq, Eq)]").unwrap();
                    }
                    if let Some(a) = self.con.structs.get(&name) {
                        out.push_str(a);
                    }
                    writeln!(out, "{}", pretty(&tok(&e))).unwrap();
                    if simple {
                        writeln!(out, "unsafe impl Structural for {name} {{}}").unwrap();
                    }
                }
                Item::Type(t) => {
                    let mut t = t.clone();
                    let name = t.ident.to_string();
                    if let Some(r) = self.con.skip.get(&format!("type:{name}")) {
                        *self.ctx.dropped.entry(format!("type {name}: {r}")).or_default() += 1;
                        continue;
                    }
                    t.attrs.clear();
                    t.vis = parse_quote!(pub);
                    let lt = t.generics.lifetimes().next().map(|l| l.lifetime.clone());
                    self.strip().visit_item_type_mut(&mut t);
                    MapAlias { lt }.visit_item_type_mut(&mut t);
                    writeln!(out, "{}", tok(&t)).unwrap();
                }
                Item::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = parse_quote!(pub);
                    let name = c.ident.to_string();
                    if let Some(r) = self.con.skip.get(&format!("const:{name}")) {
                        *self.ctx.dropped.entry(format!("const {name}: {r}")).or_default() += 1;
                        continue;
                    }
                    if let Some(t) = self.con.structs.get(&name) {
                        out.push_str(t);
                    }
                    Desugar { deref: vec![], twin: false, unsupported: vec![] }.visit_expr_mut(&mut c.expr);
                    writeln!(out, "{}", tok(&c)).unwrap();
                }
                Item::Fn(f) => {
                    if is_test_cfg(&f.attrs) {
                        continue;
                    }
                    let key = if modpath.is_empty() { f.sig.ident.to_string() } else { format!("{modpath}::{}", f.sig.ident) };
                    let mut h = String::new();
                    let mut o = String::new();
                    self.emit_with_nested(&key, None, &f.sig, &f.block, false, f.sig.ident.span().start().line, &mut o, &mut h);
                    out.push_str(&h);
                    out.push_str(&o);
                }
                Item::Impl(i) => self.emit_impl(i, out),
                Item::Macro(m) => {
                    let key = m.ident.as_ref().map(|i| format!("{i}!")).unwrap_or_default();
                    if self.con.fns.contains_key(&key) {
                        self.emit_macro(&key, m, items, out);
                        continue;
                    }
                    *self.ctx.dropped.entry("macro_rules! definitions".into()).or_default() += 1;
                }
                other => {
                    self.ctx.lost.push((format!("{}", self.module), format!("unhandled item {}", &tok(other).chars().take(60).collect::<String>())));
                }
            }
        }
    }

    /// A construction macro: either the function it is for any number of arguments (a repetition becomes a loop),
    /// or its text as it stands, instantiated for small numbers of arguments.
    fn emit_macro(&mut self, key: &str, m: &ItemMacro, items: &[Item], out: &mut String) {
        let con = self.con.fns[key].clone();
        let line = m.ident.as_ref().unwrap().span().start().line;
        if let Some((n, template)) = &con.arity {
            self.con.fns.get_mut(key).unwrap().used = true;
            let external = self.ctx.external.contains(key);
            self.ctx.fns.push(FnInfo { key: key.to_string(), module: self.module.clone(), src_line: line, contracted: true, external, trusted: false, twin: false, props: vec![], nocanary: true });
            writeln!(out, "/*VXFN {key}*/").unwrap();
            if !external {
                for i in items {
                    let Item::Macro(d) = i else { continue };
                    let Some(id) = &d.ident else { continue };
                    let t = macros::strip(d.mac.tokens.clone(), &self.dropped);
                    writeln!(out, "macro_rules! {id} {{\n{t}\n}}").unwrap();
                    if id == m.ident.as_ref().unwrap() {
                        break;
                    }
                }
                for k in 0..=*n {
                    let a: Vec<String> = (0..k).map(|i| format!("a{i}")).collect();
                    let p: Vec<String> = a.iter().map(|x| format!("{x}: T")).collect();
                    let s = if k == 0 { "Seq::<T>::empty()".to_string() } else { format!("seq![{}]", a.join(", ")) };
                    out.push_str(&template.replace("@N", &k.to_string()).replace("@P", &p.join(", ")).replace("@A", &a.join(", ")).replace("@S", &s));
                }
            }
            writeln!(out, "/*VXEND*/\n").unwrap();
            return;
        }
        match macros::as_loop(m.mac.tokens.clone()) {
            Some(block) => {
                let sig: Signature = syn::parse_str(&con.decl).expect("decl");
                self.emit_fn(key, &sig, &block, false, line, out);
            }
            None => {
                self.con.fns.get_mut(key).unwrap().used = true;
                self.ctx.lost.push((key.to_string(), "contracted function not found: the macro has another shape".into()));
            }
        }
    }

    fn emit_impl(&mut self, i: &ItemImpl, out: &mut String) {
        let ty = type_name(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        if is_test_cfg(&i.attrs) {
            return;
        }
        let tkey = match &tr {
            Some(t) => format!("impl:{t}:{ty}"),
            None => format!("impl:{ty}"),
        };
        for k in [tkey.clone(), tr.as_ref().map(|t| format!("impl:{t}")).unwrap_or_default()] {
            if let Some(r) = self.con.skip.get(&k) {
                *self.ctx.dropped.entry(format!("impl {} for {ty}: {r}", tr.clone().unwrap_or_default())).or_default() += 1;
                return;
            }
        }
        let mut keep_trait = false;
        if let Some(t) = &tr {
            match t.as_str() {
                "Clone" | "Iterator" | "DoubleEndedIterator" | "IntoIterator" | "Hash" | "UnindexedProducer" | "ParallelIterator" | "IntoParallelIterator" | "Deserialize" => keep_trait = true,
                "PartialEq" | "PartialOrd" | "Ord" | "Default" | "FromIterator" | "Extend" | "Index" | "IndexMut" | "Drop" | "Visitor" | "Serialize" => {}
                "ExactSizeIterator" if i.items.iter().any(|x| matches!(x, ImplItem::Fn(_))) => {}
                "Eq" | "Display" | "Debug" | "ExactSizeIterator" | "FusedIterator" => {
                    *self.ctx.dropped.entry(format!("impl {t}")).or_default() += 1;
                    return;
                }
                _ => {
                    self.ctx.lost.push((format!("{ty}"), format!("impl of unknown trait {t} for {ty}")));
                    return;
                }
            }
        }
        let mut head = i.clone();
        head.items.clear();
        head.attrs.clear();
        self.strip().visit_item_impl_mut(&mut head);
        // type parameters an inherent impl cannot constrain move to its functions, with the bounds that mention them
        let mut moved: Vec<TypeParam> = vec![];
        let mut preds: Vec<WherePredicate> = vec![];
        if !keep_trait {
            let st = format!(" {} ", tok(&*i.self_ty));
            let mentions = |s: &str, id: &str| s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == id);
            let gone: Vec<String> = head.generics.type_params().map(|p| p.ident.to_string()).filter(|p| !mentions(&st, p)).collect();
            if !gone.is_empty() {
                let mut ps = syn::punctuated::Punctuated::new();
                for p in head.generics.params.iter() {
                    match p {
                        GenericParam::Type(t) if gone.contains(&t.ident.to_string()) => moved.push(t.clone()),
                        GenericParam::Type(t) if gone.iter().any(|g| mentions(&tok(&t.bounds), g)) => {
                            let (id, b) = (&t.ident, &t.bounds);
                            preds.push(parse_quote!(#id: #b));
                            let mut t = t.clone();
                            t.bounds.clear();
                            t.colon_token = None;
                            ps.push(GenericParam::Type(t));
                        }
                        p => ps.push(p.clone()),
                    }
                }
                head.generics.params = ps;
                if let Some(w) = head.generics.where_clause.take() {
                    for p in w.predicates {
                        if gone.iter().any(|g| mentions(&tok(&p), g)) {
                            preds.push(p);
                        } else {
                            head.generics.make_where_clause().predicates.push(p);
                        }
                    }
                }
            }
        }
        let mut body = String::new();
        let mut hoisted = String::new();
        let tbl: BTreeMap<String, Type> = i.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect();
        if keep_trait {
            let k = format!("{} for {ty}", tr.as_ref().unwrap());
            if let Some(t) = self.con.impls.get(&k) {
                body.push_str(t);
            }
        }
        for it in &i.items {
            match it {
                ImplItem::Fn(f) => {
                    if is_test_cfg(&f.attrs) {
                        continue;
                    }
                    if let Some(feat) = feature_gated(&f.attrs) {
                        if feat != "rayon" && feat != "serde" {
                            continue;
                        }
                    }
                    let mut f = f.clone();
                    if !keep_trait {
                        // `Self::Item` of a trait impl that becomes inherent
                        let mut r = SelfAssoc { tbl: &tbl };
                        r.visit_signature_mut(&mut f.sig);
                        r.visit_block_mut(&mut f.block);
                        for m in &moved {
                            f.sig.generics.params.push(GenericParam::Type(m.clone()));
                            f.sig.generics.lt_token.get_or_insert_with(Default::default);
                            f.sig.generics.gt_token.get_or_insert_with(Default::default);
                        }
                        for p in &preds {
                            f.sig.generics.make_where_clause().predicates.push(p.clone());
                        }
                    }
                    // size_hint is not part of the model trait: made inherent
                    let key = format!("{ty}::{}", f.sig.ident);
                    let line = f.sig.ident.span().start().line;
                    // provided methods that are overridden are not part of the model trait either
                    let members: Option<&[&str]> = match tr.as_deref() {
                        Some("Iterator") => Some(&["next", "nth", "count", "last"]),
                        Some("DoubleEndedIterator") => Some(&["next_back", "nth_back"]),
                        Some("IntoIterator") => Some(&["into_iter"]),
                        Some("Hash") => Some(&["hash"]),
                        Some("Clone") => Some(&["clone"]),
                        Some("Deserialize") => Some(&["deserialize"]),
                        _ => None,
                    };
                    if keep_trait && members.is_some_and(|m| !m.contains(&f.sig.ident.to_string().as_str())) {
                        let mut o = String::new();
                        self.emit_with_nested(&key, Some(&ty), &f.sig, &f.block, false, line, &mut o, &mut hoisted);
                        let mut h = head.clone();
                        h.trait_ = None;
                        let hs = tok(&h);
                        let p = hs.rfind('{').unwrap();
                        writeln!(hoisted, "{} {{\n{o}}}", &hs[..p]).unwrap();
                        continue;
                    }
                    self.emit_with_nested(&key, Some(&ty), &f.sig, &f.block, keep_trait, line, &mut body, &mut hoisted);
                }
                ImplItem::Type(t) => {
                    if keep_trait {
                        let mut t = t.clone();
                        self.strip().visit_impl_item_type_mut(&mut t);
                        writeln!(body, "{}", tok(&t)).unwrap();
                    }
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    self.strip().visit_impl_item_const_mut(&mut c);
                    writeln!(body, "{}", tok(&c)).unwrap();
                }
                _ => {}
            }
        }
        if !keep_trait {
            head.trait_ = None;
            if let Some(t) = tr {
                *self.ctx.dropped.entry(format!("trait header {t} (methods kept as inherent methods)")).or_default() += 1;
                // a trait impl for a reference type becomes an inherent impl of the referent
            }
        }
        let hs = tok(&head);
        let p = hs.rfind('{').unwrap();
        if !(body.trim().is_empty() && !keep_trait) {
            writeln!(out, "{} {{\n{body}}}\n", &hs[..p]).unwrap();
        }
        out.push_str(&hoisted);
    }
}

fn collect_helpers(items: &[Item], modpath: &str, con: &Contracts, out: &mut Vec<Helper>) {
    for it in items {
        match it {
            Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                if con.skip.contains_key(&format!("mod:{}", m.ident)) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    let full = if modpath.is_empty() { m.ident.to_string() } else { format!("{modpath}::{}", m.ident) };
                    collect_helpers(c, &full, con, out)
                }
            }
            Item::Fn(f) if !is_test_cfg(&f.attrs) => {
                let key = if modpath.is_empty() { f.sig.ident.to_string() } else { format!("{modpath}::{}", f.sig.ident) };
                add_helper(key, None, &f.sig, &f.block, con, out);
            }
            Item::Impl(i) if !is_test_cfg(&i.attrs) && i.trait_.is_none() => {
                let ty = type_name(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        add_helper(format!("{ty}::{}", f.sig.ident), Some(ty.clone()), &f.sig, &f.block, con, out);
                    }
                }
            }
            Item::Impl(i) if !is_test_cfg(&i.attrs) => {
                // of trait methods only the functions nested in them
                let ty = type_name(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        nested_helpers(&format!("{ty}::{}", f.sig.ident), &f.block, con, out);
                    }
                }
            }
            _ => {}
        }
    }
}

/// The functions nested in the body of `key`.  Returns the body without them, and whether there are any.
fn nested_helpers(key: &str, block: &Block, con: &Contracts, out: &mut Vec<Helper>) -> (Block, bool) {
    let mut block = block.clone();
    let mut nested = vec![];
    hoist(&mut block, &mut nested);
    let names: BTreeMap<String, String> = nested.iter().map(|f| (f.sig.ident.to_string(), format!("{}_{}", key.replace("::", "_"), f.sig.ident))).collect();
    let mut rn = RenameCalls { names };
    rn.visit_block_mut(&mut block);
    for f in nested.iter_mut() {
        rn.visit_block_mut(&mut f.block);
    }
    for f in &nested {
        // nested helper functions without a contract (called by bare name inside the parent only)
        let k = format!("{key}::{}", f.sig.ident);
        let mut sg = f.sig.clone();
        sg.ident = Ident::new(&format!("{}_{}", key.replace("::", "_"), f.sig.ident), f.sig.ident.span());
        add_helper(k, None, &sg, &f.block, con, out);
    }
    (block, !nested.is_empty())
}

fn add_helper(key: String, ty: Option<String>, sig: &Signature, block: &Block, con: &Contracts, out: &mut Vec<Helper>) {
    let (block, nested) = nested_helpers(&key, block, con, out);
    if con.fns.contains_key(&key) || con.skip.contains_key(&key) {
        return;
    }
    if nested || !inlinable(sig, &block) {
        return;
    }
    let n = out.len();
    out.push(Helper { key, ty, name: sig.ident.to_string(), sig: sig.clone(), block, n });
}

/// Helpers that (by name) reach themselves are not inlined.
fn drop_recursive(hs: &mut Vec<Helper>) {
    let words: Vec<BTreeSet<String>> = hs.iter().map(|h| tok(&h.block).split(|c: char| !(c.is_alphanumeric() || c == '_')).map(String::from).collect()).collect();
    let n = hs.len();
    let mut reach: Vec<BTreeSet<usize>> = (0..n).map(|i| (0..n).filter(|&j| words[i].contains(&hs[j].name)).collect()).collect();
    loop {
        let mut changed = false;
        for i in 0..n {
            let add: BTreeSet<usize> = reach[i].iter().flat_map(|&j| reach[j].clone()).collect();
            let before = reach[i].len();
            reach[i].extend(add);
            changed |= reach[i].len() != before;
        }
        if !changed {
            break;
        }
    }
    let mut i = 0;
    hs.retain(|_| {
        i += 1;
        !reach[i - 1].contains(&(i - 1))
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, cdir, group, outrs, outjson) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut external = BTreeSet::new();
    let mut omit = BTreeSet::new();
    let mut canary = String::new();
    let mut noinline = false;
    let mut i = 6;
    while i < a.len() {
        match a[i].as_str() {
            "--external" => {
                external.insert(a[i + 1].clone());
                i += 1;
            }
            "--omit" => {
                omit.insert(a[i + 1].clone());
                i += 1;
            }
            "--canary" => {
                canary = a[i + 1].clone();
                i += 1;
            }
            "--noinline" => noinline = true,
            x => panic!("argument {x}"),
        }
        i += 1;
    }
    let mut ctx = Ctx { texts: vec![], external, omit, canary, fns: vec![], lost: vec![], dropped: BTreeMap::new(), inlined: Default::default(), drops: false, params: BTreeMap::new(), params_now: BTreeMap::new() };
    if let Ok(t) = std::fs::read_to_string(format!("{cdir}/params.txt")) {
        for l in t.lines() {
            if let Some((k, ns)) = l.split_once('=') {
                ctx.params.insert(k.to_string(), ns.split_whitespace().map(str::to_string).collect());
            }
        }
    }
    let cfg = std::fs::read_to_string(format!("{cdir}/{group}.group")).expect("group file");
    ctx.drops = cfg.lines().any(|l| l.trim() == "drops");
    let mut out = String::new();
    out.push_str("#![allow(unused)]\n#![allow(non_snake_case)]\n#![feature(never_type)]\n#![verifier::exec_allows_no_decreases_clause]\n#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\n#![verifier::allow(decreases_when_exec_allows_no_decreases_clause)]\nextern crate alloc;\nuse vstd::prelude::*;\nverus! {\n");
    let mut vx = String::new();
    let mut root = String::new();
    let mut body = String::new();
    let mut tree: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut sources = vec![];
    let mut allcons = vec![];
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for l in cfg.lines().filter(|l| l.starts_with("module ")) {
        let mut con = Contracts::default();
        contracts::parse(&std::fs::read_to_string(format!("{cdir}/{}", l.split_whitespace().nth(3).unwrap())).unwrap(), &mut con);
        taken.extend(con.fns.keys().map(|k| k.rsplit("::").next().unwrap().to_string()));
    }
    for l in cfg.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "drops" => (),
            "prelude" => vx.push_str(&std::fs::read_to_string(format!("{cdir}/{}", w[1])).unwrap()),
            "root" => {
                root.push_str(&l[5..]);
                root.push('\n')
            }
            // module PATH SRC CONTRACT
            "module" => {
                let src = format!("{repo}/{}", w[2]);
                let text = std::fs::read_to_string(&src).expect(&src);
                let file = match parse_file(&text) {
                    Ok(f) => f,
                    Err(e) => {
                        eprintln!("parse error in {src}: {e}");
                        std::process::exit(3);
                    }
                };
                let mut con = Contracts::default();
                contracts::parse(&std::fs::read_to_string(format!("{cdir}/{}", w[3])).expect(w[3]), &mut con);
                let mut helpers = vec![];
                if !noinline {
                    collect_helpers(&file.items, "", &con, &mut helpers);
                    drop_recursive(&mut helpers);
                }
                let mut dropped = BTreeSet::new();
                collect_ptr_kinds(&file, &mut dropped);
                let mut m = String::new();
                let parts: Vec<&str> = w[1].split("::").collect();
                writeln!(m, "use crate::vx::*;\nbroadcast use crate::vx::ax_rc_clone;\n#[allow(unused_imports)] use crate::*;\n{}", con.items).unwrap();
                // helper bodies are stripped when inlined
                let mut fc = FileCtx { module: w[1].to_string(), con: &mut con, ctx: &mut ctx, gone: xform::gone_fields(&file, &dropped), dropped, helpers: &helpers, noinline, taken: &taken };
                fc.emit_items(&file.items, "", &mut m, 0);
                tree.insert(parts.iter().map(|p| p.to_string()).collect(), m);
                sources.push(w[2].to_string());
                for (k, c) in &con.fns {
                    if !c.used {
                        ctx.lost.push((k.clone(), "contracted function not found in the source".into()));
                    }
                }
                allcons.push(con);
            }
            x => panic!("{x}"),
        }
    }
    // modules in path order; common parents are opened once
    let mut open: Vec<String> = vec![];
    for (path, text) in &tree {
        let common = open.iter().zip(path.iter()).take_while(|(a, b)| a == b).count();
        for _ in common..open.len() {
            body.push_str("}\n");
        }
        open.truncate(common);
        for p in &path[common..] {
            writeln!(body, "pub mod {p} {{").unwrap();
            open.push(p.clone());
        }
        body.push_str(text);
    }
    for _ in &open {
        body.push_str("}\n");
    }
    writeln!(out, "global size_of usize == 8;\npub mod vx {{\npub use vstd::prelude::*;\n{vx}\n}}\n{root}\n{body}\n}}\nfn main() {{}}").unwrap();
    std::fs::write(outrs, &out).unwrap();
    // line ranges
    let mut ranges: Vec<(String, usize, usize)> = vec![];
    let mut cur: Option<(String, usize)> = None;
    for (n, l) in out.lines().enumerate() {
        if let Some(p) = l.find("/*VXFN ") {
            cur = Some((l[p + 7..].trim_end_matches("*/").to_string(), n + 1));
        }
        if l.contains("/*VXEND*/") {
            let (k, s) = cur.take().unwrap();
            ranges.push((k, s, n + 1));
        }
    }
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let mut j = String::from("{\"fns\":[");
    assert_eq!(ranges.len(), ctx.fns.len());
    let mut infos = ctx.fns.clone();
    let mut first = true;
    for (k, s, e) in &ranges {
        let p = infos.iter().position(|x| &x.key == k).unwrap();
        let f = infos.remove(p);
        if !first {
            j.push(',');
        }
        first = false;
        write!(j, "\n{{\"key\":{},\"module\":{},\"src_line\":{},\"lo\":{s},\"hi\":{e},\"contracted\":{},\"external\":{},\"trusted\":{},\"twin\":{},\"nocanary\":{},\"props\":[{}]}}", q(k), q(&f.module), f.src_line, f.contracted, f.external, f.trusted, f.twin, f.nocanary, f.props.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")).unwrap();
    }
    write!(j, "],\n\"lost\":[{}]", ctx.lost.iter().map(|(a, b)| format!("[{},{}]", q(a), q(b))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\n\"dropped\":[{}]", ctx.dropped.iter().map(|(a, b)| format!("[{},{}]", q(a), b)).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\n\"inlined\":[{}]", ctx.inlined.iter().map(|a| q(a)).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\n\"params\":[{}]", ctx.params_now.iter().map(|(a, b)| format!("[{},{}]", q(a), q(&b.join(" ")))).collect::<Vec<_>>().join(",")).unwrap();
    write!(j, ",\n\"sources\":[{}]}}\n", sources.iter().map(|a| q(a)).collect::<Vec<_>>().join(",")).unwrap();
    std::fs::write(outjson, j).unwrap();
}

/// A `for` loop written as `while let Some(..) = it.next()`: the contract's name of the iterator, `vx_it0`, becomes `it`.
fn alias_iters(con: &mut FnContract, body: &str) -> bool {
    let mut any = false;
    let words: Vec<&str> = body.split_whitespace().collect();
    let mut its: Vec<&str> = vec![];
    for w in words.windows(4) {
        let id = w[0].chars().all(|c| c.is_alphanumeric() || c == '_') && !w[0].starts_with(|c: char| c.is_numeric()) && w[0] != "self";
        if id && w[1] == "." && w[2] == "next" && w[3].starts_with('(') && !its.contains(&w[0]) {
            its.push(w[0]);
        }
    }
    for (k, it) in its.iter().enumerate() {
        let name = format!("vx_it{k}");
        if body.contains(&name) {
            break;
        }
        for t in con.indexed.values_mut().chain(con.anchors.iter_mut().map(|a| &mut a.3)).chain([&mut con.entry, &mut con.exit]) {
            any |= t.contains(&name);
            *t = t.replace(&name, it);
        }
    }
    any
}
