//! Makes the drops of a function body explicit: at every point where Rust drops a local variable, a temporary or one of
//! the listed fields (end of scope, `break`, `continue`, `return`, assignment), an obligation `vx_drop_ok(value)` is
//! inserted.  What has been moved out is found by the data-flow analysis Rust's own drop elaboration does.
use crate::xform::{marker, parse_quote_expr_stmt};
use crate::{tok, Ctx};
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Live,
    Moved,
    Maybe,
}
type State = BTreeMap<usize, S>;

/// `None`: this point is not reached.
type Flow = Option<State>;

fn join(a: Flow, b: Flow) -> Flow {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(mut a), Some(b)) => {
            for (k, v) in b {
                a.entry(k).and_modify(|w| if *w != v { *w = S::Maybe }).or_insert(v);
            }
            Some(a)
        }
    }
}

struct LoopCtx {
    depth: usize,
    brk: Flow,
    cont: Flow,
}

pub struct Drops<'a> {
    pub ctx: &'a mut Ctx,
    /// the fields that hold what must not be dropped recursively
    pub fields: &'a [String],
    pub lost: Vec<String>,
    scopes: Vec<Vec<(String, usize)>>,
    next: usize,
    temps: usize,
    loops: Vec<LoopCtx>,
    flow: Flow,
    /// only the states are wanted
    dry: bool,
}

/// `if let P = call() { A } else { B }` and `while let P = call() { A }` as `match`: the temporary gets a name.
struct Lets;
impl VisitMut for Lets {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let rvalue = |l: &ExprLet| !Drops::place(&l.expr) && !Drops::is_ref(&l.expr) && !Drops::is_some_full(&l.pat);
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &*i.cond {
                    if rvalue(l) {
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let b: Expr = i.else_branch.as_ref().map(|b| (*b.1).clone()).unwrap_or(parse_quote!({}));
                        *e = parse_quote!(match #x { #p => #t _ => #b });
                    }
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    if rvalue(l) && w.label.is_none() {
                        let (p, x, t) = (&l.pat, &l.expr, &w.body);
                        *e = parse_quote!(loop { match #x { #p => #t _ => { break; } } });
                    }
                }
            }
            _ => (),
        }
    }
}

const BY_VALUE: &[&str] = &["unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map", "and_then", "ok", "err", "into_iter", "or", "or_else", "ok_or", "is_some_and", "into", "unwrap_unchecked", "filter", "map_or", "map_or_else", "inspect", "zip"];

impl<'a> Drops<'a> {
    pub fn run(ctx: &'a mut Ctx, fields: &'a [String], block: &mut Block, sig: &Signature) -> Vec<String> {
        let mut d = Drops { ctx, fields, lost: vec![], scopes: vec![vec![]], next: 0, temps: 0, loops: vec![], flow: Some(State::new()), dry: false };
        for i in &sig.inputs {
            if let FnArg::Typed(t) = i {
                d.declare(&t.pat, S::Live);
            }
        }
        Lets.visit_block_mut(block);
        d.block(block, true);
        d.lost
    }
    fn no(&mut self, s: &str) {
        if !self.dry {
            self.lost.push(format!("unsupported in drop elaboration: {s}"));
        }
    }
    fn find(&self, n: &str) -> Option<usize> {
        self.scopes.iter().rev().flat_map(|s| s.iter().rev()).find(|v| v.0 == n).map(|v| v.1)
    }
    fn set(&mut self, id: usize, s: S) {
        if let Some(f) = &mut self.flow {
            f.insert(id, s);
        }
    }
    fn get(&self, id: usize) -> S {
        self.flow.as_ref().and_then(|f| f.get(&id).copied()).unwrap_or(S::Moved)
    }
    fn local(&self, e: &Expr) -> Option<usize> {
        match e {
            Expr::Path(p) if p.qself.is_none() => p.path.get_ident().and_then(|i| self.find(&i.to_string())),
            Expr::Paren(p) => self.local(&p.expr),
            _ => None,
        }
    }
    /// Certainly a reference: nothing to drop.
    fn is_ref(e: &Expr) -> bool {
        match e {
            Expr::Reference(_) => true,
            Expr::Paren(p) => Self::is_ref(&p.expr),
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if matches!(p.path.segments.last().unwrap().ident.to_string().as_str(), "make_mut" | "borrow" | "as_ref" | "deref")),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.contains("as_ref") || n.contains("as_mut") || n.contains("as_deref") || n == "borrow"
            }
            _ => false,
        }
    }
    fn place(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) => true,
            Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)),
            Expr::Paren(p) => Self::place(&p.expr),
            _ => false,
        }
    }
    fn declare(&mut self, p: &Pat, s: S) {
        let mut names = vec![];
        fn go(p: &Pat, out: &mut Vec<String>) {
            match p {
                Pat::Ident(i) => {
                    if i.by_ref.is_none() && i.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
                        out.push(i.ident.to_string());
                    }
                    if let Some((_, q)) = &i.subpat {
                        go(q, out);
                    }
                }
                Pat::Tuple(t) => t.elems.iter().for_each(|q| go(q, out)),
                Pat::TupleStruct(t) => t.elems.iter().for_each(|q| go(q, out)),
                Pat::Struct(t) => t.fields.iter().for_each(|q| go(&q.pat, out)),
                Pat::Paren(t) => go(&t.pat, out),
                Pat::Type(t) => go(&t.pat, out),
                Pat::Or(t) => go(&t.cases[0], out),
                _ => (),
            }
        }
        go(p, &mut names);
        for n in names {
            let id = self.next;
            self.next += 1;
            self.scopes.last_mut().unwrap().push((n, id));
            self.set(id, s);
        }
    }
    fn binds(p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.by_ref.is_none() && i.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_'),
            Pat::Tuple(t) => t.elems.iter().any(Self::binds),
            Pat::TupleStruct(t) => t.elems.iter().any(Self::binds),
            Pat::Struct(t) => t.fields.iter().any(|f| Self::binds(&f.pat)),
            Pat::Paren(t) => Self::binds(&t.pat),
            Pat::Type(t) => Self::binds(&t.pat),
            Pat::Or(t) => t.cases.iter().any(Self::binds),
            _ => false,
        }
    }
    /// Nothing of the value is left in the scrutinee: everything it can hold is bound, or it holds nothing.
    fn full(&self, p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.by_ref.is_none(),
            Pat::Tuple(t) => t.elems.iter().all(|q| self.full(q)),
            Pat::TupleStruct(t) => t.elems.iter().all(|q| self.full(q)),
            Pat::Paren(t) => self.full(&t.pat),
            Pat::Type(t) => self.full(&t.pat),
            Pat::Path(_) => true,
            Pat::Lit(_) => true,
            Pat::Or(t) => t.cases.iter().all(|q| self.full(q)),
            // what is left behind are fields that hold nothing that is tracked
            Pat::Struct(t) => t.fields.iter().any(|f| matches!(&f.member, Member::Named(n) if self.fields.contains(&n.to_string())) && self.full(&f.pat)),
            _ => false,
        }
    }
    fn is_some_full(p: &Pat) -> bool {
        matches!(p, Pat::TupleStruct(t) if t.path.segments.last().unwrap().ident == "Some" && t.elems.len() == 1 && matches!(&t.elems[0], Pat::Ident(_) | Pat::Wild(_)))
    }

    fn oblige(&mut self, what: &str) -> Stmt {
        let id = self.ctx.text(format!("assert(vx_drop_ok({what})); // what is dropped here is dropped without recursion\n"));
        marker(id)
    }
    /// Obligations for the variables of the scopes from `depth` inwards.
    fn leave(&mut self, depth: usize) -> Vec<Stmt> {
        let mut out = vec![];
        if self.flow.is_none() {
            return out;
        }
        let vars: Vec<(String, usize)> = self.scopes[depth..].iter().rev().flat_map(|s| s.iter().rev().cloned().collect::<Vec<_>>()).collect();
        for (n, id) in vars {
            match self.get(id) {
                S::Moved => (),
                S::Maybe => self.no(&format!("{n} is moved on some paths only")),
                S::Live if self.find(&n) != Some(id) => self.no(&format!("{n} is shadowed when dropped")),
                S::Live => {
                    if !self.dry {
                        out.push(self.oblige(&n));
                    }
                }
            }
        }
        out
    }

    fn block(&mut self, b: &mut Block, mv: bool) {
        self.scopes.push(vec![]);
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut tail = None;
        for (i, mut s) in stmts.into_iter().enumerate() {
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        let moves = Self::binds(&l.pat);
                        let wild = matches!(l.pat, Pat::Wild(_));
                        if wild && !Self::place(&init.expr) {
                            self.discard(&mut init.expr);
                        } else {
                            if !wild && !self.full(&l.pat) && !matches!(&*init.expr, Expr::Reference(_)) {
                                self.no("a pattern that leaves parts behind");
                            }
                            self.expr(&mut init.expr, moves);
                        }
                        let named = !Self::place(&init.expr) && !Self::is_ref(&init.expr) && !Self::is_some_full(&l.pat);
                        if let Some((_, d)) = &mut init.diverge {
                            let keep = self.flow.clone();
                            if named {
                                // what did not match is dropped in the `else` block
                                let t: Ident = parse_str(&format!("vx_l{}", self.temps)).unwrap();
                                self.temps += 1;
                                let ob = self.oblige(&t.to_string());
                                self.expr(d, true);
                                if !self.dry {
                                    let (x, y) = (std::mem::replace(&mut *init.expr, parse_quote!(#t)), &*d);
                                    b.stmts.push(parse_quote!(let #t = #x;));
                                    *d = Box::new(parse_quote!({ #ob #y }));
                                }
                            } else {
                                self.expr(d, true);
                            }
                            self.flow = keep;
                        }
                        let is_ref = Self::is_ref(&init.expr);
                        self.declare(&l.pat, if is_ref { S::Moved } else { S::Live });
                    } else {
                        self.declare(&l.pat, S::Moved);
                    }
                    b.stmts.push(s);
                }
                Stmt::Expr(e, semi) => {
                    if i + 1 == n && semi.is_none() {
                        self.expr(e, mv);
                        tail = Some(s);
                    } else {
                        if semi.is_some() && matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_)) {
                            self.discard(e);
                        } else {
                            let assign = matches!(e, Expr::Assign(_));
                            self.expr(e, false);
                            if let (true, Expr::Block(x)) = (assign, &*e) {
                                b.stmts.extend(x.block.stmts.clone());
                                continue;
                            }
                        }
                        b.stmts.push(s);
                    }
                }
                _ => b.stmts.push(s),
            }
        }
        let depth = self.scopes.len() - 1;
        let ob = self.leave(depth);
        match tail {
            None => b.stmts.extend(ob),
            Some(t) if ob.is_empty() => b.stmts.push(t),
            Some(Stmt::Expr(e, _)) => {
                if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) | Expr::Binary(_)) && !mv {
                    b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    b.stmts.extend(ob);
                } else {
                    b.stmts.push(parse_quote!(let vx_tail = #e;));
                    b.stmts.extend(ob);
                    b.stmts.push(parse_quote_expr_stmt("vx_tail"));
                }
            }
            Some(t) => b.stmts.push(t),
        }
        self.scopes.pop();
    }
    /// A value that is dropped at once.
    fn discard(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().unwrap().ident == "drop" && c.args.len() == 1 {
                    let mut a = c.args[0].clone();
                    self.expr(&mut a, true);
                    if !self.dry {
                        let ob = self.oblige("vx_gone");
                        *e = parse_quote!({ let vx_gone = #a; #ob });
                    }
                    return;
                }
            }
        }
        self.expr(e, false);
        if !self.dry {
            let ob = self.oblige("vx_gone");
            let x = &*e;
            *e = parse_quote!({ let vx_gone = #x; #ob });
        }
    }

    fn cond_let(&mut self, c: &mut Expr) -> Option<(Pat, Option<usize>)> {
        match c {
            Expr::Let(l) => {
                let moves = Self::binds(&l.pat);
                if let Some(id) = self.local(&l.expr) {
                    return Some(((*l.pat).clone(), if moves { Some(id) } else { None }));
                }
                if Self::place(&l.expr) {
                    if moves && !matches!(&*l.expr, Expr::Reference(_)) {
                        self.no("a move out of a field by a pattern");
                    }
                    return Some(((*l.pat).clone(), None));
                }
                self.expr(&mut l.expr, true);
                let by_ref = Self::is_ref(&l.expr);
                if !by_ref && !Self::is_some_full(&l.pat) {
                    self.no("a temporary matched by a condition");
                }
                Some(((*l.pat).clone(), None))
            }
            _ => None,
        }
    }

    fn expr(&mut self, e: &mut Expr, mv: bool) {
        match e {
            Expr::Path(_) => {
                if mv {
                    if let Some(id) = self.local(e) {
                        self.set(id, S::Moved);
                    }
                }
            }
            Expr::Field(f) => {
                if mv {
                    if let Member::Named(n) = &f.member {
                        if self.fields.contains(&n.to_string()) {
                            // the rest of the variable holds nothing that is tracked
                            if let Some(id) = self.local(&f.base) {
                                self.set(id, S::Moved);
                                return;
                            }
                        }
                    }
                }
                self.expr(&mut f.base, false);
            }
            Expr::Paren(p) => self.expr(&mut p.expr, mv),
            Expr::Reference(r) => self.expr(&mut r.expr, false),
            Expr::Unary(u) => self.expr(&mut u.expr, false),
            Expr::Cast(c) => self.expr(&mut c.expr, false),
            Expr::Binary(b) => {
                self.expr(&mut b.left, false);
                self.expr(&mut b.right, false);
            }
            Expr::Index(i) => {
                self.expr(&mut i.expr, false);
                self.expr(&mut i.index, false);
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.expr(a, true);
                }
            }
            Expr::MethodCall(m) => {
                let by_value = BY_VALUE.contains(&m.method.to_string().as_str());
                self.expr(&mut m.receiver, by_value);
                for a in m.args.iter_mut() {
                    self.expr(a, true);
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    self.expr(&mut f.expr, true);
                }
            }
            Expr::Tuple(t) => t.elems.iter_mut().for_each(|x| self.expr(x, true)),
            Expr::Block(b) => self.block(&mut b.block, mv),
            Expr::Assign(a) => {
                self.expr(&mut a.right, true);
                let target = match &*a.left {
                    Expr::Field(f) => matches!(&f.member, Member::Named(n) if self.fields.contains(&n.to_string())),
                    l => self.local(l).is_some(),
                };
                match self.local(&a.left) {
                    Some(id) => {
                        let s = self.get(id);
                        self.set(id, S::Live);
                        if s == S::Maybe {
                            self.no("assignment to a variable moved on some paths only");
                        }
                        if s != S::Live {
                            return;
                        }
                    }
                    None => self.expr(&mut a.left, false),
                }
                if target && !self.dry {
                    let (l, r) = (&a.left, &a.right);
                    let ob = self.oblige(&tok(l));
                    *e = parse_quote!({ let vx_new = #r; #ob #l = vx_new; });
                }
            }
            Expr::If(i) => {
                self.scopes.push(vec![]);
                let c = self.cond_let(&mut i.cond);
                if c.is_none() {
                    self.expr(&mut i.cond, false);
                }
                let base = self.flow.clone();
                let mut other = base.clone();
                if let Some((p, id)) = c {
                    if let Some(id) = id {
                        self.set(id, S::Moved);
                        if Self::is_some_full(&p) {
                            other.as_mut().map(|f| f.insert(id, S::Moved));
                        }
                    }
                    self.declare(&p, S::Live);
                    self.arm_block(&mut i.then_branch, mv);
                } else {
                    self.block(&mut i.then_branch, mv);
                }
                self.scopes.pop();
                let then = self.flow.take();
                self.flow = other;
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr(x, mv);
                }
                let els = self.flow.take();
                self.flow = join(then, els);
            }
            Expr::Match(m) => {
                let id = self.local(&m.expr);
                let mut temp = None;
                let mut partial_field = false;
                if id.is_none() {
                    if Self::place(&m.expr) {
                        partial_field = true;
                    } else {
                        self.expr(&mut m.expr, true);
                        let refs = Self::is_ref(&m.expr);
                        if !refs && !m.arms.iter().all(|a| self.full(&a.pat)) {
                            temp = Some(format!("vx_m{}", self.temps));
                            self.temps += 1;
                        }
                    }
                }
                self.scopes.push(vec![]);
                let tid = temp.as_ref().map(|t| {
                    let p: Pat = parse_str::<Ident>(t).map(|i| parse_quote!(#i)).unwrap();
                    self.declare(&p, S::Live);
                    self.find(t).unwrap()
                });
                let base = self.flow.clone();
                let mut res: Flow = None;
                let some_full = m.arms.iter().any(|a| Self::is_some_full(&a.pat));
                for a in m.arms.iter_mut() {
                    self.flow = base.clone();
                    self.scopes.push(vec![]);
                    let b = Self::binds(&a.pat);
                    if let Some(x) = id.or(tid) {
                        if b {
                            self.set(x, S::Moved);
                            if !self.full(&a.pat) {
                                self.no("a pattern that leaves parts behind");
                            }
                        } else if self.full(&a.pat) || (some_full && id.is_some()) {
                            self.set(x, S::Moved);
                        }
                    } else if partial_field && b {
                        // a field matched by value is a move out of it; by reference it is not: Rust's default binding
                        // modes decide, so only untracked fields are accepted
                        if let Expr::Field(f) = &*m.expr {
                            if matches!(&f.member, Member::Named(n) if self.fields.contains(&n.to_string())) {
                                self.no("a tracked field matched by value");
                            }
                        }
                    }
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g, false);
                    }
                    let r = Self::is_ref(&m.expr);
                    self.declare(&a.pat, if r { S::Moved } else { S::Live });
                    let mut blk: Block = match &*a.body {
                        Expr::Block(x) if x.label.is_none() => x.block.clone(),
                        x => parse_quote!({ #x }),
                    };
                    // the temporary lives to the end of the match
                    let tdepth = self.scopes.len() - 2;
                    self.arm_block_from(&mut blk, mv, tdepth);
                    *a.body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
                    self.scopes.pop();
                    res = join(res, self.flow.take());
                }
                self.scopes.pop();
                self.flow = res;
                if let (Some(t), false) = (temp, self.dry) {
                    let t: Ident = parse_str(&t).unwrap();
                    let x = std::mem::replace(&mut m.expr, parse_quote!(#t));
                    let mm = &*m;
                    *e = parse_quote!({ let #t = #x; #mm });
                }
            }
            Expr::While(w) => {
                let mut w2 = w.clone();
                self.looped(&mut w2.body, Some(&mut w2.cond), 0);
                *w = w2;
            }
            Expr::Loop(l) => {
                let mut l2 = l.clone();
                self.looped(&mut l2.body, None, 0);
                *l = l2;
            }
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    self.no("break with a label or a value");
                }
                let Some(d) = self.loops.last().map(|l| l.depth) else { return };
                let ob = self.leave(d);
                let f = self.flow.take();
                let l = self.loops.last_mut().unwrap();
                l.brk = join(l.brk.take(), f);
                if !ob.is_empty() {
                    *e = parse_quote!({ #(#ob)* break; });
                }
            }
            Expr::Continue(_) => {
                let Some(d) = self.loops.last().map(|l| l.depth) else { return };
                let ob = self.leave(d);
                let f = self.flow.take();
                let l = self.loops.last_mut().unwrap();
                l.cont = join(l.cont.take(), f);
                if !ob.is_empty() {
                    *e = parse_quote!({ #(#ob)* continue; });
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.expr(x, true);
                }
                let ob = self.leave(0);
                self.flow = None;
                if !ob.is_empty() {
                    *e = match &r.expr {
                        Some(x) => parse_quote!({ let vx_rv = #x; #(#ob)* return vx_rv; }),
                        None => parse_quote!({ #(#ob)* return; }),
                    };
                }
            }
            Expr::Let(_) => self.no("a condition chain"),
            Expr::Closure(_) => self.no("a closure"),
            Expr::Try(t) => {
                self.expr(&mut t.expr, true);
                // An early return; what it returns holds no more than the operand did.
                let ids: Vec<usize> = self.scopes.iter().flatten().map(|(_, id)| *id).collect();
                if self.flow.is_some() && ids.into_iter().any(|id| self.get(id) != S::Moved) {
                    self.no("the ? operator while a variable is live");
                }
            }
            _ => (),
        }
    }
    fn arm_block(&mut self, b: &mut Block, mv: bool) {
        let d = self.scopes.len() - 1;
        self.arm_block_from(b, mv, d);
    }
    /// A block whose enclosing scopes, from `depth`, end with it.
    fn arm_block_from(&mut self, b: &mut Block, mv: bool, depth: usize) {
        self.block(b, mv);
        let ob = self.leave(depth);
        if ob.is_empty() {
            return;
        }
        match b.stmts.last_mut() {
            Some(Stmt::Expr(_, semi)) if semi.is_none() => {
                if mv {
                    let Some(Stmt::Expr(x, _)) = b.stmts.pop() else { unreachable!() };
                    b.stmts.push(parse_quote!(let vx_arm = #x;));
                    b.stmts.extend(ob);
                    b.stmts.push(parse_quote_expr_stmt("vx_arm"));
                } else {
                    *semi = Some(Default::default());
                    b.stmts.extend(ob);
                }
            }
            _ => b.stmts.extend(ob),
        }
    }
    fn looped(&mut self, body: &mut Block, mut cond: Option<&mut Box<Expr>>, _n: usize) {
        let mut head = self.flow.clone();
        let dry = self.dry;
        let (next, temps) = (self.next, self.temps);
        for round in 0..8 {
            let last = round == 7;
            self.dry = true;
            self.next = next;
            self.temps = temps;
            let mut b = body.clone();
            let mut c = cond.as_ref().map(|c| (***c).clone());
            let (back, _) = self.once(&mut b, c.as_mut(), head.clone());
            let h2 = join(head.clone(), back);
            if h2 == head || last {
                break;
            }
            head = h2;
        }
        self.dry = dry;
        self.next = next;
        self.temps = temps;
        let (_, out) = self.once(body, cond.as_mut().map(|c| &mut ***c), head);
        self.flow = out;
    }
    /// (state at the back edge, state after the loop)
    fn once(&mut self, body: &mut Block, cond: Option<&mut Expr>, head: Flow) -> (Flow, Flow) {
        self.flow = head;
        self.loops.push(LoopCtx { depth: self.scopes.len(), brk: None, cont: None });
        self.scopes.push(vec![]);
        let mut done: Flow = None;
        match cond {
            Some(c) => {
                let l = self.cond_let(c);
                match l {
                    Some((p, id)) => {
                        done = self.flow.clone();
                        if let Some(id) = id {
                            self.set(id, S::Moved);
                            if Self::is_some_full(&p) {
                                done.as_mut().map(|f| f.insert(id, S::Moved));
                            }
                        }
                        self.declare(&p, S::Live);
                    }
                    None => {
                        self.expr(c, false);
                        done = self.flow.clone();
                        if matches!(c, Expr::Lit(_)) {
                            done = None;
                        }
                    }
                }
                self.arm_block(body, false);
            }
            None => self.arm_block(body, false),
        }
        self.scopes.pop();
        let l = self.loops.pop().unwrap();
        let back = join(self.flow.take(), l.cont);
        // variables of the body are gone
        let visible: Vec<usize> = self.scopes.iter().flatten().map(|v| v.1).collect();
        let trim = |f: Flow| f.map(|mut s| { s.retain(|k, _| visible.contains(k)); s });
        (trim(back), trim(join(done, l.brk)))
    }
}
