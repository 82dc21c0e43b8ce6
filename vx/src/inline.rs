//! Calls of functions that no contract of the unit knows are replaced by the body of the
//! function, as it stands in /repo: a helper that was split off a function under contract
//! is verified as part of that function.  On the tree the contracts were written for there
//! is nothing to inline.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::{parse_quote, punctuated::Punctuated, visit::Visit, visit_mut::VisitMut, *};

/// a function of /repo
#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}

pub struct Inliner<'a> {
    /// (type, or "" for a free function; name) -> the function
    pub find: &'a mut dyn FnMut(&str, &str) -> Option<Helper>,
    pub known: &'a BTreeSet<String>,
    pub self_ty: Option<String>,
    pub stack: Vec<String>,
    pub done: Vec<String>,
    pub n: usize,
}

/// what happens to the value of the call
#[derive(Clone, Copy, PartialEq)]
enum Use {
    /// it is the value of the function that calls
    Tail,
    /// `call?`
    Try,
    Other,
}

#[derive(Default)]
struct Exits {
    ret: bool,
    tr: bool,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.ret = true;
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.tr = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        let s = m.tokens.to_string();
        if m.path.is_ident("bail") || s.contains("return") {
            self.ret = true;
        }
        if s.contains('?') {
            self.tr = true;
        }
    }
}
fn exits_expr(e: &Expr) -> Exits {
    let mut x = Exits::default();
    x.visit_expr(e);
    x
}
fn exits_stmt(s: &Stmt) -> Exits {
    let mut x = Exits::default();
    x.visit_stmt(s);
    x
}

fn block_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
/// does control never reach the end of these statements?
fn always(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(Expr::If(i), _)) => {
            i.else_branch.as_ref().map(|(_, e)| always(&block_of(e))).unwrap_or(false) && always(&i.then_branch.stmts)
        }
        Some(Stmt::Expr(Expr::Match(m), _)) => !m.arms.is_empty() && m.arms.iter().all(|a| always(&block_of(&a.body))),
        Some(Stmt::Expr(Expr::Block(b), _)) => always(&b.block.stmts),
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        _ => false,
    }
}

/// the statements as a value, with `f` applied to every value the function ends with
fn no_return(stmts: &[Stmt], f: &dyn Fn(Expr) -> Expr) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        let last = rest.is_empty();
        let branches = last && matches!(s, Stmt::Expr(Expr::If(ExprIf { else_branch: Some(_), .. }) | Expr::Match(_) | Expr::Block(_), None));
        if !exits_stmt(s).ret && !branches {
            match s {
                Stmt::Expr(e, None) if last => {
                    let is_loop = matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::If(ExprIf { else_branch: None, .. }));
                    if is_loop {
                        out.push(s.clone());
                        out.push(Stmt::Expr(f(parse_quote!(())), None));
                    } else {
                        out.push(Stmt::Expr(f(e.clone()), None));
                    }
                    return Some(out);
                }
                _ => out.push(s.clone()),
            }
            continue;
        }
        let arm = |b: &[Stmt]| -> Option<Vec<Stmt>> {
            if always(b) || last {
                no_return(b, f)
            } else {
                let mut v = b.to_vec();
                if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
                v.extend(rest.iter().cloned());
                no_return(&v, f)
            }
        };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(()));
                if exits_expr(&e).ret {
                    return None;
                }
                let e = no_return(&[Stmt::Expr(e, None)], f)?;
                out.extend(e);
                return Some(out);
            }
            Stmt::Expr(Expr::If(x), _) => {
                if exits_expr(&x.cond).ret {
                    return None;
                }
                let c = &x.cond;
                let a = arm(&x.then_branch.stmts)?;
                let b = arm(&x.else_branch.as_ref().map(|(_, e)| block_of(e)).unwrap_or_default())?;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if exits_expr(&m.expr).ret {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let b = arm(&block_of(&a.body))?;
                    a.body = parse_quote!({ #(#b)* });
                    a.comma = None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let v = arm(&b.block.stmts)?;
                out.push(Stmt::Expr(parse_quote!({ #(#v)* }), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (p, e) = (&l.pat, &init.expr);
                if let Some((_, d)) = &init.diverge {
                    let d = block_of(d);
                    if exits_expr(e).ret || !always(&d) {
                        return None;
                    }
                    let d = no_return(&d, f)?;
                    let r = no_return(rest, f)?;
                    out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } }), None));
                    return Some(out);
                }
                let value = |b: &[Stmt]| -> Option<Vec<Stmt>> {
                    if always(b) {
                        return no_return(b, f);
                    }
                    let (Stmt::Expr(v, None), init) = b.split_last()? else { return None };
                    if init.iter().any(|s| exits_stmt(s).ret) || exits_expr(v).ret {
                        return None;
                    }
                    let mut o = init.to_vec();
                    o.push(parse_quote!(let #p = #v;));
                    o.extend(no_return(rest, f)?);
                    Some(o)
                };
                match &**e {
                    Expr::Match(m) if !exits_expr(&m.expr).ret => {
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let v = value(&block_of(&a.body))?;
                            a.body = parse_quote!({ #(#v)* });
                            a.comma = None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return Some(out);
                    }
                    Expr::If(x) if !exits_expr(&x.cond).ret => {
                        let c = &x.cond;
                        let a = value(&x.then_branch.stmts)?;
                        let b = value(&block_of(&x.else_branch.as_ref()?.1))?;
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
                        return Some(out);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    if !matches!(stmts.last(), Some(Stmt::Expr(_, None))) {
        out.push(Stmt::Expr(f(parse_quote!(())), None));
    }
    Some(out)
}

/// does the body bind this name?
struct Binds<'a>(&'a str, bool);
impl<'a> Visit<'a> for Binds<'_> {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.ident == self.0 {
            self.1 = true;
        }
        visit::visit_pat_ident(self, p);
    }
}
fn binds(b: &Block, n: &str) -> bool {
    let mut v = Binds(n, false);
    v.visit_block(b);
    v.1
}

/// a parameter replaced by the place it refers to
struct Subst {
    name: Ident,
    /// the expression the parameter stands for
    whole: Expr,
    /// the place, if the parameter is a reference to it
    place: Option<Expr>,
    ok: bool,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |e: &Expr, n: &Ident| matches!(e, Expr::Path(p) if p.path.is_ident(n));
        if let Some(pl) = &self.place {
            let hit = match e {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr, &self.name) => {
                    *e = pl.clone();
                    return;
                }
                Expr::MethodCall(m) if is(&m.receiver, &self.name) => {
                    *m.receiver = pl.clone();
                    true
                }
                Expr::Field(m) if is(&m.base, &self.name) => {
                    *m.base = pl.clone();
                    true
                }
                Expr::Index(m) if is(&m.expr, &self.name) => {
                    *m.expr = pl.clone();
                    true
                }
                _ => false,
            };
            if hit {
                match e {
                    Expr::MethodCall(m) => m.args.iter_mut().for_each(|a| self.visit_expr_mut(a)),
                    Expr::Index(m) => self.visit_expr_mut(&mut m.index),
                    _ => {}
                }
                return;
            }
        }
        if is(e, &self.name) {
            *e = self.whole.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() && matches!(&f.member, Member::Named(n) if *n == self.name) {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if !with_macro_exprs(m, |e| self.visit_expr_mut(e)) && mentions(m.tokens.clone(), &self.name) {
            self.ok = false;
        }
        // inline arguments of a format string
        let s = m.tokens.to_string();
        if s.contains(&format!("{{{}}}", self.name)) || s.contains(&format!("{{{}:", self.name)) {
            let same = matches!(&self.whole, Expr::Path(p) if p.path.is_ident(&self.name));
            if !same {
                self.ok = false;
            }
        }
    }
}
fn mentions(ts: proc_macro2::TokenStream, n: &Ident) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == *n,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n),
        _ => false,
    })
}

/// applies `f` to the expressions a macro is given, if they are a list of expressions
fn with_macro_exprs(m: &mut Macro, mut f: impl FnMut(&mut Expr)) -> bool {
    let Ok(mut args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) else { return false };
    for a in args.iter_mut() {
        match a {
            Expr::Assign(x) => f(&mut x.right),
            Expr::Lit(_) => {}
            a => f(a),
        }
    }
    m.tokens = args.to_token_stream();
    true
}

struct SelfTo(Expr);
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident("self")) {
            *e = self.0.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        with_macro_exprs(m, |e| self.visit_expr_mut(e));
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

impl Inliner<'_> {
    fn helper(&mut self, ty: &str, name: &str) -> Option<Helper> {
        if self.known.contains(name) || self.stack.iter().any(|s| s == name) || self.stack.len() > 8 {
            return None;
        }
        let h = (self.find)(ty, name)?;
        let g = &h.sig.generics;
        if g.type_params().next().is_some() || g.const_params().next().is_some() || h.sig.asyncness.is_some() {
            return None;
        }
        Some(h)
    }

    /// the called function and its arguments, if it is one to inline
    fn target(&mut self, e: &Expr) -> Option<(String, Helper, Vec<Expr>, Option<Expr>)> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_empty()) {
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let (ty, name) = match segs.as_slice() {
                    [n] => (String::new(), n.clone()),
                    [t, n] if t == "Self" => (self.self_ty.clone()?, n.clone()),
                    [t, n] if matches!(t.as_str(), "self" | "super" | "crate") => (String::new(), n.clone()),
                    [t, n] if t.starts_with(char::is_uppercase) => (t.clone(), n.clone()),
                    _ => return None,
                };
                let h = self.helper(&ty, &name)?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if h.sig.receiver().is_some() {
                    if args.is_empty() {
                        return None;
                    }
                    Some(args.remove(0))
                } else {
                    None
                };
                Some((name, h, args, recv))
            }
            Expr::MethodCall(m) => {
                if !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) || m.turbofish.is_some() {
                    return None;
                }
                let ty = self.self_ty.clone()?;
                let name = m.method.to_string();
                let h = self.helper(&ty, &name)?;
                h.sig.receiver()?;
                Some((name, h, m.args.iter().cloned().collect(), Some((*m.receiver).clone())))
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &Expr, u: Use) -> Option<Expr> {
        let (name, h, args, recv) = self.target(e)?;
        let params: Vec<&PatType> = h
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(t),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let mut body = h.block.clone();
        let mut lets: Vec<Stmt> = vec![];
        let mut renames: Vec<(Ident, Expr, Option<Expr>)> = vec![];
        for (p, a) in params.iter().zip(&args) {
            let Pat::Ident(id) = &*p.pat else { return None };
            let mut a = a.clone();
            while let Expr::Paren(x) = &a {
                a = (*x.expr).clone();
            }
            let is_ref_mut = matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some());
            let free = |e: &Expr| -> bool {
                // the names in the argument mean the same inside the body
                struct Names(Vec<String>);
                impl<'a> Visit<'a> for Names {
                    fn visit_path(&mut self, p: &'a Path) {
                        if let Some(i) = p.get_ident() {
                            self.0.push(i.to_string());
                        }
                    }
                }
                let mut n = Names(vec![]);
                n.visit_expr(e);
                n.0.iter().all(|x| !binds(&h.block, x))
            };
            match &a {
                Expr::Path(x) if id.mutability.is_none() && x.path.get_ident().is_some() && free(&a) => {
                    renames.push((id.ident.clone(), a.clone(), None));
                }
                Expr::Reference(r) if is_place(&r.expr) && free(&a) && id.mutability.is_none() => {
                    renames.push((id.ident.clone(), a.clone(), Some((*r.expr).clone())));
                }
                _ if is_ref_mut => return None,
                _ => {
                    self.n += 1;
                    let t = Ident::new(&format!("vx_a{}", self.n), Span::call_site());
                    let m = &id.mutability;
                    // elided references are fine in a `let`
                    if matches!(&*p.ty, Type::ImplTrait(_)) {
                        lets.push(parse_quote!(let #m #t = #a;));
                    } else {
                        let ty = &p.ty;
                        lets.push(parse_quote!(let #m #t: #ty = #a;));
                    }
                    renames.push((id.ident.clone(), parse_quote!(#t), None));
                }
            }
        }
        // all parameters at once: first to names that nothing else uses
        let mut tmp = vec![];
        for (k, (id, whole, place)) in renames.into_iter().enumerate() {
            if matches!(&whole, Expr::Path(p) if p.path.is_ident(&id)) {
                continue;
            }
            if binds(&h.block, &id.to_string()) {
                // the parameter is shadowed in the body: keep its name
                let s: Stmt = parse_quote!(let #id = #whole;);
                if matches!(&whole, Expr::Reference(r) if r.mutability.is_some()) {
                    return None;
                }
                lets.push(s);
                continue;
            }
            let t = Ident::new(&format!("vx_p{}_{k}", self.n), Span::call_site());
            let mut s = Subst { name: id, whole: parse_quote!(#t), place: None, ok: true };
            s.visit_block_mut(&mut body);
            if !s.ok {
                return None;
            }
            tmp.push((t, whole, place));
        }
        for (t, whole, place) in tmp {
            let mut s = Subst { name: t, whole, place, ok: true };
            s.visit_block_mut(&mut body);
            if !s.ok {
                return None;
            }
        }
        if let Some(r) = recv {
            let mut r = r;
            if let Expr::Reference(x) = &r {
                r = (*x.expr).clone();
            }
            if !matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
                if !is_place(&r) {
                    return None;
                }
                SelfTo(r).visit_block_mut(&mut body);
            }
        }
        let x = {
            let mut x = Exits::default();
            x.visit_block(&body);
            x
        };
        let stmts = match u {
            Use::Tail => body.stmts.clone(),
            Use::Try => no_return(&body.stmts, &|v| match &v {
                Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => c.args[0].clone(),
                Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) => {
                    parse_quote!(#v?)
                }
                _ => parse_quote!(#v?),
            })?,
            Use::Other => {
                if x.tr {
                    return None;
                }
                if x.ret {
                    no_return(&body.stmts, &|v| v)?
                } else {
                    body.stmts.clone()
                }
            }
        };
        self.stack.push(name.clone());
        let mut b: Block = parse_quote!({ #(#lets)* #(#stmts)* });
        self.block(&mut b, u == Use::Tail);
        self.stack.pop();
        self.done.push(name);
        Some(if b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(_, None)) {
            let Stmt::Expr(e, _) = b.stmts.remove(0) else { unreachable!() };
            match e {
                e @ (Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Block(_)) => e,
                e => parse_quote!((#e)),
            }
        } else {
            Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
        })
    }

    /// the body of a function, whose last expression is its value if `tail`
    pub fn block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n && tail => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(mut x) = self.expand(e, Use::Tail) {
                    if let Expr::Paren(p) = &x {
                        x = (*p.expr).clone();
                    }
                    *e = x;
                } else {
                    self.visit_expr_mut(e);
                }
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, true);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(b) => self.block(&mut b.block, true),
            e => self.visit_expr_mut(e),
        }
    }
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                // inside a closure this ends the closure, and the helper did too
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
                return;
            }
            Expr::Try(t) => {
                if let Some(x) = self.expand(&t.expr, Use::Try) {
                    *e = x;
                    return;
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                if let Some(x) = self.expand(e, Use::Other) {
                    *e = x;
                    return;
                }
            }
            Expr::Closure(c) => {
                self.tail(&mut c.body);
                return;
            }
            _ => {}
        }
        // a function where a closure is expected
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                let Expr::Path(p) = a else { continue };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let (ty, n) = match segs.as_slice() {
                    [n] => (String::new(), n.clone()),
                    [t, n] if t == "Self" => (self.self_ty.clone().unwrap_or_default(), n.clone()),
                    _ => continue,
                };
                if let Some(h) = self.helper(&ty, &n) {
                    if h.sig.inputs.len() == 1 && h.sig.receiver().is_none() {
                        let FnArg::Typed(t) = &h.sig.inputs[0] else { continue };
                        let (pt, f) = (&t.pat, &p.path);
                        let arg: Expr = match &**pt {
                            Pat::Ident(i) => {
                                let i = &i.ident;
                                parse_quote!(#i)
                            }
                            _ => continue,
                        };
                        *a = parse_quote!(|#arg| #f(#arg));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut m2 = m.clone();
        let before = self.done.len();
        if with_macro_exprs(&mut m2, |e| self.visit_expr_mut(e)) && self.done.len() > before {
            *m = m2;
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
