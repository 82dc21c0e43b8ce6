//! The lowering rules (see DESIGN.md "Extraction").  Each rule is a local,
//! syntax-directed rewrite that is applied to every extracted function.
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::{parse_quote, visit::Visit, visit_mut::VisitMut, *};

#[derive(Default, Clone)]
pub struct Config {
    /// names of `Cell` fields that are eliminated
    pub cells: BTreeSet<String>,
    /// trivial accessor methods `fn m(&self) -> &T { self.f.borrow() }`
    pub accessors: BTreeMap<String, String>,
    /// (Type) -> methods that need `&mut self` after Cell elimination
    pub muts: BTreeMap<String, BTreeSet<String>>,
    /// generic parameter substitution: name -> concrete type
    pub mono: BTreeMap<String, String>,
    /// holder types constructed from `self` by value
    pub byval: BTreeSet<String>,
    /// Type -> lifetime put on elided reference returns
    pub life: BTreeMap<String, String>,
    /// path rewriting (exact prefix, segments joined by ::)
    pub paths: Vec<(String, String)>,
    /// method renames (free-function calls): method -> function, receiver is 1st arg
    /// `for x in v` -> `for x in v.into_iter()`
    pub forinto: bool,
    /// names of fields that are vectors: prefixes of them
    pub vslice: BTreeSet<String>,
    /// printing exactly one value is a call
    pub prints: bool,
    pub methods: BTreeMap<String, String>,
    /// the same, with the receiver passed by value
    pub vmethods: BTreeMap<String, String>,
    /// as `methods`, with a mutable borrow of the receiver
    pub mmethods: BTreeMap<String, String>,
    /// names of string places: `==` and `!=` on them compare characters
    pub streq: BTreeSet<String>,
}

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

pub struct Lower<'a> {
    pub cfg: &'a Config,
    pub assoc: HashMap<String, Type>,
    pub local_result: bool,
    pub self_ty: Option<String>,
    pub unsupported: Vec<String>,
    /// write iterator chains as loops
    pub chains: bool,
    /// write `map_err` and `unwrap_or_else` of results as matches
    pub matches: bool,
    /// write `e?` with the conversion of the error
    pub tryconv: bool,
}

fn is_cell_place(cfg: &Config, e: &Expr) -> bool {
    if let Expr::Field(f) = e {
        if let Member::Named(n) = &f.member {
            return cfg.cells.contains(&n.to_string());
        }
    }
    false
}

fn is_str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

fn stringy(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => true,
        Expr::Reference(_) => true,
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            n == "as_str" || n == "to_string" || n == "to_owned"
        }
        Expr::Paren(p) => stringy(&p.expr),
        Expr::Call(c) => c.func.to_token_stream().to_string() == "vx_concat",
        _ => false,
    }
}

pub enum Piece {
    Lit(String),
    Arg(Expr, bool),
}

pub fn parse_format(tokens: TokenStream) -> std::result::Result<Vec<Piece>, String> {
    use syn::parse::Parser;
    use syn::punctuated::Punctuated;
    let args = Punctuated::<Expr, Token![,]>::parse_terminated
        .parse2(tokens)
        .map_err(|e| format!("format args: {e}"))?;
    let mut it = args.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = it.next() else {
        return Err("format string is not a literal".into());
    };
    let rest: Vec<Expr> = it.collect();
    let mut named: HashMap<String, Expr> = HashMap::new();
    let mut pos: Vec<Expr> = vec![];
    for e in rest {
        if let Expr::Assign(a) = &e {
            named.insert(a.left.to_token_stream().to_string(), (*a.right).clone());
        } else {
            pos.push(e);
        }
    }
    let mut out = vec![];
    let mut lit = String::new();
    let v = s.value();
    let cs: Vec<char> = v.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let end = (i..cs.len()).find(|&k| cs[k] == '}').ok_or("unterminated {")?;
                let inner: String = cs[i + 1..end].iter().collect();
                let (name, dbg) = match inner.split_once(':') {
                    None => (inner.clone(), false),
                    Some((n, "?")) => (n.to_string(), true),
                    Some(_) => return Err(format!("format spec {{{inner}}}")),
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let e = if name.is_empty() {
                    let e = pos.get(next).cloned().ok_or("missing format arg")?;
                    next += 1;
                    e
                } else if let Ok(k) = name.parse::<usize>() {
                    pos.get(k).cloned().ok_or("missing format arg")?
                } else if let Some(e) = named.get(&name) {
                    e.clone()
                } else {
                    parse_str::<Expr>(&name).map_err(|e| e.to_string())?
                };
                out.push(Piece::Arg(e, dbg));
                i = end + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}

impl Lower<'_> {
    fn rewrite_path(&self, p: &mut Path) {
        // Self::Output etc.
        let s = path_str(p);
        for (from, to) in &self.cfg.paths {
            let rest = if s == *from {
                Some(0)
            } else if s.starts_with(&format!("{from}::")) {
                Some(1)
            } else {
                None
            };
            if rest.is_some() {
                let nfrom = from.split("::").count();
                let tail: Vec<PathSegment> = p.segments.iter().skip(nfrom).cloned().collect();
                let lastargs = p.segments[nfrom - 1].arguments.clone();
                if to.is_empty() {
                    if tail.is_empty() {
                        continue;
                    }
                    p.leading_colon = None;
                    p.segments = tail.into_iter().collect();
                } else {
                    if tail.is_empty() && from.starts_with(char::is_lowercase) && to.ends_with(&format!("::{from}")) {
                        // A local variable with the name of a module.
                        continue;
                    }
                    let mut np: Path = parse_str(to).unwrap();
                    np.segments.last_mut().unwrap().arguments = lastargs;
                    for t in tail {
                        np.segments.push(t);
                    }
                    *p = np;
                }
                return;
            }
        }
    }

    fn is_streq(&self, e: &Expr) -> bool {
        let n = match e {
            Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            Expr::Field(f) => f.member.to_token_stream().to_string(),
            Expr::Reference(r) => return self.is_streq(&r.expr),
            Expr::Unary(u) => return self.is_streq(&u.expr),
            Expr::MethodCall(m) if m.method == "as_str" => return true,
            _ => return false,
        };
        self.cfg.streq.contains(&n)
    }

    fn format_expr(&mut self, tokens: TokenStream) -> Option<Expr> {
        match parse_format(tokens) {
            Ok(pieces) => {
                let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut vx_f = String::new();)];
                for p in pieces {
                    match p {
                        Piece::Lit(s) => stmts.push(parse_quote!(vx_f.push_str(#s);)),
                        Piece::Arg(mut e, dbg) => {
                            self.visit_expr_mut(&mut e);
                            if dbg {
                                stmts.push(parse_quote!(vx_f.push_str(vx_debug(&#e).as_str());));
                            } else {
                                stmts.push(parse_quote!(vx_f.push_str((&#e).vx_disp().as_str());));
                            }
                        }
                    }
                }
                Some(parse_quote!({ #(#stmts)* vx_f }))
            }
            Err(e) => {
                self.unsupported.push(format!("format!: {e}"));
                None
            }
        }
    }

    fn lower_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
            "assert" | "debug_assert" => {
                use syn::parse::Parser;
                let args = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
                    .parse2(mac.tokens.clone())
                    .ok()?;
                let mut c = args.first()?.clone();
                self.visit_expr_mut(&mut c);
                Some(parse_quote!(vx_assert(#c)))
            }
            "format" => self.format_expr(mac.tokens.clone()),
            "anyhow" => {
                let m = self.format_expr(mac.tokens.clone())?;
                Some(parse_quote!(vx_anyhow(#m)))
            }
            "bail" => {
                let m = self.format_expr(mac.tokens.clone())?;
                Some(parse_quote!(return Err(vx_anyhow(#m))))
            }
            "println" | "eprintln" | "print" | "eprint" => {
                // a line, as one text
                if self.cfg.prints && name.ends_with("ln") && !mac.tokens.is_empty() {
                    let m = self.format_expr(mac.tokens.clone())?;
                    let f = Ident::new(&format!("vx_{name}"), Span::call_site());
                    return Some(parse_quote!(#f(#m)));
                }
                Some(parse_quote!(vx_print()))
            }
            "write" | "writeln" => {
                // write!(f, ..)  ->  f.vx_write_str(text)
                let mut it = mac.tokens.clone().into_iter().peekable();
                let mut dst = TokenStream::new();
                while let Some(t) = it.next_if(|t| !matches!(t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',')) {
                    dst.extend([t]);
                }
                it.next();
                let mut rest: TokenStream = it.collect();
                if rest.is_empty() {
                    rest = quote!("");
                }
                let mut m = self.format_expr(rest)?;
                if name == "writeln" {
                    m = parse_quote!(vx_concat(#m, "\n"));
                }
                let dst: Expr = syn::parse2(dst).ok()?;
                Some(parse_quote!(#dst.vx_write_str(#m)))
            }
            "vec" => {
                use syn::parse::Parser;
                let args = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated
                    .parse2(mac.tokens.clone())
                    .ok()?;
                if args.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let mut args: Vec<Expr> = args.into_iter().collect();
                for a in &mut args {
                    self.visit_expr_mut(a);
                }
                let t = quote!(vec![#(#args),*]);
                Some(Expr::Verbatim(t))
            }
            "matches" => {
                // matches!(e, PAT [if g]) -> match e { PAT if g => true, _ => false }
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let mut m: M = syn::parse2(mac.tokens.clone()).ok()?;
                self.visit_expr_mut(&mut m.0);
                self.visit_pat_mut(&mut m.1);
                let (e, p) = (m.0, m.1);
                if let Some(mut g) = m.2 {
                    self.visit_expr_mut(&mut g);
                    Some(parse_quote!((match #e { #p if #g => true, _ => false })))
                } else {
                    Some(parse_quote!((match #e { #p => true, _ => false })))
                }
            }
            _ => {
                self.unsupported.push(format!("macro {name}!"));
                None
            }
        }
    }
}

// ---------------------------------------------------------------- continue
// `for` loops of the verifier have no `continue`: the statements after a branch that
// continues move into the other branch.

struct HasContinue(bool);
impl<'ast> Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
}
fn stmt_continues(s: &Stmt) -> bool {
    let mut h = HasContinue(false);
    h.visit_stmt(s);
    h.0
}
fn expr_continues(e: &Expr) -> bool {
    let mut h = HasContinue(false);
    h.visit_expr(e);
    h.0
}
fn block_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn semi(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}
/// does control never reach the end of these statements without `continue`?
fn always(stmts: &[Stmt]) -> bool {
    match stmts.last() {
        Some(Stmt::Expr(Expr::Continue(c), _)) => c.label.is_none(),
        Some(Stmt::Expr(Expr::If(i), _)) => {
            i.else_branch.as_ref().map(|(_, e)| always(&block_of(e))).unwrap_or(false) && always(&i.then_branch.stmts)
        }
        Some(Stmt::Expr(Expr::Return(_) | Expr::Break(_), _)) => true,
        _ => false,
    }
}
fn no_continue(stmts: &[Stmt]) -> std::result::Result<Vec<Stmt>, ()> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_continues(s) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        // a branch: what it becomes
        let arm = |b: &[Stmt]| -> std::result::Result<Vec<Stmt>, ()> {
            if always(b) {
                no_continue(b)
            } else {
                let mut v = b.to_vec();
                if let Some(Stmt::Expr(e, semi)) = v.last_mut() {
                    if !rest.is_empty() && semi.is_none() && matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Assign(_)) {
                        *semi = Some(Default::default());
                    }
                }
                v.extend(rest.iter().cloned());
                no_continue(&v)
            }
        };
        match s {
            Stmt::Expr(Expr::Continue(c), _) => {
                return if c.label.is_none() { Ok(out) } else { Err(()) };
            }
            Stmt::Expr(Expr::If(f), _) => {
                if expr_continues(&f.cond) {
                    return Err(());
                }
                let c = &f.cond;
                let a = arm(&f.then_branch.stmts)?;
                let b = arm(&f.else_branch.as_ref().map(|(_, e)| block_of(e)).unwrap_or_default())?;
                out.push(semi(parse_quote!(if #c { #(#a)* } else { #(#b)* })));
                return Ok(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if expr_continues(&m.expr) {
                    return Err(());
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let b = arm(&block_of(&a.body))?;
                    a.body = parse_quote!({ #(#b)* });
                    a.comma = None;
                }
                out.push(semi(Expr::Match(m)));
                return Ok(out);
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
                let v = arm(&b.block.stmts)?;
                out.push(semi(parse_quote!({ #(#v)* })));
                return Ok(out);
            }
            Stmt::Local(l) => {
                let Some(init) = &l.init else { return Err(()) };
                let (p, e) = (&l.pat, &init.expr);
                if let Some((_, d)) = &init.diverge {
                    // let P = e else { .. continue };
                    let d = block_of(d);
                    if expr_continues(e) || !always(&d) {
                        return Err(());
                    }
                    let d = no_continue(&d)?;
                    let r = no_continue(rest)?;
                    out.push(semi(parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } })));
                    return Ok(out);
                }
                // let p = match e { A => v, B => continue };
                if let Expr::Match(m) = &**e {
                    if expr_continues(&m.expr) {
                        return Err(());
                    }
                    let mut m = m.clone();
                    for a in m.arms.iter_mut() {
                        let b = block_of(&a.body);
                        let v = if always(&b) {
                            no_continue(&b)?
                        } else if expr_continues(&a.body) {
                            return Err(());
                        } else {
                            let x = &a.body;
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #p = #x;)];
                            v.extend(no_continue(rest)?);
                            v
                        };
                        a.body = parse_quote!({ #(#v)* });
                        a.comma = None;
                    }
                    out.push(semi(Expr::Match(m)));
                    return Ok(out);
                }
                return Err(());
            }
            _ => return Err(()),
        }
    }
    Ok(out)
}

/// A chain `base.into_iter().map(|p| a).filter_map(|q| b).filter(|q| c).collect()` one of whose
/// closures borrows something mutably (`&mut x`, which the verifier's closures cannot do),
/// written as the loop it stands for.
fn desugar_chain(e: &Expr, force: bool) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    let extend = force && m.method == "extend" && m.args.len() == 1;
    // `chain.count()` is the length of what it would collect
    let count = force && m.method == "count" && m.args.is_empty();
    if !extend && !count && (m.method != "collect" || !m.args.is_empty()) {
        return None;
    }
    let mut ops: Vec<(String, ExprClosure)> = vec![];
    let mut r = if extend { &m.args[0] } else { &*m.receiver };
    let base = loop {
        let Expr::MethodCall(c) = r else { return None };
        let n = c.method.to_string();
        match n.as_str() {
            "into_iter" | "iter" if c.args.is_empty() => break r.clone(),
            "map" | "filter_map" | "filter" if c.args.len() == 1 => {
                let Expr::Closure(f) = &c.args[0] else { return None };
                if f.inputs.len() != 1 {
                    return None;
                }
                ops.push((n, f.clone()));
                r = &c.receiver;
            }
            _ => return None,
        }
    };
    struct Muts(bool, bool);
    impl<'ast> Visit<'ast> for Muts {
        fn visit_expr_reference(&mut self, r: &'ast ExprReference) {
            self.0 |= r.mutability.is_some();
            visit::visit_expr_reference(self, r);
        }
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.1 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.1 = true;
        }
    }
    let mut mu = Muts(false, false);
    for (_, f) in &ops {
        mu.visit_expr(&f.body);
    }
    if !(mu.0 || force) || mu.1 {
        return None;
    }
    let to: Expr = if extend { (*m.receiver).clone() } else { parse_quote!(vx_out) };
    let mut body: Vec<Stmt> = vec![parse_quote!(#to.push(vx_x);)];
    // innermost last: ops is in reverse source order
    for (n, f) in &ops {
        let p = &f.inputs[0];
        let b = &f.body;
        let rest = std::mem::take(&mut body);
        body = match n.as_str() {
            "map" => {
                let mut v: Vec<Stmt> = vec![parse_quote!(let vx_x = { let #p = vx_x; #b };)];
                v.extend(rest);
                v
            }
            "filter_map" => vec![Stmt::Expr(
                parse_quote!(match { let #p = vx_x; #b } { Some(vx_x) => { #(#rest)* } None => {} }),
                None,
            )],
            _ => vec![Stmt::Expr(parse_quote!(if { let #p = &vx_x; #b } { #(#rest)* }), None)],
        };
    }
    if extend {
        return Some(parse_quote!({ for vx_x in #base { #(#body)* } }));
    }
    if count {
        return Some(parse_quote!({ let mut vx_out = Vec::new(); for vx_x in #base { #(#body)* } vx_out.len() }));
    }
    Some(parse_quote!({ let mut vx_out = Vec::new(); for vx_x in #base { #(#body)* } vx_out }))
}

/// `base.into_iter().filter(|p| a)` and the like, not yet consumed
fn lazy_chain(e: &Expr) -> bool {
    let Expr::MethodCall(m) = e else { return false };
    matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map")
        && m.args.len() == 1
        && matches!(&m.args[0], Expr::Closure(_))
        && (lazy_chain(&m.receiver)
            || matches!(&*m.receiver, Expr::MethodCall(b) if b.args.is_empty() && (b.method == "into_iter" || b.method == "iter")))
}

/// Does this closure body leave the closure early?
fn closure_returns(e: &Expr) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}

fn lazy_init(s: &ItemStatic) -> Option<Expr> {
    let Expr::Call(c) = &*s.expr else { return None };
    let f = c.func.to_token_stream().to_string().replace(' ', "");
    if !(f.ends_with("Lazy::new") || f.ends_with("LazyLock::new")) || c.args.len() != 1 {
        return None;
    }
    match &c.args[0] {
        Expr::Closure(k) if k.inputs.is_empty() => Some((*k.body).clone()),
        _ => None,
    }
}

fn is_panic_closure(e: &Expr) -> bool {
    if let Expr::Closure(c) = e {
        if let Expr::Macro(m) = &*c.body {
            return m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable");
        }
        if let Expr::Block(b) = &*c.body {
            if b.block.stmts.len() == 1 {
                if let Stmt::Macro(m) = &b.block.stmts[0] {
                    return m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable");
                }
            }
        }
    }
    false
}

impl VisitMut for Lower<'_> {
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.rewrite_path(p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(tp) = t {
            let s = path_str(&tp.path);
            if let Some(x) = s.strip_prefix("Self::") {
                if let Some(c) = self.assoc.get(x).cloned() {
                    *t = c;
                    self.visit_type_mut(t);
                    return;
                }
            }
            if let Some(c) = self.cfg.mono.get(&s) {
                *t = parse_str(c).unwrap();
                return;
            }
            if s == "Cell" || s == "std::cell::Cell" || s == "cell::Cell" {
                if let PathArguments::AngleBracketed(a) = &tp.path.segments.last().unwrap().arguments {
                    if let Some(GenericArgument::Type(inner)) = a.args.first() {
                        let inner = inner.clone();
                        *t = inner;
                        self.visit_type_mut(t);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(tp) = t {
            let s = path_str(&tp.path);
            let n = match &tp.path.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => a.args.len(),
                _ => 0,
            };
            let last = tp.path.segments.last().unwrap().ident.to_string();
            if last == "Result" && n == 2 && (s != "Result" || self.local_result) {
                let args = tp.path.segments.last().unwrap().arguments.clone();
                let mut np: Path = parse_quote!(core::result::Result);
                np.segments.last_mut().unwrap().arguments = args;
                tp.path = np;
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let s = match s {
                Stmt::Macro(m) => {
                    if let Some(e) = self.lower_macro(&m.mac) {
                        out.push(Stmt::Expr(e, m.semi_token));
                    } else {
                        out.push(Stmt::Macro(m));
                    }
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                // a constant: a local
                Stmt::Item(Item::Const(c)) => {
                    let (id, t, x) = (&c.ident, &c.ty, &c.expr);
                    parse_quote!(let #id: #t = #x;)
                }
                // a lazily initialised static: a local
                Stmt::Item(Item::Static(st)) if lazy_init(&st).is_some() => {
                    let (id, x) = (&st.ident, lazy_init(&st).unwrap());
                    parse_quote!(let #id = #x;)
                }
                s => s,
            };
            out.push(s);
        }
        b.stmts = out;
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // an iterator that is kept: the vector of its elements
        if let (true, Some(init)) = (self.chains, l.init.as_mut()) {
            if lazy_chain(&init.expr) {
                let x = &init.expr;
                let n: Expr = parse_quote!(#x.collect());
                if let Some(n) = desugar_chain(&n, true) {
                    *init.expr = n;
                }
            }
        }
        // let v: Vec<T> = chain  gives the loop's vector its type
        let ty = match &l.pat {
            Pat::Type(t) => Some((*t.ty).clone()),
            _ => None,
        };
        if let (Some(ty), Some(init)) = (ty, l.init.as_mut()) {
            if let Some(n) = desugar_chain(&init.expr, self.chains) {
                *init.expr = n;
                if let Expr::Block(b) = &mut *init.expr {
                    if matches!(&b.block.stmts[..], [Stmt::Local(_), ..]) {
                        b.block.stmts[0] = parse_quote!(let mut vx_out: #ty = Vec::new(););
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // while let P = e { b }  ->  loop { match e { P => b, _ => break } }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
            }
        }
        // macro expressions first
        if let Expr::Macro(m) = e {
            if let Some(n) = self.lower_macro(&m.mac.clone()) {
                *e = n;
            }
            return;
        }
        if let Some(n) = desugar_chain(e, self.chains) {
            *e = n;
        }
        // e.unwrap_or_else(|| panic!(..))  ->  e.unwrap()
        if let Expr::MethodCall(m) = e {
            if m.method == "unwrap_or_else" && m.args.len() == 1 && is_panic_closure(&m.args[0]) {
                m.method = Ident::new("unwrap", m.method.span());
                m.args.clear();
            }
        }
        // r.map_err(|p| b), r.unwrap_or_else(|p| b)  ->  match r { Ok(x) => .., Err(e) => { let p = e; b } }
        if let (true, Expr::MethodCall(m)) = (self.matches, &*e) {
            if let (1, Some(Expr::Closure(c))) = (m.args.len(), m.args.first()) {
                if c.inputs.len() == 1 && !closure_returns(&c.body) {
                    let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                    match m.method.to_string().as_str() {
                        "map_err" => {
                            *e = parse_quote!((match #x { Ok(vx_ok) => Ok(vx_ok), Err(vx_err) => Err({ let #p = vx_err; #b }) }));
                        }
                        "unwrap_or_else" => {
                            *e = parse_quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_err) => { let #p = vx_err; #b } }));
                        }
                        _ => {}
                    }
                }
            }
        }
        // v.append(&mut f(..))  ->  { let mut vx_tmp = f(..); v.append(&mut vx_tmp) }
        if let Expr::MethodCall(m) = e {
            if m.method == "append" && m.args.len() == 1 {
                if let Expr::Reference(r) = &m.args[0] {
                    if r.mutability.is_some() && matches!(&*r.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                        let (v, x) = (&m.receiver, &r.expr);
                        *e = parse_quote!({ let mut vx_tmp = #x; #v.append(&mut vx_tmp) });
                    }
                }
            }
        }
        // for mut x in xs { b }  ->  for vx_x in xs { let mut x = vx_x; b }
        if let Expr::ForLoop(f) = e {
            if let Pat::Ident(p) = &*f.pat {
                if p.mutability.is_some() && p.subpat.is_none() && p.by_ref.is_none() {
                    let id = &p.ident;
                    f.body.stmts.insert(0, parse_quote!(let mut #id = vx_elem;));
                    *f.pat = parse_quote!(vx_elem);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // the elements of an array by value
        if let Expr::MethodCall(m) = e {
            if m.method == "into_iter" && m.args.is_empty() {
                if let Expr::Array(a) = &*m.receiver {
                    let x = &a.elems;
                    *m.receiver = parse_quote!(vec![#x]);
                }
            }
        }
        // `self.m(.. &self.f ..)` where m takes `&mut self` after Cell elimination: a copy of f
        if let Expr::MethodCall(m) = e {
            let is_self = m.receiver.to_token_stream().to_string() == "self";
            let muts = self.self_ty.as_ref().and_then(|t| self.cfg.muts.get(t));
            if is_self && muts.is_some_and(|s| s.contains(&m.method.to_string())) {
                let mut lets: Vec<Stmt> = vec![];
                for (k, a) in m.args.iter_mut().enumerate() {
                    let Expr::Reference(r) = a else { continue };
                    if r.mutability.is_none() && r.expr.to_token_stream().to_string().starts_with("self .") {
                        let id = Ident::new(&format!("vx_copy{k}"), Span::call_site());
                        let x = &r.expr;
                        lets.push(parse_quote!(let #id = #x.clone();));
                        *a = parse_quote!(&#id);
                    }
                }
                if !lets.is_empty() {
                    let x = m.clone();
                    *e = parse_quote!({ #(#lets)* #x });
                    return;
                }
            }
        }
        // `a.append(&mut f(..))`: the temporary gets a name
        if let Expr::MethodCall(m) = e {
            if m.method == "append" && m.args.len() == 1 {
                if let Expr::Reference(r) = &m.args[0] {
                    if r.mutability.is_some() && matches!(&*r.expr, Expr::Call(_) | Expr::MethodCall(_)) {
                        let (x, v) = (&m.receiver, &r.expr);
                        *e = parse_quote!({ let mut vx_t = #v; #x.append(&mut vx_t) });
                        return;
                    }
                }
            }
        }
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "get" && m.args.is_empty() && is_cell_place(self.cfg, &m.receiver) {
                    Some((*m.receiver).clone())
                } else if name == "set" && m.args.len() == 1 && is_cell_place(self.cfg, &m.receiver) {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    Some(parse_quote!(#r = #a))
                } else if name == "replace" && m.args.len() == 1 && is_cell_place(self.cfg, &m.receiver) {
                    self.unsupported.push("Cell::replace".into());
                    None
                } else if m.args.is_empty()
                    && self.cfg.accessors.contains_key(&name)
                    && m.receiver.to_token_stream().to_string() == "self"
                {
                    let f = Ident::new(&self.cfg.accessors[&name], Span::call_site());
                    let r = &m.receiver;
                    Some(parse_quote!(#r.#f))
                } else if let Some((f, byval)) = {
                    let full = match &m.turbofish {
                        Some(t) => format!("{name}{}", t.to_token_stream().to_string().replace(' ', "")),
                        None => name.clone(),
                    };
                    [&full, &name].iter().find_map(|n| {
                        (self.cfg.methods.get(*n).map(|f| (f, 0)))
                            .or(self.cfg.vmethods.get(*n).map(|f| (f, 1)))
                            .or(self.cfg.mmethods.get(*n).map(|f| (f, 2)))
                    })
                } {
                    // `NAME::<>`: the type arguments of the call are kept
                    let f: Path = match (f.strip_suffix("::<>"), &m.turbofish) {
                        (Some(f), Some(t)) => parse_str(&format!("{f}{}", t.to_token_stream())).unwrap(),
                        (Some(f), None) => parse_str(f).unwrap(),
                        (None, _) => parse_str(f).unwrap(),
                    };
                    let r = &m.receiver;
                    let args = m.args.iter();
                    Some(match byval {
                        1 => parse_quote!(#f(#r, #(#args),*)),
                        2 => parse_quote!(#f(&mut #r, #(#args),*)),
                        _ => parse_quote!(#f(&#r, #(#args),*)),
                    })
                } else {
                    None
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("Cell::new") {
                    Some(c.args[0].clone())
                } else {
                    let head = f.split("::").next().unwrap_or("").to_string();
                    if self.cfg.byval.contains(&head) {
                        for a in c.args.iter_mut() {
                            if a.to_token_stream().to_string() == "self" {
                                *a = parse_quote!(*self);
                            }
                        }
                    }
                    if f == "String::from" && c.args.len() == 1 {
                        let a = &c.args[0];
                        Some(parse_quote!(vx_string_from(#a)))
                    } else {
                        None
                    }
                }
            }
            // comparison of strings named by a `streq` directive
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.is_streq(&b.left) || self.is_streq(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                Some(if matches!(b.op, BinOp::Eq(_)) {
                    parse_quote!(vx_str_eq(&#l, &#r))
                } else {
                    parse_quote!(!vx_str_eq(&#l, &#r))
                })
            }
            // comparison with a string literal: `a == "lit"` -> `vx_str_eq(&a, "lit")`
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str_lit(&b.left) || is_str_lit(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                Some(if matches!(b.op, BinOp::Eq(_)) {
                    parse_quote!(vx_str_eq(&#l, &#r))
                } else {
                    parse_quote!(!vx_str_eq(&#l, &#r))
                })
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => {
                if (stringy(&b.right) && !matches!(&*b.right, Expr::Reference(r) if !matches!(&*r.expr, Expr::Field(_)|Expr::Path(_)|Expr::Call(_)|Expr::MethodCall(_)|Expr::Index(_)|Expr::Lit(_))))
                    || is_str_lit(&b.right)
                {
                    let (l, r) = (&b.left, &b.right);
                    Some(parse_quote!(vx_concat(#l, #r)))
                } else {
                    None
                }
            }
            Expr::Try(t) if self.tryconv => {
                let x = &t.expr;
                Some(parse_quote!((match #x { Ok(vx_ok) => vx_ok, Err(vx_e) => { return Err(vx_e.vx_into()); } })))
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let base = &*ix.expr;
                    let base: Expr = match base {
                        Expr::MethodCall(_) | Expr::Call(_) => base.clone(),
                        b => parse_quote!(&#b),
                    };
                    let vec = match &*ix.expr {
                        Expr::Field(f) => self.cfg.vslice.contains(&f.member.to_token_stream().to_string()),
                        _ => false,
                    };
                    match (&r.start, &r.end) {
                        (None, Some(b)) if vec => Some(parse_quote!(vx_vslice_to(#base, #b))),
                        (Some(a), None) => Some(parse_quote!(vx_slice_from(#base, #a))),
                        (None, Some(b)) => Some(parse_quote!(vx_slice_to(#base, #b))),
                        (Some(a), Some(b)) => Some(parse_quote!(vx_slice(#base, #a, #b))),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            // `&base[a..b]` : the helper already returns a reference
            Expr::Reference(r) => {
                if let Expr::Call(c) = &*r.expr {
                    let f = c.func.to_token_stream().to_string();
                    if f == "vx_slice" || f == "vx_slice_from" || f == "vx_slice_to" {
                        Some((*r.expr).clone())
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            // |mut x, &y| body  ->  |x, y| { let mut x = x; let y = *y; body }
            Expr::Closure(c) => {
                let mut lets: Vec<Stmt> = vec![];
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    let p = match p {
                        Pat::Type(t) => &mut *t.pat,
                        p => p,
                    };
                    match p.clone() {
                        Pat::Ident(i) if i.mutability.is_some() => {
                            let id = &i.ident;
                            lets.push(parse_quote!(let mut #id = #id;));
                            *p = parse_quote!(#id);
                        }
                        Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => {
                            if let Pat::Ident(i) = &*r.pat {
                                let id = &i.ident;
                                lets.push(parse_quote!(let #id = *#id;));
                                *p = parse_quote!(#id);
                            }
                        }
                        // |(a, b)| body  ->  |vx_p0| { let (a, b) = vx_p0; body }
                        q @ (Pat::Tuple(_) | Pat::Struct(_) | Pat::TupleStruct(_) | Pat::Reference(_)) => {
                            let id = Ident::new(&format!("vx_p{k}"), Span::call_site());
                            lets.push(parse_quote!(let #q = #id;));
                            *p = parse_quote!(#id);
                        }
                        _ => {}
                    }
                }
                if !lets.is_empty() {
                    let body = &c.body;
                    let nb: Expr = match &**body {
                        Expr::Block(b) => {
                            let st = &b.block.stmts;
                            parse_quote!({ #(#lets)* #(#st)* })
                        }
                        b => parse_quote!({ #(#lets)* #b }),
                    };
                    *c.body = nb;
                }
                None
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    let lbl = &w.label;
                    Some(parse_quote!(#lbl loop { match #x { #p => #b _ => { break; } } }))
                } else {
                    None
                }
            }
            Expr::ForLoop(f) => {
                if f.body.stmts.iter().any(stmt_continues) {
                    match no_continue(&f.body.stmts) {
                        Ok(v) => f.body.stmts = v,
                        Err(()) => self.unsupported.push("continue".into()),
                    }
                }
                if self.cfg.forinto && matches!(&*f.expr, Expr::Path(_)) {
                    let x = &f.expr;
                    *f.expr = parse_quote!(#x.into_iter());
                }
                if !matches!(&*f.pat, Pat::Ident(_)) {
                    let p = f.pat.clone();
                    let v = Ident::new("vx_elem", Span::call_site());
                    *f.pat = parse_quote!(#v);
                    f.body.stmts.insert(0, parse_quote!(let #p = #v;));
                }
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// Does this method body mutate a cell, or call a mutating method on `self`?
pub struct MutScan<'a> {
    pub cfg: &'a Config,
    pub muts: &'a BTreeSet<String>,
    pub found: bool,
}
impl<'ast> Visit<'ast> for MutScan<'_> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if m.method == "set" && is_cell_place(self.cfg, &m.receiver) {
            self.found = true;
        }
        let r = m.receiver.to_token_stream().to_string().replace(' ', "");
        if r == "self" && self.muts.contains(&m.method.to_string()) {
            self.found = true;
        }
        // `self.accessor().m()` where m mutates the accessed type
        if let Expr::MethodCall(inner) = &*m.receiver {
            if self.cfg.accessors.contains_key(&inner.method.to_string()) {
                for (_, ms) in &self.cfg.muts {
                    if ms.contains(&m.method.to_string()) {
                        self.found = true;
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        use syn::parse::Parser;
        if let Ok(args) = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            for a in &args {
                let mut s = MutScan { cfg: self.cfg, muts: self.muts, found: false };
                s.visit_expr(a);
                self.found |= s.found;
            }
        }
    }
}

/// Put lifetime `lt` on elided references in a return type.
pub struct Life(pub Lifetime);
impl VisitMut for Life {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(self.0.clone());
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
}

// ---------------------------------------------------------------- splicing

#[derive(Clone, Debug)]
pub enum Where {
    Start,
    End,
    Tail,
    LoopStart(usize),
    LoopEnd(usize),
    BeforeLoop(usize),
    AfterLoop(usize),
    Call(String, usize, bool), // true = after
    Return(usize),
    Let(String, usize),
}

pub fn parse_where(s: &str) -> std::result::Result<Where, String> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let call = |x: &str| -> (String, usize) {
        match x.split_once('#') {
            Some((n, k)) => (n.to_string(), k.parse().unwrap_or(0)),
            None => (x.to_string(), 0),
        }
    };
    Ok(match w.as_slice() {
        ["start"] => Where::Start,
        ["end"] => Where::End,
        ["tail"] => Where::Tail,
        ["loop", k, "start"] => Where::LoopStart(k.parse().map_err(|_| "loop k")?),
        ["loop", k, "end"] => Where::LoopEnd(k.parse().map_err(|_| "loop k")?),
        ["before", "loop", k] => Where::BeforeLoop(k.parse().map_err(|_| "loop k")?),
        ["after", "loop", k] => Where::AfterLoop(k.parse().map_err(|_| "loop k")?),
        ["before", c] => {
            let (n, k) = call(c);
            Where::Call(n, k, false)
        }
        ["after", c] => {
            let (n, k) = call(c);
            Where::Call(n, k, true)
        }
        ["return", k] => Where::Return(k.parse().map_err(|_| "return k")?),
        ["let", c] => {
            let (n, k) = call(c);
            Where::Let(n, k)
        }
        _ => return Err(format!("bad anchor: {s}")),
    })
}

type Pos = (usize, usize);
fn pos(s: Span) -> Pos {
    (s.start().line, s.start().column)
}

struct Calls(Vec<(String, Pos)>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.visit_expr(&m.receiver);
        self.0.push((m.method.to_string(), pos(m.method.span())));
        for a in &m.args {
            self.visit_expr(a);
        }
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s = p.path.segments.last().unwrap();
            self.0.push((s.ident.to_string(), pos(s.ident.span())));
        }
        visit::visit_expr_call(self, c);
    }
}

/// Contains the call at `target`, not counting nested blocks?
struct HasDirect {
    target: (String, Pos),
    found: bool,
    deep: bool,
}
impl<'ast> Visit<'ast> for HasDirect {
    fn visit_block(&mut self, b: &'ast Block) {
        if self.deep {
            visit::visit_block(self, b);
        }
    }
    fn visit_arm(&mut self, a: &'ast Arm) {
        if self.deep {
            visit::visit_arm(self, a);
        } else if let Some((_, g)) = &a.guard {
            self.visit_expr(g);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if (m.method.to_string(), pos(m.method.span())) == self.target {
            self.found = true;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s = p.path.segments.last().unwrap();
            if (s.ident.to_string(), pos(s.ident.span())) == self.target {
                self.found = true;
            }
        }
        visit::visit_expr_call(self, c);
    }
}

fn mark(n: usize) -> Stmt {
    let n = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(vx_mark!{#n};)
}

struct InsertAtCall {
    target: (String, Pos),
    after: bool,
    n: usize,
    done: bool,
}
impl InsertAtCall {
    fn direct(&self, f: impl FnOnce(&mut HasDirect)) -> bool {
        let mut h = HasDirect { target: self.target.clone(), found: false, deep: false };
        f(&mut h);
        h.found
    }
}
impl VisitMut for InsertAtCall {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.done {
            return;
        }
        for i in 0..b.stmts.len() {
            let hit = self.direct(|h| h.visit_stmt(&b.stmts[i]));
            if hit {
                self.done = true;
                if !self.after {
                    b.stmts.insert(i, mark(self.n));
                } else {
                    match b.stmts[i].clone() {
                        Stmt::Expr(e, None) => {
                            b.stmts[i] = parse_quote!(let vx_t = #e;);
                            b.stmts.insert(i + 1, mark(self.n));
                            b.stmts.insert(i + 2, Stmt::Expr(parse_quote!(vx_t), None));
                        }
                        _ => b.stmts.insert(i + 1, mark(self.n)),
                    }
                }
                return;
            }
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if self.done || matches!(&*a.body, Expr::Block(_)) {
            return;
        }
        if self.direct(|h| h.visit_expr(&a.body)) {
            self.done = true;
            let e = &a.body;
            let m = mark(self.n);
            *a.body = if self.after {
                parse_quote!({ let vx_t = #e; #m vx_t })
            } else {
                parse_quote!({ #m #e })
            };
            a.comma = Some(Default::default());
        }
    }
}

struct Loops<'a> {
    n: usize,
    specs: &'a BTreeMap<usize, usize>,     // loop k -> text
    starts: &'a BTreeMap<usize, Vec<usize>>,
    ends: &'a BTreeMap<usize, Vec<usize>>,
    used: BTreeSet<usize>,
}
impl Loops<'_> {
    fn body(&mut self, k: usize, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if let Some(ts) = self.starts.get(&k) {
            for t in ts.iter().rev() {
                b.stmts.insert(0, mark(*t));
                self.used.insert(*t);
            }
        }
        if let Some(ts) = self.ends.get(&k) {
            for t in ts {
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                b.stmts.push(mark(*t));
                self.used.insert(*t);
            }
        }
        if let Some(t) = self.specs.get(&k) {
            let l = proc_macro2::Literal::usize_unsuffixed(*t);
            b.stmts.insert(0, parse_quote!(vx_loopspec!{#l};));
            self.used.insert(*t);
        }
    }
}
impl VisitMut for Loops<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let k = self.n;
                self.n += 1;
                self.body(k, &mut l.body);
            }
            Expr::While(l) => {
                let k = self.n;
                self.n += 1;
                visit_mut::visit_expr_mut(self, &mut l.cond);
                self.body(k, &mut l.body);
            }
            Expr::ForLoop(l) => {
                let k = self.n;
                self.n += 1;
                visit_mut::visit_expr_mut(self, &mut l.expr);
                self.body(k, &mut l.body);
                let kl = proc_macro2::Literal::usize_unsuffixed(k);
                let x = &l.expr;
                *l.expr = parse_quote!(vx_forname!{#kl #x});
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

struct AroundLoops {
    k: usize,
    n: usize,
    after: bool,
    text: usize,
    done: bool,
}
fn count_loops_stmt(s: &Stmt) -> usize {
    struct C(usize);
    impl<'a> Visit<'a> for C {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                self.0 += 1;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut c = C(0);
    c.visit_stmt(s);
    c.0
}
impl VisitMut for AroundLoops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let cnt = count_loops_stmt(&b.stmts[i]);
            let is_loop = match &b.stmts[i] {
                Stmt::Expr(e, _) => matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)),
                _ => false,
            };
            if is_loop && self.n == self.k {
                self.done = true;
                if self.after {
                    b.stmts.insert(i + 1, mark(self.text));
                } else {
                    b.stmts.insert(i, mark(self.text));
                }
                return;
            }
            if self.n + cnt > self.k {
                if is_loop {
                    self.n += 1;
                }
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                return;
            }
            self.n += cnt;
            i += 1;
        }
    }
}

struct Closures<'a> {
    n: usize,
    specs: &'a BTreeMap<usize, usize>,
    used: BTreeSet<usize>,
    /// texts to insert at the start of a closure's body
    starts: &'a BTreeMap<usize, usize>,
}
impl VisitMut for Closures<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            let k = self.n;
            self.n += 1;
            visit_mut::visit_expr_mut(self, &mut c.body);
            if let Some(t) = self.specs.get(&k) {
                let l = proc_macro2::Literal::usize_unsuffixed(*t);
                let body: Expr = match (&*c.body, self.starts.get(&k)) {
                    (b @ Expr::Block(_), None) => b.clone(),
                    (b, None) => parse_quote!({ #b }),
                    (Expr::Block(b), Some(t)) => {
                        let mut b = b.clone();
                        b.block.stmts.insert(0, mark(*t));
                        Expr::Block(b)
                    }
                    (b, Some(t)) => {
                        let m = mark(*t);
                        parse_quote!({ #m #b })
                    }
                };
                self.used.insert(*t);
                *e = parse_quote!(vx_clos!{#l #body});
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Returns {
    n: usize,
    k: usize,
    t: usize,
    done: bool,
}
impl VisitMut for Returns {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if self.n == self.k && !self.done {
                self.done = true;
                let m = mark(self.t);
                *e = match &r.expr {
                    Some(x) => parse_quote!({ let vx_r = #x; #m return vx_r; }),
                    None => parse_quote!({ #m return; }),
                };
                self.n += 1;
                return;
            }
            self.n += 1;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Lets {
    name: String,
    k: usize,
    n: usize,
    t: usize,
    done: bool,
}
impl VisitMut for Lets {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let is = match &b.stmts[i] {
                Stmt::Local(l) => {
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p {
                        p = &t.pat;
                    }
                    matches!(p, Pat::Ident(id) if id.ident == self.name)
                }
                _ => false,
            };
            if is {
                if self.n == self.k {
                    self.done = true;
                    b.stmts.insert(i + 1, mark(self.t));
                    return;
                }
                self.n += 1;
            }
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            i += 1;
        }
    }
}

#[derive(Default)]
pub struct Splices {
    pub loops: Vec<(usize, String)>,
    pub closures: Vec<(usize, String)>,
    pub ats: Vec<(String, String)>,
}

pub struct Spliced {
    pub missing: Vec<String>,
    pub loops: usize,
    pub closures: usize,
}

pub fn splice(block: &mut Block, sp: &Splices, texts: &mut Vec<String>) -> std::result::Result<Spliced, String> {
    let mut missing = vec![];
    let mut add = |t: &str| {
        texts.push(t.to_string());
        texts.len() - 1
    };
    // anchors by call / let / return are resolved on the unspliced body
    let mut loop_specs = BTreeMap::new();
    let mut starts: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut ends: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut around = vec![];
    let mut simple = vec![];
    for (k, t) in &sp.loops {
        loop_specs.insert(*k, add(t));
    }
    let mut calls = Calls(vec![]);
    calls.visit_block(block);
    for (w, t) in &sp.ats {
        let n = add(t);
        match parse_where(w)? {
            Where::Call(name, k, after) => {
                let c: Vec<_> = calls.0.iter().filter(|c| c.0 == name).collect();
                match c.get(k) {
                    None => missing.push(w.clone()),
                    Some(c) => {
                        let mut ins = InsertAtCall { target: (*c).clone(), after, n, done: false };
                        ins.visit_block_mut(block);
                        if !ins.done {
                            missing.push(w.clone());
                        }
                    }
                }
            }
            Where::Return(k) => {
                let mut r = Returns { n: 0, k, t: n, done: false };
                r.visit_block_mut(block);
                if !r.done {
                    missing.push(w.clone());
                }
            }
            Where::Let(name, k) => {
                let mut r = Lets { name, n: 0, k, t: n, done: false };
                r.visit_block_mut(block);
                if !r.done {
                    missing.push(w.clone());
                }
            }
            Where::LoopStart(k) => starts.entry(k).or_default().push(n),
            Where::LoopEnd(k) => ends.entry(k).or_default().push(n),
            Where::BeforeLoop(k) => around.push((k, false, n, w.clone())),
            Where::AfterLoop(k) => around.push((k, true, n, w.clone())),
            o => simple.push((o, n)),
        }
    }
    for (k, after, n, w) in around {
        let mut a = AroundLoops { k, n: 0, after, text: n, done: false };
        a.visit_block_mut(block);
        if !a.done {
            missing.push(w);
        }
    }
    let mut l = Loops { n: 0, specs: &loop_specs, starts: &starts, ends: &ends, used: Default::default() };
    l.visit_block_mut(block);
    let nloops = l.n;
    for (k, t) in loop_specs.iter() {
        if !l.used.contains(t) {
            missing.push(format!("loop {k}"));
        }
    }
    for (k, ts) in starts.iter().chain(ends.iter()) {
        for t in ts {
            if !l.used.contains(t) {
                missing.push(format!("loop {k} start/end"));
            }
        }
    }
    let mut clos_specs = BTreeMap::new();
    let mut clos_starts = BTreeMap::new();
    for (k, t) in &sp.closures {
        // header, and after a line `---` what goes to the start of the body
        let (h, b) = match t.split_once("---\n") {
            Some((h, b)) => (h.to_string(), Some(b.to_string())),
            None => (t.clone(), None),
        };
        texts.push(h);
        clos_specs.insert(*k, texts.len() - 1);
        if let Some(b) = b {
            texts.push(b);
            clos_starts.insert(*k, texts.len() - 1);
        }
    }
    let mut c = Closures { n: 0, specs: &clos_specs, starts: &clos_starts, used: Default::default() };
    c.visit_block_mut(block);
    let nclos = c.n;
    for (k, t) in &clos_specs {
        if !c.used.contains(t) {
            missing.push(format!("closure {k}"));
        }
    }
    for (w, n) in simple {
        match w {
            Where::Start => block.stmts.insert(0, mark(n)),
            Where::End => block.stmts.push(mark(n)),
            Where::Tail => match block.stmts.last().cloned() {
                Some(Stmt::Expr(e, None)) => {
                    block.stmts.pop();
                    block.stmts.push(parse_quote!(let vx_r = #e;));
                    block.stmts.push(mark(n));
                    block.stmts.push(Stmt::Expr(parse_quote!(vx_r), None));
                }
                _ => block.stmts.push(mark(n)),
            },
            _ => unreachable!(),
        }
    }
    Ok(Spliced { missing, loops: nloops, closures: nclos })
}
