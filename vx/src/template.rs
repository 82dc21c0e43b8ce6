//! Reads a unit template, finds the named items in /repo, lowers and splices them.
use crate::inline::*;
use crate::lower::*;
use crate::print::print;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::{parse_quote, parse_str, visit::Visit, visit_mut::VisitMut, *};

pub struct Out {
    pub text: String,
    pub json: String,
}

type Res<T> = std::result::Result<T, String>;

struct Found {
    sig: Signature,
    block: Option<Block>,
    assoc: HashMap<String, Type>,
    self_ty: Option<String>,
    line: usize,
    impl_generics: Generics,
}

struct Files {
    repo: String,
    map: BTreeMap<String, File>,
    known: BTreeSet<String>,
    /// the string literals of each function of this unit when its contract was written
    lits: HashMap<String, BTreeSet<String>>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => t.to_token_stream().to_string(),
    }
}

/// `crate/path`: a source file of the version of a dependency that Cargo.lock names
fn dependency(repo: &str, x: &str) -> Res<String> {
    let (name, rest) = x.split_once('/').ok_or("dependency path")?;
    let lock = fs::read_to_string(format!("{repo}/Cargo.lock")).map_err(|e| format!("Cargo.lock: {e}"))?;
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    let mut it = lock.lines();
    while let Some(l) = it.next() {
        if l.trim() == format!("name = \"{name}\"") {
            let v = it.next().unwrap_or("").trim().trim_start_matches("version = ").trim_matches('"').to_string();
            for d in fs::read_dir(format!("{home}/registry/src")).map_err(|e| format!("{home}: {e}"))?.flatten() {
                let p = d.path().join(format!("{name}-{v}")).join(rest);
                if p.exists() {
                    return Ok(p.to_string_lossy().into_owned());
                }
            }
        }
    }
    Err(format!("no source of {x}"))
}

impl Files {
    /// a function of the same file, or else the only free function of that name in /repo
    fn helper(&mut self, f: &str, ty: &str, name: &str) -> Option<Helper> {
        let path = if ty.is_empty() { name.to_string() } else { format!("{ty}::{name}") };
        if let Ok(x) = self.find_fn(f, &path) {
            return x.block.map(|block| Helper { sig: x.sig, block });
        }
        if !ty.is_empty() || f.starts_with('@') {
            return None;
        }
        let mut hits = vec![];
        let mut dirs = vec![std::path::PathBuf::from(format!("{}/crates", self.repo))];
        while let Some(d) = dirs.pop() {
            for e in fs::read_dir(&d).ok()?.flatten() {
                let p = e.path();
                if p.is_dir() {
                    if !matches!(p.file_name().and_then(|n| n.to_str()), Some("tests" | "benches" | "target")) {
                        dirs.push(p);
                    }
                } else if p.extension().is_some_and(|x| x == "rs") {
                    hits.push(p.to_string_lossy().into_owned());
                }
            }
        }
        let found: Vec<Found> = hits.iter().filter_map(|p| self.find_fn(p, name).ok()).collect();
        let mut it = found.into_iter();
        match (it.next(), it.next()) {
            (Some(x), None) => x.block.map(|block| Helper { sig: x.sig, block }),
            _ => None,
        }
    }

    fn get(&mut self, f: &str) -> Res<&File> {
        if !self.map.contains_key(f) {
            let p = if let Some(x) = f.strip_prefix('@') {
                dependency(&self.repo, x)?
            } else if f.starts_with('/') {
                f.to_string()
            } else {
                format!("{}/{}", self.repo, f)
            };
            let s = fs::read_to_string(&p).map_err(|e| format!("read {p}: {e}"))?;
            let file = parse_file(&s).map_err(|e| format!("parse {p}: {e}"))?;
            self.map.insert(f.to_string(), file);
        }
        Ok(&self.map[f])
    }

    fn find_fn(&mut self, f: &str, path: &str) -> Res<Found> {
        let file = self.get(f)?;
        let (ty, name) = match path.rsplit_once("::") {
            Some((t, n)) => (Some(t.to_string()), n.to_string()),
            None => (None, path.to_string()),
        };
        if let ("#error", Some(t)) = (name.as_str(), &ty) {
            return error_fn(file, t);
        }
        for it in &file.items {
            match it {
                Item::Fn(x) if ty.is_none() && x.sig.ident == name && !is_test(&x.attrs) => {
                    return Ok(Found {
                        sig: x.sig.clone(),
                        block: Some((*x.block).clone()),
                        assoc: HashMap::new(),
                        self_ty: None,
                        line: x.sig.ident.span().start().line,
                        impl_generics: Generics::default(),
                    })
                }
                Item::Impl(im) if ty.as_deref() == Some(ty_name(&im.self_ty).as_str()) => {
                    let mut assoc = HashMap::new();
                    for ii in &im.items {
                        if let ImplItem::Type(t) = ii {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for ii in &im.items {
                        if let ImplItem::Fn(x) = ii {
                            if x.sig.ident == name && !is_test(&x.attrs) {
                                return Ok(Found {
                                    sig: x.sig.clone(),
                                    block: Some(x.block.clone()),
                                    assoc,
                                    self_ty: ty,
                                    line: x.sig.ident.span().start().line,
                                    impl_generics: im.generics.clone(),
                                });
                            }
                        }
                    }
                }
                Item::Trait(tr) if ty.as_deref() == Some(tr.ident.to_string().as_str()) => {
                    for ii in &tr.items {
                        if let TraitItem::Fn(x) = ii {
                            if x.sig.ident == name {
                                return Ok(Found {
                                    sig: x.sig.clone(),
                                    block: x.default.clone(),
                                    assoc: HashMap::new(),
                                    self_ty: ty,
                                    line: x.sig.ident.span().start().line,
                                    impl_generics: tr.generics.clone(),
                                });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        Err(format!("item not found: fn {path} in {f}"))
    }
}

/// what thiserror's `#[error("..", args)]` attributes expand to: a match that formats the
/// fields of each variant
fn error_fn(file: &File, name: &str) -> Res<Found> {
    use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
    fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
        matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    // `.0` and `.name` at the start of an expression
    fn fields(ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < v.len() {
            let first = i == 0 || is_punct(v.get(i - 1), ',') || is_punct(v.get(i - 1), '=') || is_punct(v.get(i - 1), '&');
            match (&v[i], v.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Literal(l))) if p.as_char() == '.' && first => {
                    out.push(TokenTree::Ident(Ident::new(&format!("vx_f{l}"), Span::call_site())));
                    i += 2;
                }
                (TokenTree::Punct(p), Some(TokenTree::Ident(l))) if p.as_char() == '.' && first => {
                    out.push(TokenTree::Ident(l.clone()));
                    i += 2;
                }
                (TokenTree::Group(g), _) => {
                    out.push(TokenTree::Group(Group::new(g.delimiter(), fields(g.stream()))));
                    i += 1;
                }
                (t, _) => {
                    out.push(t.clone());
                    i += 1;
                }
            }
        }
        let _ = Delimiter::None;
        out.into_iter().collect()
    }
    // `{0}` in the text
    fn text(ts: TokenStream) -> Res<TokenStream> {
        let mut it = ts.into_iter();
        let lit = it.next().ok_or("error attribute")?;
        let l: LitStr = syn::parse2(lit.to_token_stream()).map_err(|e| format!("error attribute: {e}"))?;
        let mut s = l.value();
        for k in 0..10 {
            s = s.replace(&format!("{{{k}}}"), &format!("{{vx_f{k}}}"));
        }
        let l = LitStr::new(&s, Span::call_site());
        let rest: TokenStream = it.collect();
        let rest = fields(rest);
        Ok(quote!(#l #rest))
    }
    fn body(attrs: &[Attribute]) -> Res<TokenStream> {
        let a = attrs.iter().find(|a| a.path().is_ident("error")).ok_or("no error attribute")?;
        let Meta::List(l) = &a.meta else { return Err("error attribute".into()) };
        let t = text(l.tokens.clone())?;
        Ok(quote!(format!(#t)))
    }
    fn pat(f: &Fields) -> TokenStream {
        match f {
            Fields::Unit => quote!(),
            Fields::Unnamed(u) => {
                let v: Vec<Ident> = (0..u.unnamed.len()).map(|k| Ident::new(&format!("vx_f{k}"), Span::call_site())).collect();
                quote!((#(#v),*))
            }
            Fields::Named(n) => {
                let v: Vec<&Ident> = n.named.iter().filter_map(|f| f.ident.as_ref()).collect();
                quote!({ #(#v),* })
            }
        }
    }
    let id = Ident::new(name, Span::call_site());
    for it in &file.items {
        let (arms, line): (Vec<TokenStream>, usize) = match it {
            Item::Enum(e) if e.ident == name => {
                let mut v = vec![];
                for x in &e.variants {
                    let (n, p, b) = (&x.ident, pat(&x.fields), body(&x.attrs)?);
                    v.push(quote!(#id::#n #p => #b));
                }
                (v, e.ident.span().start().line)
            }
            Item::Struct(s) if s.ident == name => {
                let (p, b) = (pat(&s.fields), body(&s.attrs)?);
                (vec![quote!(#id #p => #b)], s.ident.span().start().line)
            }
            _ => continue,
        };
        let sig: Signature = parse_quote!(fn vx_disp(&self) -> String);
        let block: Block = parse_quote!({ match self { #(#arms),* } });
        return Ok(Found { sig, block: Some(block), assoc: HashMap::new(), self_ty: Some(name.into()), line, impl_generics: Generics::default() });
    }
    Err(format!("item not found: {name}"))
}

/// methods of every type in the file (for `&mut self` inference and accessors)
fn scan_impls(file: &File, cfg: &mut Config) {
    let mut methods: Vec<(String, ImplItemFn)> = vec![];
    for it in &file.items {
        if let Item::Impl(im) = it {
            for ii in &im.items {
                if let ImplItem::Fn(f) = ii {
                    let t = ty_name(&im.self_ty);
                    if f.block.stmts.len() == 1 {
                        if let Stmt::Expr(e, None) = &f.block.stmts[0] {
                            let s = e.to_token_stream().to_string().replace(' ', "");
                            if let Some(x) = s.strip_prefix("self.").and_then(|s| s.strip_suffix(".borrow()")) {
                                cfg.accessors.insert(f.sig.ident.to_string(), x.to_string());
                            }
                        }
                    }
                    methods.push((t, f.clone()));
                }
            }
        }
    }
    loop {
        let mut changed = false;
        for (t, f) in &methods {
            let name = f.sig.ident.to_string();
            let empty = BTreeSet::new();
            let cur = cfg.muts.get(t).unwrap_or(&empty).clone();
            if cur.contains(&name) {
                continue;
            }
            let already = matches!(f.sig.receiver(), Some(r) if r.mutability.is_some() && r.reference.is_some());
            let mut s = MutScan { cfg, muts: &cur, found: already };
            s.visit_block(&f.block);
            if s.found {
                cfg.muts.entry(t.clone()).or_default().insert(name);
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
}

struct FnDir {
    file: String,
    path: String,
    opts: Vec<String>,
    spec: String,
    splices: Splices,
}

fn parse_fn_block(head: &[&str], body: &[String]) -> Res<FnDir> {
    if head.len() < 2 {
        return Err(format!("fn directive: {head:?}"));
    }
    let mut d = FnDir {
        file: head[0].into(),
        path: head[1].into(),
        opts: head[2..].iter().map(|s| s.to_string()).collect(),
        spec: String::new(),
        splices: Splices::default(),
    };
    enum S {
        Spec,
        Loop(usize),
        Clos(usize),
        At(String),
    }
    let mut st = S::Spec;
    let mut buf = String::new();
    let flush = |st: &S, buf: &mut String, d: &mut FnDir| {
        let t = std::mem::take(buf);
        match st {
            S::Spec => d.spec = t,
            S::Loop(k) => d.splices.loops.push((*k, t)),
            S::Clos(k) => d.splices.closures.push((*k, t)),
            S::At(w) => d.splices.ats.push((w.clone(), t)),
        }
    };
    for l in body {
        let tl = l.trim_start();
        if let Some(r) = tl.strip_prefix("//@@ ") {
            flush(&st, &mut buf, &mut d);
            let w: Vec<&str> = r.split_whitespace().collect();
            st = match w.as_slice() {
                ["loop", k] => S::Loop(k.parse().map_err(|_| "loop k")?),
                ["closure", k] => S::Clos(k.parse().map_err(|_| "closure k")?),
                ["at", rest @ ..] => S::At(rest.join(" ")),
                _ => return Err(format!("bad directive in fn: {l}")),
            };
        } else {
            buf.push_str(l);
            buf.push('\n');
        }
    }
    flush(&st, &mut buf, &mut d);
    Ok(d)
}

fn load_lines(dir: &str, name: &str, seen: &mut BTreeSet<String>) -> Res<Vec<String>> {
    let p = format!("{dir}/{name}.vrs");
    let s = fs::read_to_string(&p).map_err(|e| format!("read {p}: {e}"))?;
    let mut out = vec![];
    for l in s.lines() {
        if let Some(r) = l.trim_start().strip_prefix("//@@ include ") {
            let r = r.trim();
            if seen.insert(r.to_string()) {
                out.extend(load_lines(dir, r, seen)?);
            }
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}

/// the contract text of `path` in the unit that proves it
fn contract_from(dir: &str, unit: &str, path: &str) -> Res<String> {
    let lines = load_lines(dir, unit, &mut BTreeSet::new())?;
    let mut i = 0;
    while i < lines.len() {
        if let Some(r) = lines[i].trim_start().strip_prefix("//@@ fn ") {
            let head: Vec<&str> = r.split_whitespace().collect();
            let mut j = i + 1;
            while j < lines.len() && lines[j].trim() != "//@@ end" {
                j += 1;
            }
            if head.get(1) == Some(&path) && !head.contains(&"stub") {
                let d = parse_fn_block(&head, &lines[i + 1..j])?;
                return Ok(d.spec);
            }
            i = j;
        }
        i += 1;
    }
    Err(format!("no contract for {path} in unit {unit}"))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ")
}

pub fn run(repo: &str, dir: &str, unit: &str) -> Res<Out> {
    let lines = load_lines(dir, unit, &mut BTreeSet::new())?;
    let mut files = Files { repo: repo.into(), map: BTreeMap::new(), known: BTreeSet::new(), lits: baseline_lits(dir, unit) };
    let mut cfg = Config::default();
    // pass 1: configuration and files
    let mut used_files = BTreeSet::new();
    for l in &lines {
        let Some(r) = l.trim_start().strip_prefix("//@@ ") else { continue };
        let w: Vec<&str> = r.split_whitespace().collect();
        match w.as_slice() {
            ["cell", rest @ ..] => cfg.cells.extend(rest.iter().map(|s| s.to_string())),
            ["mono", kv] => {
                let (k, v) = kv.split_once('=').ok_or("mono")?;
                cfg.mono.insert(k.into(), v.into());
            }
            ["forinto"] => cfg.forinto = true,
            ["vslice", n @ ..] => cfg.vslice.extend(n.iter().map(|x| x.to_string())),
            ["prints"] => cfg.prints = true,
            ["byval", t] => {
                cfg.byval.insert(t.to_string());
            }
            ["life", t, l] => {
                cfg.life.insert(t.to_string(), l.to_string());
            }
            ["path", from, "=", to] => cfg.paths.push((from.to_string(), to.to_string())),
            ["path", from, "="] => cfg.paths.push((from.to_string(), String::new())),
            ["method", from, "=", to] => {
                cfg.methods.insert(from.to_string(), to.to_string());
            }
            ["streq", rest @ ..] => cfg.streq.extend(rest.iter().map(|s| s.to_string())),
            ["mmethod", from, "=", to] => {
                cfg.mmethods.insert(from.to_string(), to.to_string());
            }
            ["vmethod", from, "=", to] => {
                cfg.vmethods.insert(from.to_string(), to.to_string());
            }
            ["fn", f, ..] => {
                used_files.insert(f.to_string());
            }
            _ => {}
        }
    }
    for f in &used_files {
        let file = files.get(f)?.clone();
        scan_impls(&file, &mut cfg);
    }
    // what the unit knows: the functions under contract and every function it declares itself
    for l in &lines {
        let mut rest = l.as_str();
        if let Some(r) = l.trim_start().strip_prefix("//@@ fn ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            if let Some(p) = w.get(1) {
                files.known.insert(p.rsplit("::").next().unwrap().to_string());
            }
            if let Some(n) = w.iter().find_map(|o| o.strip_prefix("name=")) {
                files.known.insert(n.to_string());
            }
            continue;
        }
        while let Some(i) = rest.find("fn ") {
            let n: String = rest[i + 3..].trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            files.known.insert(n);
            rest = &rest[i + 3..];
        }
    }
    for n in cfg.methods.keys().chain(cfg.vmethods.keys()).chain(cfg.mmethods.keys()).chain(cfg.accessors.keys()) {
        files.known.insert(n.clone());
    }
    for (a, _) in &cfg.paths {
        files.known.insert(a.rsplit("::").next().unwrap().to_string());
    }
    // pass 2: output
    let mut text = String::new();
    let mut fns: Vec<String> = vec![];
    let mut lits: BTreeSet<String> = BTreeSet::new();
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        let Some(r) = l.trim_start().strip_prefix("//@@ ") else {
            text.push_str(l);
            text.push('\n');
            i += 1;
            continue;
        };
        let w: Vec<&str> = r.split_whitespace().collect();
        match w[0] {
            "cell" | "mono" | "forinto" | "prints" | "vslice" | "byval" | "life" | "path" | "method" | "vmethod" | "mmethod" | "streq" => {}
            "struct" | "enum" | "type" | "const" => {
                let file = files.get(w[1])?.clone();
                let opts: HashMap<&str, &str> = w[3..].iter().filter_map(|s| s.split_once('=')).collect();
                text.push_str(&emit_item(&file, w[0], w[2], &opts, &cfg)?);
            }
            // strconst FILE NAME SPEC: the text of a constant, anywhere in the file, and
            // whether that is comments and blanks only, in the syntax of Solidity
            "strconst" => {
                let file = files.get(w[1])?.clone();
                let lit = str_const(&file, w[2]).ok_or(format!("item not found: const {}", w[2]))?;
                text.push_str(&format!("pub open spec fn {}() -> Seq<char> {{ {}@ }}\n", w[3], lit.to_token_stream()));
                text.push_str(&format!("pub open spec fn {}_is_comment() -> bool {{ {} }}\n", w[3], only_comments(&lit)));
            }
            // litfacts NAME WORD...: a lemma that says which string literals of the unit's
            // functions contain these words
            "litfacts" => text.push_str(&format!("/*VX_LITFACTS {}*/\n", w[1..].join(" "))),
            "fn" => {
                let mut j = i + 1;
                while j < lines.len() && lines[j].trim() != "//@@ end" {
                    j += 1;
                }
                let d = parse_fn_block(&w[1..], &lines[i + 1..j])?;
                let start = text.matches('\n').count() + 1;
                let (t, info) = match emit_fn(&mut files, &d, &cfg, dir) {
                    Ok(x) => x,
                    Err(e) => (
                        format!("// vx: {e}\n"),
                        format!("\"error\":\"{}\"", esc(&e)),
                    ),
                };
                literals(&t, &mut lits);
                text.push_str(&t);
                let end = text.matches('\n').count() + 1;
                fns.push(format!(
                    "{{\"path\":\"{}\",\"file\":\"{}\",\"stub\":{},\"from\":\"{}\",\"start\":{start},\"end\":{end},{info}}}",
                    d.path,
                    d.file,
                    d.opts.iter().any(|o| o == "stub"),
                    d.opts.iter().find_map(|o| o.strip_prefix("from=")).unwrap_or("")
                ));
                i = j;
            }
            _ => return Err(format!("unknown directive: {l}")),
        }
        i += 1;
    }
    while let Some(a) = text.find("/*VX_LITFACTS ") {
        let b = a + text[a..].find("*/").unwrap();
        let w: Vec<String> = text[a + 14..b].split_whitespace().map(str::to_string).collect();
        text.replace_range(a..b + 2, &litfacts(&w[0], &w[1..], &lits));
    }
    let json = format!("{{\"unit\":\"{unit}\",\"fns\":[{}]}}", fns.join(",\n"));
    Ok(Out { text, json })
}

/// the string literals of a text
fn literals(t: &str, out: &mut BTreeSet<String>) {
    fn walk(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Literal(l) => {
                    if let Ok(s) = parse_str::<LitStr>(&l.to_string()) {
                        out.insert(s.value());
                    }
                }
                _ => {}
            }
        }
    }
    if let Ok(ts) = t.parse() {
        walk(ts, out);
    }
}

/// `mentions(literal, word)` for every literal and every word in it, on one line
fn litfacts(name: &str, words: &[String], lits: &BTreeSet<String>) -> String {
    let q = |s: &str| proc_macro2::Literal::string(s).to_string();
    let (mut ens, mut body) = (String::new(), String::new());
    for l in lits {
        for w in words {
            if let Some(i) = l.find(w.as_str()) {
                let (a, b) = (&l[..i], &l[i + w.len()..]);
                ens.push_str(&format!(" mentions({}@, {}@),", q(l), q(w)));
                for x in [l, a, w, b] {
                    body.push_str(&format!(" reveal_strlit({});", q(x)));
                }
                body.push_str(&format!(" assert({}@ =~= around({}@, {}@, {}@));", q(l), q(a), q(w), q(b)));
            }
        }
    }
    format!("proof fn {name}() ensures true,{ens} {{{body} }}")
}

fn str_const(file: &File, name: &str) -> Option<LitStr> {
    struct V<'a>(&'a str, Option<LitStr>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_item_const(&mut self, c: &'ast ItemConst) {
            if let (true, Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = (c.ident == self.0, &*c.expr) {
                self.1 = Some(s.clone());
            }
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_file(&mut v, file);
    v.1
}

fn strip_fields(fields: &mut Fields, low: &mut Lower) {
    for f in fields.iter_mut() {
        f.attrs.clear();
        if f.ident.is_some() || true {
            f.vis = parse_quote!(pub);
        }
        low.visit_type_mut(&mut f.ty);
    }
}

fn keep_generics(g: &Generics, cfg: &Config) -> Generics {
    let mut g = g.clone();
    g.params = g
        .params
        .into_iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !cfg.mono.contains_key(&t.ident.to_string()),
            _ => true,
        })
        .collect();
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    g
}

/// `sub=A:B,C:D`: path replacements for one directive only
fn with_subs(cfg: &Config, sub: Option<&str>) -> Config {
    let mut c = cfg.clone();
    if let Some(s) = sub {
        for kv in s.split(',') {
            if let Some((a, b)) = kv.split_once('=').or_else(|| kv.rsplit_once("->")) {
                c.paths.insert(0, (a.to_string(), b.to_string()));
            }
        }
    }
    c
}

fn derived(file: &File, name: &str, t: &str) -> bool {
    file.items.iter().any(|it| {
        let (id, attrs) = match it {
            Item::Struct(s) => (&s.ident, &s.attrs),
            Item::Enum(s) => (&s.ident, &s.attrs),
            _ => return false,
        };
        id == name
            && attrs.iter().any(|a| {
                a.path().is_ident("derive")
                    && a.to_token_stream().into_iter().any(|x| match x {
                        proc_macro2::TokenTree::Group(g) => {
                            fn has(g: proc_macro2::TokenStream, t: &str) -> bool {
                                g.into_iter().any(|x| match x {
                                    proc_macro2::TokenTree::Ident(i) => i == t,
                                    proc_macro2::TokenTree::Group(g) => has(g.stream(), t),
                                    _ => false,
                                })
                            }
                            has(g.stream(), t)
                        }
                        _ => false,
                    })
            })
    })
}

fn emit_item(file: &File, kind: &str, name: &str, opts: &HashMap<&str, &str>, cfg: &Config) -> Res<String> {
    let cfg = &with_subs(cfg, opts.get("sub").copied());
    let mut low = Lower {
        cfg,
        assoc: HashMap::new(),
        local_result: false,
        self_ty: None,
        unsupported: vec![],
        chains: false,
        matches: false,
        tryconv: false,
    };
    let rename = opts.get("as").map(|s| Ident::new(s, Span::call_site()));
    let derive = opts.get("derive").map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
    // what is derived here must not be implemented by hand in the source, what is relied
    // on (`needs=`) has to be derived there
    for t in opts.get("derive").into_iter().flat_map(|d| d.split(',')) {
        let by_hand = file.items.iter().any(|it| match it {
            Item::Impl(i) => {
                let to = i.trait_.as_ref().and_then(|(_, p, _)| p.segments.last());
                matches!(&*i.self_ty, Type::Path(p) if p.path.is_ident(name))
                    && to.is_some_and(|s| s.ident == t && s.arguments.is_empty())
            }
            _ => false,
        });
        if by_hand {
            return Err(format!("{name}: {t} is implemented by hand"));
        }
    }
    for t in opts.get("needs").into_iter().flat_map(|d| d.split(',')) {
        if !derived(file, name, t) {
            return Err(format!("{name}: {t} is not derived"));
        }
    }
    for it in &file.items {
        match it {
            Item::Struct(s) if kind == "struct" && s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                s.generics = keep_generics(&s.generics, cfg);
                strip_fields(&mut s.fields, &mut low);
                if let Some(r) = rename {
                    s.ident = r;
                }
                return Ok(format!("{derive}{}\n", print(s.to_token_stream(), &[])));
            }
            Item::Enum(s) if kind == "enum" && s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                s.generics = keep_generics(&s.generics, cfg);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        low.visit_type_mut(&mut f.ty);
                    }
                }
                if let Some(r) = rename {
                    s.ident = r;
                }
                return Ok(format!("{derive}{}\n", print(s.to_token_stream(), &[])));
            }
            Item::Type(t) if kind == "type" && t.ident == name => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                let own: BTreeSet<String> = t.generics.type_params().map(|p| p.ident.to_string()).collect();
                let mut c2 = cfg.clone();
                c2.mono.retain(|k, _| !own.contains(k));
                let mut low = Lower { cfg: &c2, assoc: HashMap::new(), local_result: true, self_ty: None, unsupported: vec![], chains: false, matches: false, tryconv: false };
                low.visit_type_mut(&mut t.ty);
                return Ok(format!("{}\n", print(t.to_token_stream(), &[])));
            }
            Item::Const(c) if kind == "const" && c.ident == name => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                if let Type::Reference(r) = &mut *c.ty {
                    r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
                }
                return Ok(format!("{}\n", print(c.to_token_stream(), &[])));
            }
            _ => {}
        }
    }
    Err(format!("item not found: {kind} {name}"))
}

fn emit_fn(files: &mut Files, d: &FnDir, cfg: &Config, dir: &str) -> Res<(String, String)> {
    let cfg = &with_subs(cfg, d.opts.iter().find_map(|o| o.strip_prefix("sub=")));
    let f = files.find_fn(&d.file, &d.path)?;
    let file = files.get(&d.file)?;
    let local_result = file.items.iter().any(|i| matches!(i, Item::Type(t) if t.ident == "Result"));
    let mut low = Lower {
        cfg,
        assoc: f.assoc.clone(),
        local_result,
        self_ty: f.self_ty.clone(),
        unsupported: vec![],
        chains: d.opts.iter().any(|o| o == "chains"),
        matches: d.opts.iter().any(|o| o == "matches"),
        tryconv: d.opts.iter().any(|o| o == "tryconv"),
    };
    let stub = d.opts.iter().any(|o| o == "stub");
    let mut spec = d.spec.clone();
    if let Some(u) = d.opts.iter().find_map(|o| o.strip_prefix("from=")) {
        spec = contract_from(dir, u, &d.path)?;
    }
    let mut sig = f.sig.clone();
    let immut = d.opts.iter().any(|o| o == "immut");
    if immut {
        Immut.visit_signature_mut(&mut sig);
    }
    // a Result path in a file that aliases `Result<T>` is the alias when it has one arg
    sig.generics = keep_generics(&sig.generics, cfg);
    let mut mut_self = false;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                // `mut self`: a local instead
                if r.reference.is_none() && r.mutability.is_some() {
                    *r = parse_quote!(self);
                    mut_self = true;
                    continue;
                }
                if let Some(t) = &f.self_ty {
                    let m = cfg.muts.get(t).map(|s| s.contains(&sig.ident.to_string())).unwrap_or(false);
                    if m && r.reference.is_some() && r.mutability.is_none() {
                        *r = parse_quote!(&mut self);
                    }
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                // impl Iterator<Item = X> -> Vec<X>;  impl AsRef<X> -> &X (X: str, OsStr, Path)
                if let Type::ImplTrait(it) = &*t.ty {
                    let s = it.to_token_stream().to_string().replace(' ', "");
                    if let Some(x) = s.strip_prefix("implIterator<Item=").and_then(|x| x.strip_suffix('>')) {
                        *t.ty = parse_str(&format!("Vec<{x}>")).unwrap();
                    }
                    match s.as_str() {
                        "implAsRef<str>" | "implAsRef<OsStr>" => *t.ty = parse_quote!(&str),
                        "implAsRef<Path>" => *t.ty = parse_quote!(&PathBuf),
                        _ => {}
                    }
                }
                low.visit_type_mut(&mut t.ty);
            }
        }
    }
    let mut ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    if let Some(t) = d.opts.iter().find_map(|o| o.strip_prefix("ret=")) {
        ret = Some(parse_str(&t.replace('~', " ")).map_err(|e| format!("ret: {e}"))?);
    }
    if let Some(t) = &mut ret {
        low.visit_type_mut(t);
        if let Some(lt) = f.self_ty.as_ref().and_then(|t| cfg.life.get(t)) {
            Life(Lifetime::new(lt, Span::call_site())).visit_type_mut(t);
        }
    }
    let name = d
        .opts
        .iter()
        .find_map(|o| o.strip_prefix("name=").map(|s| s.to_string()))
        .unwrap_or_else(|| sig.ident.to_string());
    let name = Ident::new(&name, Span::call_site());
    let gens = &sig.generics;
    let (gl, wh) = (gens.to_token_stream(), &gens.where_clause);
    let inputs = &sig.inputs;
    let mut texts: Vec<String> = vec![];
    let mut out = String::new();
    // in a trait, or an implementation of one
    let head = if d.opts.iter().any(|o| o == "bare") {
        print(quote!(fn #name #gl (#inputs)), &[])
    } else {
        print(quote!(pub fn #name #gl (#inputs)), &[])
    };
    let _ = wh;
    if stub {
        out.push_str("#[verifier::external_body]\n");
    } else if !d.splices.loops.is_empty() {
        out.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    out.push_str(&head);
    if let Some(t) = &ret {
        out.push_str(&format!(" -> (r: {})", print(t.to_token_stream(), &[])));
    }
    out.push('\n');
    out.push_str(&spec);
    let mut info = format!("\"line\":{}", f.line);
    if stub {
        out.push_str("{ unimplemented!() }\n");
        return Ok((out, info));
    }
    let mut block = f.block.clone().ok_or("no body")?;
    let known = files.known.clone();
    let inlined = {
        let mut find = |t: &str, n: &str| files.helper(&d.file, t, n);
        let mut inl = Inliner {
            find: &mut find,
            known: &known,
            self_ty: f.self_ty.clone(),
            stack: vec![f.sig.ident.to_string()],
            done: vec![],
            n: 0,
        };
        inl.block(&mut block, true);
        inl.done
    };
    let mut sh = Shape(String::new());
    syn::visit::Visit::visit_block(&mut sh, &block);
    if immut {
        Immut.visit_block_mut(&mut block);
    }
    low.visit_block_mut(&mut block);
    if mut_self {
        RenameSelf.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut vx_self = self;));
    }
    let lits = string_lits(block.to_token_stream());
    let sp = splice(&mut block, &d.splices, &mut texts)?;
    if let Some(base) = files.lits.get(&d.path) {
        // literals the contract's proof text does not mention: what they are is a fact
        // like any other, which the verifier only looks up when told to
        if lits.iter().any(|l| !base.contains(l)) {
            let all: BTreeSet<&String> = lits.union(base).collect();
            let t: String = all.iter().map(|l| format!("reveal_strlit({l}); ")).collect();
            let n = proc_macro2::Literal::usize_unsuffixed(texts.len());
            texts.push(format!("proof {{ {t}}}\n"));
            let at = match block.stmts.first() {
                Some(Stmt::Macro(m)) if m.mac.path.is_ident("vx_mark") => 1,
                _ => 0,
            };
            block.stmts.insert(at, parse_quote!(vx_mark!{#n};));
        }
    }
    if std::env::var_os("VX_PROBE").is_some() {
        // vacuity probe: this assertion has to fail, or else the precondition (or an
        // axiom) is contradictory
        let n = texts.len();
        texts.push("proof { assert(false); }\n".into());
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        // after the text spliced at the start, which may have to come first
        let at = match block.stmts.first() {
            Some(Stmt::Macro(m)) if m.mac.path.is_ident("vx_mark") => 1,
            _ => 0,
        };
        block.stmts.insert(at, parse_quote!(vx_mark!{#n};));
    }
    out.push_str(&print(block.to_token_stream(), &texts));
    out.push('\n');
    info.push_str(&format!(
        ",\"shape\":\"{}\",\"loops\":{},\"closures\":{},\"missing\":[{}],\"unsupported\":[{}],\"inlined\":[{}]",
        sh.0,
        sp.loops,
        sp.closures,
        sp.missing.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        low.unsupported.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        inlined.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
    ));
    info.push_str(&format!(
        ",\"lits\":[{}]",
        lits.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
    ));
    let _ = &f.impl_generics;
    Ok((out, info))
}

/// the string literals in a body, as written by `{:?}`
fn string_lits(ts: proc_macro2::TokenStream) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => out.extend(string_lits(g.stream())),
            proc_macro2::TokenTree::Literal(l) => {
                if let Ok(syn::Lit::Str(l)) = syn::parse2::<syn::Lit>(l.to_token_stream()) {
                    let v = l.value();
                    if !v.is_empty() && v.len() <= 60 && v.is_ascii() {
                        out.insert(format!("{v:?}"));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// `lits.txt`: unit, function, literal per line (written by tools/shapes.py)
fn baseline_lits(dir: &str, unit: &str) -> HashMap<String, BTreeSet<String>> {
    let mut m: HashMap<String, BTreeSet<String>> = HashMap::new();
    for l in fs::read_to_string(format!("{dir}/lits.txt")).unwrap_or_default().lines() {
        let w: Vec<&str> = l.splitn(3, '\t').collect();
        if w.len() == 3 && w[0] == unit {
            let e = m.entry(w[1].to_string()).or_default();
            if !w[2].is_empty() {
                e.insert(w[2].to_string());
            }
        }
    }
    m
}

/// `&mut` written as `&` (option `immut`): what still compiles never wrote through them
struct Immut;
impl VisitMut for Immut {
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if r.reference.is_some() {
            *r = parse_quote!(&self);
        }
    }
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.mutability = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_expr_reference_mut(&mut self, t: &mut ExprReference) {
        t.mutability = None;
        visit_mut::visit_expr_reference_mut(self, t);
    }
    fn visit_pat_ident_mut(&mut self, t: &mut PatIdent) {
        if t.by_ref.is_some() {
            t.mutability = None;
        }
        visit_mut::visit_pat_ident_mut(self, t);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        for (a, b) in [("iter_mut", "iter"), ("as_mut", "as_ref"), ("as_deref_mut", "as_deref")] {
            if m.method == a && m.args.is_empty() {
                m.method = Ident::new(b, m.method.span());
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident("self") {
            *p = parse_quote!(vx_self);
        }
    }
}

/// the loops and closures of a body, in order: a change of shape means that the loop
/// and closure contracts of the template may be attached to the wrong ones
struct Shape(String);
impl<'a> syn::visit::Visit<'a> for Shape {
    fn visit_expr(&mut self, e: &'a Expr) {
        // `!all(p)` is `any(!p)`: the contract of the closure is another one then
        if let Expr::MethodCall(m) = e {
            if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) && (m.method == "all" || m.method == "any") {
                self.0.push_str(&m.method.to_string());
            }
        }
        let c = match e {
            Expr::While(_) => 'w',
            Expr::Loop(_) => 'l',
            Expr::ForLoop(_) => 'f',
            Expr::Closure(_) => 'c',
            _ => ' ',
        };
        if c != ' ' {
            self.0.push(c);
            self.0.push('(');
        }
        syn::visit::visit_expr(self, e);
        if c != ' ' {
            self.0.push(')');
        }
    }
}

/// blanks and complete comments, which end before the text does
fn only_comments(lit: &impl ToTokens) -> bool {
    let Ok(syn::Lit::Str(l)) = syn::parse2::<syn::Lit>(lit.to_token_stream()) else { return false };
    let s = l.value();
    let mut rest = s.trim_start();
    while !rest.is_empty() {
        let n = if rest.starts_with("//") {
            match rest.find(['\n', '\r']) {
                Some(k) => k,
                None => return false,
            }
        } else if rest.starts_with("/*") {
            match rest[2..].find("*/") {
                Some(k) => k + 4,
                None => return false,
            }
        } else {
            return false;
        };
        rest = rest[n..].trim_start();
    }
    true
}
