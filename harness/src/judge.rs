//! Decides one case for one property: `Err` is a violation.
use crate::case::*;
use crate::reffoundry::*;
use crate::refsyn::*;
use bulloak_foundry::check::{
    context::Context,
    location::Location,
    rules::{Checker, StructuralMatcher},
};
use bulloak_foundry::config::Config;
use bulloak_foundry::hir::{self, translate, translate_one, Hir};
use bulloak_foundry::scaffold::scaffold;
use bulloak_foundry::violation::ViolationKind;
use bulloak_syntax as bs;
use bulloak_syntax::FrontendError;
use solang_parser::pt::{self, ContractPart, SourceUnitPart};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

pub type R = Result<(), String>;

fn span(s: &bs::Span) -> Sp {
    let p = |p: &bs::Position| P { off: p.offset, line: p.line, col: p.column };
    Sp { s: p(&s.start), e: p(&s.end) }
}

fn node(a: &bs::Ast) -> Node {
    match a {
        bs::Ast::Condition(c) => Node::Cond {
            title: c.title.clone(),
            sp: span(&c.span),
            ch: c.children.iter().map(node).collect(),
        },
        bs::Ast::Action(c) => Node::Act {
            title: c.title.clone(),
            sp: span(&c.span),
            ch: c.children.iter().map(node).collect(),
        },
        bs::Ast::ActionDescription(d) => Node::Desc { text: d.text.clone(), sp: span(&d.span) },
        bs::Ast::Root(r) => Node::Desc { text: format!("<root {}>", r.contract_name), sp: span(&r.span) },
    }
}
fn tree(a: &bs::Ast) -> Tree {
    match a {
        bs::Ast::Root(r) => Tree {
            name: r.contract_name.clone(),
            sp: span(&r.span),
            ch: r.children.iter().map(node).collect(),
        },
        other => Tree { name: "<not a root>".into(), sp: P0SP, ch: vec![node(other)] },
    }
}
const P0SP: Sp = Sp { s: P0, e: P0 };

/// What the real front end did with one tree.
#[derive(Debug, PartialEq, Clone)]
pub enum Out {
    Tree(Tree),
    Err(RErr),
    Sem(Vec<SemErr>),
    Other(String),
    Panic(String),
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn out_of(r: anyhow::Result<bs::Ast>) -> Out {
    match r {
        Ok(a) => Out::Tree(tree(&a)),
        Err(e) => {
            if let Some(x) = e.downcast_ref::<bs::tokenizer::Error>() {
                Out::Err(RErr { stage: "lex", kind: format!("{:?}", x.kind()), sp: span(x.span()) })
            } else if let Some(x) = e.downcast_ref::<bs::parser::Error>() {
                Out::Err(RErr { stage: "parse", kind: format!("{:?}", x.kind()), sp: span(x.span()) })
            } else if let Some(x) = e.downcast_ref::<bs::semantics::Errors>() {
                Out::Sem(
                    x.0.iter()
                        .map(|e| {
                            use bs::semantics::ErrorKind as K;
                            let (kind, spans) = match e.kind() {
                                K::IdentifierDuplicated(s) => {
                                    ("IdentifierDuplicated", s.iter().map(span).collect())
                                }
                                K::ConditionEmpty => ("ConditionEmpty", vec![]),
                                K::TreeEmpty => ("TreeEmpty", vec![]),
                                K::NodeUnexpected => ("NodeUnexpected", vec![]),
                                _ => ("?", vec![]),
                            };
                            SemErr { kind, sp: span(e.span()), spans }
                        })
                        .collect(),
                )
            } else {
                Out::Other(format!("{e:?}"))
            }
        }
    }
}
pub fn real_one(text: &str) -> Out {
    match guarded(|| out_of(bs::parse_one(text))) {
        Ok(o) => o,
        Err(p) => Out::Panic(p),
    }
}

fn flat(t: &Tree) -> Vec<(Sp, String)> {
    let mut o = vec![(t.sp, t.name.clone())];
    fn go(n: &Node, o: &mut Vec<(Sp, String)>) {
        match n {
            Node::Cond { title, sp, ch } | Node::Act { title, sp, ch } => {
                // Ends depend on nesting: only the start is lexical.
                o.push((Sp { s: sp.s, e: sp.s }, title.trim().to_owned()));
                ch.iter().for_each(|c| go(c, o));
            }
            Node::Desc { text, sp } => o.push((*sp, text.trim().to_owned())),
        }
    }
    t.ch.iter().for_each(|n| go(n, &mut o));
    o.sort();
    o
}
fn bare(t: &Tree) -> Vec<String> {
    flat(t).into_iter().map(|x| x.1).collect()
}

fn diff(what: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> R {
    Err(format!("{what}: expected {want:?}, found {got:?}"))
}

fn ref_syntax(text: &str) -> Result<Tree, RErr> {
    lex(text).and_then(|t| parse(&t))
}

fn syntax(prop: &str, text: &str) -> R {
    let want = ref_syntax(text);
    let got = real_one(text);
    if let Out::Panic(p) = &got {
        return Err(format!("parse_one panicked: {p}"));
    }
    if let Out::Other(p) = &got {
        return Err(format!("parse_one returned an unknown error: {p}"));
    }
    let lexlevel = |e: &RErr| e.stage == "lex";
    match prop {
        "C01" => match (&want, &got) {
            (Ok(w), Out::Tree(g)) if flat(w) != flat(g) => diff("words and positions", flat(w), flat(g)),
            (Ok(_), Out::Tree(_) | Out::Sem(_)) => Ok(()),
            (Err(w), Out::Err(g)) if w.kind == g.kind && w.sp != g.sp => diff("position of the error", w, g),
            (Err(w), Out::Err(g)) if w.kind == g.kind || (!lexlevel(w) && !lexlevel(g)) => Ok(()),
            (w, g) => diff("outcome", w, g),
        },
        "C02" => match (&want, &got) {
            (Ok(w), Out::Tree(g)) if bare(w) == bare(g) => Ok(()),
            (Ok(_), Out::Sem(_)) => Ok(()),
            (Err(w), Out::Err(g)) if w == g || (!lexlevel(w) && !lexlevel(g) && w.kind == g.kind) => Ok(()),
            (w, g) => diff("outcome", w, g),
        },
        "C03" => match (&want, &got) {
            (Ok(w), Out::Tree(g)) if w != g => diff("tree", w, g),
            _ => Ok(()),
        },
        "C04" => match (&want, &got) {
            (Err(w), Out::Err(g)) if w == g => Ok(()),
            (Err(w), _) if lexlevel(w) => Ok(()),
            (_, Out::Err(g)) if lexlevel(g) => Ok(()),
            (Ok(_), Out::Tree(_) | Out::Sem(_)) => Ok(()),
            (w, g) => diff("outcome", w, g),
        },
        "C05" => {
            let Ok(w) = &want else { return Ok(()) };
            lines_listed(text)?;
            let mut errs = semantics(w);
            match &got {
                Out::Tree(g) => {
                    let e = semantics(g);
                    if e.is_empty() {
                        Ok(())
                    } else {
                        diff("accepted tree with problems", e, "acceptance")
                    }
                }
                Out::Sem(g) => {
                    let mut s = g.clone();
                    s.sort();
                    errs.sort();
                    if s != errs {
                        return diff("semantic errors", errs, s);
                    }
                    for _ in 0..6 {
                        let again = real_one(text);
                        if again != got {
                            return diff("report of another run", &got, again);
                        }
                    }
                    Ok(())
                }
                _ => Ok(()),
            }
        }
        _ => unreachable!(),
    }
}

/// The report of a clash lists the lines of the clashing nodes, in order.
fn lines_listed(text: &str) -> R {
    use bs::semantics::ErrorKind as K;
    let Ok(Err(e)) = guarded(|| bs::parse_one(text)) else { return Ok(()) };
    for e in e.downcast_ref::<bs::semantics::Errors>().map_or(&[][..], |e| &e.0[..]) {
        if let K::IdentifierDuplicated(spans) = e.kind() {
            let want: Vec<String> = spans.iter().map(|s| s.start.line.to_string()).collect();
            let said = e.kind().to_string();
            let got: Vec<&str> = said.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).collect();
            if got != want {
                return diff("lines listed in the report", want, said);
            }
        }
    }
    Ok(())
}

/// Real HIR as a plan; structural surprises are errors.
pub fn plan_pub(h: &Hir) -> Result<Plan, String> {
    plan_of(h, false)
}
fn plan_of(h: &Hir, skip: bool) -> Result<Plan, String> {
    let Hir::Root(root) = h else { return Err("the HIR is not a root".into()) };
    let [Hir::ContractDefinition(c)] = root.children.as_slice() else {
        return Err("the HIR root does not hold exactly one contract".into());
    };
    let mut funs = vec![];
    for f in &c.children {
        let Hir::FunctionDefinition(f) = f else {
            return Err("a contract child is not a function".into());
        };
        let modifier = f.ty == hir::FunctionTy::Modifier;
        let mut comments = vec![];
        let mut skips = 0;
        for ch in f.children.iter().flatten() {
            match ch {
                Hir::Comment(c) => comments.push(c.lexeme.clone()),
                Hir::Statement(_) => skips += 1,
                _ => return Err("unexpected node in a body".into()),
            }
        }
        let want = usize::from(skip && !modifier);
        if skips != want {
            return Err(format!("`{}` has {skips} vm.skip statements, expected {want}", f.identifier));
        }
        if modifier && !comments.is_empty() {
            return Err(format!("modifier `{}` has comments", f.identifier));
        }
        funs.push(Fun {
            name: f.identifier.clone(),
            modifier,
            mods: f.modifiers.clone().unwrap_or_default(),
            comments,
            span: span(&f.span),
        });
    }
    Ok(Plan { name: c.identifier.clone(), funs })
}

/// For each function the span of the conditions whose modifiers it applies,
/// computed from the plan's own names.
fn guards(p: &Plan) -> Result<Vec<(Sp, bool, Vec<Sp>)>, String> {
    p.funs
        .iter()
        .map(|f| {
            let mut g = vec![];
            for m in &f.mods {
                match p.funs.iter().find(|x| x.modifier && &x.name == m) {
                    Some(d) => g.push(d.span),
                    None => return Err(format!("`{}` applies the undefined modifier `{m}`", f.name)),
                }
            }
            Ok((f.span, f.modifier, g))
        })
        .collect()
}

fn cfg(version: &str, skip: bool, no_mods: bool) -> Config {
    let mut c = Config::default();
    c.solidity_version = version.to_owned();
    c.emit_vm_skip = skip;
    c.skip_modifiers = no_mods;
    c
}

/// The functions of a scaffolded file, read back from its tokens.
fn funs_in(src: &str) -> Result<Vec<Fun>, String> {
    let t = sol_tokens(src);
    let at = |i: usize| t.get(i).map(String::as_str).unwrap_or("");
    let mut i = t.iter().position(|x| x == "contract").ok_or("no contract in the output")?;
    while at(i) != "{" && i < t.len() {
        i += 1;
    }
    i += 1;
    let mut out = vec![];
    while i < t.len() && at(i) != "}" {
        let modifier = match at(i) {
            "modifier" => true,
            "function" => false,
            x => return Err(format!("unexpected `{x}` in the contract")),
        };
        let name = at(i + 1).to_owned();
        i += 2;
        let mut mods = vec![];
        while i < t.len() && at(i) != "{" {
            if !["(", ")", "external"].contains(&at(i)) {
                mods.push(at(i).to_owned());
            }
            i += 1;
        }
        i += 1;
        let mut comments = vec![];
        let mut depth = 1;
        while i < t.len() {
            match at(i) {
                "{" => depth += 1,
                "}" => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                c if c.starts_with("// ") => comments.push(c[3..].to_owned()),
                c if c == "//" => comments.push(String::new()),
                c => {
                    // Statement tokens are kept, marked, for the caller.
                    comments.push(format!("\u{0}{c}"));
                }
            }
            i += 1;
        }
        i += 1;
        out.push(Fun { name, modifier, mods, comments, span: P0SP });
    }
    Ok(out)
}

/// Compare the scaffolded text with the plan, on one aspect.
fn end_to_end(prop: &str, text: &str, p: &Plan, skip: bool) -> R {
    // Only for plans whose names survive as identifiers; C10 does the rest.
    if !ident_ok(&sanitize(&p.name)) || p.funs.iter().any(|f| !ident_ok(&f.name)) {
        return Ok(());
    }
    let out = match guarded(|| scaffold(text, &cfg("0.8.0", skip, false))) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return Err(format!("scaffold failed: {e}")),
        Err(e) => return Err(format!("scaffold panicked: {e}")),
    };
    let got = funs_in(&out)?;
    let key = |f: &Fun| match prop {
        "C06" => format!("{} {} {:?}", f.modifier, f.name, f.mods),
        "C07" | "C09" => format!("{} {}", f.modifier, f.name),
        _ => {
            let c: Vec<&str> = f
                .comments
                .iter()
                .filter(|c| !c.starts_with('\u{0}'))
                .map(|c| c.trim_end())
                .collect();
            let s: String = f
                .comments
                .iter()
                .filter(|c| c.starts_with('\u{0}'))
                .map(|c| &c[1..])
                .collect();
            let s = if f.span == P0SP {
                s
            } else if f.modifier {
                "_;".into()
            } else if skip {
                "vm.skip(true);".into()
            } else {
                String::new()
            };
            format!("{} {} {c:?} {s:?}", f.modifier, f.name)
        }
    };
    let w: Vec<String> = p.funs.iter().map(key).collect();
    let g: Vec<String> = got.iter().map(key).collect();
    if w != g {
        return diff("scaffolded functions", w, g);
    }
    Ok(())
}

fn foundry_one(prop: &str, text: &str) -> R {
    let Ok(Ok(ast)) = guarded(|| bs::parse_one(text)) else { return Ok(()) };
    let want = plan_one(&tree(&ast));
    for skip in [false, true] {
        let h = guarded(|| translate_one(&ast, &cfg("0.8.0", skip, false)))
            .map_err(|p| format!("translate_one panicked: {p}"))?;
        let got = match plan_of(&h, skip) {
            Ok(g) => g,
            Err(e) if prop == "C08" || prop == "C06" => return Err(e),
            Err(_) => return Ok(()),
        };
        match prop {
            "C06" => {
                let (w, g) = (guards(&want)?, guards(&got)?);
                if w != g {
                    return diff("functions (span, is modifier, spans of guards)", w, g);
                }
                if got.name != want.name {
                    return diff("contract name", &want.name, &got.name);
                }
            }
            "C07" => {
                let names = |p: &Plan| {
                    let mut v: Vec<_> = p.funs.iter().map(|f| (f.span, f.modifier, f.name.clone())).collect();
                    v.sort();
                    v
                };
                // Only functions that exist on both sides: C06 decides which exist.
                let (w, g) = (names(&want), names(&got));
                for x in &w {
                    if let Some(y) = g.iter().find(|y| y.0 == x.0 && y.1 == x.1) {
                        if x.2 != y.2 {
                            return diff("name", &x.2, &y.2);
                        }
                    }
                }
            }
            "C08" => {
                for f in &want.funs {
                    if let Some(y) = got.funs.iter().find(|y| y.span == f.span && y.modifier == f.modifier) {
                        if y.comments != f.comments {
                            return diff("comments", &f.comments, &y.comments);
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
    }
    // The same against the tree as it is drawn, where the front end reads another one (by
    // C03 it never does).  Spans and the other aspects are not compared.
    let drawn = lex(text).and_then(|t| parse(&t)).map(|t| plan_one(&t));
    if let Ok(drawn) = &drawn {
        let bare = |p: &Plan| p.funs.iter().map(|f| Fun { span: P0SP, ..f.clone() }).collect::<Vec<_>>();
        if bare(drawn) != bare(&want) {
            as_drawn(prop, drawn, &want)?;
        }
    }
    let skip = text.len() % 2 == 0;
    if unique_names(&want) && !text.contains("\n\n") && text.trim() == text && !only_comments(text) {
        end_to_end(prop, text, &want, skip)?;
    }
    Ok(())
}
/// One aspect of two plans, with functions told apart by their place.
fn as_drawn(prop: &str, want: &Plan, got: &Plan) -> R {
    let kinds = |p: &Plan| p.funs.iter().map(|f| f.modifier).collect::<Vec<_>>();
    let aspect = |p: &Plan| -> Vec<String> {
        let place = |m: &String| p.funs.iter().position(|x| x.modifier && &x.name == m);
        p.funs
            .iter()
            .map(|f| match prop {
                "C06" => format!("modifier: {}, guards: {:?}", f.modifier, f.mods.iter().map(place).collect::<Vec<_>>()),
                "C07" => f.name.clone(),
                _ => format!("{:?}", f.comments),
            })
            .collect()
    };
    // which functions there are is for C06 alone
    if prop != "C06" && kinds(want) != kinds(got) {
        return Ok(());
    }
    let (w, g) = (aspect(want), aspect(got));
    if w != g {
        return diff("the functions of the tree as drawn", w, g);
    }
    Ok(())
}
fn only_comments(t: &str) -> bool {
    t.lines().all(|l| l.trim().starts_with("//"))
}
pub fn unique_names(p: &Plan) -> bool {
    let mut v: Vec<_> = p.funs.iter().map(|f| &f.name).collect();
    v.sort();
    v.windows(2).all(|w| w[0] != w[1])
}

fn strings(s: &str) -> R {
    let g = |f: fn(&str) -> String| guarded(|| f(s)).map_err(|p| format!("panicked: {p}"));
    let t = [
        ("sanitize", g(bs::utils::sanitize)?, sanitize(s)),
        ("to_pascal_case", g(bs::utils::to_pascal_case)?, pascal(s)),
        ("upper_first_letter", g(bs::utils::upper_first_letter)?, upper_first(s)),
        ("lower_first_letter", g(bs::utils::lower_first_letter)?, lower_first(s)),
    ];
    for (n, got, want) in t {
        if got != want {
            return diff(n, want, got);
        }
    }
    Ok(())
}

/// The plans of every tree of a file, through the real front end and the real
/// single-tree translation.
fn real_plans(text: &str) -> Option<Vec<Plan>> {
    let asts = guarded(|| bs::parse(text)).ok()?.ok()?;
    asts.iter()
        .map(|a| plan_of(&guarded(|| translate_one(a, &Config::default())).ok()?, false).ok())
        .collect()
}

fn merge(text: &str) -> R {
    let Some(plans) = real_plans(text) else { return Ok(()) };
    let real = guarded(|| translate(text, &Config::default())).map_err(|p| format!("translate panicked: {p}"))?;
    let want = combine(plans.clone());
    match (&want, &real) {
        (Ok(w), Ok(h)) => {
            let g = plan_of(h, false)?;
            if &g != w {
                return diff("merged contract", w, g);
            }
            let out = guarded(|| scaffold(text, &Config::default()));
            if unique_names(w) && matches!(&out, Ok(Ok(_))) {
                end_to_end("C09", text, w, false)?;
            }
            Ok(())
        }
        (Err(w), Err(e)) => {
            let Some(c) = e.downcast_ref::<bulloak_foundry::hir::combiner::Error>() else {
                return diff("merge error", w, format!("{e:?}"));
            };
            if &format!("{:?}", c.kind()) != w {
                return diff("merge error", w, format!("{:?}", c.kind()));
            }
            match guarded(|| scaffold(text, &Config::default())) {
                Ok(Err(_)) => Ok(()),
                Ok(Ok(_)) => Err("scaffold emitted a file although merging failed".into()),
                Err(p) => Err(format!("scaffold panicked: {p}")),
            }
        }
        (w, g) => diff("merge result", w, g.as_ref().map(|_| "a contract").map_err(|e| e.to_string())),
    }
}

fn emit(text: &str, version: &str, skip: bool, no_mods: bool) -> R {
    let c = cfg(version, skip, no_mods);
    let Ok(h) = guarded(|| translate(text, &c)) else { return Ok(()) };
    let got = guarded(|| scaffold(text, &c)).map_err(|p| format!("scaffold panicked: {p}"))?;
    let h = match h {
        Ok(h) => h,
        Err(_) => {
            return match got {
                Err(_) => Ok(()),
                Ok(_) => Err("scaffold succeeded although translation failed".into()),
            }
        }
    };
    let Ok(p) = plan_of(&h, skip) else { return Ok(()) };
    let cname = sanitize(&p.name);
    let fine = ident_ok(&cname) && p.funs.iter().all(|f| ident_ok(&f.name) || (f.modifier && no_mods));
    match got {
        Ok(out) => {
            if ident_bad(&cname) {
                return Err(format!("contract name {cname:?} is invalid but a file was emitted"));
            }
            if fine {
                let plain = |w: &str| !w.is_empty() && w.chars().all(|c| c.is_ascii_graphic() && c != ';');
                let line = format!("\npragma solidity {version};\n");
                if version.split(' ').all(plain) && !out.contains(&line) {
                    return Err(format!("no line {line:?} was emitted"));
                }
                let w = expected(&p, version, skip, no_mods);
                let g = sol_tokens(&out);
                if w != g {
                    let i = w.iter().zip(&g).take_while(|(a, b)| a == b).count();
                    return Err(format!(
                        "emitted file differs at token {i}: expected {:?}, found {:?}",
                        w.get(i..(i + 6).min(w.len())),
                        g.get(i..(i + 6).min(g.len()))
                    ));
                }
            }
            Ok(())
        }
        Err(e) if fine => Err(format!("scaffold failed on a tree with valid names: {e}")),
        Err(_) => Ok(()),
    }
}

// ------------------------------------------------------------------- check

/// A violation as text: kind, payload and location.
fn real_violation(v: &bulloak_foundry::Violation) -> String {
    let k = match &v.kind {
        ViolationKind::ContractMissing(n) => format!("ContractMissing {n}"),
        ViolationKind::ContractNameNotMatches(a, b) => format!("ContractName {a} {b}"),
        ViolationKind::SolidityFileMissing(_) => "SolidityFileMissing".into(),
        ViolationKind::FileUnreadable => "FileUnreadable".into(),
        ViolationKind::FunctionOrderMismatch(f, _, _) => {
            format!("Order {}", f.name.as_ref().map(|n| n.name.clone()).unwrap_or_default())
        }
        ViolationKind::MatchingFunctionMissing(f, _) => {
            format!("Missing {} {}", if f.is_modifier() { "modifier" } else { "function" }, f.identifier)
        }
        ViolationKind::ParsingFailed(_) => {
            let m = v.kind.to_string().to_lowercase();
            format!(
                "ParsingFailed{}{}",
                if m.contains("tree") { " tree" } else { "" },
                if m.contains("solidity") { " sol" } else { "" }
            )
        }
        _ => "?".into(),
    };
    let l = match &v.location {
        Location::Code(f, l) => format!("{f}:{l}"),
        Location::File(f) => f.clone(),
    };
    format!("{k} @ {l}")
}

fn line_of(src: &str, off: usize) -> usize {
    1 + src.as_bytes()[..off].iter().filter(|b| **b == b'\n').count()
}

pub fn first_contract(u: &pt::SourceUnit) -> Option<&pt::ContractDefinition> {
    u.0.iter().find_map(|p| match p {
        SourceUnitPart::ContractDefinition(c) => Some(&**c),
        _ => None,
    })
}

/// The violations of C11 for a planned contract and a Solidity text.
pub fn expected_violations(p: &Plan, src: &str, no_mods: bool, tp: &str, sp: &str) -> Option<Vec<String>> {
    let (u, _) = solang_parser::parse(src, 0).ok()?;
    let Some(c) = first_contract(&u) else {
        return Some(vec![format!("ContractMissing {} @ {tp}", p.name)]);
    };
    let mut out = vec![];
    let want = sanitize(&p.name);
    use solang_parser::pt::Loc;
    let start = |l: &Loc| match l {
        Loc::File(_, s, _) => *s,
        _ => 0,
    };
    if let Some(n) = &c.name {
        if n.name != want {
            out.push(format!("ContractName {want} {} @ {sp}:{}", n.name, line_of(src, start(&c.loc))));
        }
    }
    let mut matched: Vec<(usize, &pt::FunctionDefinition)> = vec![];
    for f in &p.funs {
        let ty = if f.modifier { pt::FunctionTy::Modifier } else { pt::FunctionTy::Function };
        let hit = c.parts.iter().enumerate().find_map(|(i, part)| match part {
            ContractPart::FunctionDefinition(d)
                if d.ty == ty && d.name.as_ref().is_some_and(|n| n.name == f.name) =>
            {
                Some((i, &**d))
            }
            _ => None,
        });
        match hit {
            Some(m) => matched.push(m),
            None if no_mods && f.modifier => {}
            None => out.push(format!(
                "Missing {} {} @ {tp}:{}",
                if f.modifier { "modifier" } else { "function" },
                f.name,
                f.span.s.line
            )),
        }
    }
    for (i, (a, d)) in matched.iter().enumerate() {
        if matched[i + 1..].iter().any(|(b, _)| b < a) {
            out.push(format!(
                "Order {} @ {sp}:{}",
                d.name.as_ref().unwrap().name,
                line_of(src, start(&d.loc))
            ));
        }
    }
    Some(out)
}

fn put(path: &Path, c: &Content) {
    match c {
        Content::Missing => {}
        Content::Text(t) => std::fs::write(path, t).unwrap(),
        Content::Binary => std::fs::write(path, [0xff, 0xfe, 0x00, 0xc3]).unwrap(),
        Content::Dir => std::fs::create_dir(path).unwrap(),
    }
}

/// A scratch directory of the calling thread.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let d = Path::new(&base).join(format!(
            "vh-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn real_check(dir: &Path, no_mods: bool) -> Result<Vec<String>, String> {
    let t = dir.join("x.tree");
    let c = cfg("0.8.0", false, no_mods);
    guarded(|| match Context::new(t.clone(), &c) {
        Err(v) => vec![v],
        Ok(ctx) => StructuralMatcher::check(&ctx),
    })
    .map_err(|p| format!("check panicked: {p}"))
    .and_then(|v| {
        for x in &v {
            let text = guarded(|| x.to_string()).map_err(|p| format!("formatting a violation panicked: {p}"))?;
            if let Some(w) = must_say(x).into_iter().find(|w| !text.contains(w.as_str())) {
                return Err(format!("the report of {} does not mention {w:?}: {text:?}", real_violation(x)));
            }
        }
        Ok(v.iter().map(real_violation).collect())
    })
}

/// What the text of a violation has to mention.
fn must_say(v: &bulloak_foundry::Violation) -> Vec<String> {
    let mut out = match &v.kind {
        ViolationKind::ContractMissing(n) => vec![n.clone()],
        ViolationKind::ContractNameNotMatches(a, b) => vec![a.clone(), b.clone()],
        ViolationKind::SolidityFileMissing(f) => vec![f.clone()],
        ViolationKind::FunctionOrderMismatch(f, _, _) => f.name.iter().map(|n| n.name.clone()).collect(),
        ViolationKind::MatchingFunctionMissing(f, _) => vec![f.identifier.clone()],
        _ => vec![],
    };
    out.push(match &v.location {
        Location::Code(f, l) => format!("{f}:{l}"),
        Location::File(f) => f.clone(),
    });
    out
}

fn check(tree_c: &Content, sol_c: &Content, no_mods: bool) -> R {
    let d = Scratch::new();
    let tp = d.0.join("x.tree");
    let sp = d.0.join("x.t.sol");
    put(&tp, tree_c);
    put(&sp, sol_c);
    let (t, s) = (tp.to_string_lossy().into_owned(), sp.to_string_lossy().into_owned());
    let mut want = match tree_c {
        Content::Text(text) => match guarded(|| translate(text, &Config::default())) {
            Err(_) => return Ok(()),
            Ok(Err(_)) => vec![format!("ParsingFailed tree @ {t}")],
            Ok(Ok(h)) => match sol_c {
                Content::Missing => vec![format!("SolidityFileMissing @ {t}")],
                Content::Binary | Content::Dir => vec![format!("FileUnreadable @ {s}")],
                Content::Text(src) => match expected_violations(&plan_of(&h, false)?, src, no_mods, &t, &s) {
                    None => vec![format!("ParsingFailed sol @ {s}")],
                    Some(v) => v,
                },
            },
        },
        _ => vec![format!("FileUnreadable @ {t}")],
    };
    let mut got = real_check(&d.0, no_mods)?;
    want.sort();
    got.sort();
    if want != got {
        return diff("violations", want, got);
    }
    Ok(())
}

// ----------------------------------------------------------------- reports

fn quoted(text: &str, msg: &str, sp: Sp) -> String {
    let mut o = "•".repeat(79);
    o.push('\n');
    o.push_str(&format!("bulloak error: {msg}"));
    if sp.s.off == 0 && sp.e.off == 0 {
        return o;
    }
    o.push_str("\n\n");
    if let Some(l) = text.lines().nth(sp.s.line - 1) {
        o.push_str(l);
        o.push('\n');
        for _ in 1..sp.s.col {
            o.push(' ');
        }
        let n = if sp.e.col > sp.s.col { sp.e.col - sp.s.col + 1 } else { 1 };
        for _ in 0..n {
            o.push('^');
        }
        o.push('\n');
    }
    o.push_str(&format!("\n--- (line {}, column {}) ---\n", sp.s.line, sp.s.col));
    o
}

fn report(text: &str) -> R {
    let Ok(r) = guarded(|| bs::parse_one(text)) else { return Ok(()) };
    let Err(e) = r else { return Ok(()) };
    let shown = guarded(|| e.to_string()).map_err(|p| format!("formatting the error panicked: {p}"))?;
    let want = if let Some(x) = e.downcast_ref::<bs::tokenizer::Error>() {
        quoted(text, &x.kind().to_string(), span(x.span()))
    } else if let Some(x) = e.downcast_ref::<bs::parser::Error>() {
        quoted(text, &x.kind().to_string(), span(x.span()))
    } else if let Some(x) = e.downcast_ref::<bs::semantics::Errors>() {
        x.0.iter().map(|x| quoted(text, &x.kind().to_string(), span(x.span()))).collect::<String>()
    } else {
        return Ok(());
    };
    if shown != want {
        return diff("error report", want, shown);
    }
    // Independent of the recorded line/column: the character under the first
    // caret is the character of the text at the recorded offset.
    let spans: Vec<Sp> = if let Some(x) = e.downcast_ref::<bs::tokenizer::Error>() {
        vec![span(x.span())]
    } else if let Some(x) = e.downcast_ref::<bs::parser::Error>() {
        vec![span(x.span())]
    } else if let Some(x) = e.downcast_ref::<bs::semantics::Errors>() {
        x.0.iter().map(|x| span(x.span())).collect()
    } else {
        vec![]
    };
    for sp in spans {
        if sp.s.off == 0 && sp.e.off == 0 {
            continue;
        }
        let here = text.get(sp.s.off..).and_then(|t| t.chars().next());
        let line = text.lines().nth(sp.s.line - 1).unwrap_or("");
        let under = line.chars().nth(sp.s.col - 1);
        if here != under {
            return diff("character under the caret", here, under);
        }
    }
    Ok(())
}

fn lines(text: &str) -> R {
    use bulloak_foundry::check::utils::offset_to_line;
    let step = 1 + text.len() / 64;
    let mut last = 0;
    for (n, (off, _)) in text.char_indices().enumerate() {
        if n % step != 0 {
            continue;
        }
        let got = guarded(|| offset_to_line(text, off)).map_err(|p| format!("offset_to_line panicked at {off}: {p}"))?;
        let want = line_of(text, off);
        if got != want {
            return diff(&format!("line of offset {off}"), want, got);
        }
        if got < last {
            return diff("line order", last, got);
        }
        last = got;
    }
    Ok(())
}

// ---------------------------------------------------------------- splitter

fn show(r: Result<anyhow::Result<Vec<bs::Ast>>, String>) -> String {
    match r {
        Ok(Ok(a)) => format!("{a:?}"),
        Ok(Err(e)) => format!("error {e:?}"),
        Err(p) => format!("panic {p}"),
    }
}
fn splitting(text: &str) -> R {
    let pieces = split(text);
    let want = show(guarded(|| pieces.iter().map(|p| bs::parse_one(p)).collect()));
    let got = show(guarded(|| bs::parse(text)));
    // Semantic reports may be ordered differently between runs only if C05 is
    // broken; compare them as sets of lines here.
    let norm = |s: &str| {
        let mut v: Vec<&str> = s.split("\\n").collect();
        v.sort();
        v.join("\n")
    };
    if want != got && norm(&want) != norm(&got) {
        return diff("trees of the file", (pieces, want), got);
    }
    Ok(())
}

// -------------------------------------------------------------- round trip

fn round_trip(text: &str) -> R {
    let Ok(Ok(h)) = guarded(|| translate(text, &Config::default())) else { return Ok(()) };
    let Ok(p) = plan_of(&h, false) else { return Ok(()) };
    if !unique_names(&p) {
        return Ok(());
    }
    for (skip, no_mods) in [(false, false), (true, false), (false, true), (true, true)] {
        let c = cfg("0.8.0", skip, no_mods);
        let Ok(Ok(out)) = guarded(|| scaffold(text, &c)) else { continue };
        let d = Scratch::new();
        std::fs::write(d.0.join("x.tree"), text).unwrap();
        std::fs::write(d.0.join("x.t.sol"), &out).unwrap();
        let v = real_check(&d.0, no_mods)?;
        if !v.is_empty() {
            return diff(&format!("check after scaffold (vm-skip {skip}, skip-modifiers {no_mods})"), "no violation", v);
        }
        match guarded(|| scaffold(text, &c)) {
            Ok(Ok(again)) if again == out => {}
            Ok(Ok(_)) => return Err("scaffolding twice gives different bytes".into()),
            other => return Err(format!("scaffolding again failed: {other:?}")),
        }
    }
    Ok(())
}

pub fn judge(prop: &str, case: &Case) -> R {
    match (prop, case) {
        ("C01" | "C02" | "C03" | "C04" | "C05", Case::Text(t)) => syntax(prop, t),
        ("C06" | "C07" | "C08", Case::Text(t)) => foundry_one(prop, t),
        ("C07", Case::Str(s)) => strings(s),
        ("C09", Case::File(t)) => merge(t),
        ("C10", Case::Scaf { text, version, skip, no_mods }) => emit(text, version, *skip, *no_mods),
        ("C11", Case::Check { tree, sol, no_mods }) => check(tree, sol, *no_mods),
        ("C15", Case::Text(t)) => report(t),
        ("C15", Case::Str(t)) => lines(t),
        ("C15", Case::Check { tree, sol, no_mods }) => check(tree, sol, *no_mods),
        ("C16", Case::File(t)) => splitting(t),
        ("C17", Case::File(t)) => round_trip(t),
        (_, Case::Fix { .. } | Case::Cli { .. }) => crate::cli::judge(prop, case),
        _ => Err(format!("no judge for {prop} on {case:?}")),
    }
}
