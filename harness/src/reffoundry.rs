//! Reference planning of functions, names, merging and the expected Solidity
//! (C06-C10), written from the property statements.
use crate::refsyn::*;
use std::collections::HashSet;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Fun {
    pub name: String,
    pub modifier: bool,
    pub mods: Vec<String>,
    pub comments: Vec<String>,
    pub span: Sp,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Plan {
    /// The contract identifier, as written in the tree.
    pub name: String,
    pub funs: Vec<Fun>,
}

/// `it should revert`, ignoring case, punctuation and surrounding space.
fn reverts(title: &str) -> bool {
    sanitize(title.to_lowercase().trim()) == "it should revert"
}

fn group(a: &Node, out: &mut Vec<String>) {
    if let Node::Act { title, ch, .. } = a {
        out.push(title.clone());
        for d in ch {
            if let Node::Desc { text, .. } = d {
                out.push(text.clone());
            }
        }
    }
}

fn cond(title: &str, sp: Sp, ch: &[Node], above: &[String], out: &mut Vec<Fun>) {
    let acts: Vec<&Node> = ch.iter().filter(|n| matches!(n, Node::Act { .. })).collect();
    let conds: Vec<&Node> = ch.iter().filter(|n| matches!(n, Node::Cond { .. })).collect();
    let mut mods = above.to_vec();
    if !conds.is_empty() {
        let m = lower_first(&pascal(title));
        out.push(Fun { name: m.clone(), modifier: true, mods: vec![], comments: vec![], span: sp });
        mods.push(m);
    }
    if let Some(Node::Act { title: first, .. }) = acts.first() {
        let name = if reverts(first) {
            let mut ws = title.split_whitespace();
            let kw = upper_first(ws.next().unwrap_or(""));
            let rest: String = ws.map(upper_first).collect();
            format!("test_Revert{kw}_{rest}")
        } else {
            format!("test_{}", pascal(title))
        };
        let mut comments = vec![];
        for a in &acts {
            group(a, &mut comments);
        }
        out.push(Fun { name, modifier: false, mods: mods.clone(), comments, span: sp });
    }
    for c in conds {
        if let Node::Cond { title, sp, ch } = c {
            cond(title, *sp, ch, &mods, out);
        }
    }
}

pub fn plan_one(t: &Tree) -> Plan {
    let mut funs = vec![];
    for n in &t.ch {
        match n {
            Node::Act { title, sp, .. } => {
                let rest: Vec<&str> = title.split_whitespace().skip(1).collect();
                let name = format!("test_{}", sanitize(&pascal(&rest.join(" "))));
                let mut comments = vec![];
                group(n, &mut comments);
                funs.push(Fun { name, modifier: false, mods: vec![], comments, span: *sp });
            }
            Node::Cond { title, sp, ch } => cond(title, *sp, ch, &[], &mut funs),
            Node::Desc { .. } => {}
        }
    }
    Plan { name: t.name.clone(), funs }
}

/// Merge the plans of several trees (C09). `Err` holds the kind of error as
/// the real `Debug` text.
pub fn combine(plans: Vec<Plan>) -> Result<Plan, String> {
    if plans.len() == 1 {
        return Ok(plans.into_iter().next().unwrap());
    }
    let mut name: Option<String> = None;
    let mut funs: Vec<Fun> = vec![];
    let mut seen: HashSet<String> = HashSet::new();
    for (i, p) in plans.into_iter().enumerate() {
        let Some((c, rest)) = p.name.split_once("::") else {
            return Err(format!("SeparatorMissing({})", i + 1));
        };
        if c.trim().is_empty() {
            return Err(format!("ContractNameMissing({})", i + 1));
        }
        match &name {
            None => name = Some(c.to_owned()),
            Some(n) if n != c => {
                return Err(format!(
                    "ContractNameMismatch {{ actual: {c:?}, expected: {n:?} }}"
                ));
            }
            _ => {}
        }
        for mut f in p.funs {
            if !f.modifier {
                let bare = f.name.strip_prefix("test_").unwrap_or(&f.name).to_owned();
                f.name = format!("test_{}{bare}", upper_first(rest));
            }
            if seen.insert(f.name.clone()) {
                funs.push(f);
            }
        }
    }
    Ok(Plan { name: name.unwrap_or_default(), funs })
}

// ---------------------------------------------------------------- Solidity

/// Solidity text as a sequence of tokens; a line comment is one token.
pub fn sol_tokens(src: &str) -> Vec<String> {
    let cs: Vec<char> = src.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let st = i;
        if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
            let t: String = cs[st..i].iter().collect();
            out.push(t.trim_end().to_owned());
        } else if c == '/' && cs.get(i + 1) == Some(&'*') {
            i += 2;
            while i < cs.len() && !(cs[i - 1] == '*' && cs[i] == '/' && i - st >= 3) {
                i += 1;
            }
            i = (i + 1).min(cs.len());
            out.push(cs[st..i].iter().collect());
        } else if c == '"' || c == '\'' {
            i += 1;
            while i < cs.len() && cs[i] != c {
                if cs[i] == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(cs.len());
            out.push(cs[st..i].iter().collect());
        } else if c.is_whitespace() {
            i += 1;
        } else if id(c) {
            while i < cs.len() && id(cs[i]) {
                i += 1;
            }
            out.push(cs[st..i].iter().collect());
        } else {
            i += 1;
            out.push(c.to_string());
        }
    }
    out
}

fn push_src(out: &mut Vec<String>, s: &str) {
    out.extend(sol_tokens(s));
}

/// The exact token stream that scaffolding `p` must produce (C10).
pub fn expected(p: &Plan, version: &str, skip: bool, no_mods: bool) -> Vec<String> {
    let mut o = vec![];
    o.push("// SPDX-License-Identifier: UNLICENSED".to_owned());
    push_src(&mut o, &format!("pragma solidity {version};"));
    if skip {
        push_src(&mut o, "import { Test } from \"forge-std/Test.sol\";");
    }
    o.push("contract".into());
    push_src(&mut o, &sanitize(&p.name));
    if skip {
        push_src(&mut o, "is Test");
    }
    o.push("{".into());
    for f in &p.funs {
        if f.modifier {
            if !no_mods {
                push_src(&mut o, &format!("modifier {}() {{ _; }}", f.name));
            }
            continue;
        }
        push_src(&mut o, &format!("function {}() external", f.name));
        for m in &f.mods {
            push_src(&mut o, m);
        }
        o.push("{".into());
        for c in &f.comments {
            o.push(format!("// {c}").trim_end().to_owned());
        }
        if skip {
            push_src(&mut o, "vm.skip(true);");
        }
        o.push("}".into());
    }
    o.push("}".into());
    o
}

pub fn ident_ok(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_' || c == '$')
        && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$')
        && !KEYWORDS.contains(&s)
        && !reserved_pattern(s)
}
fn reserved_pattern(s: &str) -> bool {
    // `uint8`, `int`, `bytes4`, `fixed`... are types, not identifiers.
    for p in ["uint", "int", "bytes", "fixed", "ufixed"] {
        if let Some(r) = s.strip_prefix(p) {
            if r.chars().all(|c| c.is_ascii_digit() || c == 'x') {
                return true;
            }
        }
    }
    false
}
pub fn ident_bad(s: &str) -> bool {
    s.is_empty()
        || s.chars().next().unwrap().is_ascii_digit()
        || ["contract", "function", "if", "return", "address", "mapping"].contains(&s)
        || s.chars().any(|c| c.is_ascii() && !(c.is_ascii_alphanumeric() || c == '_' || c == '$'))
}
const KEYWORDS: &[&str] = &[
    "abstract", "address", "after", "alias", "anonymous", "apply", "as", "assembly", "auto",
    "bool", "break", "byte", "bytes", "calldata", "case", "catch", "constant", "constructor",
    "continue", "contract", "copyof", "days", "default", "define", "delete", "do", "else", "emit",
    "enum", "error", "ether", "event", "external", "fallback", "false", "final", "fixed", "for",
    "from", "function", "global", "gwei", "hex", "hours", "if", "immutable", "implements",
    "import", "in", "indexed", "inline", "int", "interface", "internal", "is", "leave", "let",
    "library", "macro", "mapping", "match", "memory", "minutes", "modifier", "mutable", "new",
    "null", "of", "override", "partial", "payable", "pragma", "private", "promise", "public",
    "pure", "receive", "reference", "relocatable", "return", "returns", "revert", "sealed",
    "seconds", "sizeof", "static", "storage", "string", "struct", "super", "supports", "switch",
    "this", "throw", "true", "try", "type", "typedef", "typeof", "ufixed", "uint", "unchecked",
    "unicode", "unmatched", "using", "var", "view", "virtual", "weeks", "wei", "while", "years",
    "persistent", "temporary", "instance", "lib", "annotation", "Keep",
];
