//! What the contracts of C11, C12 and C17 assume about solang and forge-fmt (where things are
//! in a Solidity file, and what renaming, inserting, reordering and formatting keep), tried on
//! generated Solidity. Written from the specification texts in contracts/*.vrs; none of
//! bulloak's own code is called here.
use crate::gen;
use crate::judge::{first_contract, guarded, unique_names};
use crate::reffoundry::{Fun, Plan};
use crate::refsyn::sanitize;
use crate::gen::Rng;
use forge_fmt::solang_ext::CodeLocationExt;
use forge_fmt::{format, parse, FormatterConfig};
use solang_parser::pt;

type Sig = Option<(bool, String)>;

fn rng(l: &pt::Loc) -> Option<(usize, usize)> {
    match l {
        pt::Loc::File(_, a, b) => Some((*a, *b)),
        _ => None,
    }
}
fn spot(l: &pt::Loc, s: &str) -> bool {
    rng(l).is_some_and(|(a, b)| a <= b && a < s.len() && s.is_char_boundary(a) && s.is_char_boundary(b))
}
/// the first c at or after byte i that is not part of a comment
fn outside(s: &str, mut i: usize, c: u8) -> Option<usize> {
    let b = s.as_bytes();
    while i < b.len() {
        if b[i] == c {
            return Some(i);
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i = s[i + 2..].find("*/").map_or(b.len(), |k| i + 2 + k + 2);
        } else {
            i += 1;
        }
    }
    None
}
fn fn_end(f: &pt::FunctionDefinition, s: &str) -> usize {
    let e = rng(&CodeLocationExt::loc(f)).unwrap().1;
    match (&f.body, outside(s, e, b';')) {
        (None, Some(k)) => k + 1,
        _ => e,
    }
}
fn fn_start(f: &pt::FunctionDefinition) -> usize {
    rng(&CodeLocationExt::loc(f)).unwrap().0
}
fn header_end(c: &pt::ContractDefinition) -> usize {
    match (c.base.last(), &c.name) {
        (Some(b), _) => rng(&b.loc).unwrap().1,
        (None, Some(n)) => rng(&n.loc).unwrap().1,
        _ => rng(&c.loc).unwrap().0,
    }
}
fn funs(c: &pt::ContractDefinition) -> Vec<&pt::FunctionDefinition> {
    c.parts
        .iter()
        .filter_map(|p| match p {
            pt::ContractPart::FunctionDefinition(f) => Some(&**f),
            _ => None,
        })
        .collect()
}
/// `contract_placed`
fn contract_placed(c: &pt::ContractDefinition, s: &str) -> Option<&'static str> {
    let ok = |b: bool, w: &'static str| if b { None } else { Some(w) };
    let first = c.parts.first().and_then(|p| rng(&CodeLocationExt::loc(p)));
    let (a, b) = rng(&c.loc)?;
    let fs = funs(c);
    ok(spot(&c.loc, s) && a < b && s.is_char_boundary(b - 1), "contract")
        .or_else(|| ok(c.name.as_ref().map_or(true, |n| spot(&n.loc, s)), "name"))
        .or_else(|| ok(c.base.iter().all(|b| spot(&b.loc, s)), "base"))
        .or_else(|| ok(outside(s, header_end(c), b'{').is_some(), "brace"))
        .or_else(|| {
            ok(
                c.parts.iter().all(|p| {
                    let l = CodeLocationExt::loc(p);
                    spot(&l, s) && rng(&l).unwrap().0 < b
                }),
                "parts",
            )
        })
        .or_else(|| ok(fs.iter().all(|f| spot(&CodeLocationExt::loc(*f), s) && spot(&f.loc, s)), "functions"))
        .or_else(|| ok(fs.iter().all(|f| first.unwrap().0 <= fn_start(f) && fn_end(f, s) < b), "functions in the contract"))
        .or_else(|| ok(fs.windows(2).all(|w| fn_end(w[0], s) <= fn_start(w[1])), "functions apart"))
}

fn sig(p: &pt::ContractPart) -> Sig {
    match p {
        pt::ContractPart::FunctionDefinition(f) => {
            let n = f.name.as_ref()?.name.clone();
            match f.ty {
                pt::FunctionTy::Modifier => Some((true, n)),
                pt::FunctionTy::Function => Some((false, n)),
                _ => None,
            }
        }
        _ => None,
    }
}
fn sigs(c: &pt::ContractDefinition) -> Vec<Sig> {
    c.parts.iter().map(sig).collect()
}
fn called(c: &pt::ContractDefinition) -> Option<String> {
    c.name.as_ref().map(|n| n.name.clone())
}
/// name and signatures of the first contract of a text
fn shows(t: &str) -> Option<(Option<String>, Vec<Sig>)> {
    let p = guarded(|| parse(t).ok().map(|p| p.pt)).ok()??;
    first_contract(&p).map(|c| (called(c), sigs(c)))
}
fn own(f: &Fun) -> Sig {
    Some((f.modifier, f.name.clone()))
}
fn pretty(s: &str) -> Option<String> {
    let p = parse(s).ok()?;
    let mut o = String::new();
    format(&mut o, p, FormatterConfig::default()).ok()?;
    Some(o)
}

// ------------------------------------------------ the texts of the specification
fn s_unit(p: &Plan, test: bool, skip_mods: bool) -> String {
    let fns: Vec<String> = p
        .funs
        .iter()
        .filter(|f| !(f.modifier && skip_mods))
        .map(|f| {
            if f.modifier {
                return format!("modifier {}() {{\n_;\n}}", f.name);
            }
            let mut l: Vec<String> = f.comments.iter().map(|c| format!("// {c}")).collect();
            if test {
                l.push("vm.skip(true);".into());
            }
            let mut attrs = vec!["external".to_owned()];
            attrs.extend(f.mods.iter().cloned());
            let nl = if l.is_empty() { "" } else { "\n" };
            format!("function {}() {} {{\n{}{nl}}}", f.name, attrs.join(" "), l.join("\n"))
        })
        .collect();
    format!(
        "// SPDX-License-Identifier: UNLICENSED\npragma solidity 0.8.0;\n{}contract {}{}{}}}",
        if test { "import {Test} from \"forge-std/Test.sol\";\n" } else { "" },
        sanitize(&p.name),
        if test { " is Test {" } else { " {" },
        fns.join("\n\n")
    )
}
fn e_fn(f: &Fun) -> String {
    if f.modifier {
        return format!("  modifier {}() {{\n    _;\n  }}\n\n", f.name);
    }
    let mut o = format!("  function {}()", f.name);
    if f.mods.is_empty() {
        o.push_str(" external {\n");
    } else {
        o.push_str("\n    external\n");
        for m in &f.mods {
            o.push_str(&format!("    {m}\n"));
        }
        o.push_str("  {\n");
    }
    for c in &f.comments {
        o.push_str(&format!("    // {c}\n"));
    }
    o + "  }\n\n"
}
fn first_match(c: &pt::ContractDefinition, f: &Fun) -> Option<usize> {
    sigs(c).iter().position(|s| *s == own(f))
}
fn part_fn(c: &pt::ContractDefinition, m: usize) -> &pt::FunctionDefinition {
    match &c.parts[m] {
        pt::ContractPart::FunctionDefinition(f) => f,
        _ => unreachable!(),
    }
}
fn gap(c: &pt::ContractDefinition, p: &Plan, i: usize, s: &str) -> usize {
    for k in (0..i).rev() {
        if let Some(m) = first_match(c, &p.funs[k]) {
            return fn_end(part_fn(c, m), s);
        }
    }
    outside(s, header_end(c), b'{').unwrap() + 1
}
/// any text of blanks and comments
const BANNER: &str = "\n\n  // <<<<<<\n  // ==== SEPARATOR ====\n        ";
fn chosen(c: &pt::ContractDefinition, p: &Plan) -> Vec<usize> {
    let mut l = vec![];
    for f in &p.funs {
        if let Some(m) = first_match(c, f) {
            if !l.contains(&m) {
                l.push(m);
            }
        }
    }
    l
}
fn ordered(c: &pt::ContractDefinition, p: &Plan, s: &str) -> String {
    let l = chosen(c, p);
    let a = rng(&CodeLocationExt::loc(&c.parts[0])).unwrap().0;
    let b = rng(&c.loc).unwrap().1 - 1;
    let texts: Vec<&str> = l.iter().map(|&m| &s[fn_start(part_fn(c, m))..fn_end(part_fn(c, m), s)]).collect();
    let mut blank = s.to_owned();
    for &m in &l {
        let (x, y) = (fn_start(part_fn(c, m)), fn_end(part_fn(c, m), s));
        blank.replace_range(x..y, &" ".repeat(y - x));
    }
    let banner = if l.len() == c.parts.len() { String::new() } else { BANNER.to_owned() };
    format!("{}{}{}{}{}", &s[..a], texts.join("\n\n"), banner, &blank[a..b], &s[b..])
}

struct Row {
    name: &'static str,
    n: u64,
    bad: Option<String>,
}
impl Row {
    fn new(name: &'static str) -> Self {
        Row { name, n: 0, bad: None }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, a: T, b: T, on: &str) {
        self.n += 1;
        if a != b && self.bad.is_none() {
            self.bad = Some(format!("{a:?} is not {b:?} for {on:?}"));
        }
    }
}

pub fn run(n: usize) -> Vec<(String, u64, Option<String>)> {
    let mut placed = Row::new("contract_placed: where forge-fmt's parser finds contracts, names, bases, parts and functions");
    let mut renamed = Row::new("axiom_renamed: another name changes the name only");
    let mut inserted = Row::new("axiom_inserted: an inserted function is one more part");
    let mut moved = Row::new("axiom_ordered, reorders: the functions of the plan first, then the other parts");
    let mut neat = Row::new("axiom_pretty, axiom_pretty_shows: formatting keeps the contract's name and parts");
    let mut printed = Row::new("axiom_printed, axiom_formatted: the text of a plan is parsed, and formatted, as what it spells");
    for i in 0..n {
        let mut r = Rng(0x501a ^ (i as u64).wrapping_mul(0x9e37_79b9));
        let tree = gen::tree_for_sol(&mut r);
        let Some(p) = gen::plan(&tree) else { continue };
        if !unique_names(&p) {
            continue;
        }
        let scaffolds = pretty(&s_unit(&p, false, false)).is_some();
        let names = |skip: bool| -> Vec<Sig> { p.funs.iter().filter(|f| !(skip && f.modifier)).map(own).collect() };
        if scaffolds {
            for (test, skip) in [(false, false), (true, false), (false, true), (true, true)] {
                let u = s_unit(&p, test, skip);
                let want = Some((Some(sanitize(&p.name)), names(skip)));
                printed.eq(shows(&u), want.clone(), &u);
                printed.eq(pretty(&u).and_then(|t| shows(&t)), want, &u);
            }
        }
        let fixable = r.chance(1, 2);
        let s = gen::solidity(&tree, &mut r, fixable);
        let Ok(Some(u)) = guarded(|| parse(&s).ok().map(|p| p.pt)) else { continue };
        for x in &u.0 {
            if let pt::SourceUnitPart::ContractDefinition(c) = x {
                placed.eq(contract_placed(c, &s), None, &s);
            }
        }
        let Some(c) = first_contract(&u) else { continue };
        if placed.bad.is_some() {
            continue;
        }
        if let Some(t) = pretty(&s) {
            neat.eq(shows(&t), Some((called(c), sigs(c))), &s);
        }
        if !scaffolds {
            continue;
        }
        if let Some(id) = &c.name {
            let (a, b) = rng(&id.loc).unwrap();
            let t = format!("{}{}{}", &s[..a], sanitize(&p.name), &s[b..]);
            renamed.eq(shows(&t), Some((Some(sanitize(&p.name)), sigs(c))), &s);
        }
        for k in 0..p.funs.len().min(6) {
            let f = &p.funs[k];
            let o = gap(c, &p, k, &s);
            let t = format!("{}\n\n{}{}", &s[..o], e_fn(f).trim_end(), &s[o..]);
            let got = shows(&t);
            let fits = got.as_ref().is_some_and(|(name, v)| {
                *name == called(c)
                    && (0..v.len()).any(|j| v[j] == own(f) && [&v[..j], &v[j + 1..]].concat() == sigs(c))
            });
            inserted.eq(fits, true, &t);
        }
        if !c.parts.is_empty() {
            let l = chosen(c, &p);
            let t = ordered(c, &p, &s);
            let mut want: Vec<Sig> = l.iter().map(|&m| sigs(c)[m].clone()).collect();
            want.extend((0..c.parts.len()).filter(|m| !l.contains(m)).map(|m| sigs(c)[m].clone()));
            moved.eq(shows(&t), Some((called(c), want)), &t);
        }
    }
    [placed, renamed, inserted, moved, neat, printed].into_iter().map(|r| (r.name.to_owned(), r.n, r.bad)).collect()
}
