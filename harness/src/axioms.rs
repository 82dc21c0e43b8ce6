//! Checks, on the real libraries, what the contracts assume about them.  The definitions below
//! mirror the specification functions of contracts/*.vrs (over sequences of characters).
//! Exhaustive over characters; bounded over texts.
use serde_json::{json, Value};
use solang_parser::pt;

type S = Vec<char>;

fn cs(s: &str) -> S {
    s.chars().collect()
}
fn st(s: &[char]) -> String {
    s.iter().collect()
}
fn is_ws(c: char) -> bool {
    c.is_whitespace()
}
// text.vrs
fn word_end(s: &[char], mut i: usize) -> usize {
    while i < s.len() && !is_ws(s[i]) {
        i += 1
    }
    i
}
fn ws_end(s: &[char], mut i: usize) -> usize {
    while i < s.len() && is_ws(s[i]) {
        i += 1
    }
    i
}
fn words(s: &[char]) -> Vec<S> {
    let (mut i, mut v) = (0, vec![]);
    loop {
        let a = ws_end(s, i);
        let b = word_end(s, a);
        if a >= s.len() {
            return v;
        }
        v.push(s[a..b].to_vec());
        i = b;
    }
}
fn trim(s: &[char]) -> S {
    let a = ws_end(s, 0);
    let mut b = s.len();
    while b > 0 && is_ws(s[b - 1]) {
        b -= 1
    }
    if a >= b {
        vec![]
    } else {
        s[a..b].to_vec()
    }
}
fn at(s: &[char], p: &[char], i: usize) -> bool {
    i + p.len() <= s.len() && s[i..i + p.len()] == *p
}
fn find(s: &[char], p: &[char], mut i: usize) -> Option<usize> {
    while i <= s.len() {
        if at(s, p, i) {
            return Some(i);
        }
        i += 1
    }
    None
}
fn rfind(s: &[char], p: &[char], i: usize) -> Option<usize> {
    (0..=i).rev().find(|&j| at(s, p, j))
}
// frontspec.vrs
fn parts(s: &[char], p: &[char]) -> Vec<S> {
    let (mut i, mut v) = (0, vec![]);
    loop {
        match find(s, p, i) {
            None => {
                v.push(s[i..].to_vec());
                return v;
            }
            Some(k) => {
                v.push(s[i..k].to_vec());
                i = k + p.len();
            }
        }
    }
}
fn lines(s: &[char]) -> Vec<S> {
    let (mut i, mut v) = (0, vec![]);
    while i < s.len() {
        let mut e = i;
        while e < s.len() && s[e] != '\n' {
            e += 1
        }
        let e2 = if e < s.len() && e > i && s[e - 1] == '\r' { e - 1 } else { e };
        v.push(s[i..e2].to_vec());
        i = e + 1;
    }
    v
}
// fmtspec.vrs
const MARKER: &str = "string __bulloak_comment__ = \"";
fn clean_line(l: &[char]) -> S {
    let m = cs(MARKER);
    let Some(k) = find(l, &m, 0) else { return l.to_vec() };
    let a = k + m.len();
    match rfind(l, &cs("\";"), l.len()) {
        Some(j) if j >= a => [&l[..k], &cs("// ")[..], &l[a..j], &l[j + 2..]].concat(),
        _ => l.to_vec(),
    }
}
fn clean(s: &[char]) -> S {
    let mut e = 0;
    while e < s.len() && s[e] != '\n' {
        e += 1
    }
    if e >= s.len() {
        clean_line(s)
    } else {
        [&clean_line(&s[..e])[..], &['\n'], &clean(&s[e + 1..])[..]].concat()
    }
}
fn letter(c: char) -> bool {
    c.is_ascii_alphabetic()
}

/// all sequences of at most n of the pieces
fn all(pieces: &[&str], n: usize, f: &mut dyn FnMut(&str)) {
    fn go(p: &[&str], n: usize, cur: &mut String, f: &mut dyn FnMut(&str)) {
        f(cur);
        if n > 0 {
            for x in p {
                let l = cur.len();
                cur.push_str(x);
                go(p, n - 1, cur, f);
                cur.truncate(l);
            }
        }
    }
    go(pieces, n, &mut String::new(), f)
}

struct T {
    rows: Vec<Value>,
    bad: Vec<String>,
}
impl T {
    fn ax(&mut self, name: &str, scope: &str, n: u64, bad: Option<String>) {
        self.rows.push(json!({"contract": name, "checked_on": scope, "evaluations": n, "holds": bad.is_none()}));
        if let Some(b) = bad {
            self.bad.push(format!("{name}: {b}"));
        }
    }
    fn chars(&mut self, name: &str, f: impl Fn(char) -> bool) {
        let mut n = 0;
        let mut bad = None;
        for c in '\0'..=char::MAX {
            n += 1;
            if !f(c) {
                bad.get_or_insert(format!("{c:?}"));
            }
        }
        self.ax(name, "every character", n, bad);
    }
    fn texts(&mut self, name: &str, pieces: &[&str], k: usize, f: impl Fn(&str) -> bool) {
        let mut n = 0;
        let mut bad = None;
        all(pieces, k, &mut |s| {
            n += 1;
            if !f(s) {
                bad.get_or_insert(format!("{s:?}"));
            }
        });
        self.ax(name, &format!("all texts of at most {k} of {pieces:?}"), n, bad);
    }
}

fn loc() -> pt::Loc {
    pt::Loc::File(0, 3, 9)
}
fn ident(n: &str) -> pt::Identifier {
    pt::Identifier { loc: loc(), name: n.to_owned() }
}
fn lit(s: &str) -> pt::StringLiteral {
    pt::StringLiteral { loc: loc(), unicode: false, string: s.to_owned() }
}

pub fn run() -> (Value, Vec<String>) {
    use unicode_xid::UnicodeXID;
    let mut t = T { rows: vec![], bad: vec![] };
    let up = |c: char| c.to_uppercase().to_string();
    let low = |c: char| c.to_lowercase().to_string();
    // ------------------------------------------------ characters
    t.chars("xid_continue: '_' and every letter, never '\"' (axiom_underscore, axiom_letter, axiom_quote)", |c| {
        let x = c.is_xid_continue();
        (!(c == '_' || letter(c)) || x) && (c != '"' || !x)
    });
    t.chars("axiom_letter: letters are no whitespace and have one-byte upper case", |c| {
        !letter(c) || (!is_ws(c) && up(c).len() == 1 && up(c).chars().count() == 1)
    });
    t.chars("axiom_space, axiom_newline: whitespace", |c| !(c == ' ' || c == '\n') || is_ws(c));
    t.chars("axiom_case: no case of another character has a quote", |c| {
        c == '"' || (!up(c).contains('"') && !low(c).contains('"'))
    });
    t.chars("axiom_keyword: only letters are `when` or `given` in lower case, each is one character", |c| {
        // str::to_lowercase maps every character on its own (but for the final sigma)
        let s = c.to_string().to_lowercase();
        !s.is_empty() && (s.chars().any(|x| !"whengiv".contains(x)) || letter(c))
    });
    t.chars("cw: the UTF-8 width of a character", |c| {
        let n = c as u32;
        c.len_utf8() == if n <= 0x7F { 1 } else if n <= 0x7FF { 2 } else if n <= 0xFFFF { 3 } else { 4 }
    });
    t.chars("up_char/low_char: Display of ToUppercase/ToLowercase are their characters", |c| {
        up(c) == c.to_uppercase().collect::<String>() && low(c) == c.to_lowercase().collect::<String>()
    });
    // ------------------------------------------------ texts
    let ab = ["a", "é", " ", "\n", "\r", "/", "\u{3000}", "─"];
    t.texts("vx_split_ws: split_whitespace is `words`", &ab, 6, |s| {
        s.split_whitespace().map(cs).collect::<Vec<_>>() == words(&cs(s))
    });
    t.texts("str::trim is `trim`", &ab, 6, |s| cs(s.trim()) == trim(&cs(s)));
    t.texts("vx_lines: lines is `lines_from`", &ab, 6, |s| s.lines().map(cs).collect::<Vec<_>>() == lines(&cs(s)));
    t.texts("vx_split: split(\"\\n\\n\") is `parts`", &ab, 6, |s| {
        s.split("\n\n").map(cs).collect::<Vec<_>>() == parts(&cs(s), &cs("\n\n"))
    });
    t.texts("vx_starts_with, vx_strip_prefix: \"//\" is `prefixed`", &ab, 6, |s| {
        let x = at(&cs(s), &cs("//"), 0);
        s.starts_with("//") == x && s.strip_prefix("//").map(cs) == if x { Some(cs(s)[2..].to_vec()) } else { None }
    });
    t.texts("vx_split_once: split_once(\"::\") is `find`", &["a", "é", ":", "b"], 8, |s| {
        let c = cs(s);
        s.split_once("::").map(|(a, b)| (cs(a), cs(b)))
            == find(&c, &cs("::"), 0).map(|k| (c[..k].to_vec(), c[k + 2..].to_vec()))
    });
    t.texts("vx_slice_from/vx_slice_to/vx_slice, off: byte offsets of characters", &["a", "é", "─", "😀"], 6, |s| {
        let c = cs(s);
        let mut o = 0;
        for k in 0..=c.len() {
            if cs(&s[o..]) != c[k..] || cs(&s[..o]) != c[..k] {
                return false;
            }
            o += c.get(k).map_or(0, |c| c.len_utf8());
        }
        s.len() == c.iter().map(|c| c.len_utf8()).sum::<usize>()
    });
    t.texts("vx_replace, repl: replace('-', \"_\") and of a predicate with \"\"", &["a", "-", "é", "!", " "], 7, |s| {
        let c = cs(s);
        let a: S = c.iter().map(|&x| if x == '-' { '_' } else { x }).collect();
        let b: S = c.iter().copied().filter(|&x| x.is_xid_continue() || x == ' ').collect();
        cs(&s.replace('-', "_")) == a && cs(&s.replace(|x: char| !x.is_xid_continue() && x != ' ', "")) == b
    });
    t.texts("Chars::as_str after next: the rest", &["a", "é", "😀"], 5, |s| {
        let mut i = s.chars();
        i.next();
        cs(i.as_str()) == cs(s).get(1..).unwrap_or(&[]).to_vec()
    });
    t.texts("vx_str_eq: equality of texts; str::repeat is `rep`", &["a", "é"], 8, |s| {
        let r: String = (0..3).map(|_| s).collect();
        s.repeat(3) == r && s.repeat(0).is_empty() && s == st(&cs(s))
    });
    t.texts("vx_join: join is `jn`", &["a", ",", "é"], 6, |s| {
        let v: Vec<String> = s.chars().map(String::from).collect();
        let mut e = String::new();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                e.push_str("--");
            }
            e.push_str(x);
        }
        v.join("--") == e
    });
    t.texts("BTreeMap::into_values: every value once, in an order that depends on the keys only", &["a", "b", "Z", "é", "_"], 5, |s| {
        let ks: Vec<String> = s.chars().map(String::from).collect();
        let mut m = std::collections::BTreeMap::new();
        let mut n = std::collections::BTreeMap::new();
        for k in &ks {
            m.insert(k.clone(), k.clone());
        }
        for k in ks.iter().rev() {
            n.insert(k.clone(), k.clone());
        }
        let v: Vec<String> = m.into_values().collect();
        let mut d = ks.clone();
        d.sort();
        d.dedup();
        v == d && v == n.into_values().collect::<Vec<_>>()
    });
    // ------------------------------------------------ contracts/std.vrs
    let r = |c: char, a: char, b: char| a <= c && c <= b;
    let alow = move |c: char| if r(c, 'A', 'Z') { (c as u8 + 32) as char } else { c };
    let aup = move |c: char| if r(c, 'a', 'z') { (c as u8 - 32) as char } else { c };
    t.chars("std.vrs: the predicates and maps of char", |c| {
        let n = c as u32;
        let (u, l, d) = (r(c, 'A', 'Z'), r(c, 'a', 'z'), r(c, '0', '9'));
        c.is_ascii() == (n <= 0x7F)
            && c.is_ascii_digit() == d
            && c.is_ascii_uppercase() == u
            && c.is_ascii_lowercase() == l
            && c.is_ascii_alphabetic() == (u || l)
            && c.is_ascii_alphanumeric() == (u || l || d)
            && c.is_ascii_whitespace() == (" \t\n\r\x0c".contains(c))
            && c.is_ascii_punctuation() == (r(c, '!', '/') || r(c, ':', '@') || r(c, '[', '`') || r(c, '{', '~'))
            && c.is_ascii_control() == (n <= 0x1F || n == 0x7F)
            && c.is_control() == (n <= 0x1F || (0x7F..=0x9F).contains(&n))
            && (!(c.is_alphabetic() || c.is_numeric()) || c.is_alphanumeric())
            && c.to_ascii_lowercase() == alow(c)
            && c.to_ascii_uppercase() == aup(c)
            && c.len_utf16() == if n <= 0xFFFF { 1 } else { 2 }
    });
    t.texts("std.vrs: the functions of texts and patterns", &ab, 5, |s| {
        let c = cs(s);
        let (mut a, mut b) = (0, c.len());
        while a < c.len() && is_ws(c[a]) {
            a += 1
        }
        while b > 0 && is_ws(c[b - 1]) {
            b -= 1
        }
        macro_rules! p {
            ($m:expr, $p:expr) => {{
                let m = &$m;
                let (f, l) = (m.first(&c), m.last(&c));
                let cut = |i: usize| (c[..i].to_vec(), c[i + m.len()..].to_vec());
                let end = c.len().checked_sub(m.len()).filter(|&i| m.at(&c, i));
                s.starts_with($p) == m.at(&c, 0)
                    && s.ends_with($p) == end.is_some()
                    && s.contains($p) == f.is_some()
                    && s.strip_prefix($p).map(cs) == m.at(&c, 0).then(|| cut(0).1)
                    && s.strip_suffix($p).map(cs) == end.map(|i| cut(i).0)
                    && cs(s.trim_start_matches($p)) == m.off(&c)
                    && cs(s.trim_end_matches($p)) == m.off_end(&c)
                    && s.find($p) == f.map(|i| c[..i].iter().map(|x| x.len_utf8()).sum())
                    && s.rfind($p) == l.map(|i| c[..i].iter().map(|x| x.len_utf8()).sum())
                    && s.split_once($p).map(|(x, y)| (cs(x), cs(y))) == f.map(cut)
                    && s.rsplit_once($p).map(|(x, y)| (cs(x), cs(y))) == l.map(cut)
                    && (m.len() == 0 || ["", "x", "aé"].iter().all(|t| cs(&s.replace($p, t)) == m.swap(&c, &cs(t))))
            }};
        }
        ["", "a", "é ", "//", "─"].iter().all(|q| p!(Pat::Lit(cs(q)), *q) && p!(Pat::Lit(cs(q)), &q.to_string()))
            && p!(Pat::Class(|x| x == 'a'), 'a')
            && p!(Pat::Class(|x| x == 'é' || x == '/'), ['é', '/'])
            && p!(Pat::Class(|x| x == 'é' || x == '/'), &['é', '/'])
            && p!(Pat::Class(|x| x == 'é' || x == '/'), &['é', '/'][..])
            && p!(Pat::Class(|x| x > '~'), |x| x > '~')
            && p!(Pat::Class(is_ws), char::is_whitespace)
            && cs(s.trim_start()) == c[a..]
            && cs(s.trim_end()) == c[..b]
    });
    t.texts("std.vrs: the ASCII case of texts, truncate, insert, remove", &["a", "B", "é", "É", "[", "😀"], 5, |s| {
        let c = cs(s);
        let mut o = 0;
        let mut ok = cs(&s.to_ascii_lowercase()) == c.iter().map(|&x| alow(x)).collect::<S>()
            && cs(&s.to_ascii_uppercase()) == c.iter().map(|&x| aup(x)).collect::<S>()
            && ["ab", "É", "éa", ""].iter().all(|p| {
                let q = cs(p);
                s.eq_ignore_ascii_case(p)
                    == (c.len() == q.len() && c.iter().zip(&q).all(|(&x, &y)| alow(x) == alow(y)))
            });
        for k in 0..=c.len() {
            let (mut x, mut y, mut z, mut w) = (s.to_owned(), s.to_owned(), s.to_owned(), s.to_owned());
            x.truncate(o);
            y.insert(o, 'é');
            z.insert_str(o, "aé");
            ok &= cs(&x) == c[..k]
                && cs(&y) == [&c[..k], &['é'], &c[k..]].concat()
                && cs(&z) == [&c[..k], &['a', 'é'], &c[k..]].concat();
            if k < c.len() {
                ok &= w.remove(o) == c[k] && cs(&w) == [&c[..k], &c[k + 1..]].concat();
            }
            o += c.get(k).map_or(0, |c| c.len_utf8());
        }
        ok
    });
    // ------------------------------------------------ the regular expression
    let re = regex::Regex::new("string __bulloak_comment__ = \"(.*)\";");
    t.ax("axiom_re_valid: the expression compiles", "the expression", 1, re.as_ref().err().map(|e| e.to_string()));
    if let Ok(re) = re {
        t.texts(
            "axiom_re_replaced: replace_all with \"// $1\" is `clean`",
            &[MARKER, "\";", "a", "\n", "\"", ";", "$1", "é", "\r"],
            6,
            |s| cs(&re.replace_all(s, "// $1")) == clean(&cs(s)),
        );
    }
    // ------------------------------------------------ solang's Display of what bulloak emits
    let names = ["a", "Foo", "_", "test_When", "it's", "_x1", "été", "0.8.0", "a b", "^"];
    let mut n = 0;
    let mut bad = None;
    let mut eq = |a: String, b: String| {
        n += 1;
        if a != b {
            bad.get_or_insert(format!("{a:?} is not {b:?}"));
        }
    };
    for x in names {
        eq(ident(x).to_string(), x.to_owned());
        let base = pt::Base {
            loc: loc(),
            name: pt::IdentifierPath { loc: loc(), identifiers: vec![ident(x)] },
            args: None,
        };
        eq(pt::FunctionAttribute::BaseOrModifier(loc(), base).to_string(), x.to_owned());
        let p = pt::SourceUnitPart::PragmaDirective(loc(), Some(ident("solidity")), Some(lit(x)));
        eq(p.to_string(), format!("pragma solidity {x};"));
        for c in ["", "it \\n", "a\"b", "é─", "//", "\";"] {
            let d = pt::VariableDeclaration {
                loc: loc(),
                ty: pt::Expression::Type(loc(), pt::Type::String),
                storage: None,
                name: Some(ident("__bulloak_comment__")),
            };
            let v = format!("{c}{x}");
            let s = pt::Statement::VariableDefinition(loc(), d, Some(pt::Expression::StringLiteral(vec![lit(&v)])));
            eq(s.to_string(), format!("{MARKER}{v}\";"));
        }
    }
    eq(pt::ContractTy::Contract(loc()).to_string(), "contract".into());
    eq(pt::FunctionTy::Function.to_string(), "function".into());
    eq(pt::FunctionTy::Modifier.to_string(), "modifier".into());
    for l in [None, Some(loc())] {
        eq(pt::FunctionAttribute::Visibility(pt::Visibility::External(l)).to_string(), "external".into());
    }
    let i = pt::Import::Rename(
        pt::ImportPath::Filename(lit("forge-std/Test.sol")),
        vec![(ident("Test"), None)],
        loc(),
    );
    eq(pt::SourceUnitPart::ImportDirective(i).to_string(), "import {Test} from \"forge-std/Test.sol\";".into());
    let ph = pt::VariableDeclaration {
        loc: loc(),
        ty: pt::Expression::Variable(ident("_")),
        storage: None,
        name: None,
    };
    eq(pt::Statement::VariableDefinition(loc(), ph, None).to_string(), "_;".into());
    let vm = pt::Expression::MemberAccess(loc(), Box::new(pt::Expression::Variable(ident("vm"))), ident("skip"));
    let skip = pt::Expression::FunctionCall(loc(), Box::new(vm), vec![pt::Expression::BoolLiteral(loc(), true)]);
    eq(skip.to_string(), "vm.skip(true)".into());
    t.ax("axiom_show_*: solang's Display of the shapes bulloak emits", "every shape, sampled names", n, bad);
    // ------------------------------------------------ Solidity, parsed and formatted
    let n = std::env::var("VX_PAIRS").ok().and_then(|v| v.parse().ok()).unwrap_or(400);
    for (name, k, bad) in crate::solax::run(n) {
        t.ax(&name, &format!("{n} generated pairs of a tree and a Solidity file"), k, bad);
    }
    (json!(t.rows), t.bad)
}

/// A pattern as std.vrs has it: `lit` and `class`.
enum Pat {
    Lit(S),
    Class(fn(char) -> bool),
}
impl Pat {
    fn len(&self) -> usize {
        match self {
            Pat::Lit(q) => q.len(),
            Pat::Class(_) => 1,
        }
    }
    fn at(&self, s: &[char], i: usize) -> bool {
        i + self.len() <= s.len()
            && match self {
                Pat::Lit(q) => s[i..i + q.len()] == q[..],
                Pat::Class(h) => h(s[i]),
            }
    }
    fn first(&self, s: &[char]) -> Option<usize> {
        (0..=s.len()).find(|&i| self.at(s, i))
    }
    fn last(&self, s: &[char]) -> Option<usize> {
        (0..=s.len()).rev().find(|&i| self.at(s, i))
    }
    fn off<'a>(&self, s: &'a [char]) -> &'a [char] {
        if self.len() > 0 && self.at(s, 0) { self.off(&s[self.len()..]) } else { s }
    }
    fn off_end<'a>(&self, s: &'a [char]) -> &'a [char] {
        match s.len().checked_sub(self.len()) {
            Some(k) if self.len() > 0 && self.at(s, k) => self.off_end(&s[..k]),
            _ => s,
        }
    }
    fn swap(&self, s: &[char], to: &[char]) -> S {
        if s.is_empty() {
            s.to_vec()
        } else if self.at(s, 0) {
            [to, &self.swap(&s[self.len()..], to)].concat()
        } else {
            [&s[..1], &self.swap(&s[1..], to)].concat()
        }
    }
}
