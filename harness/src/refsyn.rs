//! Reference lexer, parser, semantic analysis and splitter, written from the
//! property statements (C01-C05, C16) and not from the code under test.
use std::collections::BTreeMap;
use unicode_xid::UnicodeXID;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct P {
    pub off: usize,
    pub line: usize,
    pub col: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Sp {
    pub s: P,
    pub e: P,
}
pub const P0: P = P { off: 0, line: 1, col: 1 };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Tee,
    Corner,
    Word,
    When,
    Given,
    It,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub sp: Sp,
    pub lex: String,
}
impl Tok {
    pub fn branch(&self) -> bool {
        matches!(self.k, K::Tee | K::Corner)
    }
}

/// A reference error: stage, kind (as the `Debug` text of the real kind) and
/// span.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RErr {
    pub stage: &'static str,
    pub kind: String,
    pub sp: Sp,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    Cond { title: String, sp: Sp, ch: Vec<Node> },
    Act { title: String, sp: Sp, ch: Vec<Node> },
    Desc { text: String, sp: Sp },
}
impl Node {
    pub fn sp_mut(&mut self) -> &mut Sp {
        match self {
            Node::Cond { sp, .. } | Node::Act { sp, .. } | Node::Desc { sp, .. } => sp,
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tree {
    pub name: String,
    pub sp: Sp,
    pub ch: Vec<Node>,
}

pub fn lex(text: &str) -> Result<Vec<Tok>, RErr> {
    let cs: Vec<char> = text.chars().collect();
    // Position of every character, counted from the start of the text.
    let mut ps = Vec::with_capacity(cs.len());
    let (mut off, mut line, mut col) = (0, 1, 1);
    for c in &cs {
        ps.push(P { off, line, col });
        off += c.len_utf8();
        if *c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    let mut out: Vec<Tok> = vec![];
    let mut restricted = false;
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        match c {
            ' ' | '─' | '│' => i += 1,
            '\n' | '\t' | '\r' => {
                restricted = false;
                i += 1;
            }
            '├' | '└' => {
                out.push(Tok {
                    k: if c == '├' { K::Tee } else { K::Corner },
                    sp: Sp { s: ps[i], e: ps[i] },
                    lex: c.to_string(),
                });
                i += 1;
            }
            '/' if cs.get(i + 1) == Some(&'/') => {
                restricted = false;
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            _ => {
                // A word: at least one character, up to the next whitespace.
                let mut j = i + 1;
                while j < cs.len() && !cs[j].is_whitespace() {
                    j += 1;
                }
                if restricted {
                    for x in i..j {
                        let c = cs[x];
                        let ok = c.is_alphanumeric() || "_-'\"".contains(c);
                        if !ok {
                            return Err(RErr {
                                stage: "lex",
                                kind: format!("IdentifierCharInvalid({c:?})"),
                                sp: Sp { s: ps[x], e: ps[x] },
                            });
                        }
                    }
                }
                let w: String = cs[i..j].iter().collect();
                let k = match w.to_lowercase().as_str() {
                    "when" => K::When,
                    "given" => K::Given,
                    "it" => K::It,
                    _ => K::Word,
                };
                if out.last().is_some_and(|t| t.branch()) && matches!(k, K::When | K::Given) {
                    restricted = true;
                }
                out.push(Tok { k, sp: Sp { s: ps[i], e: ps[j - 1] }, lex: w });
                i = j;
            }
        }
    }
    Ok(out)
}

pub fn sanitize(s: &str) -> String {
    s.chars()
        .map(|c| if c == '-' { '_' } else { c })
        .filter(|c| *c == ' ' || c.is_xid_continue())
        .collect()
}

struct Open {
    node: Node,
    tok: Tok,
}

/// Stack-based reference parser: one pass over the tokens, closing open nodes
/// whose branch is not strictly to the left of the next branch.
pub fn parse(toks: &[Tok]) -> Result<Tree, RErr> {
    let err = |kind: &str, sp: Sp| RErr { stage: "parse", kind: kind.to_owned(), sp };
    let lexerr = |kind: &str, t: &Tok| RErr {
        stage: "parse",
        kind: format!("{kind}({:?})", t.lex),
        sp: t.sp,
    };
    let end = |t: &Tok| Sp { s: t.sp.e, e: t.sp.e };
    let Some(root) = toks.first() else {
        return Err(err("TreeEmpty", Sp { s: P0, e: P0 }));
    };
    if root.k != K::Word {
        return Err(err("TreeRootless", root.sp));
    }
    let mut tree = Tree { name: root.lex.clone(), sp: root.sp, ch: vec![] };
    let mut stack: Vec<Open> = vec![];
    let mut i = 1;
    loop {
        let t = toks.get(i);
        // Close everything that cannot be an ancestor of `t`.
        while let Some(o) = stack.last() {
            let keep = t.is_some_and(|t| t.sp.s.col > o.tok.sp.s.col);
            if keep {
                break;
            }
            let mut o = stack.pop().unwrap();
            o.node.sp_mut().e = toks[i - 1].sp.e;
            match stack.last_mut() {
                Some(p) => match &mut p.node {
                    Node::Cond { ch, .. } | Node::Act { ch, .. } => ch.push(o.node),
                    Node::Desc { .. } => unreachable!(),
                },
                None => {
                    if o.tok.k == K::Tee && t.is_none() {
                        return Err(err("TeeLastChild", end(&o.tok)));
                    }
                    if o.tok.k == K::Corner && t.is_some() {
                        return Err(err("CornerNotLastChild", end(&o.tok)));
                    }
                    tree.ch.push(o.node);
                }
            }
        }
        let Some(t) = t else { break };
        match t.k {
            K::Word => return Err(lexerr("WordUnexpected", t)),
            K::When => return Err(err("WhenUnexpected", t.sp)),
            K::Given => return Err(err("GivenUnexpected", t.sp)),
            K::It => return Err(err("ItUnexpected", t.sp)),
            _ => {}
        }
        let Some(n) = toks.get(i + 1) else {
            let at = stack.last().map(|o| &o.tok).unwrap_or(t);
            return Err(err("EofUnexpected", end(at)));
        };
        let in_action = stack.last().is_some_and(|o| matches!(o.node, Node::Act { .. }));
        let mut j = i + 2;
        while j < toks.len() && !toks[j].branch() {
            j += 1;
        }
        let words: Vec<&str> = toks[i + 1..j].iter().map(|t| t.lex.as_str()).collect();
        let sp = Sp { s: t.sp.s, e: toks[j - 1].sp.e };
        if in_action {
            if n.k != K::Word {
                return Err(lexerr("DescriptionTokenUnexpected", n));
            }
            let o = stack.last_mut().unwrap();
            let delta = t.sp.s.col - o.tok.sp.s.col;
            let text = format!("{}{}", " ".repeat(delta), words.join(" "));
            if let Node::Act { ch, .. } = &mut o.node {
                ch.push(Node::Desc { text, sp });
            }
        } else {
            match n.k {
                K::When | K::Given => {
                    if words.len() == 1 {
                        return Err(err("TitleMissing", n.sp));
                    }
                    stack.push(Open {
                        node: Node::Cond { title: sanitize(&words.join(" ")), sp, ch: vec![] },
                        tok: t.clone(),
                    });
                }
                K::It => stack.push(Open {
                    node: Node::Act { title: words.join(" "), sp, ch: vec![] },
                    tok: t.clone(),
                }),
                _ => return Err(lexerr("TokenUnexpected", n)),
            }
        }
        i = j;
    }
    if toks.len() > 1 {
        tree.sp.e = toks[toks.len() - 1].sp.e;
    }
    Ok(tree)
}

pub fn upper_first(s: &str) -> String {
    let mut it = s.chars();
    match it.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().chain(it).collect(),
    }
}
pub fn lower_first(s: &str) -> String {
    let mut it = s.chars();
    match it.next() {
        None => String::new(),
        Some(c) => c.to_lowercase().chain(it).collect(),
    }
}
pub fn pascal(s: &str) -> String {
    s.split_whitespace().map(upper_first).collect()
}
pub fn ident_of(title: &str) -> String {
    lower_first(&pascal(&sanitize(title)))
}

/// A semantic problem: kind, position and (for duplicates) all spans.
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct SemErr {
    pub kind: &'static str,
    pub sp: Sp,
    pub spans: Vec<Sp>,
}

pub fn semantics(t: &Tree) -> Vec<SemErr> {
    let mut errs = vec![];
    let mut ids: BTreeMap<String, Vec<Sp>> = BTreeMap::new();
    if t.ch.is_empty() {
        errs.push(SemErr { kind: "TreeEmpty", sp: Sp { s: t.sp.e, e: t.sp.e }, spans: vec![] });
    }
    fn go(n: &Node, top: bool, errs: &mut Vec<SemErr>, ids: &mut BTreeMap<String, Vec<Sp>>) {
        match n {
            Node::Cond { title, sp, ch } => {
                if ch.is_empty() {
                    errs.push(SemErr { kind: "ConditionEmpty", sp: *sp, spans: vec![] });
                }
                ids.entry(ident_of(title)).or_default().push(*sp);
                for c in ch {
                    go(c, false, errs, ids);
                }
            }
            Node::Act { title, sp, .. } if top => {
                ids.entry(ident_of(title)).or_default().push(*sp);
            }
            _ => {}
        }
    }
    for n in &t.ch {
        go(n, true, &mut errs, &mut ids);
    }
    for (_, spans) in ids {
        if spans.len() > 1 {
            errs.push(SemErr {
                kind: "IdentifierDuplicated",
                sp: Sp { s: spans[0].s, e: spans[0].s },
                spans,
            });
        }
    }
    errs
}

/// Reference splitter (C16).
pub fn split(text: &str) -> Vec<String> {
    if text.chars().all(char::is_whitespace) {
        return vec![String::new()];
    }
    let cs: Vec<char> = text.chars().collect();
    let mut pieces = vec![];
    let mut cur = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\n' && cs.get(i + 1) == Some(&'\n') {
            pieces.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(cs[i]);
            i += 1;
        }
    }
    pieces.push(cur);
    pieces
        .into_iter()
        .map(|p| p.trim().to_owned())
        .filter(|p| !p.is_empty())
        .filter(|p| {
            !p.split('\n').all(|l| l.trim().starts_with("//"))
        })
        .collect()
}
