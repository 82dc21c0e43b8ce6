// ---------------------------------------------------------------- specification

pub ghost enum SK {
    TokenUnexpected(Seq<char>), DescriptionTokenUnexpected(Seq<char>), WhenUnexpected, GivenUnexpected, ItUnexpected,
    WordUnexpected(Seq<char>), EofUnexpected, TreeEmpty, TitleMissing, TreeRootless, CornerNotLastChild, TeeLastChild,
}

pub open spec fn sk(k: ErrorKind) -> SK {
    match k {
        ErrorKind::TokenUnexpected(s) => SK::TokenUnexpected(s@),
        ErrorKind::DescriptionTokenUnexpected(s) => SK::DescriptionTokenUnexpected(s@),
        ErrorKind::WhenUnexpected => SK::WhenUnexpected,
        ErrorKind::GivenUnexpected => SK::GivenUnexpected,
        ErrorKind::ItUnexpected => SK::ItUnexpected,
        ErrorKind::WordUnexpected(s) => SK::WordUnexpected(s@),
        ErrorKind::EofUnexpected => SK::EofUnexpected,
        ErrorKind::TreeEmpty => SK::TreeEmpty,
        ErrorKind::TitleMissing => SK::TitleMissing,
        ErrorKind::TreeRootless => SK::TreeRootless,
        ErrorKind::CornerNotLastChild => SK::CornerNotLastChild,
        ErrorKind::TeeLastChild => SK::TeeLastChild,
    }
}

/// outcome of parsing one node: the node and the index of the next token, or an error
pub ghost enum PN { Ok(SNode, int), Err(SK, Span) }
pub ghost enum PS { Ok(Seq<SNode>, int), Err(SK, Span) }

/// the value of a token
pub ghost struct GTok { pub kind: TokenKind, pub lexeme: Seq<char>, pub span: Span }
pub open spec fn gt(t: Token) -> GTok { GTok { kind: t.kind, lexeme: t.lexeme@, span: t.span } }
pub open spec fn gts(t: Seq<Token>) -> Seq<GTok> { t.map_values(|x: Token| gt(x)) }

pub open spec fn branch(t: GTok) -> bool { t.kind is Tee || t.kind is Corner }
pub open spec fn col(t: GTok) -> usize { t.span.start.column }
pub open spec fn after(t: GTok) -> Span { Span { start: t.span.end, end: t.span.end } }

/// first branch token at or after i, or the end
pub open spec fn words_end(t: Seq<GTok>, i: int) -> int
    decreases t.len() - i
{ if i >= t.len() || i < 0 || branch(t[i]) { i } else { words_end(t, i + 1) } }

pub proof fn lemma_words_end(t: Seq<GTok>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= words_end(t, i) <= t.len(), words_end(t, i) < t.len() ==> branch(t[words_end(t, i)]),
        forall|j: int| i <= j < words_end(t, i) ==> !branch(#[trigger] t[j]),
    decreases t.len() - i,
{ if i < t.len() && !branch(t[i]) { lemma_words_end(t, i + 1); } }

/// the words a .. b joined by single spaces
pub open spec fn join(t: Seq<GTok>, a: int, b: int) -> Seq<char>
    decreases b - a
{ if b <= a + 1 { t[a].lexeme } else { join(t, a, b - 1) + seq![' '] + t[b - 1].lexeme } }

/// a title of several words is longer than its first word
pub proof fn lemma_join_len(t: Seq<GTok>, a: int, b: int)
    requires 0 <= a < b <= t.len(),
    ensures blen(join(t, a, b)) >= blen(t[a].lexeme), b > a + 1 ==> blen(join(t, a, b)) > blen(t[a].lexeme),
    decreases b - a,
{
    if b > a + 1 {
        lemma_join_len(t, a, b - 1);
        lemma_blen_concat(join(t, a, b - 1) + seq![' '], t[b - 1].lexeme);
        lemma_blen_concat(join(t, a, b - 1), seq![' ']);
        assert(off(seq![' '], 1) == off(seq![' '], 0) + cw(' '));
    }
}

/// the node whose branch is token i and whose keyword is token i + 1
pub open spec fn p_cond(t: Seq<GTok>, i: int) -> PN
    decreases t.len() - i, 0int
{
    if i < 0 || i + 1 >= t.len() { PN::Err(SK::EofUnexpected, after(t[i])) }
    else {
        let e = words_end(t, i + 2);
        if e == i + 2 { PN::Err(SK::TitleMissing, t[i + 1].span) }
        else if e < i + 2 || e > t.len() { arbitrary() }
        else {
            match p_kids(t, i, e, true, Seq::empty()) {
                PS::Ok(kids, j) => PN::Ok(SNode::Cond {
                    title: san(join(t, i + 1, e)), kids,
                    span: Span { start: t[i].span.start, end: t[j - 1].span.end } }, j),
                PS::Err(k, s) => PN::Err(k, s),
            }
        }
    }
}

pub open spec fn p_act(t: Seq<GTok>, i: int) -> PN
    decreases t.len() - i, 0int
{
    if i < 0 || i + 1 >= t.len() { PN::Err(SK::EofUnexpected, after(t[i])) }
    else {
        let e = words_end(t, i + 2);
        if e < i + 2 || e > t.len() { arbitrary() } else {
        match p_kids(t, i, e, false, Seq::empty()) {
            PS::Ok(kids, j) => PN::Ok(SNode::Act {
                title: join(t, i + 1, e), kids,
                span: Span { start: t[i].span.start, end: t[j - 1].span.end } }, j),
            PS::Err(k, s) => PN::Err(k, s),
        } }
    }
}

/// a description of the action whose branch is token p
pub open spec fn p_desc(t: Seq<GTok>, p: int, i: int) -> PN {
    if i < 0 || i + 1 >= t.len() { PN::Err(SK::EofUnexpected, after(t[i])) }
    else {
        let e = words_end(t, i + 2);
        PN::Ok(SNode::Desc {
            text: rep(seq![' '], col(t[i]) - col(t[p])) + join(t, i + 1, e),
            span: Span { start: t[i].span.start, end: t[e - 1].span.end } }, e)
    }
}

/// the children, from token j on, of the condition or action whose branch is token p:
/// as long as branches are strictly to the right of it
pub open spec fn p_kids(t: Seq<GTok>, p: int, j: int, cond: bool, acc: Seq<SNode>) -> PS
    decreases t.len() - j, 1int
{
    if j < 0 || j >= t.len() || col(t[j]) <= col(t[p]) { PS::Ok(acc, j) }
    else if j + 1 >= t.len() { PS::Err(SK::EofUnexpected, after(t[p])) }
    else {
        let k = t[j + 1].kind;
        let n =
            if cond && (k is When || k is Given) { p_cond(t, j) }
            else if cond && k is It { p_act(t, j) }
            else if !cond && k is Word { p_desc(t, p, j) }
            else if cond { PN::Err(SK::TokenUnexpected(t[j + 1].lexeme), t[j + 1].span) }
            else { PN::Err(SK::DescriptionTokenUnexpected(t[j + 1].lexeme), t[j + 1].span) };
        match n {
            PN::Ok(x, j2) => if j2 <= j || j2 > t.len() { arbitrary() } else { p_kids(t, p, j2, cond, acc.push(x)) },
            PN::Err(k, s) => PS::Err(k, s),
        }
    }
}

/// a top-level branch
pub open spec fn p_branch(t: Seq<GTok>, i: int) -> PN {
    if i + 1 >= t.len() { PN::Err(SK::EofUnexpected, after(t[i])) }
    else {
        let k = t[i + 1].kind;
        let n = if k is When || k is Given { p_cond(t, i) } else if k is It { p_act(t, i) }
            else { PN::Err(SK::TokenUnexpected(t[i + 1].lexeme), t[i + 1].span) };
        match n {
            PN::Err(..) => n,
            PN::Ok(x, j) =>
                if t[i].kind is Tee && j == t.len() { PN::Err(SK::TeeLastChild, after(t[i])) }
                else if t[i].kind is Corner && j != t.len() { PN::Err(SK::CornerNotLastChild, after(t[i])) }
                else { n },
        }
    }
}

pub open spec fn p_top(t: Seq<GTok>, j: int, acc: Seq<SNode>) -> PS
    decreases t.len() - j
{
    if j < 0 || j >= t.len() { PS::Ok(acc, j) }
    else {
        match t[j].kind {
            TokenKind::Tee | TokenKind::Corner => match p_branch(t, j) {
                PN::Ok(x, j2) => if j2 <= j || j2 > t.len() { arbitrary() } else { p_top(t, j2, acc.push(x)) },
                PN::Err(k, s) => PS::Err(k, s),
            },
            TokenKind::Word => PS::Err(SK::WordUnexpected(t[j].lexeme), t[j].span),
            TokenKind::When => PS::Err(SK::WhenUnexpected, t[j].span),
            TokenKind::Given => PS::Err(SK::GivenUnexpected, t[j].span),
            TokenKind::It => PS::Err(SK::ItUnexpected, t[j].span),
        }
    }
}

pub open spec fn default_span() -> Span {
    Span { start: Position { offset: 0, line: 1, column: 1 }, end: Position { offset: 0, line: 1, column: 1 } }
}

pub open spec fn p_root(t: Seq<GTok>) -> PN {
    match p_top(t, 1, Seq::empty()) {
        PS::Err(k, s) => PN::Err(k, s),
        PS::Ok(kids, j) => PN::Ok(SNode::Root { name: t[0].lexeme, kids,
            span: Span { start: t[0].span.start, end: if kids.len() == 0 { t[0].span.end } else { nspan(kids.last()).end } } }, j),
    }
}

pub open spec fn p_tree(t: Seq<GTok>) -> PN {
    if t.len() == 0 { PN::Err(SK::TreeEmpty, default_span()) }
    else if t[0].kind is Word { p_root(t) }
    else { PN::Err(SK::TreeRootless, t[0].span) }
}

pub open spec fn err_is(e: Error, k: SK, s: Span, text: Seq<char>) -> bool {
    sk(e.kind) == k && e.span == s && e.text@ == text
}

pub open spec fn outcome(r: Result<Ast>, n: PN, cur: int, text: Seq<char>) -> bool {
    match n {
        PN::Ok(x, j) => cur == j && (r matches Ok(a) && nd(a) == x),
        PN::Err(k, s) => r matches Err(e) && err_is(e, k, s, text),
    }
}

