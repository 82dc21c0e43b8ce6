// ---------------------------------------------------------------- errors are located at characters of the text
pub open spec fn visible(c: char) -> bool { c != '\n' && c != '\r' }
/// trusted: line breaks are whitespace
pub axiom fn axiom_breaks() ensures is_ws('\n'), is_ws('\r');
pub open spec fn in_text(p: Position, s: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() && visible(s[k]) && p == #[trigger] pos_at(s, k) }
pub open spec fn span_in(sp: Span, s: Seq<char>) -> bool { in_text(sp.start, s) && in_text(sp.end, s) }
pub open spec fn at_chars(t: tokenizer::STok, s: Seq<char>) -> bool { 0 <= t.a <= t.b < s.len() && visible(s[t.a]) && visible(s[t.b]) }
proof fn lemma_word_visible(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), visible(s[k]),
    ensures forall|j: int| k <= j <= tokenizer::word_end(s, k) ==> visible(#[trigger] s[j]),
    decreases s.len() - k,
{ axiom_breaks(); if !(k + 1 >= s.len() || is_ws(s[k + 1])) { lemma_word_visible(s, k + 1); } }
proof fn lemma_lex_chars(s: Seq<char>, k: int, m: bool, t: Seq<tokenizer::STok>)
    requires forall|i: int| 0 <= i < t.len() ==> at_chars(#[trigger] t[i], s),
    ensures match tokenizer::lex(s, k, m, t) {
        tokenizer::Lex::Ok(st) => forall|i: int| 0 <= i < st.len() ==> at_chars(#[trigger] st[i], s),
        tokenizer::Lex::Bad(j) => 0 <= j < s.len() && visible(s[j]),
    },
    decreases s.len() - k,
{
    if k < 0 || k >= s.len() {}
    else if s[k] == ' ' || s[k] == '─' || s[k] == '│' { lemma_lex_chars(s, k + 1, m, t); }
    else if s[k] == '\n' || s[k] == '\t' || s[k] == '\r' { lemma_lex_chars(s, k + 1, false, t); }
    else if s[k] == '├' { lemma_lex_chars(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Tee, a: k, b: k })); }
    else if s[k] == '└' { lemma_lex_chars(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Corner, a: k, b: k })); }
    else if s[k] == '/' && k + 1 < s.len() && s[k + 1] == '/' { tokenizer::lemma_comment_end(s, k); lemma_lex_chars(s, tokenizer::comment_end(s, k), false, t); }
    else {
        tokenizer::lemma_word_end(s, k);
        lemma_word_visible(s, k);
        let e = tokenizer::word_end(s, k);
        tokenizer::lemma_first_bad_range(s, k, e);
        if !(m && tokenizer::first_bad(s, k, e) <= e) {
            let kind = tokenizer::word_kind(s.subrange(k, e + 1));
            let m2 = m || (tokenizer::last_is_branch(t) && (kind is When || kind is Given));
            lemma_lex_chars(s, e + 1, m2, t.push(tokenizer::STok { kind, a: k, b: e }));
        }
    }
}
use parser::{GTok, PN, PS};
pub open spec fn toks_in(t: Seq<GTok>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> span_in(#[trigger] t[i].span, s) }
/// every node lies in the text
pub open spec fn node_in(n: SNode, s: Seq<char>) -> bool
    decreases n, 0int
{
    span_in(nspan(n), s) && match n {
        SNode::Root { kids, .. } => kids_in(kids, s, kids.len() as int),
        SNode::Cond { kids, .. } => kids_in(kids, s, kids.len() as int),
        SNode::Act { kids, .. } => kids_in(kids, s, kids.len() as int),
        _ => true,
    }
}
pub open spec fn kids_in(kids: Seq<SNode>, s: Seq<char>, i: int) -> bool
    decreases kids, i
{ if i <= 0 || i > kids.len() { true } else { kids_in(kids, s, i - 1) && node_in(kids[i - 1], s) } }
proof fn lemma_kids_push(kids: Seq<SNode>, x: SNode, s: Seq<char>, i: int)
    requires 0 <= i <= kids.len(),
    ensures kids_in(kids.push(x), s, i) == kids_in(kids, s, i),
    decreases i,
{ if i > 0 { lemma_kids_push(kids, x, s, i - 1); assert(kids.push(x)[i - 1] == kids[i - 1]); } }
proof fn lemma_kids_add(kids: Seq<SNode>, x: SNode, s: Seq<char>)
    requires kids_in(kids, s, kids.len() as int), node_in(x, s),
    ensures kids_in(kids.push(x), s, (kids.len() + 1) as int),
{ lemma_kids_push(kids, x, s, kids.len() as int); assert(kids.push(x)[kids.len() as int] == x); }
pub open spec fn pn_in(n: PN, s: Seq<char>, i: int, len: int) -> bool { match n { PN::Ok(x, j) => node_in(x, s) && i < j <= len, PN::Err(_, sp) => span_in(sp, s) } }
pub open spec fn ps_in(n: PS, s: Seq<char>, i: int, len: int) -> bool { match n { PS::Ok(k, j) => kids_in(k, s, k.len() as int) && i <= j <= len, PS::Err(_, sp) => span_in(sp, s) } }
proof fn lemma_desc_in(t: Seq<GTok>, s: Seq<char>, p: int, i: int)
    requires toks_in(t, s), 0 <= i < t.len(),
    ensures pn_in(parser::p_desc(t, p, i), s, i, t.len() as int),
{
    assert(span_in(t[i].span, s));
    if i + 1 < t.len() {
        parser::lemma_words_end(t, i + 2);
        assert(span_in(t[parser::words_end(t, i + 2) - 1].span, s));
    }
}
proof fn lemma_node_in(t: Seq<GTok>, s: Seq<char>, i: int)
    requires toks_in(t, s), 0 <= i < t.len(),
    ensures pn_in(parser::p_cond(t, i), s, i, t.len() as int), pn_in(parser::p_act(t, i), s, i, t.len() as int),
    decreases t.len() - i, 0int,
{
    assert(span_in(t[i].span, s));
    if i + 1 < t.len() {
        let e = parser::words_end(t, i + 2);
        parser::lemma_words_end(t, i + 2);
        assert(span_in(t[i + 1].span, s));
        lemma_kids_in(t, s, i, e, true, Seq::empty());
        lemma_kids_in(t, s, i, e, false, Seq::empty());
        match parser::p_kids(t, i, e, true, Seq::empty()) { PS::Ok(k, j) => { assert(span_in(t[j - 1].span, s)); } _ => {} }
        match parser::p_kids(t, i, e, false, Seq::empty()) { PS::Ok(k, j) => { assert(span_in(t[j - 1].span, s)); } _ => {} }
    }
}
proof fn lemma_kids_in(t: Seq<GTok>, s: Seq<char>, p: int, j: int, cond: bool, acc: Seq<SNode>)
    requires toks_in(t, s), 0 <= p < j <= t.len(), kids_in(acc, s, acc.len() as int),
    ensures ps_in(parser::p_kids(t, p, j, cond, acc), s, j, t.len() as int),
    decreases t.len() - j, 1int,
{
    assert(span_in(t[p].span, s));
    if j < t.len() && parser::col(t[j]) > parser::col(t[p]) && j + 1 < t.len() {
        assert(span_in(t[j + 1].span, s));
        lemma_node_in(t, s, j);
        lemma_desc_in(t, s, p, j);
        let k = t[j + 1].kind;
        let n =
            if cond && (k is When || k is Given) { parser::p_cond(t, j) }
            else if cond && k is It { parser::p_act(t, j) }
            else if !cond && k is Word { parser::p_desc(t, p, j) }
            else { PN::Err(parser::SK::TreeEmpty, t[j + 1].span) };
        match n {
            PN::Ok(x, j2) => {
                lemma_kids_add(acc, x, s);
                lemma_kids_in(t, s, p, j2, cond, acc.push(x));
            }
            _ => {}
        }
    }
}
proof fn lemma_top_in(t: Seq<GTok>, s: Seq<char>, j: int, acc: Seq<SNode>)
    requires toks_in(t, s), 0 <= j <= t.len(), kids_in(acc, s, acc.len() as int),
    ensures ps_in(parser::p_top(t, j, acc), s, j, t.len() as int),
    decreases t.len() - j,
{
    if j < t.len() {
        assert(span_in(t[j].span, s));
        if t[j].kind is Tee || t[j].kind is Corner {
            lemma_node_in(t, s, j);
            if j + 1 < t.len() { assert(span_in(t[j + 1].span, s)); }
            match parser::p_branch(t, j) {
                PN::Ok(x, j2) => {
                    lemma_kids_add(acc, x, s);
                    lemma_top_in(t, s, j2, acc.push(x));
                }
                _ => {}
            }
        }
    }
}
proof fn lemma_tree_in(t: Seq<GTok>, s: Seq<char>)
    requires toks_in(t, s),
    ensures match parser::p_tree(t) { PN::Ok(n, _) => node_in(n, s), PN::Err(_, sp) => sp == parser::default_span() || span_in(sp, s) },
{
    if t.len() > 0 {
        assert(span_in(t[0].span, s));
        if t[0].kind is Word {
            lemma_top_in(t, s, 1, Seq::empty());
            match parser::p_top(t, 1, Seq::empty()) {
                PS::Ok(kids, j) => { if kids.len() > 0 { assert(node_in(kids.last(), s)); } }
                _ => {}
            }
        }
    }
}
// the analysis reports spans of nodes
pub open spec fn errs_in(v: Seq<(semantics::EK, Span)>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> span_in((#[trigger] v[i]).1, s) }
pub open spec fn ids_in(v: Seq<(Seq<char>, Span)>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> span_in((#[trigger] v[i]).1, s) }
proof fn lemma_c_errs_in(n: SNode, s: Seq<char>)
    requires node_in(n, s),
    ensures errs_in(semantics::c_errs(n), s), ids_in(semantics::c_ids(n), s),
    decreases n, 0int,
{
    match n {
        SNode::Cond { kids, .. } => { lemma_k_errs_in(kids, s, kids.len() as int); }
        _ => {}
    }
}
proof fn lemma_k_errs_in(kids: Seq<SNode>, s: Seq<char>, i: int)
    requires kids_in(kids, s, i), 0 <= i <= kids.len(),
    ensures errs_in(semantics::k_errs(kids, i), s), ids_in(semantics::k_ids(kids, i), s),
    decreases kids, i,
{ if i > 0 { lemma_k_errs_in(kids, s, i - 1); lemma_c_errs_in(kids[i - 1], s); } }
proof fn lemma_t_ids_in(kids: Seq<SNode>, s: Seq<char>, i: int)
    requires kids_in(kids, s, i), 0 <= i <= kids.len(),
    ensures ids_in(semantics::t_ids(kids, i), s),
    decreases i,
{
    if i > 0 {
        lemma_t_ids_in(kids, s, i - 1);
        lemma_c_errs_in(kids[i - 1], s);
        let a = semantics::t_ids(kids, i - 1);
        let b = semantics::t_ids(kids, i);
        assert(node_in(kids[i - 1], s));
        assert forall|j: int| 0 <= j < b.len() implies span_in((#[trigger] b[j]).1, s) by {
            if j < a.len() { assert(b[j] == a[j]); }
            else { match kids[i - 1] { SNode::Act { .. } => {} n => { assert(b[j] == semantics::c_ids(n)[j - a.len()]); } } }
        }
    }
}
pub open spec fn group_in(v: Seq<Span>, s: Seq<char>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> span_in(#[trigger] v[i], s) }
proof fn lemma_group_in(ids: Seq<(Seq<char>, Span)>, s: Seq<char>)
    requires ids_in(ids, s),
    ensures forall|k: Seq<char>| semantics::group(ids).dom().contains(k) ==> group_in(#[trigger] semantics::group(ids)[k], s),
    decreases ids.len(),
{
    if ids.len() > 0 {
        assert forall|i: int| 0 <= i < ids.drop_last().len() implies span_in((#[trigger] ids.drop_last()[i]).1, s) by { assert(span_in(ids[i].1, s)); }
        lemma_group_in(ids.drop_last(), s);
        assert(span_in(ids.last().1, s));
        let g = semantics::group(ids.drop_last());
        let h = semantics::group(ids);
        let id = ids.last().0;
        assert forall|k: Seq<char>| h.dom().contains(k) implies group_in(#[trigger] h[k], s) by {
            if k == id { if g.dom().contains(id) { assert(group_in(g[id], s)); assert(h[id] == g[id].push(ids.last().1)); } else { assert(h[id] == seq![ids.last().1]); } }
            else { assert(g.dom().contains(k)); assert(h[k] == g[k]); }
        }
    }
}
proof fn lemma_dups_in(v: Seq<Seq<Span>>, s: Seq<char>, i: int)
    requires forall|j: int| 0 <= j < v.len() ==> group_in(#[trigger] v[j], s), 0 <= i <= v.len(),
    ensures errs_in(semantics::dup_errs(v, i), s),
    decreases i,
{
    if i > 0 {
        lemma_dups_in(v, s, i - 1);
        assert(group_in(v[i - 1], s));
        assert(span_in(v[i - 1][0], s));
    }
}
proof fn lemma_reported_in(n: SNode, s: Seq<char>)
    requires node_in(n, s),
    ensures errs_in(semantics::reported(n), s),
{
    broadcast use semantics::axiom_sorted_keys;
    match n {
        SNode::Root { kids, .. } => { lemma_k_errs_in(kids, s, kids.len() as int); lemma_t_ids_in(kids, s, kids.len() as int); }
        _ => { lemma_c_errs_in(n, s); }
    }
    let ids = semantics::root_ids(n);
    let g = semantics::group(ids);
    lemma_group_in(ids, s);
    let v = semantics::groups(g);
    let keys = semantics::sorted_keys(g.dom());
    assert forall|j: int| 0 <= j < v.len() implies group_in(#[trigger] v[j], s) by {
        assert(keys.to_set().contains(keys[j]));
        assert(g.dom().contains(keys[j]));
    }
    lemma_dups_in(v, s, v.len() as int);
}
/// where the error of a text is, and where the errors of the analysis are
pub open spec fn located(sp: Span, s: Seq<char>) -> bool { sp == parser::default_span() || span_in(sp, s) }
pub proof fn lemma_located(s: Seq<char>)
    ensures match tree_of(s) {
        TR::BadTok(k) => 0 <= k < s.len() && visible(s[k]),
        TR::BadParse(_, sp) => located(sp, s),
        TR::BadSem(v) => errs_in(v, s),
        TR::Tree(_) => true,
    },
{
    lemma_lex_chars(s, 0, false, Seq::empty());
    match tokenizer::lex(s, 0, false, Seq::empty()) {
        tokenizer::Lex::Ok(st) => {
            let t = gtoks(st, s);
            assert forall|i: int| 0 <= i < t.len() implies span_in(#[trigger] t[i].span, s) by {
                assert(at_chars(st[i], s));
                assert(t[i].span.start == pos_at(s, st[i].a));
                assert(t[i].span.end == pos_at(s, st[i].b));
            }
            lemma_tree_in(t, s);
            match parser::p_tree(t) { PN::Ok(n, _) => { lemma_reported_in(n, s); } _ => {} }
        }
        _ => {}
    }
}
