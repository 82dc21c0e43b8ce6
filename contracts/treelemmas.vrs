// ---------------------------------------------------------------- titles of accepted trees
// trusted: Unicode tables, for ASCII letters only
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub axiom fn axiom_letter(c: char)
    requires letter(c),
    ensures xid_continue(c), !is_ws(c), up_char(c).len() == 1, cw(up_char(c)[0]) == 1;
pub axiom fn axiom_space() ensures is_ws(' ');
/// only letters have these lower case forms
pub axiom fn axiom_keyword(w: Seq<char>)
    requires lowercase(w) == "when"@ || lowercase(w) == "given"@,
    ensures w.len() > 0, forall|i: int| 0 <= i < w.len() ==> letter(#[trigger] w[i]);

proof fn lemma_san_add(a: Seq<char>, b: Seq<char>)
    ensures san(a + b) == san(a) + san(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(san(a) + san(b) =~= san(a)); }
    else {
        lemma_san_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(san(a + b) =~= san(a) + san(b));
    }
}
proof fn lemma_san_letters(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> letter(#[trigger] a[i]),
    ensures san(a) == a,
    decreases a.len(),
{
    if a.len() > 0 {
        assert(letter(a.last()));
        axiom_letter(a.last());
        assert forall|i: int| 0 <= i < a.drop_last().len() implies letter(#[trigger] a.drop_last()[i]) by { assert(letter(a[i])); }
        lemma_san_letters(a.drop_last());
        assert(san(a) =~= a);
    }
}
proof fn lemma_word(s: Seq<char>, n: int, i: int)
    requires 0 <= i <= n < s.len(), s[n] == ' ', forall|j: int| 0 <= j < n ==> letter(#[trigger] s[j]),
    ensures word_end(s, i) == n,
    decreases n - i,
{
    axiom_space();
    if i < n { assert(letter(s[i])); axiom_letter(s[i]); lemma_word(s, n, i + 1); }
}
proof fn lemma_blen_first(c: char, t: Seq<char>)
    ensures blen(seq![c] + t) == cw(c) + blen(t),
{
    lemma_blen_concat(seq![c], t);
    assert(off(seq![c], 1) == off(seq![c], 0) + cw(c));
}
/// a title that starts with a keyword
proof fn lemma_title(k: Seq<char>, rest: Seq<char>)
    requires lowercase(k) == "when"@ || lowercase(k) == "given"@,
    ensures title_ok(san(k + seq![' '] + rest)),
{
    axiom_keyword(k);
    axiom_space();
    lemma_san_letters(k);
    lemma_san_add(k + seq![' '], rest);
    lemma_san_add(k, seq![' ']);
    assert(seq![' '].drop_last() =~= Seq::empty());
    assert(seq![' '].last() == ' ');
    assert(san(Seq::<char>::empty()) =~= Seq::empty());
    assert(san(seq![' ']) == san(seq![' '].drop_last()).push(' '));
    assert(san(seq![' ']) =~= seq![' ']);
    let t = san(k + seq![' '] + rest);
    assert(t =~= k + seq![' '] + san(rest));
    assert forall|j: int| 0 <= j < k.len() implies letter(#[trigger] t[j]) by { assert(letter(k[j])); }
    lemma_word(t, k.len() as int, 0);
    assert(letter(k[0]));
    axiom_letter(k[0]);
    assert(ws_end(t, 0) == 0);
    assert(words(t)[0] =~= t.subrange(0, k.len() as int));
    assert(words(t)[0] =~= k);
    assert(k =~= seq![k[0]] + k.skip(1));
    lemma_blen_first(k[0], k.skip(1));
    assert(up_char(k[0]) =~= seq![up_char(k[0])[0]]);
    lemma_blen_first(up_char(k[0])[0], k.skip(1));
    lemma_blen_concat(k, seq![' '] + san(rest));
    assert(t =~= k + (seq![' '] + san(rest)));
}
use parser::{GTok, PN, PS};
/// tokens whose kind is a keyword spell it
pub open spec fn kw_ok(g: GTok) -> bool { (g.kind is When ==> lowercase(g.lexeme) == "when"@) && (g.kind is Given ==> lowercase(g.lexeme) == "given"@) }
pub open spec fn kws_ok(t: Seq<GTok>) -> bool { forall|i: int| 0 <= i < t.len() ==> kw_ok(#[trigger] t[i]) }
pub open spec fn st_ok(t: tokenizer::STok, s: Seq<char>) -> bool {
    kw_ok(GTok { kind: t.kind, lexeme: s.subrange(t.a, t.b + 1), span: gtok(t, s).span })
}
proof fn lemma_lex_kinds(s: Seq<char>, k: int, m: bool, t: Seq<tokenizer::STok>)
    requires forall|i: int| 0 <= i < t.len() ==> st_ok(#[trigger] t[i], s),
    ensures match tokenizer::lex(s, k, m, t) { tokenizer::Lex::Ok(st) => forall|i: int| 0 <= i < st.len() ==> st_ok(#[trigger] st[i], s), _ => true },
    decreases s.len() - k,
{
    if k < 0 || k >= s.len() {}
    else if s[k] == ' ' || s[k] == '─' || s[k] == '│' { lemma_lex_kinds(s, k + 1, m, t); }
    else if s[k] == '\n' || s[k] == '\t' || s[k] == '\r' { lemma_lex_kinds(s, k + 1, false, t); }
    else if s[k] == '├' { lemma_lex_kinds(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Tee, a: k, b: k })); }
    else if s[k] == '└' { lemma_lex_kinds(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Corner, a: k, b: k })); }
    else if s[k] == '/' && k + 1 < s.len() && s[k + 1] == '/' { tokenizer::lemma_comment_end(s, k); lemma_lex_kinds(s, tokenizer::comment_end(s, k), false, t); }
    else {
        tokenizer::lemma_word_end(s, k);
        let e = tokenizer::word_end(s, k);
        if !(m && tokenizer::first_bad(s, k, e) <= e) {
            let kind = tokenizer::word_kind(s.subrange(k, e + 1));
            let m2 = m || (tokenizer::last_is_branch(t) && (kind is When || kind is Given));
            lemma_lex_kinds(s, e + 1, m2, t.push(tokenizer::STok { kind, a: k, b: e }));
        }
    }
}
/// joined words start with the first one
proof fn lemma_join_prefix(t: Seq<GTok>, a: int, b: int) -> (rest: Seq<char>)
    requires b > a + 1,
    ensures parser::join(t, a, b) == t[a].lexeme + seq![' '] + rest,
    decreases b - a,
{
    if b == a + 2 {
        assert(parser::join(t, a, b - 1) == t[a].lexeme);
        t[b - 1].lexeme
    } else {
        let r = lemma_join_prefix(t, a, b - 1);
        let rest = r + seq![' '] + t[b - 1].lexeme;
        assert(parser::join(t, a, b) =~= t[a].lexeme + seq![' '] + rest);
        rest
    }
}
pub open spec fn tq() -> spec_fn(Seq<char>) -> bool { |t: Seq<char>| title_ok(t) }
proof fn lemma_k_push(kids: Seq<SNode>, x: SNode, i: int)
    requires 0 <= i <= kids.len(),
    ensures k_titles(kids.push(x), i, tq()) == k_titles(kids, i, tq()),
    decreases i,
{ if i > 0 { lemma_k_push(kids, x, i - 1); } }
pub open spec fn ks_ok(kids: Seq<SNode>) -> bool { k_titles(kids, kids.len() as int, tq()) }

proof fn lemma_p_cond(t: Seq<GTok>, i: int)
    requires kws_ok(t), 0 <= i < t.len(), i + 1 < t.len() ==> t[i + 1].kind is When || t[i + 1].kind is Given,
    ensures match parser::p_cond(t, i) { PN::Ok(n, j) => n is Cond && c_titles(n, tq()), _ => true },
    decreases t.len() - i, 0int,
{
    if i + 1 < t.len() {
        let e = parser::words_end(t, i + 2);
        parser::lemma_words_end(t, i + 2);
        if e > i + 2 {
            lemma_p_kids(t, i, e, true, Seq::empty());
            assert(kw_ok(t[i + 1]));
            let rest = lemma_join_prefix(t, i + 1, e);
            lemma_title(t[i + 1].lexeme, rest);
        }
    }
}
proof fn lemma_p_act(t: Seq<GTok>, i: int)
    requires 0 <= i < t.len(),
    ensures match parser::p_act(t, i) { PN::Ok(n, j) => n is Act, _ => true },
{ if i + 1 < t.len() { parser::lemma_words_end(t, i + 2); } }
proof fn lemma_p_kids(t: Seq<GTok>, p: int, j: int, cond: bool, acc: Seq<SNode>)
    requires kws_ok(t), 0 <= p < j <= t.len(), ks_ok(acc),
    ensures match parser::p_kids(t, p, j, cond, acc) { PS::Ok(kids, _) => ks_ok(kids), _ => true },
    decreases t.len() - j, 1int,
{
    if j < t.len() && parser::col(t[j]) > parser::col(t[p]) && j + 1 < t.len() {
        let k = t[j + 1].kind;
        if cond && (k is When || k is Given) { lemma_p_cond(t, j); }
        else if cond && k is It { lemma_p_act(t, j); }
        let n =
            if cond && (k is When || k is Given) { parser::p_cond(t, j) }
            else if cond && k is It { parser::p_act(t, j) }
            else if !cond && k is Word { parser::p_desc(t, p, j) }
            else { PN::Err(parser::SK::TreeEmpty, t[j].span) };
        if (cond && !(k is Word)) || (!cond && k is Word) {
            match n {
                PN::Ok(x, j2) => {
                    lemma_p_next(t, p, j, cond);
                    if j2 > j && j2 <= t.len() {
                        assert(c_titles(x, tq()));
                        lemma_k_push(acc, x, acc.len() as int);
                        assert(acc.push(x)[acc.len() as int] == x);
                        assert(k_titles(acc.push(x), acc.len() as int + 1, tq()));
                        lemma_p_kids(t, p, j2, cond, acc.push(x));
                    }
                }
                _ => {}
            }
        }
    }
}
/// nodes end after they start
proof fn lemma_p_next(t: Seq<GTok>, p: int, j: int, cond: bool)
    requires 0 <= j < t.len(),
    ensures
        match parser::p_cond(t, j) { PN::Ok(_, k) => j < k <= t.len(), _ => true },
        match parser::p_act(t, j) { PN::Ok(_, k) => j < k <= t.len(), _ => true },
        match parser::p_desc(t, p, j) { PN::Ok(_, k) => j < k <= t.len(), _ => true },
    decreases t.len() - j, 0int,
{
    if j + 1 < t.len() {
        let e = parser::words_end(t, j + 2);
        parser::lemma_words_end(t, j + 2);
        lemma_p_kids_next(t, j, e, true, Seq::empty());
        lemma_p_kids_next(t, j, e, false, Seq::empty());
    }
}
proof fn lemma_p_kids_next(t: Seq<GTok>, p: int, j: int, cond: bool, acc: Seq<SNode>)
    requires 0 <= p < j <= t.len(),
    ensures match parser::p_kids(t, p, j, cond, acc) { PS::Ok(_, k) => j <= k <= t.len(), _ => true },
    decreases t.len() - j, 1int,
{
    if j < t.len() && parser::col(t[j]) > parser::col(t[p]) && j + 1 < t.len() {
        lemma_p_next(t, p, j, cond);
        let k = t[j + 1].kind;
        let n =
            if cond && (k is When || k is Given) { parser::p_cond(t, j) }
            else if cond && k is It { parser::p_act(t, j) }
            else if !cond && k is Word { parser::p_desc(t, p, j) }
            else { PN::Err(parser::SK::TreeEmpty, t[j].span) };
        match n { PN::Ok(x, j2) => { lemma_p_kids_next(t, p, j2, cond, acc.push(x)); } _ => {} }
    }
}
pub open spec fn top_ok(kids: Seq<SNode>) -> bool { ks_ok(kids) && forall|i: int| 0 <= i < kids.len() ==> (#[trigger] kids[i] is Cond || kids[i] is Act) }
proof fn lemma_p_top(t: Seq<GTok>, j: int, acc: Seq<SNode>)
    requires kws_ok(t), 0 <= j, top_ok(acc),
    ensures match parser::p_top(t, j, acc) { PS::Ok(kids, _) => top_ok(kids), _ => true },
    decreases t.len() - j,
{
    if j < t.len() && (t[j].kind is Tee || t[j].kind is Corner) {
        if j + 1 < t.len() {
            let k = t[j + 1].kind;
            if k is When || k is Given { lemma_p_cond(t, j); }
            if k is It { lemma_p_act(t, j); }
        }
        lemma_p_next(t, 0, j, true);
        match parser::p_branch(t, j) {
            PN::Ok(x, j2) => {
                if j2 > j && j2 <= t.len() {
                    assert(x is Cond || x is Act);
                    assert(c_titles(x, tq()));
                    lemma_k_push(acc, x, acc.len() as int);
                    assert(acc.push(x)[acc.len() as int] == x);
                    assert(k_titles(acc.push(x), acc.len() as int + 1, tq()));
                    assert forall|i: int| 0 <= i < acc.push(x).len() implies (#[trigger] acc.push(x)[i] is Cond || acc.push(x)[i] is Act) by {
                        if i < acc.len() { assert(acc.push(x)[i] == acc[i]); }
                    }
                    lemma_p_top(t, j2, acc.push(x));
                }
            }
            _ => {}
        }
    }
}
/// every tree that is read has the titles that the translation relies on
pub proof fn lemma_tree_ok(s: Seq<char>)
    ensures match tree_of(s) { TR::Tree(n) => root_ok(n), _ => true },
{
    match tokenizer::lex(s, 0, false, Seq::empty()) {
        tokenizer::Lex::Ok(st) => {
            lemma_lex_kinds(s, 0, false, Seq::empty());
            let t = gtoks(st, s);
            assert forall|i: int| 0 <= i < t.len() implies kw_ok(#[trigger] t[i]) by { assert(st_ok(st[i], s)); }
            lemma_p_top(t, 1, Seq::empty());
        }
        _ => {}
    }
}

proof fn lemma_no_bad(ts: Seq<Seq<char>>, i: int)
    requires 0 <= i <= ts.len(),
    ensures i <= bad_text(ts, i) <= ts.len(),
    decreases ts.len() - i,
{ if i < ts.len() && tree_of(ts[i]) is Tree { lemma_no_bad(ts, i + 1); } }
