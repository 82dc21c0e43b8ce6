// ---------------------------------------------------------------- comments are single lines, names have no quotes
/// titles of actions and texts of descriptions are single lines, titles of conditions have no quotes
pub open spec fn l_ok(n: SNode) -> bool
    decreases n, 0int
{
    match n {
        SNode::Cond { title, kids, .. } => no_q(title) && ls_ok(kids, kids.len() as int),
        SNode::Act { title, kids, .. } => no_nl(title) && ls_ok(kids, kids.len() as int),
        SNode::Desc { text, .. } => no_nl(text),
        _ => true,
    }
}
pub open spec fn ls_ok(kids: Seq<SNode>, i: int) -> bool
    decreases kids, i
{ if i <= 0 || i > kids.len() { true } else { ls_ok(kids, i - 1) && l_ok(kids[i - 1]) } }
pub open spec fn all_l(kids: Seq<SNode>) -> bool { ls_ok(kids, kids.len() as int) }
proof fn lemma_l_push(kids: Seq<SNode>, x: SNode, i: int)
    requires 0 <= i <= kids.len(),
    ensures ls_ok(kids.push(x), i) == ls_ok(kids, i),
    decreases i,
{ if i > 0 { lemma_l_push(kids, x, i - 1); assert(kids.push(x)[i - 1] == kids[i - 1]); } }
proof fn lemma_l_add(kids: Seq<SNode>, x: SNode)
    requires all_l(kids), l_ok(x),
    ensures all_l(kids.push(x)),
{ lemma_l_push(kids, x, kids.len() as int); assert(kids.push(x)[kids.len() as int] == x); }

/// trusted: Unicode tables, for one character
pub axiom fn axiom_newline() ensures is_ws('\n'), is_ws('\r');
pub axiom fn axiom_case(c: char)
    requires c != '"',
    ensures no_q(up_char(c)), no_q(low_char(c));

pub open spec fn toks_ok(t: Seq<parser::GTok>) -> bool { forall|i: int| 0 <= i < t.len() ==> no_nl(#[trigger] t[i].lexeme) }
pub open spec fn line_tok(t: tokenizer::STok, s: Seq<char>) -> bool { no_nl(s.subrange(t.a, t.b + 1)) && 0 <= t.a <= t.b < s.len() }
proof fn lemma_word_line(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] != '\n', s[k] != '\r',
    ensures forall|j: int| k <= j <= tokenizer::word_end(s, k) ==> #[trigger] s[j] != '\n' && s[j] != '\r',
    decreases s.len() - k,
{ axiom_newline(); if !(k + 1 >= s.len() || is_ws(s[k + 1])) { lemma_word_line(s, k + 1); } }
proof fn lemma_lex_lines(s: Seq<char>, k: int, m: bool, t: Seq<tokenizer::STok>)
    requires forall|i: int| 0 <= i < t.len() ==> line_tok(#[trigger] t[i], s),
    ensures match tokenizer::lex(s, k, m, t) { tokenizer::Lex::Ok(st) => forall|i: int| 0 <= i < st.len() ==> line_tok(#[trigger] st[i], s), _ => true },
    decreases s.len() - k,
{
    if k < 0 || k >= s.len() {}
    else if s[k] == ' ' || s[k] == '─' || s[k] == '│' { lemma_lex_lines(s, k + 1, m, t); }
    else if s[k] == '\n' || s[k] == '\t' || s[k] == '\r' { lemma_lex_lines(s, k + 1, false, t); }
    else if s[k] == '├' { lemma_lex_lines(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Tee, a: k, b: k })); }
    else if s[k] == '└' { lemma_lex_lines(s, k + 1, m, t.push(tokenizer::STok { kind: TokenKind::Corner, a: k, b: k })); }
    else if s[k] == '/' && k + 1 < s.len() && s[k + 1] == '/' { tokenizer::lemma_comment_end(s, k); lemma_lex_lines(s, tokenizer::comment_end(s, k), false, t); }
    else {
        tokenizer::lemma_word_end(s, k);
        lemma_word_line(s, k);
        let e = tokenizer::word_end(s, k);
        if !(m && tokenizer::first_bad(s, k, e) <= e) {
            let kind = tokenizer::word_kind(s.subrange(k, e + 1));
            let m2 = m || (tokenizer::last_is_branch(t) && (kind is When || kind is Given));
            lemma_lex_lines(s, e + 1, m2, t.push(tokenizer::STok { kind, a: k, b: e }));
        }
    }
}
proof fn lemma_join_line(t: Seq<parser::GTok>, a: int, b: int)
    requires toks_ok(t), 0 <= a < b <= t.len(),
    ensures no_nl(parser::join(t, a, b)),
    decreases b - a,
{
    assert(no_nl(t[a].lexeme));
    if b > a + 1 { lemma_join_line(t, a, b - 1); assert(no_nl(t[b - 1].lexeme)); }
}
proof fn lemma_rep_line(n: int)
    ensures no_nl(rep(seq![' '], n)),
    decreases n,
{ if n > 0 { lemma_rep_line(n - 1); } }
proof fn lemma_l_desc(t: Seq<parser::GTok>, p: int, i: int)
    requires toks_ok(t), 0 <= i < t.len(),
    ensures match parser::p_desc(t, p, i) { parser::PN::Ok(n, j) => l_ok(n), _ => true },
{
    if i + 1 < t.len() {
        parser::lemma_words_end(t, i + 2);
        lemma_join_line(t, i + 1, parser::words_end(t, i + 2));
        lemma_rep_line(parser::col(t[i]) - parser::col(t[p]));
    }
}
proof fn lemma_l_node(t: Seq<parser::GTok>, i: int)
    requires toks_ok(t), 0 <= i < t.len(),
    ensures
        match parser::p_cond(t, i) { parser::PN::Ok(n, j) => l_ok(n), _ => true },
        match parser::p_act(t, i) { parser::PN::Ok(n, j) => l_ok(n), _ => true },
    decreases t.len() - i, 0int,
{
    if i + 1 < t.len() {
        let e = parser::words_end(t, i + 2);
        parser::lemma_words_end(t, i + 2);
        lemma_join_line(t, i + 1, e);
        lemma_san_no_q(parser::join(t, i + 1, e));
        lemma_l_kids(t, i, e, true, Seq::empty());
        lemma_l_kids(t, i, e, false, Seq::empty());
    }
}
proof fn lemma_l_kids(t: Seq<parser::GTok>, p: int, j: int, cond: bool, acc: Seq<SNode>)
    requires toks_ok(t), 0 <= p < j <= t.len(), all_l(acc),
    ensures match parser::p_kids(t, p, j, cond, acc) { parser::PS::Ok(kids, _) => all_l(kids), _ => true },
    decreases t.len() - j, 1int,
{
    if j < t.len() && parser::col(t[j]) > parser::col(t[p]) && j + 1 < t.len() {
        lemma_l_node(t, j);
        lemma_l_desc(t, p, j);
        lemma_p_next(t, p, j, cond);
        let k = t[j + 1].kind;
        let n =
            if cond && (k is When || k is Given) { parser::p_cond(t, j) }
            else if cond && k is It { parser::p_act(t, j) }
            else if !cond && k is Word { parser::p_desc(t, p, j) }
            else { parser::PN::Err(parser::SK::TreeEmpty, t[j].span) };
        match n {
            parser::PN::Ok(x, j2) => {
                if j2 > j && j2 <= t.len() {
                    lemma_l_add(acc, x);
                    lemma_l_kids(t, p, j2, cond, acc.push(x));
                }
            }
            _ => {}
        }
    }
}
proof fn lemma_l_top(t: Seq<parser::GTok>, j: int, acc: Seq<SNode>)
    requires toks_ok(t), 0 <= j, all_l(acc),
    ensures match parser::p_top(t, j, acc) { parser::PS::Ok(kids, _) => all_l(kids), _ => true },
    decreases t.len() - j,
{
    if j < t.len() && (t[j].kind is Tee || t[j].kind is Corner) {
        lemma_l_node(t, j);
        lemma_p_next(t, 0, j, true);
        match parser::p_branch(t, j) {
            parser::PN::Ok(x, j2) => {
                if j2 > j && j2 <= t.len() {
                    lemma_l_add(acc, x);
                    lemma_l_top(t, j2, acc.push(x));
                }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_tree_lines(s: Seq<char>)
    ensures match tree_of(s) { TR::Tree(n) => n is Root && all_l(n->Root_kids), _ => true },
{
    match tokenizer::lex(s, 0, false, Seq::empty()) {
        tokenizer::Lex::Ok(st) => {
            lemma_lex_lines(s, 0, false, Seq::empty());
            let t = gtoks(st, s);
            assert forall|i: int| 0 <= i < t.len() implies no_nl(#[trigger] t[i].lexeme) by { assert(line_tok(st[i], s)); }
            lemma_l_top(t, 1, Seq::empty());
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- from trees to plans
proof fn lemma_h_descs(kids: Seq<SNode>, i: int)
    requires ls_ok(kids, i),
    ensures lines_ok(h_descs(kids, i)),
    decreases i,
{
    if 0 < i <= kids.len() {
        lemma_h_descs(kids, i - 1);
        assert(l_ok(kids[i - 1]));
        let d = h_descs(kids, i - 1);
        match kids[i - 1] {
            SNode::Desc { text, .. } => {
                assert(no_nl(text));
                assert forall|j: int| 0 <= j < d.push(SHir::Comment(text)).len() implies line_ok(#[trigger] d.push(SHir::Comment(text))[j]) by { if j < d.len() { assert(line_ok(d[j])); } }
            }
            _ => {}
        }
    }
}
proof fn lemma_h_act(n: SNode)
    requires l_ok(n),
    ensures lines_ok(h_act(n)),
{ match n { SNode::Act { kids, .. } => { lemma_h_descs(kids, kids.len() as int); } _ => {} } }
proof fn lemma_h_acts(kids: Seq<SNode>, i: int)
    requires ls_ok(kids, i),
    ensures lines_ok(h_acts(kids, i)),
    decreases i,
{ if 0 < i <= kids.len() { lemma_h_acts(kids, i - 1); lemma_h_act(kids[i - 1]); } }
proof fn lemma_cap_no_q(s: Seq<char>)
    requires no_q(s),
    ensures no_q(cap(s)), no_q(uncap(s)),
{ if s.len() > 0 { axiom_case(s[0]); } }
proof fn lemma_words_no_q(s: Seq<char>, i: int)
    requires no_q(s),
    ensures no_qs(words_from(s, i)),
    decreases s.len() - i,
{
    let a = ws_end(s, i);
    let b = word_end(s, a);
    if i < 0 || a >= s.len() || b <= a || a < i || b > s.len() {} else {
        lemma_words_no_q(s, b);
        let w = words_from(s, b);
        assert forall|j: int| 0 <= j < words_from(s, i).len() implies no_q(#[trigger] words_from(s, i)[j]) by { if j > 0 { assert(no_q(w[j - 1])); } }
    }
}
proof fn lemma_cat_caps(w: Seq<Seq<char>>)
    requires no_qs(w),
    ensures no_q(cat(caps(w))),
    decreases w.len(),
{
    if w.len() > 0 {
        let v = w.drop_last();
        assert forall|i: int| 0 <= i < v.len() implies no_q(#[trigger] v[i]) by { assert(no_q(w[i])); }
        lemma_cat_caps(v);
        assert(caps(w).drop_last() =~= caps(v));
        assert(no_q(w[w.len() - 1]));
        lemma_cap_no_q(w.last());
    }
}
proof fn lemma_cond_names(title: Seq<char>, body: Seq<SHir>)
    requires no_q(title), words(title).len() > 0,
    ensures no_q(camel(title)), no_q(cond_test(title, body)),
{
    let w = words(title);
    lemma_words_no_q(title, 0);
    lemma_cat_caps(w);
    lemma_cap_no_q(pascal(title));
    assert forall|i: int| 0 <= i < w.skip(1).len() implies no_q(#[trigger] w.skip(1)[i]) by { assert(no_q(w[i + 1])); }
    lemma_cat_caps(w.skip(1));
    assert(no_q(w[0]));
    lemma_cap_no_q(w[0]);
}
pub open spec fn fun_ok(h: SHir) -> bool { fn_names_ok(h) && fn_lines_ok(h) }
pub open spec fn funs_ok(v: Seq<SHir>) -> bool { forall|i: int| 0 <= i < v.len() ==> fun_ok(#[trigger] v[i]) }
proof fn lemma_h_cond(n: SNode, stack: Seq<Seq<char>>, skip: bool)
    requires l_ok(n), no_qs(stack), c_titles(n, tq()),
    ensures funs_ok(h_cond(n, stack, skip)),
    decreases n, 0int,
{
    match n {
        SNode::Cond { title, span, kids } => {
            let own = !only_actions(kids);
            let name = camel(title);
            let st = if own { stack.push(name) } else { stack };
            let body = h_acts(kids, kids.len() as int);
            lemma_h_acts(kids, kids.len() as int);
            assert(title_ok(title));
            lemma_cond_names(title, body);
            assert(no_qs(st));
            lemma_h_conds(kids, kids.len() as int, st, skip);
            assert(lines_ok(with_skip(body, skip)));
        }
        _ => {}
    }
}
proof fn lemma_h_conds(kids: Seq<SNode>, i: int, stack: Seq<Seq<char>>, skip: bool)
    requires ls_ok(kids, i), no_qs(stack), k_titles(kids, i, tq()),
    ensures funs_ok(h_conds(kids, i, stack, skip)),
    decreases kids, i,
{ if 0 < i <= kids.len() { lemma_h_conds(kids, i - 1, stack, skip); lemma_h_cond(kids[i - 1], stack, skip); } }
proof fn lemma_h_top(kids: Seq<SNode>, i: int, skip: bool)
    requires ls_ok(kids, i), k_titles(kids, i, tq()),
    ensures funs_ok(h_top(kids, i, skip)),
    decreases i,
{
    if 0 < i <= kids.len() {
        lemma_h_top(kids, i - 1, skip);
        lemma_h_cond(kids[i - 1], Seq::empty(), skip);
        lemma_h_act(kids[i - 1]);
        match kids[i - 1] {
            SNode::Act { title, .. } => { lemma_san_no_q(rest_words(title)); }
            _ => {}
        }
    }
}
/// a tree's functions
pub proof fn lemma_root_fine(s: Seq<char>, skip: bool)
    requires tree_of(s) is Tree,
    ensures is_tree(h_root(tree_of(s)->Tree_0, skip)), funs_ok(t_kids(h_root(tree_of(s)->Tree_0, skip))),
        t_name(h_root(tree_of(s)->Tree_0, skip)) == tree_of(s)->Tree_0->Root_name,
{
    lemma_tree_lines(s);
    lemma_tree_ok(s);
    let n = tree_of(s)->Tree_0;
    assert(tq() =~= (|t: Seq<char>| title_ok(t)));
    lemma_h_top(n->Root_kids, n->Root_kids.len() as int, skip);
}
proof fn lemma_pfxs(kids: Seq<SHir>, f: Seq<char>)
    requires funs_ok(kids), no_q(f),
    ensures funs_ok(pfxs(kids, f)),
{
    lemma_cap_no_q(f);
    assert forall|i: int| 0 <= i < kids.len() implies fun_ok(#[trigger] pfxs(kids, f)[i]) by { assert(fun_ok(kids[i])); }
}
proof fn lemma_all_of(ts: Seq<SHir>, n: int)
    requires 0 <= n <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> is_tree(#[trigger] ts[i]) && funs_ok(t_kids(ts[i])) && no_q(t_name(ts[i])) && has_sep(t_name(ts[i])),
    ensures funs_ok(all_of(ts, n)),
    decreases n,
{
    if n > 0 {
        lemma_all_of(ts, n - 1);
        let h = ts[n - 1];
        assert(no_q(t_name(h)));
        let k = find(t_name(h), lit_sep(), 0) + 2;
        assert(no_q(f_name(t_name(h)))) by {
            lemma_find(t_name(h), lit_sep(), 0);
            if 0 <= k <= t_name(h).len() { assert forall|j: int| 0 <= j < f_name(t_name(h)).len() implies #[trigger] f_name(t_name(h))[j] != '"' by { assert(f_name(t_name(h))[j] == t_name(h)[k + j]); } }
        }
        lemma_pfxs(t_kids(h), f_name(t_name(h)));
    }
}
proof fn lemma_kept(all: Seq<SHir>, i: int, seen: Set<Seq<char>>)
    requires funs_ok(all),
    ensures funs_ok(kept(all, i, seen)),
    decreases i,
{ if 0 < i <= all.len() { lemma_kept(all, i - 1, seen); assert(fun_ok(all[i - 1])); } }
//@@ include plainspec
pub proof fn lemma_plan_fine(s: Seq<char>, skip: bool)
    requires plan_of(s, skip) is Plan, roots_plain(s) || texts_of(s).len() == 1,
    ensures names_ok(plan_of(s, skip)->Plan_0), comments_ok(plan_of(s, skip)->Plan_0),
{
    let ts = texts_of(s);
    let hs = planned_trees(s, skip);
    let h = plan_of(s, skip)->Plan_0;
    lemma_no_bad(ts, 0);
    assert forall|i: int| 0 <= i < hs.len() implies is_tree(#[trigger] hs[i]) && funs_ok(t_kids(hs[i])) && t_name(hs[i]) == tree_of(ts[i])->Tree_0->Root_name by {
        lemma_not_bad(ts, 0, i);
        lemma_root_fine(ts[i], skip);
    }
    if ts.len() == 1 {
        assert(is_tree(hs[0]));
        let fs = t_kids(h);
        assert forall|i: int| 0 <= i < fs.len() implies fn_names_ok(#[trigger] fs[i]) && fn_lines_ok(fs[i]) by { assert(fun_ok(fs[i])); }
    } else {
        assert forall|i: int| 0 <= i < hs.len() implies no_q(t_name(#[trigger] hs[i])) && has_sep(t_name(hs[i])) by { assert(t_ok(hs, i)); assert(tree_of(ts[i]) is Tree); assert(is_tree(hs[i])); }
        lemma_all_of(hs, hs.len() as int);
        let all = all_of(hs, hs.len() as int);
        lemma_kept(all, all.len() as int, Set::empty());
        let fs = t_kids(h);
        assert forall|i: int| 0 <= i < fs.len() implies fn_names_ok(#[trigger] fs[i]) && fn_lines_ok(fs[i]) by { assert(fun_ok(fs[i])); }
    }
}
proof fn lemma_not_bad(ts: Seq<Seq<char>>, i: int, k: int)
    requires 0 <= i <= k < ts.len(), bad_text(ts, i) == ts.len(),
    ensures tree_of(ts[k]) is Tree,
    decreases k - i,
{ if i < k { lemma_not_bad(ts, i + 1, k); } }
