// ---------------------------------------------------------------- unveiling comments, line by line
proof fn lemma_eol(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= eol(s, i) <= s.len(), eol(s, i) < s.len() ==> s[eol(s, i)] == '\n', forall|j: int| i <= j < eol(s, i) ==> #[trigger] s[j] != '\n',
    decreases s.len() - i,
{ if i < s.len() && s[i] != '\n' { lemma_eol(s, i + 1); } }
proof fn lemma_eol_is(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), e < s.len() ==> s[e] == '\n', forall|j: int| i <= j < e ==> #[trigger] s[j] != '\n',
    ensures eol(s, i) == e,
    decreases e - i,
{ if i < e { lemma_eol_is(s, i + 1, e); } }
pub proof fn lemma_find(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i,
    ensures find(s, p, i) >= 0 ==> find(s, p, i) >= i && at(s, p, find(s, p, i)),
    decreases s.len() + 1 - i,
{ if i <= s.len() && !at(s, p, i) { lemma_find(s, p, i + 1); } }

/// lines are unveiled on their own
proof fn lemma_clean_nl(a: Seq<char>, b: Seq<char>)
    ensures clean(a + seq!['\n'] + b) == clean(a) + seq!['\n'] + clean(b),
    decreases a.len(),
{
    let s = a + seq!['\n'] + b;
    lemma_eol(a, 0);
    let e = eol(a, 0);
    assert(s[a.len() as int] == '\n');
    if e < a.len() {
        assert forall|j: int| 0 <= j < e implies #[trigger] s[j] != '\n' by { assert(s[j] == a[j]); }
        assert(s[e] == a[e]);
        lemma_eol_is(s, 0, e);
        assert(s.take(e) =~= a.take(e));
        assert(s.skip(e + 1) =~= a.skip(e + 1) + seq!['\n'] + b);
        lemma_clean_nl(a.skip(e + 1), b);
        assert(clean(s) =~= clean(a) + seq!['\n'] + clean(b));
    } else {
        assert forall|j: int| 0 <= j < a.len() implies #[trigger] s[j] != '\n' by { assert(s[j] == a[j]); }
        lemma_eol_is(s, 0, a.len() as int);
        assert(s.take(a.len() as int) =~= a);
        assert(s.skip(a.len() as int + 1) =~= b);
    }
}
proof fn lemma_marker()
    ensures marker().len() == 30, marker()[29] == '"', marker()[28] == ' ', marker()[27] == '=', marker()[0] == 's',
        no_nl(marker()), forall|j: int| 0 <= j < 30 ==> #[trigger] marker()[j] != '{',
{
    reveal_strlit("string __bulloak_comment__ = \"");
    assert forall|j: int| 0 <= j < 30 implies #[trigger] marker()[j] != '{' && marker()[j] != '\n' by {
        if j == 0 { assert(marker()[0] != '{'); } if j == 1 { assert(marker()[1] != '{'); } if j == 2 { assert(marker()[2] != '{'); } if j == 3 { assert(marker()[3] != '{'); } if j == 4 { assert(marker()[4] != '{'); } if j == 5 { assert(marker()[5] != '{'); } if j == 6 { assert(marker()[6] != '{'); } if j == 7 { assert(marker()[7] != '{'); } if j == 8 { assert(marker()[8] != '{'); } if j == 9 { assert(marker()[9] != '{'); } if j == 10 { assert(marker()[10] != '{'); } if j == 11 { assert(marker()[11] != '{'); } if j == 12 { assert(marker()[12] != '{'); } if j == 13 { assert(marker()[13] != '{'); } if j == 14 { assert(marker()[14] != '{'); } if j == 15 { assert(marker()[15] != '{'); } if j == 16 { assert(marker()[16] != '{'); } if j == 17 { assert(marker()[17] != '{'); } if j == 18 { assert(marker()[18] != '{'); } if j == 19 { assert(marker()[19] != '{'); } if j == 20 { assert(marker()[20] != '{'); } if j == 21 { assert(marker()[21] != '{'); } if j == 22 { assert(marker()[22] != '{'); } if j == 23 { assert(marker()[23] != '{'); } if j == 24 { assert(marker()[24] != '{'); } if j == 25 { assert(marker()[25] != '{'); } if j == 26 { assert(marker()[26] != '{'); } if j == 27 { assert(marker()[27] != '{'); } if j == 28 { assert(marker()[28] != '{'); } if j == 29 { assert(marker()[29] != '{'); } 
    }
}
proof fn lemma_line_plain(l: Seq<char>)
    requires no_q(l),
    ensures clean_line(l) == l,
{
    lemma_marker();
    lemma_find(l, marker(), 0);
    let k = find(l, marker(), 0);
    if k >= 0 { assert(l.subrange(k, k + 30)[29] == l[k + 29]); }
}
/// a text without quotes stays as it is
proof fn lemma_clean_plain(s: Seq<char>)
    requires no_q(s),
    ensures clean(s) == s,
    decreases s.len(),
{
    lemma_eol(s, 0);
    let e = eol(s, 0);
    if e < s.len() {
        lemma_line_plain(s.take(e));
        assert(no_q(s.skip(e + 1)));
        lemma_clean_plain(s.skip(e + 1));
        assert(s =~= s.take(e) + seq!['\n'] + s.skip(e + 1));
    } else { lemma_line_plain(s); }
}
/// a disguised comment becomes a comment
proof fn lemma_clean_marked(c: Seq<char>)
    requires no_nl(c),
    ensures clean(marked(c)) == "// "@ + c,
{
    lemma_marker();
    reveal_strlit("\";");
    let l = marked(c);
    let q = "\";"@;
    let n = l.len() as int;
    assert(q.len() == 2 && q[0] == '"' && q[1] == ';');
    assert forall|j: int| 0 <= j < n implies #[trigger] l[j] != '\n' by {
        if j < 30 { assert(l[j] == marker()[j]); } else if j < 30 + c.len() { assert(l[j] == c[j - 30]); }
    }
    lemma_eol_is(l, 0, n);
    assert(l.subrange(0, 30) =~= marker());
    assert(find(l, marker(), 0) == 0);
    assert(!at(l, q, n) && !at(l, q, n - 1));
    assert(l.subrange(n - 2, n) =~= q);
    assert(rfind(l, q, n - 2) == n - 2);
    assert(rfind(l, q, n - 1) == n - 2);
    assert(rfind(l, q, n) == n - 2);
    assert(l.subrange(30, n - 2) =~= c);
    assert(clean_line(l) =~= "// "@ + c);
}
proof fn lemma_find_from(p: Seq<char>, l: Seq<char>, m: Seq<char>, j: int)
    requires 0 <= j,
    ensures find(p + l, m, p.len() + j) == (if find(l, m, j) < 0 { -1 } else { p.len() + find(l, m, j) }),
    decreases l.len() + 1 - j,
{
    if j <= l.len() {
        if j + m.len() <= l.len() { assert((p + l).subrange(p.len() + j, p.len() + j + m.len()) =~= l.subrange(j, j + m.len() as int)); }
        assert(at(p + l, m, p.len() + j) == at(l, m, j));
        if !at(l, m, j) { lemma_find_from(p, l, m, j + 1); }
    }
}
proof fn lemma_find_skip(p: Seq<char>, l: Seq<char>, i: int)
    requires no_q(p), p.len() > 0, p.last() == '{', 0 <= i <= p.len(),
    ensures find(p + l, marker(), i) == find(p + l, marker(), p.len() as int),
    decreases p.len() - i,
{
    let s = p + l;
    lemma_marker();
    if i < p.len() {
        if at(s, marker(), i) {
            assert(s.subrange(i, i + 30)[29] == s[i + 29]);
            if i + 29 < p.len() { assert(s[i + 29] == p[i + 29]); }
            else {
                assert(s.subrange(i, i + 30)[p.len() - 1 - i] == s[p.len() - 1]);
                assert(s[p.len() - 1] == p.last());
                assert(marker()[p.len() - 1 - i] != '{');
            }
        }
        lemma_find_skip(p, l, i + 1);
    }
}
proof fn lemma_rfind(p: Seq<char>, l: Seq<char>, q: Seq<char>, j: int)
    requires no_q(p), q.len() > 0, q[0] == '"', -1 <= j <= l.len(),
    ensures rfind(l, q, j) >= 0 ==> rfind(p + l, q, p.len() + j) == p.len() + rfind(l, q, j) && rfind(l, q, j) <= l.len() - q.len(),
        rfind(l, q, j) < 0 ==> rfind(p + l, q, p.len() + j) < 0,
    decreases j + 1,
{
    if j < 0 { lemma_rfind_none(p, l, q, p.len() - 1); }
    else {
        if j + q.len() <= l.len() { assert((p + l).subrange(p.len() + j, p.len() + j + q.len()) =~= l.subrange(j, j + q.len() as int)); }
        assert(at(p + l, q, p.len() + j) == at(l, q, j));
        if !at(l, q, j) { lemma_rfind(p, l, q, j - 1); }
    }
}
proof fn lemma_rfind_none(p: Seq<char>, l: Seq<char>, q: Seq<char>, i: int)
    requires no_q(p), q.len() > 0, q[0] == '"', i < p.len(),
    ensures rfind(p + l, q, i) < 0,
    decreases i + 1,
{
    if i >= 0 {
        if at(p + l, q, i) { assert((p + l).subrange(i, i + q.len())[0] == (p + l)[i]); assert((p + l)[i] == p[i]); }
        lemma_rfind_none(p, l, q, i - 1);
    }
}
proof fn lemma_line_prefix(p: Seq<char>, l: Seq<char>)
    requires no_q(p), p.len() > 0, p.last() == '{',
    ensures clean_line(p + l) == p + clean_line(l),
{
    let s = p + l;
    let q = "\";"@;
    reveal_strlit("\";");
    assert(q.len() == 2 && q[0] == '"');
    lemma_marker();
    lemma_find_skip(p, l, 0);
    lemma_find_from(p, l, marker(), 0);
    lemma_find(l, marker(), 0);
    lemma_rfind(p, l, q, l.len() as int);
    let k = find(l, marker(), 0);
    let j = rfind(l, q, l.len() as int);
    if k >= 0 && j >= k + 30 {
        assert(s.take(p.len() + k) =~= p + l.take(k));
        assert(s.subrange(p.len() + k + 30, p.len() + j) =~= l.subrange(k + 30, j));
        assert(s.skip(p.len() + j + 2) =~= l.skip(j + 2));
        assert(clean_line(s) =~= p + clean_line(l));
    }
}
/// so does what precedes it, up to a brace
proof fn lemma_clean_prefix(p: Seq<char>, s: Seq<char>)
    requires no_q(p), p.len() > 0, p.last() == '{',
    ensures clean(p + s) == p + clean(s),
    decreases p.len(),
{
    let t = p + s;
    lemma_eol(p, 0);
    lemma_eol(s, 0);
    let e = eol(p, 0);
    if e < p.len() {
        assert forall|j: int| 0 <= j < e implies #[trigger] t[j] != '\n' by { assert(t[j] == p[j]); }
        assert(t[e] == p[e]);
        lemma_eol_is(t, 0, e);
        assert(t.take(e) =~= p.take(e));
        lemma_line_plain(p.take(e));
        let p2 = p.skip(e + 1);
        assert(e != p.len() - 1);
        assert(p2.last() == '{');
        assert(no_q(p2));
        assert(t.skip(e + 1) =~= p2 + s);
        lemma_clean_prefix(p2, s);
        assert(clean(t) =~= p + clean(s));
    } else {
        let e2 = eol(s, 0);
        assert forall|j: int| 0 <= j < p.len() + e2 implies #[trigger] t[j] != '\n' by { if j < p.len() { assert(t[j] == p[j]); } else { assert(t[j] == s[j - p.len()]); } }
        if e2 < s.len() { assert(t[p.len() + e2] == s[e2]); }
        lemma_eol_is(t, 0, p.len() + e2);
        if e2 < s.len() {
            assert(t.take(p.len() + e2) =~= p + s.take(e2));
            assert(t.skip(p.len() + e2 + 1) =~= s.skip(e2 + 1));
            lemma_line_prefix(p, s.take(e2));
            assert(clean(t) =~= p + clean(s));
        } else { lemma_line_prefix(p, s); }
    }
}

// ---------------------------------------------------------------- unveiling the text of a plan
proof fn lemma_nl() ensures "\n"@ == seq!['\n'] { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
proof fn lemma_jn_push(v: Seq<Seq<char>>, x: Seq<char>, sep: Seq<char>)
    ensures jn(v.push(x), sep) == (if v.len() == 0 { x } else { jn(v, sep) + sep + x }),
{ assert(v.push(x).drop_last() =~= v); }
proof fn lemma_no_q_jn(v: Seq<Seq<char>>, sep: Seq<char>)
    requires no_qs(v), no_q(sep),
    ensures no_q(jn(v, sep)),
    decreases v.len(),
{ if v.len() > 1 { assert forall|i: int| 0 <= i < v.drop_last().len() implies no_q(#[trigger] v.drop_last()[i]) by { assert(no_q(v[i])); } lemma_no_q_jn(v.drop_last(), sep); assert(no_q(v[v.len() - 1])); } else if v.len() == 1 { assert(no_q(v[0])); } }
proof fn lemma_printed(b: Seq<SHir>, n: int)
    requires lines_ok(b),
    ensures lines_ok(printed(b, n)), forall|i: int| 0 <= i < printed(b, n).len() ==> (#[trigger] printed(b, n)[i] is Comment || printed(b, n)[i] is Skip),
    decreases n,
{ if 0 < n <= b.len() { lemma_printed(b, n - 1); assert(line_ok(b[n - 1])); } }
proof fn lemma_line(h: SHir)
    requires line_ok(h), h is Comment || h is Skip,
    ensures clean(s_line(h, true)) == s_line(h, false),
{
    match h {
        SHir::Comment(c) => lemma_clean_marked(c),
        _ => { reveal_strlit("vm.skip(true);"); lemma_clean_plain("vm.skip(true);"@); }
    }
}
proof fn lemma_lines(p: Seq<SHir>)
    requires lines_ok(p), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] is Comment || p[i] is Skip),
    ensures clean(jn(s_lines(p, true), "\n"@)) == jn(s_lines(p, false), "\n"@),
    decreases p.len(),
{
    lemma_nl();
    if p.len() == 0 { lemma_clean_plain(Seq::empty()); }
    else {
        let q = p.drop_last();
        let x = p.last();
        assert(line_ok(p[p.len() - 1]));
        assert forall|i: int| 0 <= i < q.len() implies line_ok(#[trigger] q[i]) && (q[i] is Comment || q[i] is Skip) by { assert(q[i] == p[i]); assert(line_ok(p[i])); }
        lemma_lines(q);
        lemma_line(x);
        assert(s_lines(p, true) =~= s_lines(q, true).push(s_line(x, true)));
        assert(s_lines(p, false) =~= s_lines(q, false).push(s_line(x, false)));
        lemma_jn_push(s_lines(q, true), s_line(x, true), "\n"@);
        lemma_jn_push(s_lines(q, false), s_line(x, false), "\n"@);
        lemma_clean_nl(jn(s_lines(q, true), "\n"@), s_line(x, true));
    }
}
pub open spec fn closes(s: Seq<char>) -> bool { s.len() >= 2 && s[s.len() - 2] == '\n' && s[s.len() - 1] == '}' }
pub open spec fn fn_head(h: SHir) -> Seq<char> {
    "function "@ + h->Fun_name + "() "@ + jn(seq!["external"@] + (if h->Fun_mods is Some { h->Fun_mods->0 } else { Seq::empty() }), " "@) + " "@
}
proof fn lemma_lits()
    ensures "{\n"@ == seq!['{', '\n'], "}"@ == seq!['}'], " "@ == seq![' '], "\n\n"@ == seq!['\n', '\n'],
        no_q("function "@), no_q("modifier "@), no_q("() "@), no_q("external"@), no_q("() {\n_;\n}"@), closes("() {\n_;\n}"@),
        no_q("contract "@), no_q(" is Test {"@), no_q(" {"@), " is Test {"@.last() == '{', " {"@.last() == '{', " is Test {"@.len() > 0, " {"@.len() > 0,
        no_q("// SPDX-License-Identifier: UNLICENSED\n"@), no_q("pragma solidity "@), no_q(";"@),
{
    reveal_strlit("{\n"); reveal_strlit("}"); reveal_strlit(" "); reveal_strlit("\n\n");
    reveal_strlit("function "); reveal_strlit("modifier "); reveal_strlit("() "); reveal_strlit("external"); reveal_strlit("() {\n_;\n}");
    reveal_strlit("contract "); reveal_strlit(" is Test {"); reveal_strlit(" {");
    reveal_strlit("// SPDX-License-Identifier: UNLICENSED\n"); reveal_strlit("pragma solidity "); reveal_strlit(";");
    assert("{\n"@ =~= seq!['{', '\n']);
    assert("}"@ =~= seq!['}']);
    assert(" "@ =~= seq![' ']);
    assert("\n\n"@ =~= seq!['\n', '\n']);
}
pub open spec fn fn_lines(h: SHir) -> Seq<SHir> { let b = if h->Fun_body is Some { h->Fun_body->0 } else { Seq::empty() }; printed(b, b.len() as int) }
proof fn lemma_fn_head(h: SHir)
    requires fn_names_ok(h), h is Fun, !h->Fun_modifier,
    ensures no_q(fn_head(h) + seq!['{']),
{
    hide(jn);
    lemma_lits();
    let ms = seq!["external"@] + (if h->Fun_mods is Some { h->Fun_mods->0 } else { Seq::empty() });
    assert forall|i: int| 0 <= i < ms.len() implies no_q(#[trigger] ms[i]) by { if i > 0 { assert(no_q(h->Fun_mods->0[i - 1])); } }
    lemma_no_q_jn(ms, " "@);
}
proof fn lemma_fn_text(h: SHir, m: bool)
    requires h is Fun, !h->Fun_modifier,
    ensures
        fn_lines(h).len() == 0 ==> s_fn(h, m) == fn_head(h) + seq!['{'] + seq!['\n'] + "}"@,
        fn_lines(h).len() > 0 ==> s_fn(h, m) == fn_head(h) + seq!['{'] + seq!['\n'] + jn(s_lines(fn_lines(h), m), "\n"@) + seq!['\n'] + "}"@,
{
    hide(jn); hide(printed); hide(s_line);
    lemma_nl();
    reveal_strlit("{\n");
    let p = fn_lines(h);
    if p.len() == 0 {
        assert(s_lines(p, m) =~= Seq::empty());
        assert(jn(s_lines(p, m), "\n"@) =~= Seq::empty()) by { reveal(jn); }
        assert(s_fn(h, m) =~= fn_head(h) + seq!['{'] + seq!['\n'] + "}"@);
    } else {
        assert(s_fn(h, m) =~= fn_head(h) + seq!['{'] + seq!['\n'] + jn(s_lines(p, m), "\n"@) + seq!['\n'] + "}"@);
    }
}
proof fn lemma_closes(a: Seq<char>)
    ensures closes(a + seq!['\n'] + "}"@),
{ reveal_strlit("}"); }
proof fn lemma_fn(h: SHir)
    requires fn_names_ok(h), fn_lines_ok(h), h is Fun,
    ensures clean(s_fn(h, true)) == s_fn(h, false), closes(s_fn(h, true)), closes(s_fn(h, false)),
{
    if h->Fun_modifier { lemma_fn_mod(h); } else { lemma_fn_fn(h); }
}
proof fn lemma_fn_mod(h: SHir)
    requires fn_names_ok(h), h is Fun, h->Fun_modifier,
    ensures clean(s_fn(h, true)) == s_fn(h, false), closes(s_fn(h, true)), closes(s_fn(h, false)),
{
    hide(clean);
    lemma_nl();
    lemma_lits();
    lemma_clean_plain(s_fn(h, true));
}
proof fn lemma_fn_fn(h: SHir)
    requires fn_names_ok(h), fn_lines_ok(h), h is Fun, !h->Fun_modifier,
    ensures clean(s_fn(h, true)) == s_fn(h, false), closes(s_fn(h, true)), closes(s_fn(h, false)),
{
        hide(clean); hide(s_fn); hide(fn_head); hide(closes); hide(jn); hide(printed); hide(no_q); hide(s_lines);
        lemma_nl();
        let b = if h->Fun_body is Some { h->Fun_body->0 } else { Seq::empty() };
        let p = fn_lines(h);
        lemma_printed(b, b.len() as int);
        lemma_lines(p);
        lemma_fn_head(h);
        lemma_fn_text(h, true);
        lemma_fn_text(h, false);
        let a = fn_head(h) + seq!['{'];
        lemma_clean_plain(a);
        assert(no_q("}"@)) by { reveal_strlit("}"); reveal(no_q); }
        lemma_clean_plain("}"@);
        if p.len() == 0 {
            lemma_closes(a);
            lemma_clean_nl(a, "}"@);
        } else {
            let x = jn(s_lines(p, true), "\n"@);
            let y = jn(s_lines(p, false), "\n"@);
            lemma_closes(a + seq!['\n'] + x);
            lemma_closes(a + seq!['\n'] + y);
            lemma_clean_nl(a, x);
            lemma_clean_nl(a + seq!['\n'] + x, "}"@);
        }
}
pub open spec fn all_funs(hs: Seq<SHir>) -> bool { forall|i: int| 0 <= i < hs.len() ==> #[trigger] hs[i] is Fun }
proof fn lemma_shown(kids: Seq<SHir>, n: int, skip: bool)
    requires fns_names_ok(kids), fns_lines_ok(kids),
    ensures fns_names_ok(shown(kids, n, skip)), fns_lines_ok(shown(kids, n, skip)), all_funs(shown(kids, n, skip)),
    decreases n,
{ if 0 < n <= kids.len() { lemma_shown(kids, n - 1, skip); assert(fn_names_ok(kids[n - 1])); assert(fn_lines_ok(kids[n - 1])); } }
proof fn lemma_fns(hs: Seq<SHir>)
    requires fns_names_ok(hs), fns_lines_ok(hs), all_funs(hs),
    ensures clean(jn(s_fns(hs, true), "\n\n"@)) == jn(s_fns(hs, false), "\n\n"@),
        hs.len() > 0 ==> closes(jn(s_fns(hs, true), "\n\n"@)),
    decreases hs.len(),
{
    hide(s_fn); hide(clean);
    lemma_nl();
    lemma_lits();
    if hs.len() == 0 { lemma_clean_plain(Seq::empty()); }
    else {
        let q = hs.drop_last();
        let x = hs.last();
        assert(fn_names_ok(hs[hs.len() - 1]) && fn_lines_ok(hs[hs.len() - 1]) && hs[hs.len() - 1] is Fun);
        assert forall|i: int| 0 <= i < q.len() implies fn_names_ok(#[trigger] q[i]) && fn_lines_ok(q[i]) && q[i] is Fun by { assert(fn_names_ok(hs[i]) && fn_lines_ok(hs[i]) && hs[i] is Fun); }
        lemma_fns(q);
        lemma_fn(x);
        assert(s_fns(hs, true) =~= s_fns(q, true).push(s_fn(x, true)));
        assert(s_fns(hs, false) =~= s_fns(q, false).push(s_fn(x, false)));
        lemma_jn_push(s_fns(q, true), s_fn(x, true), "\n\n"@);
        lemma_jn_push(s_fns(q, false), s_fn(x, false), "\n\n"@);
        let a = jn(s_fns(q, true), "\n\n"@);
        if q.len() > 0 {
            lemma_clean_plain(Seq::empty());
            lemma_clean_nl(a, Seq::empty());
            lemma_clean_nl(a + seq!['\n'] + Seq::<char>::empty(), s_fn(x, true));
            assert(a + seq!['\n'] + Seq::<char>::empty() + seq!['\n'] + s_fn(x, true) =~= a + "\n\n"@ + s_fn(x, true));
            let b = jn(s_fns(q, false), "\n\n"@);
            assert(b + seq!['\n'] + Seq::<char>::empty() + seq!['\n'] + s_fn(x, false) =~= b + "\n\n"@ + s_fn(x, false));
        }
    }
}
/// trusted: Unicode table, for one character
pub axiom fn axiom_quote() ensures !xid_continue('"');
pub proof fn lemma_san_no_q(s: Seq<char>)
    ensures no_q(san(s)),
    decreases s.len(),
{ axiom_quote(); if s.len() > 0 { lemma_san_no_q(s.drop_last()); } }
/// a contract: its heading, its functions up to the last line break, and the two closing braces
proof fn lemma_wrap(c: Seq<char>, e: Seq<char>)
    requires no_q(c), c.len() > 0, c.last() == '{',
    ensures
        clean(c + (e + seq!['\n'] + seq!['}', '}'])) == c + (clean(e) + seq!['\n'] + seq!['}', '}']),
        clean(e + seq!['\n'] + "}"@) == clean(e) + seq!['\n'] + "}"@,
{
    hide(clean);
    lemma_nl();
    lemma_lits();
    let close = seq!['}', '}'];
    lemma_clean_prefix(c, e + seq!['\n'] + close);
    lemma_clean_nl(e, close);
    lemma_clean_nl(e, "}"@);
    lemma_clean_plain(close);
    lemma_clean_plain("}"@);
}
proof fn lemma_heading(name: Seq<char>, test: bool)
    ensures ({ let c = "contract "@ + san(name) + (if test { " is Test {"@ } else { " {"@ }); no_q(c) && c.len() > 0 && c.last() == '{' }),
{
    hide(san);
    lemma_lits();
    lemma_san_no_q(name);
}
#[verifier::spinoff_prover]
proof fn lemma_contract(h: SHir, test: bool, skip: bool)
    requires h matches SHir::Contract { kids, .. } && fns_names_ok(kids) && fns_lines_ok(kids),
    ensures clean(s_contract(h, test, skip, true)) == s_contract(h, test, skip, false),
{
    hide(s_fn); hide(clean); hide(san); hide(shown); hide(fns_names_ok); hide(fns_lines_ok); hide(jn);
    lemma_nl();
    let kids = h->Contract_kids;
    let name = h->Contract_name;
    let hs = shown(kids, kids.len() as int, skip);
    lemma_shown(kids, kids.len() as int, skip);
    lemma_fns(hs);
    lemma_heading(name, test);
    let c = "contract "@ + san(name) + (if test { " is Test {"@ } else { " {"@ });
    let f = jn(s_fns(hs, true), "\n\n"@);
    let g = jn(s_fns(hs, false), "\n\n"@);
    if hs.len() == 0 {
        lemma_no_fns(c);
        assert(s_fns(hs, false) =~= s_fns(hs, true));
        reveal(jn);
        assert(f =~= Seq::<char>::empty());
        assert(s_contract(h, test, skip, true) =~= c + "}"@);
        assert(s_contract(h, test, skip, false) =~= c + "}"@);
    } else {
        let e = f.take(f.len() - 2);
        let close = seq!['}', '}'];
        lemma_brace();
        assert(f =~= e + seq!['\n'] + "}"@);
        assert(s_contract(h, test, skip, true) =~= c + (e + seq!['\n'] + close));
        lemma_wrap(c, e);
        assert(g == clean(e) + seq!['\n'] + "}"@);
        assert(s_contract(h, test, skip, false) =~= c + (clean(e) + seq!['\n'] + close));
    }
}
proof fn lemma_brace() ensures "}"@ == seq!['}'] { reveal_strlit("}"); assert("}"@ =~= seq!['}']); }
proof fn lemma_no_fns(c: Seq<char>)
    requires no_q(c),
    ensures clean(c + "}"@) == c + "}"@,
{ lemma_brace(); lemma_clean_plain(c + "}"@); }
proof fn lemma_import()
    ensures clean(s_import()) == s_import(),
{
    let s = s_import();
    reveal_strlit("import {Test} from \"forge-std/Test.sol\";");
    lemma_marker();
    assert(no_nl(s));
    lemma_eol_is(s, 0, s.len() as int);
    lemma_find(s, marker(), 0);
    let k = find(s, marker(), 0);
    if k >= 0 {
        assert(s.subrange(k, k + 30)[0] == s[k]);
        assert(s.len() == 40);
        assert(s[0] != 's' && s[1] != 's' && s[2] != 's' && s[3] != 's' && s[4] != 's' && s[5] != 's' && s[6] != 's' && s[7] != 's' && s[8] != 's' && s[9] != 's');
        assert(s[10] == 's');
        if k == 10 { assert(s.subrange(k, k + 30)[1] == s[k + 1]); }
    }
}
proof fn lemma_contracts(cs: Seq<SHir>, kids: Seq<SHir>, n: int)
    requires 0 <= n <= kids.len(), cs == contracts(kids, n),
    ensures forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] is Contract && kids.contains(cs[i]),
    decreases n,
{
    if n > 0 { lemma_contracts(contracts(kids, n - 1), kids, n - 1); }
}
proof fn lemma_unit_clean(h: SHir, v: Seq<char>, test: bool, skip: bool, head: Seq<Seq<char>>, cs: Seq<SHir>)
    requires
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i] matches SHir::Contract { kids, .. } && fns_names_ok(kids) && fns_lines_ok(kids)),
        head.len() > 0, clean(jn(head, "\n"@)) == jn(head, "\n"@),
    ensures clean(jn(head + s_contracts(cs, test, skip, true), "\n"@)) == jn(head + s_contracts(cs, test, skip, false), "\n"@),
    decreases cs.len(),
{
    lemma_nl();
    if cs.len() == 0 {
        assert(head + s_contracts(cs, test, skip, true) =~= head);
        assert(head + s_contracts(cs, test, skip, false) =~= head);
    } else {
        let q = cs.drop_last();
        let x = cs.last();
        assert(cs[cs.len() - 1] is Contract);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i] matches SHir::Contract { kids, .. } && fns_names_ok(kids) && fns_lines_ok(kids)) by { assert(q[i] == cs[i]); }
        lemma_unit_clean(h, v, test, skip, head, q);
        lemma_contract(x, test, skip);
        let a = head + s_contracts(q, test, skip, true);
        let b = head + s_contracts(q, test, skip, false);
        assert(head + s_contracts(cs, test, skip, true) =~= a.push(s_contract(x, test, skip, true)));
        assert(head + s_contracts(cs, test, skip, false) =~= b.push(s_contract(x, test, skip, false)));
        lemma_jn_push(a, s_contract(x, test, skip, true), "\n"@);
        lemma_jn_push(b, s_contract(x, test, skip, false), "\n"@);
        lemma_clean_nl(jn(a, "\n"@), s_contract(x, test, skip, true));
    }
}
/// unveiling the comments of a printed plan gives the text of the plan
pub proof fn lemma_unveil(h: SHir, v: Seq<char>, test: bool, skip: bool)
    requires names_ok(h), comments_ok(h), no_q(v),
    ensures clean(s_unit(h, v, test, skip, true)) == s_unit(h, v, test, skip, false),
{
    lemma_nl();
    lemma_lits();
    let kids = h->Root_kids;
    let cs = contracts(kids, kids.len() as int);
    lemma_contracts(cs, kids, kids.len() as int);
    assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i] matches SHir::Contract { kids: fs, .. } && fns_names_ok(fs) && fns_lines_ok(fs)) by {
        let j = choose|j: int| 0 <= j < kids.len() && kids[j] == cs[i];
        assert(kids[j] is Contract);
    }
    let head = seq![s_head(v)] + (if test { seq![s_import()] } else { Seq::empty() });
    assert(no_q(s_head(v)));
    lemma_clean_plain(s_head(v));
    lemma_import();
    if test {
        assert(head =~= seq![s_head(v)].push(s_import()));
        lemma_jn_push(seq![s_head(v)], s_import(), "\n"@);
        assert(jn(seq![s_head(v)], "\n"@) == s_head(v));
        lemma_clean_nl(s_head(v), s_import());
    } else { assert(head =~= seq![s_head(v)]); assert(jn(head, "\n"@) == s_head(v)); }
    lemma_unit_clean(h, v, test, skip, head, cs);
}

// ---------------------------------------------------------------- printing the parse tree of a plan gives its text
proof fn lemma_t_body(v: Seq<Statement>, b: Seq<SHir>)
    requires stmts_are(v, b),
    ensures t_stmts(v) == s_lines(printed(b, b.len() as int), true),
{
    broadcast use {axiom_show_comment, axiom_show_skip};
    let p = printed(b, b.len() as int);
    lemma_printed_kinds(b, b.len() as int);
    reveal_strlit(";"); reveal_strlit("vm.skip(true)"); reveal_strlit("vm.skip(true);");
    assert("vm.skip(true)"@ + ";"@ =~= "vm.skip(true);"@);
    assert forall|i: int| 0 <= i < v.len() implies t_stmts(v)[i] == #[trigger] s_lines(p, true)[i] by {
        assert(stmt_is(v[i], p[i]));
        match p[i] {
            SHir::Comment(c) => { assert(comment_is(v[i], c)); }
            _ => { match v[i] { Statement::Expression(_, e) => { assert(skip_call(e)); } _ => {} } }
        }
    }
    assert(t_stmts(v) =~= s_lines(p, true));
}
proof fn lemma_printed_kinds(b: Seq<SHir>, n: int)
    ensures forall|i: int| 0 <= i < printed(b, n).len() ==> (#[trigger] printed(b, n)[i] is Comment || printed(b, n)[i] is Skip),
    decreases n,
{ if 0 < n <= b.len() { lemma_printed_kinds(b, n - 1); } }
proof fn lemma_t_fn(f: FunctionDefinition, h: SHir)
    requires fn_is(f, h),
    ensures t_fn(f) == s_fn(h, true),
{
    broadcast use {axiom_show_identifier, axiom_show_fn_ty, axiom_show_attr, axiom_show_mod, axiom_show_placeholder};
    lemma_lits();
    let b = f.body->0;
    lemma_block(b, b->statements@.len() as int);
    assert(b->statements@.take(b->statements@.len() as int) =~= b->statements@);
    let st = b->statements@;
    reveal_strlit("modifier "); reveal_strlit("modifier"); reveal_strlit("function "); reveal_strlit("function"); reveal_strlit("_;"); reveal_strlit("() {\n_;\n}"); reveal_strlit("\n");
    reveal_strlit("("); reveal_strlit(")"); reveal_strlit("() ");
    assert("modifier"@ + " "@ =~= "modifier "@);
    assert("function"@ + " "@ =~= "function "@);
    assert(jn(t_params(f.params, f.params@.len() as int), ", "@) =~= Seq::empty());
    if h->Fun_modifier {
        assert(t_stmt(st[0]) == "_;"@);
        assert(t_stmts(st) =~= seq!["_;"@]);
        assert(jn(t_stmts(st), "\n"@) == "_;"@);
        assert(t_fn(f) =~= s_fn(h, true));
    } else {
        let hb = if h->Fun_body is Some { h->Fun_body->0 } else { Seq::empty() };
        lemma_t_body(st, hb);
        let m = if h->Fun_mods is Some { h->Fun_mods->0 } else { Seq::empty() };
        let ms = seq!["external"@] + m;
        let at = f.attributes@;
        assert(t_attrs(at).len() == ms.len());
        assert forall|i: int| 0 <= i < ms.len() implies t_attrs(at)[i] == #[trigger] ms[i] by {
            if i > 0 {
                let a = at.skip(1)[i - 1];
                assert(a == at[i]);
                assert(mod_is(a, m[i - 1]));
            } else { assert(external_attr(at[0])); }
        }
        assert(t_attrs(at) =~= ms);
        assert(t_fn(f) =~= s_fn(h, true));
    }
}
proof fn lemma_t_contract(p: SourceUnitPart, h: SHir, test: bool, skip: bool)
    requires contract_is(p, h, test, skip),
    ensures t_part(p) == s_contract(h, test, skip, true), printable(p),
{
    broadcast use {axiom_show_identifier, axiom_show_contract_ty};
    lemma_lits();
    let c = p->ContractDefinition_0;
    let kids = h->Contract_kids;
    let hs = shown(kids, kids.len() as int, skip);
    assert forall|i: int| 0 <= i < hs.len() implies t_cparts(c.parts@)[i] == #[trigger] s_fns(hs, true)[i] by {
        match c.parts@[i] { ContractPart::FunctionDefinition(f) => { lemma_t_fn(*f, hs[i]); } _ => {} }
    }
    assert(t_cparts(c.parts@) =~= s_fns(hs, true));
    reveal_strlit("contract "); reveal_strlit("contract"); reveal_strlit("is "); reveal_strlit("Test"); reveal_strlit(" is Test {"); reveal_strlit(" {"); reveal_strlit("{");
    if test {
        assert(base_is(c.base@[0], "Test"@));
        assert(t_bases(c.base@) =~= seq!["Test"@]);
        assert(jn(t_bases(c.base@), ", "@) == "Test"@);
    }
    assert(t_contract(*c) =~= s_contract(h, test, skip, true));
}
pub proof fn lemma_t_unit(u: SourceUnit, h: SHir, v: Seq<char>, test: bool, skip: bool)
    requires unit_is(u, h, v, test, skip),
    ensures t_unit(u) == s_unit(h, v, test, skip, true), forall|i: int| 0 <= i < u.0@.len() ==> printable(#[trigger] u.0@[i]),
{
    broadcast use {axiom_show_pragma, axiom_show_import};
    let kids = h->Root_kids;
    let cs = contracts(kids, kids.len() as int);
    let k: int = if test { 2 } else { 1 };
    let w = seq![s_head(v)] + (if test { seq![s_import()] } else { Seq::empty() }) + s_contracts(cs, test, skip, true);
    assert(pragma_is(u.0@[0], v));
    assert(w.len() == u.0@.len());
    assert forall|i: int| 0 <= i < w.len() implies t_parts(u.0@)[i] == #[trigger] w[i] && printable(u.0@[i]) by {
        if i == 0 { assert(w[0] == s_head(v)); }
        else if i < k { assert(import_is(u.0@[1])); }
        else { lemma_t_contract(u.0@[i], cs[i - k], test, skip); }
    }
    assert(t_parts(u.0@) =~= w);
    assert forall|i: int| 0 <= i < u.0@.len() implies printable(#[trigger] u.0@[i]) by { let x = w[i]; }
}
