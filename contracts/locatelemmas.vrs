pub broadcast proof fn lemma_idx_b(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_off(s, #[trigger] off(s, k) as int), idx(s, off(s, k) as int) == k, off(s, k) <= blen(s),
{ lemma_idx(s, k); lemma_off_mono(s, k, s.len() as int); }
pub proof fn lemma_rest(s: Seq<char>, k: int, j: int)
    requires 0 <= k <= k + j <= s.len(),
    ensures off(s.skip(k), j) + off(s, k) == off(s, k + j),
    decreases j,
{ if j > 0 { lemma_rest(s, k, j - 1); } }
proof fn lemma_head(s: Seq<char>, k: int, p: Seq<char>)
    requires 0 <= k <= s.len(), p.len() == 2,
    ensures prefixed(s.skip(k), p) <==> two(s, k, p[0], p[1]),
{
    let r = s.skip(k);
    if prefixed(r, p) { assert(r.subrange(0, 2)[0] == p[0]); assert(r.subrange(0, 2)[1] == p[1]); }
    if two(s, k, p[0], p[1]) { assert(r.subrange(0, 2) =~= p); }
}
proof fn lemma_line(s: Seq<char>, k: int, j: int)
    requires 0 <= k <= k + j <= s.len(),
    ensures k + j <= row_end(s, k + j) <= s.len(),
        any_of(s.skip(k), '\n', '\r', j) == (if row_end(s, k + j) < s.len() { row_end(s, k + j) - k } else { -1 }),
    decreases s.len() - k - j,
{ if k + j < s.len() { assert(s.skip(k)[j] == s[k + j]); lemma_line(s, k, j + 1); } }
proof fn lemma_star(s: Seq<char>, p: Seq<char>, k: int, j: int)
    requires 0 <= k <= k + j <= s.len(), p.len() > 0,
    ensures find(s.skip(k), p, j) == (if find(s, p, k + j) < 0 { -1 } else { find(s, p, k + j) - k }),
        find(s, p, k + j) >= 0 ==> k + j <= find(s, p, k + j) && find(s, p, k + j) + p.len() <= s.len() && at(s, p, find(s, p, k + j)),
    decreases s.len() - k - j,
{
    let r = s.skip(k);
    assert(at(r, p, j) == at(s, p, k + j)) by {
        if j + p.len() <= r.len() { assert(r.subrange(j, j + p.len()) =~= s.subrange(k + j, k + j + p.len())); }
    }
    if k + j < s.len() { lemma_star(s, p, k, j + 1); }
    else { assert(find(s, p, k + j + 1) == -1); assert(find(r, p, j + 1) == -1); }
}
pub proof fn lemma_outside(s: Seq<char>, i: int, c: char)
    requires 0 <= i <= s.len(),
    ensures outside(s, i, c) >= 0 ==> i <= outside(s, i, c) < s.len() && s[outside(s, i, c)] == c,
    decreases s.len() - i,
{
    if i < s.len() && s[i] != c {
        if two(s, i, '/', '/') { lemma_outside(s, onto(i, row_end(s, i), s.len() as int), c); }
        else if two(s, i, '/', '*') { lemma_outside(s, onto(i, comment_end(s, i), s.len() as int), c); }
        else { lemma_outside(s, i + 1, c); }
    }
}
/// one step of the search
proof fn lemma_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures ({
        let r = s.skip(k);
        let sl = seq!['/', '/'];
        let st = seq!['/', '*'];
        &&& prefixed(r, sl) <==> two(s, k, '/', '/')
        &&& prefixed(r, st) <==> two(s, k, '/', '*')
        &&& off(r, 0) == 0 && blen(r) + off(s, k) == blen(s)
        &&& off(s, k + 1) == off(s, k) + cw(s[k])
        &&& two(s, k, '/', '/') ==> {
            let e = row_end(s, k);
            let f = any_of(r, '\n', '\r', 0);
            k < e <= s.len() && (if e < s.len() { f == e - k && off(r, f) + off(s, k) == off(s, e) } else { f < 0 })
        }
        &&& two(s, k, '/', '*') ==> {
            let e = comment_end(s, k);
            let f = find(r.skip(2), seq!['*', '/'], 0);
            k < e <= s.len() && is_off(r, 2) && idx(r, 2) == 2
                && (if f < 0 { e == s.len() } else { off(r.skip(2), f) + 4 + off(s, k) == off(s, e) })
        }
    }),
{
    let r = s.skip(k);
    lemma_head(s, k, seq!['/', '/']);
    lemma_head(s, k, seq!['/', '*']);
    lemma_rest(s, k, s.len() - k);
    if two(s, k, '/', '/') {
        assert(row_end(s, k) == row_end(s, k + 1));
        lemma_line(s, k, 0);
        lemma_line(s, k + 1, 0);
        let e = row_end(s, k);
        lemma_rest(s, k, e - k);
    }
    if two(s, k, '/', '*') {
        lemma_star(s, seq!['*', '/'], k + 2, 0);
        lemma_rest(s, k, 2);
        assert(off(s, k + 2) == off(s, k) + 2) by { assert(off(s, k + 1) == off(s, k) + 1); }
        lemma_idx(r, 2);
        assert(r.skip(2) =~= s.skip(k + 2));
        let f = find(s, seq!['*', '/'], k + 2);
        if f >= 0 {
            lemma_rest(s, k + 2, f - k - 2);
            assert(s.subrange(f, f + 2)[0] == '*');
            assert(s.subrange(f, f + 2)[1] == '/');
            assert(off(s, f + 1) == off(s, f) + 1);
            assert(off(s, f + 2) == off(s, f + 1) + 1);
        }
    }
}
