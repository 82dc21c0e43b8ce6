// ---------------------------------------------------------------- lemmas on reordering
proof fn lemma_off_cat(a: Seq<char>, b: Seq<char>, j: int)
    requires 0 <= j <= b.len(),
    ensures off(a + b, a.len() + j) == blen(a) + off(b, j),
    decreases j,
{
    if j == 0 { lemma_off_prefix(a + b, a, a.len() as int); }
    else { lemma_off_cat(a, b, j - 1); assert((a + b)[a.len() + j - 1] == b[j - 1]); }
}
proof fn lemma_spaces(n: int)
    requires n >= 0,
    ensures blen(rep(" "@, n)) == n, rep(" "@, n).len() == n,
    decreases n,
{
    reveal_strlit(" ");
    if n > 0 {
        lemma_spaces(n - 1);
        let r = rep(" "@, n - 1);
        lemma_off_cat(r, " "@, 1);
        assert(off(" "@, 0) == 0);
        assert(off(" "@, 1) == 1);
    }
}
/// offsets outside of what a patch of the same size replaces stay
proof fn lemma_patch(s: Seq<char>, a: int, b: int, t: Seq<char>, x: int)
    requires is_off(s, a), is_off(s, b), is_off(s, x), a <= b, blen(t) == b - a, x <= a || x >= b,
    ensures is_off(patch(s, a, b, t), x),
{
    let (i, j, k) = (idx(s, a), idx(s, b), idx(s, x));
    let h = s.take(i);
    let p = patch(s, a, b, t);
    if x <= a {
        if k > i { lemma_off_mono(s, i, k); }
        assert(k <= i);
        lemma_off_prefix(s, p, k);
        assert(off(p, k) == x);
    } else {
        if k < j { lemma_off_mono(s, k, j); }
        assert(k >= j);
        lemma_off_prefix(s, h, i);
        lemma_off_cat(h, t, t.len() as int);
        assert(h + t =~= (h + t).take((h + t).len() as int));
        lemma_off_cat(h + t, s.skip(j), k - j);
        lemma_rest(s, j, k - j);
        assert(off(p, (h + t).len() + (k - j)) == x);
    }
}
/// what fix_order knows of the chosen parts
pub open spec fn chosen_ok(l: Seq<int>, parts: Seq<pt::ContractPart>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> 0 <= #[trigger] l[i] < parts.len() && parts[l[i]] is FunctionDefinition
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i] != #[trigger] l[j]
}
proof fn lemma_chosen(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int)
    requires 0 <= n <= kids.len(),
    ensures chosen_ok(chosen(kids, parts, n), parts),
    decreases n,
{
    if n > 0 {
        lemma_chosen(kids, parts, n - 1);
        lemma_match_in(parts, kids[n - 1], 0);
        let l = chosen(kids, parts, n - 1);
        let m = sol::first_match(parts, kids[n - 1]);
        assert forall|i: int| 0 <= i < l.len() && !l.contains(m) implies #[trigger] l[i] != m by {}
    }
}
/// while the chosen functions are blanked, the offsets outside of them stay
proof fn lemma_blanked(c: pt::ContractDefinition, l: Seq<int>, n: int, s: Seq<char>, x: int)
    requires contract_placed(c, s), chosen_ok(l, c.parts@), 0 <= n <= l.len(), is_off(s, x),
        forall|i: int| 0 <= i < n ==> x <= f_start(fn_at(c.parts@, #[trigger] l[i])) || x >= fn_end(fn_at(c.parts@, l[i]), s),
    ensures is_off(blanked(l, n, c.parts@, s), x),
    decreases n,
{
    if n > 0 {
        let f = fn_at(c.parts@, l[n - 1]);
        assert(c.parts@[l[n - 1]] is FunctionDefinition);
        lemma_fn_end(f, s);
        lemma_blanked(c, l, n - 1, s, x);
        lemma_apart(c, l, n - 1, s);
        lemma_blanked(c, l, n - 1, s, f_start(f));
        lemma_blanked(c, l, n - 1, s, fn_end(f, s));
        lemma_spaces(fn_end(f, s) - f_start(f));
        lemma_patch(blanked(l, n - 1, c.parts@, s), f_start(f), fn_end(f, s), rep(" "@, fn_end(f, s) - f_start(f)), x);
    }
}
proof fn lemma_apart(c: pt::ContractDefinition, l: Seq<int>, k: int, s: Seq<char>)
    requires contract_placed(c, s), chosen_ok(l, c.parts@), 0 <= k < l.len(),
    ensures ({ let f = fn_at(c.parts@, l[k]);
        forall|i: int| 0 <= i < k ==> {
            let g = fn_at(c.parts@, #[trigger] l[i]);
            (f_start(f) <= f_start(g) || f_start(f) >= fn_end(g, s)) && (fn_end(f, s) <= f_start(g) || fn_end(f, s) >= fn_end(g, s)) } }),
{
    let f = fn_at(c.parts@, l[k]);
    assert(c.parts@[l[k]] is FunctionDefinition);
    lemma_fn_end(f, s);
    assert forall|i: int| 0 <= i < k implies {
            let g = fn_at(c.parts@, #[trigger] l[i]);
            (f_start(f) <= f_start(g) || f_start(f) >= fn_end(g, s)) && (fn_end(f, s) <= f_start(g) || fn_end(f, s) >= fn_end(g, s)) } by {
        let g = fn_at(c.parts@, l[i]);
        assert(c.parts@[l[i]] is FunctionDefinition);
        lemma_fn_end(g, s);
        if l[i] < l[k] { assert(fn_end(*(c.parts@[l[i]])->FunctionDefinition_0, s) <= fn_loc(*(c.parts@[l[k]])->FunctionDefinition_0)->File_1); }
        else { assert(fn_end(*(c.parts@[l[k]])->FunctionDefinition_0, s) <= fn_loc(*(c.parts@[l[i]])->FunctionDefinition_0)->File_1); }
    }
}
proof fn lemma_blanking(c: pt::ContractDefinition, l: Seq<int>, k: int, s: Seq<char>)
    requires contract_placed(c, s), chosen_ok(l, c.parts@), 0 <= k < l.len(),
    ensures ({ let f = fn_at(c.parts@, l[k]);
        let t = blanked(l, k, c.parts@, s);
        &&& whole(f, s) && is_off(s, f_start(f)) && is_off(s, fn_end(f, s)) && f_start(f) <= fn_end(f, s)
        &&& fn_loc(f) is File && fn_text(f, s) == s.subrange(idx(s, f_start(f)), idx(s, fn_end(f, s)))
        &&& is_off(t, f_start(f)) && is_off(t, fn_end(f, s))
        &&& blanked(l, k + 1, c.parts@, s) == patch(t, f_start(f), fn_end(f, s), rep(" "@, fn_end(f, s) - f_start(f)))
        &&& fn_texts(l.take(k + 1), c.parts@, s) == fn_texts(l.take(k), c.parts@, s).push(fn_text(f, s)) }),
{
    let f = fn_at(c.parts@, l[k]);
    assert(c.parts@[l[k]] is FunctionDefinition);
    lemma_fn_end(f, s);
    lemma_apart(c, l, k, s);
    lemma_blanked(c, l, k, s, f_start(f));
    lemma_blanked(c, l, k, s, fn_end(f, s));
    assert(l.take(k + 1) =~= l.take(k).push(l[k]));
    assert(fn_texts(l.take(k + 1), c.parts@, s) =~= fn_texts(l.take(k), c.parts@, s).push(fn_text(f, s)));
}
proof fn lemma_bounds(c: pt::ContractDefinition, l: Seq<int>, s: Seq<char>)
    requires contract_placed(c, s), chosen_ok(l, c.parts@), c.parts@.len() > 0,
    ensures ({ let (a, b) = (part_loc(c.parts@[0])->File_1 as int, c.loc->File_2 - 1);
        let t = blanked(l, l.len() as int, c.parts@, s);
        part_loc(c.parts@[0]) is File && c.loc is File && a <= b && c.loc->File_2 >= 1 && is_off(s, a) && is_off(s, b) && is_off(t, a) && is_off(t, b) && idx(t, a) <= idx(t, b) }),
{
    let (a, b) = (part_loc(c.parts@[0])->File_1 as int, c.loc->File_2 - 1);
    let t = blanked(l, l.len() as int, c.parts@, s);
    assert forall|i: int| 0 <= i < l.len() implies a <= f_start(fn_at(c.parts@, #[trigger] l[i])) && b >= fn_end(fn_at(c.parts@, l[i]), s) by {
        assert(c.parts@[l[i]] is FunctionDefinition);
    }
    assert(spot(part_loc(c.parts@[0]), s));
    lemma_blanked(c, l, l.len() as int, s, a);
    lemma_blanked(c, l, l.len() as int, s, b);
    if idx(t, a) > idx(t, b) { lemma_off_mono(t, idx(t, b), idx(t, a)); }
}
/// the same, as pieces
spec fn joined(c: pt::ContractDefinition, kids: Seq<SHir>, s: Seq<char>) -> Seq<char> {
    let l = chosen(kids, c.parts@, kids.len() as int);
    let (a, b) = (part_loc(c.parts@[0])->File_1 as int, c.loc->File_2 - 1);
    s.take(idx(s, a)) + jn(fn_texts(l, c.parts@, s), "\n\n"@) + (if l.len() == c.parts@.len() { Seq::empty() } else { banner() })
        + blanked(l, l.len() as int, c.parts@, s).subrange(idx(blanked(l, l.len() as int, c.parts@, s), a), idx(blanked(l, l.len() as int, c.parts@, s), b)) + s.skip(idx(s, b))
}
proof fn lemma_joined(c: pt::ContractDefinition, kids: Seq<SHir>, s: Seq<char>)
    ensures joined(c, kids, s) == ordered(c, kids, s),
{}
proof fn lemma_none_chosen(kids: Seq<SHir>, parts: Seq<pt::ContractPart>)
    ensures chosen(kids, parts, 0) == Seq::<int>::empty(),
        forall|l: Seq<int>, s: Seq<char>| #[trigger] blanked(l, 0, parts, s) == s,
{}
proof fn lemma_choosing(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int, h: Hir)
    requires 0 <= n < kids.len(), kids[n] == hv(h),
    ensures ({ let l = chosen(kids, parts, n);
        let m = sol::first_match(parts, kids[n]);
        &&& 0 <= m <= parts.len()
        &&& match h { Hir::FunctionDefinition(f) => kids[n] == fv(f), _ => true }
        &&& h is FunctionDefinition && m < parts.len() && !l.contains(m) ==> chosen(kids, parts, n + 1) == l.push(m) && parts[m] is FunctionDefinition
            && (forall|x: int| #[trigger] l.push(m).contains(x) <==> (l.contains(x) || x == m))
        &&& !(h is FunctionDefinition && m < parts.len() && !l.contains(m)) ==> chosen(kids, parts, n + 1) == l }),
{
    broadcast use lemma_hv;
    lemma_chosen(kids, parts, n);
    lemma_match_in(parts, kids[n], 0);
    let l = chosen(kids, parts, n);
    let m = sol::first_match(parts, kids[n]);
    assert forall|x: int| #[trigger] l.push(m).contains(x) <==> (l.contains(x) || x == m) by {
        assert(l.push(m)[l.len() as int] == m);
        if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(l.push(m)[i] == x); }
    }
}
