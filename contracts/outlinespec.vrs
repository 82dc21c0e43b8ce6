// ---------------------------------------------------------------- what formatting and parsing keep
/// the first contract of u has the name of the planned one, and its parts are the planned
/// functions that are printed, in order, by name and kind
pub open spec fn outline_is(u: SourceUnit, h: SHir, skip_mods: bool) -> bool {
    let c = contract_at(u.0@, 0);
    is_tree(h) && 0 <= c < u.0@.len() && ({
        let d = *(u.0@[c]->ContractDefinition_0);
        oid_is(d.name, san(t_name(h))) && parts_are(d.parts@, shown(t_kids(h), t_kids(h).len() as int, skip_mods))
    })
}
pub open spec fn part_is(p: pt::ContractPart, h: SHir) -> bool {
    (p matches pt::ContractPart::FunctionDefinition(f) && h matches SHir::Fun { name, modifier, .. }
        && oid_is(f.name, name) && (if modifier { f.ty is Modifier } else { f.ty is Function }))
}
pub open spec fn parts_are(v: Seq<pt::ContractPart>, hs: Seq<SHir>) -> bool { v.len() == hs.len() && forall|i: int| 0 <= i < v.len() ==> part_is(#[trigger] v[i], hs[i]) }
pub open spec fn has_outline(t: Seq<char>, h: SHir, skip_mods: bool) -> bool { match pt_of(t) { Some(u) => outline_is(u, h, skip_mods), None => false } }
/// names made of the characters of identifiers
pub open spec fn identifier(n: Seq<char>) -> bool { n.len() > 0 && forall|i: int| 0 <= i < n.len() ==> xid_continue(#[trigger] n[i]) || n[i] == '$' }
pub open spec fn fn_named(h: SHir) -> bool { h matches SHir::Fun { name, mods, .. } && identifier(name) && (mods is Some ==> forall|j: int| 0 <= j < mods->0.len() ==> identifier(#[trigger] mods->0[j])) }
pub open spec fn identifiers(h: SHir) -> bool { is_tree(h) && forall|i: int| 0 <= i < t_kids(h).len() ==> fn_named(#[trigger] t_kids(h)[i]) }
/// a version requirement: nothing that ends the pragma
pub open spec fn version_char(c: char) -> bool { ('0' <= c && c <= '9') || c == '.' || c == ' ' || c == '^' || c == '~' || c == '<' || c == '>' || c == '=' || c == '|' }
pub open spec fn version_ok(v: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> version_char(#[trigger] v[i]) }
/// (trusted: solang) the text of a plan that forge accepts is parsed as what it spells
pub axiom fn axiom_printed(h: SHir, v: Seq<char>, test: bool, sm: bool)
    requires identifiers(h), comments_ok(h), version_ok(v), forge(s_unit(h, v, test, sm, false)) is Some,
    ensures has_outline(s_unit(h, v, test, sm, false), h, sm);
/// (trusted: forge-fmt) formatting keeps contracts and functions, and their order
pub axiom fn axiom_formatted(a: Seq<char>, b: Seq<char>, h: SHir, sm: bool)
    requires has_outline(a, h, sm), forge(a) == Some(b),
    ensures has_outline(b, h, sm);
pub axiom fn axiom_pretty(s: Seq<char>, u: SourceUnit, c: Comments, b: Seq<char>, h: SHir, sm: bool)
    requires pt_of(s) == Some(u), c == notes_of(s), outline_is(u, h, sm), pretty(s, u, c) == Some(b),
    ensures has_outline(b, h, sm);

// ---------------------------------------------------------------- a contract with the outline of the plan deviates in nothing
pub open spec fn name_of(h: SHir) -> Seq<char> { h->Fun_name }
pub open spec fn distinct(v: Seq<SHir>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() && v[i] is Fun && v[j] is Fun ==> name_of(#[trigger] v[i]) != name_of(#[trigger] v[j]) }
pub open spec fn rank(v: Seq<SHir>, n: int, sm: bool) -> int { shown(v, n, sm).len() as int }
pub open spec fn is_shown(h: SHir, sm: bool) -> bool { h is Fun && !(h->Fun_modifier && sm) }
proof fn lemma_rank(v: Seq<SHir>, i: int, n: int, sm: bool)
    requires 0 <= i <= n <= v.len(),
    ensures rank(v, i, sm) <= rank(v, n, sm), i < n && is_shown(v[i], sm) ==> rank(v, i, sm) < rank(v, n, sm) && shown(v, n, sm)[rank(v, i, sm)] == v[i],
    decreases n,
{ if i < n { lemma_rank(v, i, n - 1, sm); } }
/// the k-th printed function is the planned function at index r
proof fn lemma_source(v: Seq<SHir>, n: int, sm: bool, k: int) -> (r: int)
    requires 0 <= n <= v.len(), 0 <= k < rank(v, n, sm),
    ensures 0 <= r < n, is_shown(v[r], sm), rank(v, r, sm) == k, shown(v, n, sm)[k] == v[r],
    decreases n,
{ if is_shown(v[n - 1], sm) && k == rank(v, n - 1, sm) { n - 1 } else { lemma_source(v, n - 1, sm, k) } }
proof fn lemma_match_is(p: Seq<pt::ContractPart>, h: SHir, i: int, k: int)
    requires 0 <= i <= k <= p.len(), forall|j: int| i <= j < k ==> !fn_matches(h, #[trigger] p[j]), k < p.len() ==> fn_matches(h, p[k]),
    ensures match_at(p, h, i) == k,
    decreases k - i,
{ if i < k { lemma_match_is(p, h, i + 1, k); } }
proof fn lemma_found(v: Seq<SHir>, p: Seq<pt::ContractPart>, sm: bool, i: int)
    requires distinct(v), parts_are(p, shown(v, v.len() as int, sm)), 0 <= i < v.len(), v[i] is Fun,
    ensures first_match(p, v[i]) == (if is_shown(v[i], sm) { rank(v, i, sm) } else { p.len() as int }),
        is_shown(v[i], sm) ==> rank(v, i, sm) < p.len(),
{
    let n = v.len() as int;
    let s = shown(v, n, sm);
    let k = if is_shown(v[i], sm) { rank(v, i, sm) } else { p.len() as int };
    lemma_rank(v, i, n, sm);
    assert forall|j: int| 0 <= j < k implies !fn_matches(v[i], #[trigger] p[j]) by {
        let r = lemma_source(v, n, sm, j);
        assert(part_is(p[j], s[j]));
        if r != i { if r < i { assert(name_of(v[r]) != name_of(v[i])); } else { assert(name_of(v[i]) != name_of(v[r])); } }
    }
    if k < p.len() { assert(part_is(p[k], s[k])); assert(s[k] == v[i]); }
    lemma_match_is(p, v[i], 0, k);
}
pub open spec fn rising(p: Seq<(usize, usize)>, m: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).1 < (#[trigger] p[j]).1
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).1 < m
}
proof fn lemma_no_deviation(v: Seq<SHir>, p: Seq<pt::ContractPart>, sm: bool, e: Env, n: int)
    requires distinct(v), parts_are(p, shown(v, v.len() as int, sm)), p.len() <= usize::MAX, sm ==> e.skip, 0 <= n <= v.len(),
    ensures missing(v, p, e, n).len() == 0, rising(present(v, p, n), rank(v, n, sm)),
    decreases n,
{
    if n > 0 {
        lemma_no_deviation(v, p, sm, e, n - 1);
        lemma_rank(v, n - 1, n, sm);
        if v[n - 1] is Fun { lemma_found(v, p, sm, n - 1); }
    }
}
proof fn lemma_not_late(p: Seq<(usize, usize)>, m: int, n: int)
    requires rising(p, m), 0 <= n <= p.len(),
    ensures late(p, n).len() == 0,
    decreases n,
{
    if n > 0 {
        lemma_not_late(p, m, n - 1);
        if inverted(p, n - 1, p.len() as int) { let k = choose|k: int| n - 1 < k < p.len() && p[n - 1].1 > (#[trigger] p[k]).1; assert(p[n - 1].1 < p[k].1); }
    }
}
proof fn lemma_outline(u: SourceUnit, h: SHir, sm: bool, e: Env)
    requires outline_is(u, h, sm), distinct(t_kids(h)), sm ==> e.skip,
    ensures deviations(h, u, e) == Seq::<SV>::empty(),
{
    reveal_with_fuel(planned_at, 2);
    let d = *(u.0@[contract_at(u.0@, 0)]->ContractDefinition_0);
    let kids = t_kids(h);
    assert(d.parts.len() <= usize::MAX);
    lemma_no_deviation(kids, d.parts@, sm, e, kids.len() as int);
    let p = present(kids, d.parts@, kids.len() as int);
    lemma_not_late(p, rank(kids, kids.len() as int, sm), p.len() as int);
    assert(planned_at(h->Root_kids, 0) == 0);
    assert(deviations(h, u, e) =~= Seq::<SV>::empty());
}
