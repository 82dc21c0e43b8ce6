//@@ include roundpre
//@@ include outlinespec
}
pub mod unveil {
use super::*;
use super::sol::*;
use super::sol::printed;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include printlemmas
}
}
verus! {
// ---------------------------------------------------------------- what a contract is to check: its name and the names and kinds of its parts
pub type Sig = Option<(bool, Seq<char>)>;
pub open spec fn sig(p: pt::ContractPart) -> Sig {
    match p {
        pt::ContractPart::FunctionDefinition(f) => match f.name {
            Some(n) => if f.ty is Modifier { Some((true, n.name@)) } else if f.ty is Function { Some((false, n.name@)) } else { None },
            None => None,
        },
        _ => None,
    }
}
pub open spec fn sigs(v: Seq<pt::ContractPart>) -> Seq<Sig> { v.map_values(|p: pt::ContractPart| sig(p)) }
pub open spec fn own(h: SHir) -> Sig { match h { SHir::Fun { name, modifier, .. } => Some((modifier, name)), _ => None } }
pub open spec fn called(c: pt::ContractDefinition) -> Option<Seq<char>> { match c.name { Some(n) => Some(n.name@), None => None } }
/// the text is Solidity, and its first contract has this name and these parts
pub open spec fn shows(t: Seq<char>, name: Option<Seq<char>>, v: Seq<Sig>) -> bool {
    pt_of(t) matches Some(u) && contract_of(u) matches Some(d) && called(d) == name && sigs(d.parts@) == v
}
/// the functions of a plan that can be scaffolded
pub open spec fn scaffolds(h: SHir) -> bool { identifiers(h) && comments_ok(h) && names_ok(h) && forge(s_unit(h, DEFAULT_SOL_VERSION@, false, false, false)) is Some }
pub open spec fn picked(l: Seq<int>, v: Seq<Sig>) -> Seq<Sig> { l.map_values(|i: int| v[i]) }

// (trusted: solang and forge-fmt; tried by `vharness axioms`)
/// replacing the name of a contract with one that forge accepts
pub axiom fn axiom_renamed(s: Seq<char>, u: SourceUnit, c: pt::ContractDefinition, n: pt::Identifier, h: SHir)
    requires parsed_as(s, u), contract_of(u) == Some(c), c.name == Some(n), scaffolds(h),
    ensures shows(renamed(s, n.loc, san(t_name(h))), Some(san(t_name(h))), sigs(c.parts@));
/// putting a function after another one, or at the start of the contract
pub axiom fn axiom_inserted(s: Seq<char>, u: SourceUnit, c: pt::ContractDefinition, h: SHir, i: int)
    requires parsed_as(s, u), contract_of(u) == Some(c), scaffolds(h), 0 <= i < t_kids(h).len(), t_kids(h)[i] is Fun,
    ensures exists|k: int| 0 <= k <= c.parts@.len() && #[trigger] shows(with_fn(s, gap(c, t_kids(h), i, s), t_kids(h)[i]), called(c), sigs(c.parts@).insert(k, own(t_kids(h)[i])));
/// moving the functions of the plan to the front
pub axiom fn axiom_ordered(s: Seq<char>, u: SourceUnit, c: pt::ContractDefinition, kids: Seq<SHir>)
    requires parsed_as(s, u), contract_of(u) == Some(c), c.parts@.len() > 0, banner_is_comment(),
    ensures ({ let l = chosen(kids, c.parts@, kids.len() as int);
        exists|rest: Seq<int>| #[trigger] shows(ordered(c, kids, s), called(c), picked(l + rest, sigs(c.parts@)))
            && forall|i: int| 0 <= i < rest.len() ==> 0 <= #[trigger] rest[i] < c.parts@.len() && !l.contains(rest[i]) });
/// formatting
pub axiom fn axiom_pretty_shows(s: Seq<char>, u: SourceUnit, d: pt::ContractDefinition, c: Comments, b: Seq<char>)
    requires pt_of(s) == Some(u), contract_of(u) == Some(d), c == notes_of(s), pretty(s, u, c) == Some(b),
    ensures shows(b, called(d), sigs(d.parts@));

// ---------------------------------------------------------------- deviations depend on that only
pub open spec fn holds(v: Seq<Sig>, h: SHir) -> bool { h is Fun && v.contains(own(h)) }
proof fn lemma_matches(h: SHir, p: pt::ContractPart)
    ensures fn_matches(h, p) <==> h is Fun && sig(p) == own(h),
{}
proof fn lemma_match(v: Seq<pt::ContractPart>, h: SHir, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= match_at(v, h, i) <= v.len(),
        match_at(v, h, i) < v.len() ==> h is Fun && sig(v[match_at(v, h, i)]) == own(h) && v[match_at(v, h, i)] is FunctionDefinition,
        forall|j: int| i <= j < match_at(v, h, i) ==> !(h is Fun && sig(#[trigger] v[j]) == own(h)),
    decreases v.len() - i,
{
    if i < v.len() { lemma_matches(h, v[i]); lemma_match(v, h, i + 1); }
}
proof fn lemma_has(v: Seq<pt::ContractPart>, h: SHir)
    ensures matched(v, h) <==> holds(sigs(v), h),
{
    lemma_match(v, h, 0);
    if matched(v, h) { assert(sigs(v)[first_match(v, h)] == own(h)); }
    if holds(sigs(v), h) { let j = choose|j: int| 0 <= j < sigs(v).len() && sigs(v)[j] == own(h); assert(sig(v[j]) == own(h)); }
}
/// the first place of a signature
proof fn lemma_place(v: Seq<pt::ContractPart>, h: SHir, k: int)
    requires h is Fun, 0 <= k < v.len(), sigs(v)[k] == own(h), forall|j: int| 0 <= j < k ==> #[trigger] sigs(v)[j] != own(h),
    ensures first_match(v, h) == k,
{
    lemma_match(v, h, 0);
    let m = first_match(v, h);
    if m > k { assert(sig(v[k]) == own(h)); }
    if m < k { assert(sigs(v)[m] == own(h)); }
}
/// nothing is missing iff everything that is not left out is there
pub open spec fn complete(kids: Seq<SHir>, v: Seq<Sig>, skip: bool, n: int) -> bool {
    forall|k: int| 0 <= k < n && (#[trigger] kids[k]) is Fun && !(skip && kids[k]->Fun_modifier) ==> holds(v, kids[k])
}
proof fn lemma_complete(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, e: Env, n: int)
    requires complete(kids, sigs(parts), e.skip, n), 0 <= n <= kids.len(),
    ensures missing(kids, parts, e, n).len() == 0,
    decreases n,
{ if n > 0 { lemma_complete(kids, parts, e, n - 1); lemma_has(parts, kids[n - 1]); } }
/// what is reported as missing, and what is not
proof fn lemma_missing(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, e: Env, n: int)
    requires 0 <= n <= kids.len(),
    ensures
        forall|j: int| 0 <= j < missing(kids, parts, e, n).len() ==> ((#[trigger] missing(kids, parts, e, n)[j]).kind matches VK::FnMissing(f, k) && 0 <= k < n && f == kids[k] && f is Fun),
        forall|k: int| 0 <= k < n && (#[trigger] kids[k]) is Fun && !(e.skip && kids[k]->Fun_modifier) && !holds(sigs(parts), kids[k]) ==>
            exists|j: int| 0 <= j < missing(kids, parts, e, n).len() && (#[trigger] missing(kids, parts, e, n)[j]).kind == VK::FnMissing(kids[k], k),
    decreases n,
{
    if n > 0 {
        lemma_missing(kids, parts, e, n - 1);
        lemma_has(parts, kids[n - 1]);
        let (a, b) = (missing(kids, parts, e, n - 1), missing(kids, parts, e, n));
        assert forall|k: int| 0 <= k < n && (#[trigger] kids[k]) is Fun && !(e.skip && kids[k]->Fun_modifier) && !holds(sigs(parts), kids[k]) implies
            exists|j: int| 0 <= j < b.len() && (#[trigger] b[j]).kind == VK::FnMissing(kids[k], k) by {
            if k < n - 1 { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).kind == VK::FnMissing(kids[k], k); assert(b[j] == a[j]); }
            else { assert(b[a.len() as int].kind == VK::FnMissing(kids[k], k)); }
        }
        assert forall|j: int| 0 <= j < b.len() implies ((#[trigger] b[j]).kind matches VK::FnMissing(f, k) && 0 <= k < n && f == kids[k] && f is Fun) by {
            if j < a.len() { assert(b[j] == a[j]); }
        }
    }
}
/// the same parts: the same matches
proof fn lemma_same_present(kids: Seq<SHir>, p: Seq<pt::ContractPart>, q: Seq<pt::ContractPart>, n: int)
    requires sigs(p) == sigs(q), 0 <= n <= kids.len(),
    ensures present(kids, p, n) == present(kids, q, n), p.len() == q.len(),
    decreases n,
{
    assert(sigs(p).len() == p.len() && sigs(q).len() == q.len());
    if n > 0 {
        lemma_same_present(kids, p, q, n - 1);
        let h = kids[n - 1];
        lemma_has(p, h); lemma_has(q, h);
        if h is Fun && matched(p, h) {
            lemma_match(p, h, 0);
            let m = first_match(p, h);
            assert(sigs(q)[m] == own(h)) by { assert(sigs(p)[m] == own(h)); }
            assert forall|j: int| 0 <= j < m implies #[trigger] sigs(q)[j] != own(h) by { assert(sigs(p)[j] != own(h)); }
            lemma_place(q, h, m);
        }
    }
}
pub open spec fn name_fits(h: SHir, name: Option<Seq<char>>) -> bool { name matches Some(n) ==> n == san(t_name(h)) }
pub open spec fn orderly(kids: Seq<SHir>, parts: Seq<pt::ContractPart>) -> bool {
    late(present(kids, parts, kids.len() as int), present(kids, parts, kids.len() as int).len() as int).len() == 0
}
/// a name that fits, all functions, in order: no deviations
proof fn lemma_no_deviations(h: SHir, u: SourceUnit, d: pt::ContractDefinition, e: Env)
    requires is_tree(h), contract_of(u) == Some(d), name_fits(h, called(d)), complete(t_kids(h), sigs(d.parts@), e.skip, t_kids(h).len() as int), orderly(t_kids(h), d.parts@),
    ensures deviations(h, u, e) == Seq::<SV>::empty(),
{
    reveal_with_fuel(planned_at, 2);
    assert(planned_at(h->Root_kids, 0) == 0);
    lemma_complete(t_kids(h), d.parts@, e, t_kids(h).len() as int);
    assert(deviations(h, u, e) =~= Seq::<SV>::empty());
}

// ---------------------------------------------------------------- fixing one by one
pub open spec fn ready_for(m: Context, c: Context) -> bool { m.hir == c.hir && m.cfg == c.cfg && parsed_as(m.src@, m.pt) && m.comments == notes_of(m.src@) }
/// the contract of m has the name, and every function that is in v
pub open spec fn keeps(m: Context, name: Option<Seq<char>>, v: Seq<Sig>) -> bool {
    contract_of(m.pt) matches Some(d) && called(d) == name && forall|x: Sig| #[trigger] v.contains(x) ==> sigs(d.parts@).contains(x)
}
pub open spec fn sigs_of(m: Context) -> Seq<Sig> { sigs(contract_of(m.pt)->Some_0.parts@) }
proof fn lemma_insert_keeps(v: Seq<Sig>, k: int, x: Sig)
    requires 0 <= k <= v.len(),
    ensures v.insert(k, x).contains(x), forall|y: Sig| #[trigger] v.contains(y) ==> v.insert(k, x).contains(y),
{
    let w = v.insert(k, x);
    assert(w[k] == x);
    assert forall|y: Sig| #[trigger] v.contains(y) implies w.contains(y) by {
        let j = choose|j: int| 0 <= j < v.len() && v[j] == y;
        if j < k { assert(w[j] == y); } else { assert(w[j + 1] == y); }
    }
}
/// the fix of a missing function
proof fn lemma_insert(c: Context, m: Context, r: Context, k: ViolationKind, i: int)
    requires ready_for(m, c), scaffolds(hv(c.hir)), contract_of(m.pt) is Some, fix_is(k, m, r),
        vkind(k) == VK::FnMissing(t_kids(hv(c.hir))[i], i), 0 <= i < t_kids(hv(c.hir)).len(), t_kids(hv(c.hir))[i] is Fun,
    ensures ready_for(r, c), keeps(r, called(contract_of(m.pt)->Some_0), sigs_of(m)), holds(sigs_of(r), t_kids(hv(c.hir))[i]),
{
    hide(gap); hide(placed); hide(sol::contract_at); hide(scaffolds); hide(with_fn); hide(hv);
    reveal_with_fuel(planned_at, 2);
    let h = hv(c.hir);
    assert(is_tree(h)) by { reveal(scaffolds); }
    assert(plan_kids(h) == Some(t_kids(h)));
    let d = contract_of(m.pt)->Some_0;
    axiom_inserted(m.src@, m.pt, d, h, i);
    let t = with_fn(m.src@, gap(d, t_kids(h), i, m.src@), t_kids(h)[i]);
    let x = choose|x: int| 0 <= x <= d.parts@.len() && #[trigger] shows(t, called(d), sigs(d.parts@).insert(x, own(t_kids(h)[i])));
    assert(updated(m, t, r));
    assert(r.src@ == t);
    lemma_insert_keeps(sigs(d.parts@), x, own(t_kids(h)[i]));
}
/// the fix of the name
proof fn lemma_rename(c: Context, m: Context, r: Context, k: ViolationKind, was: Seq<char>)
    requires ready_for(m, c), scaffolds(hv(c.hir)), contract_of(m.pt) matches Some(d) && d.name is Some, fix_is(k, m, r),
        vkind(k) == VK::NameDiffers(san(t_name(hv(c.hir))), was),
    ensures ready_for(r, c), keeps(r, Some(san(t_name(hv(c.hir)))), sigs_of(m)),
{
    hide(placed); hide(sol::contract_at); hide(scaffolds); hide(hv); hide(renamed);
    let h = hv(c.hir);
    let d = contract_of(m.pt)->Some_0;
    let n = d.name->Some_0;
    axiom_renamed(m.src@, m.pt, d, n, h);
    assert(updated(m, renamed(m.src@, n.loc, san(t_name(h))), r));
    assert(r.src@ == renamed(m.src@, n.loc, san(t_name(h))));
}
pub open spec fn keeps_order(k: VK) -> bool { !(k is OutOfOrder) }
proof fn lemma_one_by_one(vs: Seq<Violation>, a: int, n: int)
    requires 0 <= a <= vs.len(), 0 <= n <= vs.len(),
        forall|i: int| 0 <= i < a ==> keeps_order(vkind((#[trigger] vs[i]).kind)),
        forall|i: int| a <= i < vs.len() ==> !keeps_order(vkind((#[trigger] vs[i]).kind)),
    ensures one_by_one(vs, n) == vs.take(if n < a { n } else { a }),
    decreases n,
{
    if n > 0 {
        lemma_one_by_one(vs, a, n - 1);
        assert(keeps_order(vkind(vs[n - 1].kind)) <==> !misplaced(vs[n - 1].kind));
        if n <= a { assert(vs.take(n) =~= vs.take(n - 1).push(vs[n - 1])); }
    } else { assert(vs.take(0) =~= Seq::<Violation>::empty()); }
}
/// after n fixes, nothing is lost, and what the first n of them are about is repaired
proof fn lemma_chain(c: Context, ms: Seq<Context>, l: Seq<Violation>, n: int)
    requires
        ready_for(c, c), scaffolds(hv(c.hir)), contract_of(c.pt) is Some, ms.len() == l.len() + 1, ms[0] == c, fix_chain(l, ms), 0 <= n <= l.len(),
        ({ let nd = name_deviation(t_name(hv(c.hir)), contract_of(c.pt)->Some_0, env(c));
            let mi = missing(t_kids(hv(c.hir)), contract_of(c.pt)->Some_0.parts@, env(c), t_kids(hv(c.hir)).len() as int);
            svs(l) == nd + mi }),
    ensures ({ let nd = name_deviation(t_name(hv(c.hir)), contract_of(c.pt)->Some_0, env(c));
        let mi = missing(t_kids(hv(c.hir)), contract_of(c.pt)->Some_0.parts@, env(c), t_kids(hv(c.hir)).len() as int);
        &&& ready_for(ms[n], c)
        &&& keeps(ms[n], if n < nd.len() || nd.len() == 0 { called(contract_of(c.pt)->Some_0) } else { Some(san(t_name(hv(c.hir)))) }, sigs_of(c))
        &&& forall|j: int| 0 <= j < mi.len() && nd.len() + j < n ==> ((#[trigger] mi[j]).kind matches VK::FnMissing(f, _) && holds(sigs_of(ms[n]), f)) }),
    decreases n,
{
    hide(hv); hide(scaffolds); hide(parsed_as); hide(fix_is); hide(missing); hide(sol::contract_at); hide(env); hide(contract_of); hide(own);
    let h = hv(c.hir);
    let d = contract_of(c.pt)->Some_0;
    let nd = name_deviation(t_name(h), d, env(c));
    let mi = missing(t_kids(h), d.parts@, env(c), t_kids(h).len() as int);
    if n > 0 {
        lemma_chain(c, ms, l, n - 1);
        let (m, r) = (ms[n - 1], ms[n]);
        let k = l[n - 1].kind;
        assert(fix_is(k, m, r));
        assert(svs(l).len() == l.len());
        assert(svs(l)[n - 1] == sv(l[n - 1]));
        assert(nd.len() <= 1);
        if n - 1 < nd.len() {
            assert(n == 1);
            assert(vkind(k) == nd[0].kind);
            lemma_rename(c, m, r, k, d.name->Some_0.name@);
        } else {
            let j = n - 1 - nd.len();
            assert(svs(l)[n - 1] == mi[j]);
            lemma_missing(t_kids(h), d.parts@, env(c), t_kids(h).len() as int);
            assert(mi[j].kind is FnMissing);
            let i = mi[j].kind->FnMissing_1;
            lemma_insert(c, m, r, k, i);
            assert forall|j2: int| 0 <= j2 < mi.len() && nd.len() + j2 < n implies ((#[trigger] mi[j2]).kind matches VK::FnMissing(f, _) && holds(sigs_of(r), f)) by {
                if j2 < j { assert(holds(sigs_of(m), mi[j2].kind->FnMissing_0)); }
            }
        }
    }
}

/// a context whose contract has the name and all the functions
pub open spec fn whole_plan(m: Context, h: SHir) -> bool {
    contract_of(m.pt) matches Some(d) && name_fits(h, called(d)) && complete(t_kids(h), sigs(d.parts@), m.cfg.skip_modifiers, t_kids(h).len() as int)
}
proof fn lemma_all_fixed(c: Context, ms: Seq<Context>, l: Seq<Violation>)
    requires
        ready_for(c, c), scaffolds(hv(c.hir)), contract_of(c.pt) is Some, ms.len() == l.len() + 1, ms[0] == c, fix_chain(l, ms),
        svs(l) == name_deviation(t_name(hv(c.hir)), contract_of(c.pt)->Some_0, env(c))
            + missing(t_kids(hv(c.hir)), contract_of(c.pt)->Some_0.parts@, env(c), t_kids(hv(c.hir)).len() as int),
    ensures ready_for(ms.last(), c), whole_plan(ms.last(), hv(c.hir)),
{
    hide(hv); hide(scaffolds); hide(parsed_as); hide(fix_is); hide(missing); hide(sol::contract_at); hide(contract_of); hide(own); hide(fix_chain);
    let h = hv(c.hir);
    let kids = t_kids(h);
    let d = contract_of(c.pt)->Some_0;
    let nd = name_deviation(t_name(h), d, env(c));
    let mi = missing(kids, d.parts@, env(c), kids.len() as int);
    assert(svs(l).len() == l.len());
    lemma_chain(c, ms, l, l.len() as int);
    lemma_missing(kids, d.parts@, env(c), kids.len() as int);
    let m = ms.last();
    assert(m == ms[l.len() as int]);
    assert forall|k: int| 0 <= k < kids.len() && (#[trigger] kids[k]) is Fun && !(m.cfg.skip_modifiers && kids[k]->Fun_modifier) implies holds(sigs_of(m), kids[k]) by {
        if !holds(sigs(d.parts@), kids[k]) {
            let j = choose|j: int| 0 <= j < mi.len() && (#[trigger] mi[j]).kind == VK::FnMissing(kids[k], k);
            assert(mi[j].kind matches VK::FnMissing(f, _) && holds(sigs_of(m), f));
        }
    }
}

// ---------------------------------------------------------------- reordering
pub open spec fn index_of_match(kids: Seq<SHir>, v: Seq<pt::ContractPart>, n: int) -> int { chosen(kids, v, n).len() as int }
/// the chosen parts are the matches of the planned functions, in order
proof fn lemma_chosen_is(kids: Seq<SHir>, v: Seq<pt::ContractPart>, n: int)
    requires 0 <= n <= kids.len(), distinct(kids),
    ensures
        forall|x: int| chosen(kids, v, n).contains(x) ==> exists|k: int| 0 <= k < n && #[trigger] first_match(v, kids[k]) == x && kids[k] is Fun && x < v.len(),
        forall|i: int| 0 <= i < chosen(kids, v, n).len() ==> 0 <= #[trigger] chosen(kids, v, n)[i] < v.len(),
    decreases n,
{
    if n > 0 {
        lemma_chosen_is(kids, v, n - 1);
        let (a, b) = (chosen(kids, v, n - 1), chosen(kids, v, n));
        lemma_match(v, kids[n - 1], 0);
        assert forall|x: int| b.contains(x) implies exists|k: int| 0 <= k < n && #[trigger] first_match(v, kids[k]) == x && kids[k] is Fun && x < v.len() by {
            if a.contains(x) { let k = choose|k: int| 0 <= k < n - 1 && #[trigger] first_match(v, kids[k]) == x && kids[k] is Fun; assert(first_match(v, kids[k]) == x); }
            else { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < a.len() { assert(a[i] == x); } assert(first_match(v, kids[n - 1]) == x); }
        }
    }
}
/// the match of a planned function is chosen, at its place
proof fn lemma_chosen_at(kids: Seq<SHir>, v: Seq<pt::ContractPart>, k: int, n: int)
    requires 0 <= k < n <= kids.len(), distinct(kids), kids[k] is Fun, matched(v, kids[k]),
    ensures chosen(kids, v, k).len() < chosen(kids, v, n).len(), chosen(kids, v, n)[chosen(kids, v, k).len() as int] == first_match(v, kids[k]),
    decreases n,
{
    if n > k + 1 { lemma_chosen_at(kids, v, k, n - 1); }
    else {
        lemma_chosen_is(kids, v, k);
        lemma_match(v, kids[k], 0);
        let m = first_match(v, kids[k]);
        if chosen(kids, v, k).contains(m) {
            let j = choose|j: int| 0 <= j < k && #[trigger] first_match(v, kids[j]) == m && kids[j] is Fun;
            lemma_match(v, kids[j], 0);
            assert(name_of(kids[j]) != name_of(kids[k]));
            assert(false);
        }
    }
}
proof fn lemma_chosen_prefix(kids: Seq<SHir>, v: Seq<pt::ContractPart>, k: int, n: int)
    requires 0 <= k <= n <= kids.len(),
    ensures chosen(kids, v, k).len() <= chosen(kids, v, n).len(), forall|i: int| 0 <= i < chosen(kids, v, k).len() ==> #[trigger] chosen(kids, v, n)[i] == chosen(kids, v, k)[i],
    decreases n,
{ if k < n { lemma_chosen_prefix(kids, v, k, n - 1); } }
/// what reordering gives: w is v with the chosen parts first
pub open spec fn put_first(kids: Seq<SHir>, v: Seq<pt::ContractPart>, w: Seq<pt::ContractPart>, rest: Seq<int>) -> bool {
    let l = chosen(kids, v, kids.len() as int);
    sigs(w) == picked(l + rest, sigs(v)) && forall|i: int| 0 <= i < rest.len() ==> 0 <= #[trigger] rest[i] < v.len() && !l.contains(rest[i])
}
proof fn lemma_put(kids: Seq<SHir>, v: Seq<pt::ContractPart>, w: Seq<pt::ContractPart>, rest: Seq<int>, k: int)
    requires put_first(kids, v, w, rest), distinct(kids), 0 <= k < kids.len(), kids[k] is Fun,
    ensures
        matched(v, kids[k]) ==> first_match(w, kids[k]) == chosen(kids, v, k).len() && matched(w, kids[k]),
        matched(w, kids[k]) ==> matched(v, kids[k]),
{
    let n = kids.len() as int;
    let l = chosen(kids, v, n);
    let h = kids[k];
    lemma_chosen_is(kids, v, n);
    assert(sigs(w).len() == w.len() && sigs(v).len() == v.len());
    if matched(v, h) {
        lemma_chosen_at(kids, v, k, n);
        lemma_chosen_prefix(kids, v, k, n);
        lemma_chosen_is(kids, v, k);
        lemma_match(v, h, 0);
        let r = chosen(kids, v, k).len() as int;
        assert((l + rest)[r] == l[r]);
        assert(sigs(w)[r] == sigs(v)[l[r]]);
        assert(sigs(w)[r] == own(h));
        assert forall|j: int| 0 <= j < r implies #[trigger] sigs(w)[j] != own(h) by {
            assert((l + rest)[j] == l[j]);
            assert(l[j] == chosen(kids, v, k)[j]);
            assert(chosen(kids, v, k).contains(l[j]));
            let i = choose|i: int| 0 <= i < k && #[trigger] first_match(v, kids[i]) == l[j] && kids[i] is Fun;
            lemma_match(v, kids[i], 0);
            assert(name_of(kids[i]) != name_of(h));
            assert(sigs(w)[j] == sigs(v)[l[j]]);
        }
        lemma_place(w, h, r);
    }
    if matched(w, h) {
        lemma_match(w, h, 0);
        let m = first_match(w, h);
        assert(sigs(w)[m] == own(h));
        let x = (l + rest)[m];
        if m < l.len() { assert(x == l[m]); } else { assert(x == rest[m - l.len()]); }
        assert(sigs(v)[x] == own(h));
        lemma_has(v, h);
    }
}
proof fn lemma_put_rising(kids: Seq<SHir>, v: Seq<pt::ContractPart>, w: Seq<pt::ContractPart>, rest: Seq<int>, n: int)
    requires put_first(kids, v, w, rest), distinct(kids), 0 <= n <= kids.len(), w.len() <= usize::MAX,
    ensures rising(present(kids, w, n), chosen(kids, v, n).len() as int),
    decreases n,
{
    if n > 0 {
        lemma_put_rising(kids, v, w, rest, n - 1);
        lemma_chosen_prefix(kids, v, n - 1, n);
        if kids[n - 1] is Fun {
            lemma_put(kids, v, w, rest, n - 1);
            lemma_match(w, kids[n - 1], 0);
            if matched(v, kids[n - 1]) { lemma_chosen_at(kids, v, n - 1, n); }
        }
    }
}
proof fn lemma_put_complete(kids: Seq<SHir>, v: Seq<pt::ContractPart>, w: Seq<pt::ContractPart>, rest: Seq<int>, skip: bool)
    requires put_first(kids, v, w, rest), distinct(kids), complete(kids, sigs(v), skip, kids.len() as int),
    ensures complete(kids, sigs(w), skip, kids.len() as int),
{
    assert forall|k: int| 0 <= k < kids.len() && (#[trigger] kids[k]) is Fun && !(skip && kids[k]->Fun_modifier) implies holds(sigs(w), kids[k]) by {
        lemma_has(v, kids[k]); lemma_has(w, kids[k]);
        lemma_put(kids, v, w, rest, k);
    }
}
/// what is written when a context with everything in place is reordered and formatted
proof fn lemma_ordered_passes(c: Context, m: Context, r: Context, t: Seq<char>, e: Env)
    requires
        ready_for(m, c), whole_plan(m, hv(c.hir)), is_tree(hv(c.hir)), distinct(t_kids(hv(c.hir))), reordered(m, r),
        t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ }),
        e.skip == c.cfg.skip_modifiers,
    ensures pt_of(t) matches Some(u) && deviations(hv(c.hir), u, e) == Seq::<SV>::empty(),
{
    hide(hv); hide(placed); hide(contract_of); hide(sol::contract_at); hide(ordered); hide(missing); hide(present); hide(late); hide(chosen); hide(complete);
    reveal_with_fuel(planned_at, 2);
    let h = hv(c.hir);
    let kids = t_kids(h);
    let d = contract_of(m.pt)->Some_0;
    assert(plan_kids(h) == Some(kids));
    // the reordered contract has everything, in order
    let d2 = contract_of(r.pt)->Some_0;
    assert(parsed_as(r.src@, r.pt) && r.comments == notes_of(r.src@) && contract_of(r.pt) is Some && name_fits(h, called(d2))
        && complete(kids, sigs(d2.parts@), e.skip, kids.len() as int) && orderly(kids, d2.parts@)) by {
        if some_misplaced(wrong(m)) {
            lemma_some_parts(h, m, d);
            axiom_ordered(m.src@, m.pt, d, kids);
            let l = chosen(kids, d.parts@, kids.len() as int);
            let rest = choose|rest: Seq<int>| #[trigger] shows(ordered(d, kids, m.src@), called(d), picked(l + rest, sigs(d.parts@)))
                && forall|i: int| 0 <= i < rest.len() ==> 0 <= #[trigger] rest[i] < d.parts@.len() && !l.contains(rest[i]);
            assert(put_first(kids, d.parts@, d2.parts@, rest));
            lemma_put_complete(kids, d.parts@, d2.parts@, rest, e.skip);
            assert(d2.parts.len() <= usize::MAX);
            lemma_put_rising(kids, d.parts@, d2.parts@, rest, kids.len() as int);
            lemma_not_late(present(kids, d2.parts@, kids.len() as int), l.len() as int, present(kids, d2.parts@, kids.len() as int).len() as int);
        } else {
            lemma_in_order(h, m, d);
        }
    }
    // formatting keeps it
    if let Some(x) = pretty(r.src@, r.pt, r.comments) {
        axiom_pretty_shows(r.src@, r.pt, d2, r.comments, x);
        let d3 = contract_of(pt_of(x)->Some_0)->Some_0;
        lemma_same_present(kids, d2.parts@, d3.parts@, kids.len() as int);
        lemma_no_deviations(h, pt_of(t)->Some_0, d3, e);
    } else {
        lemma_no_deviations(h, r.pt, d2, e);
    }
}
/// nothing out of order is reported: nothing is
proof fn lemma_in_order(h: SHir, m: Context, d: pt::ContractDefinition)
    requires is_tree(h), hv(m.hir) == h, contract_of(m.pt) == Some(d), !some_misplaced(wrong(m)),
    ensures orderly(t_kids(h), d.parts@),
{
    hide(hv); hide(missing); hide(present); hide(late); hide(name_deviation);
    reveal_with_fuel(planned_at, 2);
    assert(planned_at(h->Root_kids, 0) == 0);
    let kids = t_kids(h);
    let p = present(kids, d.parts@, kids.len() as int);
    let x = late(p, p.len() as int);
    let a = name_deviation(t_name(h), d, env(m));
    let b = missing(kids, d.parts@, env(m), kids.len() as int);
    assert(wrong(m) == a + (b + disordered(x, d.parts@, env(m))));
    if x.len() > 0 {
        let i = a.len() as int + b.len() as int;
        assert(disordered(x, d.parts@, env(m))[0].kind is OutOfOrder);
        assert(wrong(m)[i] == disordered(x, d.parts@, env(m))[0]);
        assert(wrong(m)[i].kind is OutOfOrder);
    }
}
proof fn lemma_none_present(kids: Seq<SHir>, v: Seq<pt::ContractPart>, n: int)
    requires v.len() == 0,
    ensures present(kids, v, n).len() == 0,
    decreases n,
{ if 0 < n <= kids.len() { lemma_none_present(kids, v, n - 1); lemma_match(v, kids[n - 1], 0); } }
proof fn lemma_some_parts(h: SHir, m: Context, d: pt::ContractDefinition)
    requires is_tree(h), hv(m.hir) == h, contract_of(m.pt) == Some(d), some_misplaced(wrong(m)),
    ensures d.parts@.len() > 0,
{
    hide(hv);
    reveal_with_fuel(planned_at, 2);
    assert(planned_at(h->Root_kids, 0) == 0);
    let kids = t_kids(h);
    let p = present(kids, d.parts@, kids.len() as int);
    if d.parts@.len() == 0 {
        lemma_none_present(kids, d.parts@, kids.len() as int);
        assert(late(p, p.len() as int).len() == 0);
        lemma_missing(kids, d.parts@, env(m), kids.len() as int);
        let a = name_deviation(t_name(h), d, env(m));
        let b = missing(kids, d.parts@, env(m), kids.len() as int);
        let x = disordered(late(p, p.len() as int), d.parts@, env(m));
        assert(x.len() == 0);
        assert(wrong(m) == a + (b + x));
        let i = choose|i: int| 0 <= i < wrong(m).len() && (#[trigger] wrong(m)[i]).kind is OutOfOrder;
        if i < a.len() { assert(wrong(m)[i] == a[i]); } else { assert(wrong(m)[i] == b[i - a.len()]); assert(b[i - a.len()].kind is FnMissing); }
        assert(false);
    }
}

// ---------------------------------------------------------------- C12
/// C12: after `check --fix`, check finds nothing wrong with the file, whatever it was before:
/// c is what the file was checked with, t what the fixed file has, and e how it is checked again
pub proof fn mended_file_passes(c: Context, t: Seq<char>, e: Env)
    requires
        mended(c, t), parsed_as(c.src@, c.pt), c.comments == notes_of(c.src@),
        scaffolds(hv(c.hir)), distinct(t_kids(hv(c.hir))), e.skip == c.cfg.skip_modifiers,
    ensures pt_of(t) matches Some(u) && deviations(hv(c.hir), u, e) == Seq::<SV>::empty(),
{
    hide(hv); hide(placed); hide(missing); hide(name_deviation); hide(late); hide(present); hide(s_unit); hide(clean); hide(sol::contract_at); hide(ordered); hide(distinct); hide(comments_ok); hide(names_ok); hide(identifiers);
    let h = hv(c.hir);
    assert(is_tree(h)) by { reveal(identifiers); }
    let kids = t_kids(h);
    reveal_with_fuel(planned_at, 2);
    assert(planned_at(h->Root_kids, 0) == 0);
    let (vs, ms, r) = choose|vs: Seq<Violation>, ms: Seq<Context>, r: Context| #![trigger fix_chain(one_by_one(vs, vs.len() as int), ms), reordered(ms.last(), r)]
        svs(vs) == wrong(c) && fix_chain(one_by_one(vs, vs.len() as int), ms) && ms.len() == one_by_one(vs, vs.len() as int).len() + 1
        && ms[0] == c && reordered(ms.last(), r)
        && t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ });
    assert(svs(vs).len() == vs.len());
    if let Some(d) = contract_of(c.pt) {
        let nd = name_deviation(t_name(h), d, env(c));
        let mi = missing(kids, d.parts@, env(c), kids.len() as int);
        let p = present(kids, d.parts@, kids.len() as int);
        let x = disordered(late(p, p.len() as int), d.parts@, env(c));
        assert(wrong(c) == nd + (mi + x));
        lemma_missing(kids, d.parts@, env(c), kids.len() as int);
        lemma_name_kind(t_name(h), d, env(c));
        assert(forall|i: int| 0 <= i < x.len() ==> !keeps_order((#[trigger] x[i]).kind));
        lemma_separate(vs, nd, mi, x);
        lemma_fixed_passes(c, vs, ms, r, t, e);
    } else {
        lemma_new_contract(c, vs, ms, r, t, e);
    }
}
proof fn lemma_fixed_passes(c: Context, vs: Seq<Violation>, ms: Seq<Context>, r: Context, t: Seq<char>, e: Env)
    requires
        ready_for(c, c), contract_of(c.pt) is Some, scaffolds(hv(c.hir)), is_tree(hv(c.hir)), distinct(t_kids(hv(c.hir))), e.skip == c.cfg.skip_modifiers,
        fix_chain(one_by_one(vs, vs.len() as int), ms), ms.len() == one_by_one(vs, vs.len() as int).len() + 1, ms[0] == c, reordered(ms.last(), r),
        svs(one_by_one(vs, vs.len() as int)) == name_deviation(t_name(hv(c.hir)), contract_of(c.pt)->Some_0, env(c))
            + missing(t_kids(hv(c.hir)), contract_of(c.pt)->Some_0.parts@, env(c), t_kids(hv(c.hir)).len() as int),
        t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ }),
    ensures pt_of(t) matches Some(u) && deviations(hv(c.hir), u, e) == Seq::<SV>::empty(),
{
    hide(hv); hide(parsed_as); hide(missing); hide(name_deviation); hide(contract_of); hide(distinct); hide(scaffolds); hide(fix_chain); hide(one_by_one); hide(reordered); hide(is_tree); hide(whole_plan); hide(deviations); hide(env);
    lemma_all_fixed(c, ms, one_by_one(vs, vs.len() as int));
    lemma_ordered_passes(c, ms.last(), r, t, e);
}
proof fn lemma_name_kind(n: Seq<char>, d: pt::ContractDefinition, e: Env)
    ensures forall|i: int| 0 <= i < name_deviation(n, d, e).len() ==> keeps_order((#[trigger] name_deviation(n, d, e)[i]).kind),
{}
/// the deviations that are fixed one by one come first
proof fn lemma_separate(vs: Seq<Violation>, nd: Seq<SV>, mi: Seq<SV>, x: Seq<SV>)
    requires
        svs(vs) == nd + (mi + x),
        forall|i: int| 0 <= i < nd.len() ==> keeps_order((#[trigger] nd[i]).kind),
        forall|i: int| 0 <= i < mi.len() ==> ((#[trigger] mi[i]).kind is FnMissing),
        forall|i: int| 0 <= i < x.len() ==> !keeps_order((#[trigger] x[i]).kind),
    ensures svs(one_by_one(vs, vs.len() as int)) == nd + mi,
{
    let a = (nd.len() + mi.len()) as int;
    let w = svs(vs);
    assert(w.len() == vs.len());
    assert forall|i: int| 0 <= i < a implies keeps_order(vkind((#[trigger] vs[i]).kind)) by {
        assert(w[i] == sv(vs[i]));
        if i < nd.len() { assert(w[i] == nd[i]); } else { assert(w[i] == mi[i - nd.len()]); }
    }
    assert forall|i: int| a <= i < vs.len() implies !keeps_order(vkind((#[trigger] vs[i]).kind)) by {
        assert(w[i] == sv(vs[i]));
        assert(w[i] == x[i - a]);
    }
    lemma_one_by_one(vs, a, vs.len() as int);
    let l = vs.take(a);
    assert(w.take(a) =~= svs(l));
    assert((nd + (mi + x)).take(a) =~= nd + mi);
}
proof fn lemma_contract_at(v: Seq<pt::SourceUnitPart>, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= contract_at(v, i) <= v.len(), contract_at(v, i) < v.len() ==> v[contract_at(v, i)] is ContractDefinition,
    decreases v.len() - i,
{ if i < v.len() { lemma_contract_at(v, i + 1); } }
proof fn lemma_new_wrong(c: Context)
    requires contract_of(c.pt) is None, is_tree(hv(c.hir)),
    ensures wrong(c).len() == 1, wrong(c)[0].kind is ContractMissing,
{
    hide(hv);
    reveal_with_fuel(planned_at, 2);
    lemma_contract_at(c.pt.0@, 0);
    assert(planned_at(hv(c.hir)->Root_kids, 0) == 0);
}
proof fn lemma_new_contract(c: Context, vs: Seq<Violation>, ms: Seq<Context>, r: Context, t: Seq<char>, e: Env)
    requires
        parsed_as(c.src@, c.pt), contract_of(c.pt) is None, scaffolds(hv(c.hir)), distinct(t_kids(hv(c.hir))), e.skip == c.cfg.skip_modifiers,
        svs(vs) == wrong(c), fix_chain(one_by_one(vs, vs.len() as int), ms), ms.len() == one_by_one(vs, vs.len() as int).len() + 1, ms[0] == c, reordered(ms.last(), r),
        t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ }),
    ensures pt_of(t) matches Some(u) && deviations(hv(c.hir), u, e) == Seq::<SV>::empty(),
{
    hide(hv); hide(placed); hide(missing); hide(name_deviation); hide(late); hide(present); hide(s_unit); hide(clean); hide(ordered); hide(distinct); hide(comments_ok); hide(names_ok); hide(identifiers); hide(outline_is); hide(fn_deviations); hide(deviations);
    let h = hv(c.hir);
    assert(is_tree(h)) by { reveal(identifiers); }
    reveal_with_fuel(one_by_one, 2);
    lemma_new_wrong(c);
    assert(svs(vs).len() == vs.len());
    assert(svs(vs)[0] == sv(vs[0]));
    assert(vs[0].kind is ContractMissing);
    let l = one_by_one(vs, vs.len() as int);
    assert(l =~= seq![vs[0]]);
    let m = ms[1];
    assert(ms.last() == m);
    assert(fix_is(l[0].kind, ms[0], ms[1]));
    let v = DEFAULT_SOL_VERSION@;
    lemma_version();
    unveil::lemma_unveil(h, v, false, false);
    axiom_printed(h, v, false, false);
    assert(has_outline(m.src@, h, false));
    lemma_outline(m.pt, h, false, env(m));
    assert(r == m);
    if let Some(x) = pretty(r.src@, r.pt, r.comments) {
        axiom_pretty(r.src@, r.pt, r.comments, x, h, false);
        lemma_outline(pt_of(x)->Some_0, h, false, e);
    } else { lemma_outline(m.pt, h, false, e); }
}
proof fn lemma_version()
    ensures version_ok(DEFAULT_SOL_VERSION@), no_q(DEFAULT_SOL_VERSION@),
{
    reveal_strlit("0.8.0");
}
}
fn main() {}
