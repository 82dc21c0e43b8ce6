// ---------------------------------------------------------------- merging several trees
pub open spec fn lit_test_() -> Seq<char> { seq!['t', 'e', 's', 't', '_'] }
pub open spec fn lit_sep() -> Seq<char> { seq![':', ':'] }
/// `test_`, the capitalised name of the function, and the rest of the test's name
pub open spec fn prefixed_name(test: Seq<char>, f: Seq<char>) -> Seq<char> {
    lit_test_() + cap(f) + (if prefixed(test, lit_test_()) { test.skip(5) } else { test })
}
pub open spec fn pfx(h: SHir, f: Seq<char>) -> SHir {
    match h {
        SHir::Fun { name, modifier, span, mods, body } =>
            if modifier { h } else { SHir::Fun { name: prefixed_name(name, f), modifier, span, mods, body } },
        _ => h,
    }
}
pub open spec fn is_dup(h: SHir, seen: Set<Seq<char>>) -> bool { match h { SHir::Fun { name, .. } => seen.contains(name), _ => false } }
pub open spec fn seen1(h: SHir, seen: Set<Seq<char>>) -> Set<Seq<char>> { match h { SHir::Fun { name, .. } => seen.insert(name), _ => seen } }

/// the functions of all trees with their prefixed names, in order: kept unless the name was seen before
pub open spec fn kept(all: Seq<SHir>, i: int, seen: Set<Seq<char>>) -> Seq<SHir>
    decreases i
{
    if i <= 0 || i > all.len() { Seq::empty() }
    else if is_dup(all[i - 1], seen_by(all, i - 1, seen)) { kept(all, i - 1, seen) }
    else { kept(all, i - 1, seen).push(all[i - 1]) }
}
pub open spec fn seen_by(all: Seq<SHir>, i: int, seen: Set<Seq<char>>) -> Set<Seq<char>>
    decreases i
{ if i <= 0 || i > all.len() { seen } else { seen1(all[i - 1], seen_by(all, i - 1, seen)) } }

pub open spec fn pfxs(kids: Seq<SHir>, f: Seq<char>) -> Seq<SHir> { kids.map_values(|h: SHir| pfx(h, f)) }

// a root's name: `contract::function`
pub open spec fn c_name(s: Seq<char>) -> Seq<char> { s.take(find(s, lit_sep(), 0)) }
pub open spec fn f_name(s: Seq<char>) -> Seq<char> { s.skip(find(s, lit_sep(), 0) + 2) }

pub open spec fn is_tree(h: SHir) -> bool { match h { SHir::Root { kids } => kids.len() == 1 && kids[0] is Contract, _ => false } }
pub open spec fn t_name(h: SHir) -> Seq<char> { h->Root_kids[0]->Contract_name }
pub open spec fn t_kids(h: SHir) -> Seq<SHir> { h->Root_kids[0]->Contract_kids }
/// everything the first n trees contribute
pub open spec fn all_of(ts: Seq<SHir>, n: int) -> Seq<SHir>
    decreases n
{ if n <= 0 || n > ts.len() { Seq::empty() } else { all_of(ts, n - 1) + pfxs(t_kids(ts[n - 1]), f_name(t_name(ts[n - 1]))) } }

/// tree i can be merged
pub open spec fn has_sep(s: Seq<char>) -> bool { find(s, lit_sep(), 0) >= 0 }
pub open spec fn t_ok(ts: Seq<SHir>, i: int) -> bool {
    has_sep(t_name(ts[i])) && trim(c_name(t_name(ts[i]))).len() > 0 && c_name(t_name(ts[i])) == c_name(t_name(ts[0]))
}
/// the merged contract
pub open spec fn merged(ts: Seq<SHir>) -> SHir {
    let all = all_of(ts, ts.len() as int);
    SHir::Root { kids: seq![SHir::Contract {
        name: if ts.len() == 0 { Seq::empty() } else { c_name(t_name(ts[0])) },
        kids: kept(all, all.len() as int, Set::empty()) }] }
}
/// the first tree that cannot be merged
pub open spec fn first_bad(ts: Seq<SHir>, i: int) -> int
    decreases ts.len() - i
{ if i >= ts.len() || !t_ok(ts, i) { i } else { first_bad(ts, i + 1) } }
pub open spec fn root_ok_at(t: Seq<char>) -> bool { true }
pub open spec fn pos0() -> Position { Position { offset: 0, line: 1, column: 1 } }
