//@@ include locatelemmas
proof fn lemma_match_in(v: Seq<pt::ContractPart>, h: SHir, i: int)
    requires 0 <= i <= v.len(),
    ensures i <= sol::match_at(v, h, i) <= v.len(), sol::match_at(v, h, i) < v.len() ==> sol::fn_matches(h, v[sol::match_at(v, h, i)]),
    decreases v.len() - i,
{ if i < v.len() { lemma_match_in(v, h, i + 1); } }
pub open spec fn f_start(f: pt::FunctionDefinition) -> int { fn_loc(f)->File_1 as int }
proof fn lemma_fn_end(f: pt::FunctionDefinition, s: Seq<char>)
    requires whole(f, s),
    ensures is_off(s, f_start(f)), is_off(s, fn_end(f, s)), f_start(f) <= fn_end(f, s) <= blen(s),
{
    broadcast use lemma_idx_b;
    let e = fn_loc(f)->File_2 as int;
    lemma_outside(s, idx(s, e), ';');
    let k = outside(s, idx(s, e), ';');
    lemma_off_mono(s, idx(s, e), s.len() as int);
    if k >= 0 {
        lemma_off_mono(s, idx(s, e), k);
        assert(off(s, k + 1) == off(s, k) + 1);
        lemma_off_mono(s, k + 1, s.len() as int);
    }
}
