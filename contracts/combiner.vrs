//@@ include common
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path Root = HRoot
//@@ path mem = std::mem
//@@ path result = core::result
//@@ path usize::default = vx_zero
//@@ method split_once = vx_split_once
//@@ method strip_prefix = vx_strip_prefix
//@@ vmethod enumerate = vx_enumerate
//@@ mmethod extend = vx_extend
//@@ streq contract_name

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include combspec
pub fn vx_zero() -> (r: usize) ensures r == 0 { 0 }
impl Position {
//@@ fn crates/syntax/src/span.rs Position::default
    ensures r == pos0(),
//@@ end
}
/// derive(Default)
impl Span { pub fn default() -> (r: Self) ensures r.start == pos0(), r.end == pos0() { Span { start: Position::default(), end: Position::default() } } }
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs CombinerI
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ const crates/foundry/src/constants.rs CONTRACT_IDENTIFIER_SEPARATOR

// ---------------------------------------------------------------- dependencies (trusted)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: K }
impl HashSet<String> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
}
/// derive(Default)
impl ContractDefinition {
    pub fn default() -> (r: Self) ensures r.identifier@.len() == 0, r.children@.len() == 0
    { ContractDefinition { identifier: String::new(), children: Vec::new() } }
}
pub assume_specification<T: Default> [std::mem::take] (x: &mut T) -> (r: T) ensures r == *old(x);
impl Default for ContractDefinition { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
/// derive(Clone)
impl FunctionDefinition {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures fv(r) == fv(*self) { unimplemented!() }
}
pub fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { let mut b = b; a.append(&mut b); }
pub fn vx_enumerate<T>(it: std::vec::IntoIter<T>) -> (r: std::vec::IntoIter<(usize, T)>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        r.remaining().len() == it.remaining().len(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i]).0 == i && r.remaining()[i].1 == it.remaining()[i],
{
    let v: Vec<T> = it.collect();
    let mut out: Vec<(usize, T)> = Vec::new();
    let mut i: usize = 0;
    let ghost v0 = v@;
    let n = v.len();
    for x in w: v
        invariant v@ == v0, n == v0.len(), w.seq() == v0, i == w.index@, out@.len() == i,
            forall|k: int| 0 <= k < i ==> (#[trigger] out@[k]).0 == k && out@[k].1 == v0[k],
    { out.push((i, x)); i = i + 1; }
    out.into_iter()
}
//@@ include combview
/// after n trees
pub open spec fn state(ts: Seq<SHir>, n: int, name: Seq<char>, kids: Seq<SHir>, seen: Set<Seq<char>>) -> bool {
    let all = all_of(ts, n);
    &&& forall|j: int| 0 <= j < n ==> #[trigger] t_ok(ts, j)
    &&& name == (if n == 0 { Seq::empty() } else { c_name(t_name(ts[0])) })
    &&& n > 0 ==> name.len() > 0
    &&& kids == kept(all, all.len() as int, Set::empty())
    &&& seen == seen_by(all, all.len() as int, Set::empty())
}
proof fn lemma_kept1(a: Seq<SHir>, b: Seq<SHir>, i: int, s: Set<Seq<char>>)
    requires 0 <= i <= b.len(),
    ensures
        kept(a + b, a.len() + i, s) == kept(a, a.len() as int, s) + kept(b, i, seen_by(a, a.len() as int, s)),
        seen_by(a + b, a.len() + i, s) == seen_by(b, i, seen_by(a, a.len() as int, s)),
    decreases i,
{
    if i == 0 {
        lemma_kept0(a, b, a.len() as int, s);
        assert(kept(a, a.len() as int, s) + Seq::<SHir>::empty() =~= kept(a, a.len() as int, s));
    } else {
        lemma_kept1(a, b, i - 1, s);
        assert((a + b)[a.len() + i - 1] == b[i - 1]);
        assert(kept(a + b, a.len() + i, s) =~= kept(a, a.len() as int, s) + kept(b, i, seen_by(a, a.len() as int, s)));
    }
}
proof fn lemma_kept0(a: Seq<SHir>, b: Seq<SHir>, i: int, s: Set<Seq<char>>)
    requires 0 <= i <= a.len(),
    ensures kept(a + b, i, s) == kept(a, i, s), seen_by(a + b, i, s) == seen_by(a, i, s),
    decreases i,
{ if i > 0 { lemma_kept0(a, b, i - 1, s); assert((a + b)[i - 1] == a[i - 1]); } }
proof fn lemma_kept(a: Seq<SHir>, b: Seq<SHir>, s: Set<Seq<char>>)
    ensures
        kept(a + b, (a + b).len() as int, s) == kept(a, a.len() as int, s) + kept(b, b.len() as int, seen_by(a, a.len() as int, s)),
        seen_by(a + b, (a + b).len() as int, s) == seen_by(b, b.len() as int, seen_by(a, a.len() as int, s)),
{ lemma_kept1(a, b, b.len() as int, s); }
proof fn lemma_first_bad(ts: Seq<SHir>, i: int, n: int)
    requires 0 <= i <= n < ts.len(), !t_ok(ts, n), forall|j: int| 0 <= j < n ==> #[trigger] t_ok(ts, j),
    ensures first_bad(ts, i) == n,
    decreases n - i,
{ if i < n { lemma_first_bad(ts, i + 1, n); } }
proof fn lemma_trim_empty() ensures forall|s: Seq<char>| s.len() == 0 ==> (#[trigger] trim(s)).len() == 0 {}
// ---------------------------------------------------------------- code under contract
//@@ fn crates/syntax/src/utils.rs upper_first_letter stub from=utils
//@@ end
impl FunctionDefinition {
//@@ fn crates/foundry/src/hir/hir.rs FunctionDefinition::is_function
    ensures r == (self.ty is Function),
//@@ end
}
//@@ fn crates/foundry/src/hir/combiner.rs prefix_test_with
    ensures r@ == prefixed_name(test_name@, prefix@),
//@@ at start
    proof { reveal_strlit("test_"); assert("test_"@ =~= lit_test_()); }
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs prefix_test
    ensures hv(r) == pfx(hv(child), prefix@),
//@@ at start
    broadcast use lemma_hv;
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs collect_modifier
    ensures
        is_dup(hv(child), old(unique_modifiers)@) ==> r is None && final(unique_modifiers)@ == old(unique_modifiers)@,
        !is_dup(hv(child), old(unique_modifiers)@) ==> r is Some && hv(r->0) == hv(child) && final(unique_modifiers)@ == seen1(hv(child), old(unique_modifiers)@),
//@@ at start
    broadcast use lemma_hv;
//@@ end

//@@ fn crates/foundry/src/hir/combiner.rs update_children chains
    ensures ({
        let all = pfxs(hvs(children@), function_identifier@);
        hvs(r@) == kept(all, all.len() as int, old(unique_modifiers)@) && final(unique_modifiers)@ == seen_by(all, all.len() as int, old(unique_modifiers)@)
    }),
//@@ at start
    let ghost kids = hvs(children@);
    let ghost c0 = children@;
    let ghost f = function_identifier@;
    let ghost all = pfxs(kids, f);
    let ghost seen = unique_modifiers@;
    broadcast use lemma_hvs_push, lemma_hvs_empty;
//@@ loop 0
    invariant
        vx_it0.seq() == c0, kids == hvs(c0), all == pfxs(kids, f), f == function_identifier@,
        hvs(vx_out@) == kept(all, vx_it0.index@ as int, seen), unique_modifiers@ == seen_by(all, vx_it0.index@ as int, seen),
//@@ at loop 0 start
    proof { assert(all[vx_it0.index@ as int] == pfx(hv(c0[vx_it0.index@ as int]), f)); }
//@@ end

impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine
    requires forall|i: int| 0 <= i < hirs@.len() ==> is_tree(hv(#[trigger] hirs@[i])),
    ensures
        r is Ok <==> forall|i: int| 0 <= i < hirs@.len() ==> t_ok(hvs(hirs@), i),
        r is Ok ==> hv(r->Ok_0) == merged(hvs(hirs@)),
        r is Err ==> c_err(hvs(hirs@), first_bad(hvs(hirs@), 0), r->Err_0, text@),
//@@ end
}
impl<'t> CombinerI<'t> {
//@@ fn crates/foundry/src/hir/combiner.rs CombinerI::new
    ensures r.text@ == text@,
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs CombinerI::error
    ensures r.kind == kind, r.text@ == self.text@, r.span == span,
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs CombinerI::combine
    requires forall|i: int| 0 <= i < hirs@.len() ==> is_tree(hv(#[trigger] hirs@[i])),
    ensures
        r is Ok <==> forall|i: int| 0 <= i < hirs@.len() ==> t_ok(hvs(hirs@), i),
        r is Ok ==> hv(r->Ok_0) == merged(hvs(hirs@)),
        r is Err ==> c_err(hvs(hirs@), first_bad(hvs(hirs@), 0), r->Err_0, self.text@),
//@@ at start
    let ghost hs = hirs@;
    let ghost ts = hvs(hirs@);
    proof { reveal_strlit("::"); assert("::"@ =~= lit_sep()); assert(hirs.len() <= usize::MAX); }
    broadcast use lemma_hv, lemma_hvs_empty, lemma_hvs_add, lemma_hvs_push;
//@@ at before loop 0
    proof {
        assert(acc_contract.identifier@ =~= Seq::<char>::empty());
        assert(hvs(acc_contract.children@) =~= Seq::<SHir>::empty());
    }
//@@ loop 0
    invariant
        ts == hvs(hs), vx_it0.seq().len() == hs.len(), CONTRACT_IDENTIFIER_SEPARATOR@ == lit_sep(),
        forall|i: int| 0 <= i < hs.len() ==> (#[trigger] vx_it0.seq()[i]).0 == i && vx_it0.seq()[i].1 == hs[i],
        forall|i: int| 0 <= i < hs.len() ==> is_tree(hv(#[trigger] hs[i])),
        state(ts, vx_it0.index@ as int, acc_contract.identifier@, hvs(acc_contract.children@), unique_modifiers@),
//@@ at loop 0 start
    let ghost n = vx_it0.index@ as int;
    proof { assert(is_tree(hv(hs[n]))); assert(ts[n] == hv(hs[n])); }
//@@ at before loop 1
    let ghost cs = r.children@;
    proof { assert(cs.len() == 1); assert(hvs(cs)[0] == hv(cs[0])); }
//@@ loop 1
    invariant
        ts == hvs(hs), vx_it1.seq() == cs, cs.len() == 1, idx == n, 0 <= n < hs.len(), hs.len() <= usize::MAX, CONTRACT_IDENTIFIER_SEPARATOR@ == lit_sep(),
        is_tree(ts[n]), hv(cs[0]) == ts[n]->Root_kids[0],
        state(ts, n + vx_it1.index@, acc_contract.identifier@, hvs(acc_contract.children@), unique_modifiers@),
//@@ at loop 1 start
    broadcast use lemma_hv, lemma_hvs_empty, lemma_hvs_add, lemma_hvs_push;
    let ghost name = t_name(ts[n]);
    let ghost f = f_name(name);
    let ghost all = pfxs(t_kids(ts[n]), f);
    let ghost a0 = all_of(ts, n);
    let ghost seen = unique_modifiers@;
    let ghost k0 = hvs(acc_contract.children@);
    proof {
        lemma_kept(a0, all, Set::empty());
        lemma_trim_empty();
        if !t_ok(ts, n) { lemma_first_bad(ts, 0, n); assert(!(forall|i: int| 0 <= i < ts.len() ==> t_ok(ts, i))); }
    }
//@@ at loop 1 end
    proof {
        assert(all_of(ts, n + 1) =~= a0 + all);
    }
//@@ at before loop 2
    let ghost c0 = contract.children@;
    proof { assert(hvs(c0) == t_kids(ts[n])); assert(function_name@ == f); }
//@@ loop 2
    invariant
        vx_it2.seq() == c0, all == pfxs(hvs(c0), f), f == function_name@,
        hvs(vx_out@) == kept(all, vx_it2.index@ as int, seen), unique_modifiers@ == seen_by(all, vx_it2.index@ as int, seen),
//@@ at loop 2 start
    broadcast use lemma_hv, lemma_hvs_empty, lemma_hvs_push;
    proof { assert(all[vx_it2.index@ as int] == pfx(hv(c0[vx_it2.index@ as int]), f)); }
//@@ at tail
    proof { assert(hv(vx_r->Ok_0)->Root_kids =~= merged(ts)->Root_kids); }
//@@ end
}
}
fn main() {}
