//@@ include common
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path bulloak_syntax =
//@@ path translator =
//@@ path anyhow =
//@@ path std::mem::take = vx_take_hir
//@@ path std::iter::once = vx_once
//@@ method split_whitespace = vx_split_ws
//@@ vmethod chain = vx_chain
//@@ vmethod fold = vx_fold
//@@ vmethod filter = vx_filter
//@@ vmethod count = vx_count

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include hirspec
//@@ struct crates/foundry/src/config.rs Config


// ---------------------------------------------------------------- dependencies (trusted)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);

/// indexmap's IndexMap with string keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { k: K, v: V }
impl IndexMap<String, String> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&String>)
        ensures match r { Some(v) => self@.dom().contains(k@) && v@ == self@[k@], None => !self@.dom().contains(k@) }
    { unimplemented!() }
}
//@@ include iters
#[verifier::external_body]
pub fn vx_take_hir(h: &mut Hir) -> (r: Hir) ensures r == *old(h) { unimplemented!() }

// ---------------------------------------------------------------- code under contract
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs to_pascal_case stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs lower_first_letter stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs upper_first_letter stub from=utils
//@@ end
impl Ast {
//@@ fn crates/syntax/src/ast.rs Ast::is_action
    ensures r == (nd(*self) is Act),
//@@ at start
    proof { lemma_nd(*self); }
//@@ end
}

// -------- modifiers
//@@ struct crates/foundry/src/scaffold/modifiers.rs ModifierDiscoverer

pub open spec fn cnd(c: Condition) -> SNode { SNode::Cond { title: c.title@, span: c.span, kids: nds(c.children@) } }

/// every entry is a title with its name in camel case
pub open spec fn good(m: Map<Seq<char>, Seq<char>>) -> bool { forall|t: Seq<char>| #[trigger] m.dom().contains(t) ==> m[t] == camel(t) }
pub open spec fn grows(m: Map<Seq<char>, Seq<char>>, n: Map<Seq<char>, Seq<char>>) -> bool { m.dom().subset_of(n.dom()) }
pub open spec fn inm(m: Map<Seq<char>, Seq<char>>) -> spec_fn(Seq<char>) -> bool { |t: Seq<char>| m.dom().contains(t) }

proof fn lemma_c_grow(n: SNode, p: spec_fn(Seq<char>) -> bool, q: spec_fn(Seq<char>) -> bool)
    requires c_titles(n, p), forall|t: Seq<char>| #[trigger] p(t) ==> q(t),
    ensures c_titles(n, q),
    decreases n, 0int,
{ match n { SNode::Cond { kids, .. } => lemma_k_grow(kids, kids.len() as int, p, q), _ => {} } }
proof fn lemma_k_grow(kids: Seq<SNode>, i: int, p: spec_fn(Seq<char>) -> bool, q: spec_fn(Seq<char>) -> bool)
    requires k_titles(kids, i, p), forall|t: Seq<char>| #[trigger] p(t) ==> q(t),
    ensures k_titles(kids, i, q),
    decreases kids, i,
{ if !(i <= 0 || i > kids.len()) { lemma_k_grow(kids, i - 1, p, q); lemma_c_grow(kids[i - 1], p, q); } }

impl ModifierDiscoverer {
//@@ fn crates/foundry/src/scaffold/modifiers.rs ModifierDiscoverer::new
    ensures r.modifiers@ == Map::<Seq<char>, Seq<char>>::empty(),
//@@ end

//@@ fn crates/foundry/src/scaffold/modifiers.rs ModifierDiscoverer::visit_condition
    requires good(old(self).modifiers@),
    ensures r is Ok, good(final(self).modifiers@), grows(old(self).modifiers@, final(self).modifiers@),
        c_titles(cnd(*condition), inm(final(self).modifiers@)),
    decreases condition,
//@@ at before loop 0
    let ghost c0 = *condition;
    let ghost kids = nds(c0.children@);
//@@ loop 0
    invariant
        kids == nds(c0.children@),
        good(self.modifiers@), grows(old(self).modifiers@, self.modifiers@), self.modifiers@.dom().contains(c0.title@),
        k_titles(kids, vx_it0.index@ as int, inm(self.modifiers@)),
//@@ at loop 0 start
    let ghost m0 = self.modifiers@;
    let ghost i = vx_it0.index@ as int;
    proof { lemma_nd(c0.children@[i]); assert(kids[i] == nd(c0.children@[i])); }
//@@ at loop 0 end
    proof {
        assert(forall|t: Seq<char>| inm(m0)(t) ==> #[trigger] inm(self.modifiers@)(t));
        assert(k_titles(kids, i, inm(self.modifiers@))) by { lemma_k_grow(kids, i, inm(m0), inm(self.modifiers@)); }
        assert(c_titles(kids[i], inm(self.modifiers@)));
    }
//@@ end

//@@ fn crates/foundry/src/scaffold/modifiers.rs ModifierDiscoverer::visit_root
    requires good(old(self).modifiers@),
    ensures r is Ok, good(final(self).modifiers@), k_titles(nds(root.children@), root.children@.len() as int, inm(final(self).modifiers@)),
//@@ at before loop 0
    let ghost kids = nds(root.children@);
//@@ loop 0
    invariant
        kids == nds(root.children@),
        good(self.modifiers@),
        k_titles(kids, vx_it0.index@ as int, inm(self.modifiers@)),
//@@ at loop 0 start
    let ghost m0 = self.modifiers@;
    let ghost i = vx_it0.index@ as int;
    proof { lemma_nd(root.children@[i]); assert(kids[i] == nd(root.children@[i])); }
//@@ at loop 0 end
    proof {
        assert(forall|t: Seq<char>| inm(m0)(t) ==> #[trigger] inm(self.modifiers@)(t));
        assert(k_titles(kids, i, inm(self.modifiers@))) by { lemma_k_grow(kids, i, inm(m0), inm(self.modifiers@)); }
        assert(c_titles(kids[i], inm(self.modifiers@)));
    }
//@@ end

//@@ fn crates/foundry/src/scaffold/modifiers.rs ModifierDiscoverer::discover
    requires good(old(self).modifiers@), nd(*ast) is Root,
    ensures good(r@), k_titles(nd(*ast)->Root_kids, nd(*ast)->Root_kids.len() as int, inm(r@)),
//@@ at start
    proof { lemma_nd(*ast); }
//@@ end
}

// -------- translation
//@@ struct crates/foundry/src/hir/translator.rs Translator
//@@ struct crates/foundry/src/hir/translator.rs TranslatorI

pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification [std::string::String::reserve] (s: &mut String, n: usize) ensures final(s)@ == old(s)@;

pub open spec fn hw<'a>() -> spec_fn(&'a str) -> Seq<char> { |w: &str| cap(w@) }
proof fn lemma_catw(a: Seq<char>, items: Seq<&str>)
    ensures catw(a, items, hw()) == a + cat(caps(sviews(items))),
    decreases items.len(),
{
    let c = caps(sviews(items));
    if items.len() == 0 { assert(a + cat(c) =~= a); }
    else {
        lemma_catw(a, items.drop_last());
        assert(c.drop_last() =~= caps(sviews(items.drop_last())));
        assert(catw(a, items, hw()) =~= a + cat(c));
    }
}

proof fn lemma_k_at(kids: Seq<SNode>, n: int, i: int, p: spec_fn(Seq<char>) -> bool)
    requires k_titles(kids, n, p), 0 <= i < n <= kids.len(),
    ensures c_titles(kids[i], p),
    decreases n,
{ if i < n - 1 { lemma_k_at(kids, n - 1, i, p); } }
pub open spec fn head(c: Condition, kids: Seq<SNode>) -> Seq<SHir> {
    if !only_actions(kids) { seq![SHir::Fun { name: camel(c.title@), modifier: true, span: c.span, mods: None, body: None }] } else { Seq::empty() }
}
/// what a condition generates itself
pub open spec fn h_own(n: SNode, stack: Seq<Seq<char>>, skip: bool) -> Seq<SHir> {
    match n {
        SNode::Cond { title, span, kids } => {
            let own = !only_actions(kids);
            let name = camel(title);
            let st = if own { stack.push(name) } else { stack };
            let body = h_acts(kids, kids.len() as int);
            (if own { seq![SHir::Fun { name, modifier: true, span, mods: None, body: None }] } else { Seq::empty() })
                + (if body.len() > 0 {
                    seq![SHir::Fun {
                        name: cond_test(title, body), modifier: false, span,
                        mods: if st.len() == 0 { None } else { Some(st) },
                        body: Some(with_skip(body, skip)) }]
                } else { Seq::empty() })
        }
        _ => Seq::empty(),
    }
}
proof fn lemma_catws<'a>()
    ensures forall|a: Seq<char>, items: Seq<&'a str>| #[trigger] catw(a, items, hw()) == a + cat(caps(sviews(items))),
{
    assert forall|a: Seq<char>, items: Seq<&'a str>| #[trigger] catw(a, items, hw()) == a + cat(caps(sviews(items))) by { lemma_catw(a, items); }
}
pub open spec fn ov(m: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match m { Some(m) => Some(views(m@)), None => None } }
pub open spec fn rnd(c: Root) -> SNode { SNode::Root { name: c.contract_name@, span: c.span, kids: nds(c.children@) } }
pub open spec fn isact(a: Ast) -> bool { nd(a) is Act }
pub open spec fn ah<'a>() -> spec_fn(&'a Ast) -> bool { |a: &Ast| isact(*a) }
proof fn lemma_kids_act<'a>(v: Seq<Ast>)
    ensures forall|m: Seq<&'a Ast>| m.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> *(#[trigger] m[i]) == v[i]) ==>
        ((#[trigger] filt(m, ah())).len() <= v.len() && (filt(m, ah()).len() == v.len() <==> only_actions(nds(v)))),
{
    assert forall|m: Seq<&'a Ast>| m.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> *(#[trigger] m[i]) == v[i]) implies
        ((#[trigger] filt(m, ah())).len() <= v.len() && (filt(m, ah()).len() == v.len() <==> only_actions(nds(v)))) by { lemma_kids_act1(v, m); }
}
proof fn lemma_kids_act1(v: Seq<Ast>, m: Seq<&Ast>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] m[i]) == v[i],
    ensures filt(m, ah()).len() <= v.len(), filt(m, ah()).len() == v.len() <==> only_actions(nds(v)),
{
    let h = ah();
    lemma_filt(m, h);
    if filt(m, h).len() == v.len() {
        assert forall|i: int| 0 <= i < nds(v).len() implies #[trigger] nds(v)[i] is Act by { assert(h(m[i])); }
    }
    if only_actions(nds(v)) {
        assert forall|i: int| 0 <= i < m.len() implies h(#[trigger] m[i]) by { assert(nds(v)[i] is Act); }
    }
}

impl Translator {
//@@ fn crates/foundry/src/hir/translator.rs Translator::new
    ensures true,
//@@ end
}

pub open spec fn mods_ok(m: Map<Seq<char>, Seq<char>>, n: SNode) -> bool {
    good(m) && k_titles(n->Root_kids, n->Root_kids.len() as int, inm(m))
}

impl<'a> TranslatorI<'a> {
    pub open spec fn stack(&self) -> Seq<Seq<char>> { sviews(self.modifier_stack@) }

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::new
    ensures r.stack() == Seq::<Seq<char>>::empty(), r.modifiers@ == modifiers@, r.with_vm_skip == cfg.emit_vm_skip,
//@@ at tail
    proof { assert(vx_r.stack() =~= Seq::empty()); }
//@@ end

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::visit_description
    ensures *final(self) == *old(self), r is Ok, hvs(r->Ok_0@) == seq![SHir::Comment(description.text@)],
//@@ at tail
    proof { assert(hvs(vx_r->Ok_0@) =~= seq![SHir::Comment(description.text@)]); }
//@@ end

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::visit_action
    ensures *final(self) == *old(self), r is Ok, hvs(r->Ok_0@) == h_act(SNode::Act { title: action.title@, span: action.span, kids: nds(action.children@) }),
//@@ at before loop 0
    let ghost kids = nds(action.children@);
    broadcast use lemma_hvs_add, lemma_hvs_empty, lemma_hvs_push;
//@@ loop 0
    invariant
        kids == nds(action.children@), *self == *old(self),
        hvs(descriptions@) == h_descs(kids, vx_it0.index@ as int),
//@@ at loop 0 start
    let ghost i = vx_it0.index@ as int;
    let ghost d0 = descriptions@;
    proof { lemma_nd(action.children@[i]); assert(kids[i] == nd(action.children@[i])); }
//@@ end

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::visit_condition
    requires
        good(old(self).modifiers@), c_titles(cnd(*condition), inm(old(self).modifiers@)),
        c_titles(cnd(*condition), |t: Seq<char>| title_ok(t)),
    ensures
        final(self).stack() == old(self).stack(), final(self).modifiers == old(self).modifiers, final(self).with_vm_skip == old(self).with_vm_skip,
        r is Ok, hvs(r->Ok_0@) == h_cond(cnd(*condition), old(self).stack(), old(self).with_vm_skip),
    decreases condition,
//@@ closure 0
|child: &&Ast| -> (r: bool) ensures r == isact(**child)
//@@ closure 1
|action: &Hir| -> (r: bool) ensures r == is_revert(seq![hv(*action)])
---
    broadcast use lemma_hv;
    proof { reveal_strlit("it should revert"); assert("it should revert"@ =~= lit_should_revert()); }
//@@ closure 2
|acc: String, w: &str| -> (r: String) ensures r@ == acc@ + cap(w@)
//@@ closure 3
|acc: String, w: &str| -> (r: String) ensures r@ == acc@ + cap(w@)
//@@ closure 4
|m: &&str| -> (r: String) ensures r@ == m@
//@@ at start
    broadcast use lemma_hvs_add, lemma_hvs_empty, lemma_hvs_push, lemma_hv;
    let ghost c0 = *condition;
    let ghost kids = nds(c0.children@);
    let ghost st0 = self.stack();
    let ghost skip = self.with_vm_skip;
    let ghost p = inm(self.modifiers@);
    let ghost q = |t: Seq<char>| title_ok(t);
    proof { lemma_kids_act(c0.children@); assert(tr(ah())); assert(tr(hw())); lemma_catws(); }
//@@ at before loop 0
    let ghost own = !only_actions(kids);
    let ghost name = camel(c0.title@);
    let ghost st = if own { st0.push(name) } else { st0 };
    proof {
        if own { assert(p(c0.title@)); }
        assert(sviews(self.modifier_stack@) =~= st);
        assert(hvs(children@) =~= head(c0, kids));
    }
//@@ loop 0
    invariant
        kids == nds(c0.children@), self.modifiers == old(self).modifiers, self.with_vm_skip == skip, sviews(self.modifier_stack@) == st,
        hvs(actions@) == h_acts(kids, vx_it0.index@ as int),
//@@ at loop 0 start
    let ghost i = vx_it0.index@ as int;
    proof { lemma_nd(c0.children@[i]); assert(kids[i] == nd(c0.children@[i])); }
//@@ at after loop 0
    let ghost body = hvs(actions@);
    let ghost ws = words(c0.title@);
    proof {
        assert(body == h_acts(kids, kids.len() as int));
        assert(q(c0.title@));
        reveal_strlit("test_"); reveal_strlit("test_Revert"); reveal_strlit("_");
        assert("test_"@ =~= lit_test());
        assert("test_Revert"@ =~= lit_revert());
        assert("_"@ =~= seq!['_']);
    }
//@@ at let keyword
    proof {
        assert(keyword@ == cap(ws[0]));
        assert(sviews(words.remaining()) =~= ws.skip(1));
    }
//@@ at let function_name
    proof { assert(function_name@ =~= cond_test(c0.title@, body)); }
//@@ at let modifiers
    proof {
        let o = ov(modifiers);
        assert(o is None <==> st.len() == 0);
        if st.len() > 0 { assert(o->0 =~= st); }
    }
//@@ at before loop 1
    proof {
        let own = h_own(cnd(c0), st0, skip);
        if body.len() == 0 { assert(hvs(children@) =~= own); }
        else {
            let f = SHir::Fun { name: cond_test(c0.title@, body), modifier: false, span: c0.span,
                mods: if st.len() == 0 { None } else { Some(st) }, body: Some(with_skip(body, skip)) };
            assert(hvs(children@) =~= head(c0, kids).push(f));
            assert(hvs(children@) =~= own);
        }
        assert(own + h_conds(kids, 0, st, skip) =~= own);
    }
//@@ loop 1
    invariant
        kids == nds(c0.children@), self.modifiers == old(self).modifiers, self.with_vm_skip == skip, sviews(self.modifier_stack@) == st,
        good(self.modifiers@), p == inm(self.modifiers@),
        k_titles(kids, kids.len() as int, p), k_titles(kids, kids.len() as int, q), q == (|t: Seq<char>| title_ok(t)),
        hvs(children@) == h_own(cnd(c0), st0, skip) + h_conds(kids, vx_it1.index@ as int, st, skip),
//@@ at loop 1 start
    let ghost i = vx_it1.index@ as int;
    proof {
        lemma_nd(c0.children@[i]); assert(kids[i] == nd(c0.children@[i]));
        lemma_k_at(kids, kids.len() as int, i, p);
        lemma_k_at(kids, kids.len() as int, i, q);
    }
    let ghost ch = hvs(children@);
//@@ at loop 1 end
    proof {
        assert(hvs(children@) =~= ch + h_cond(kids[i], st, skip));
        assert(hvs(children@) =~= h_own(cnd(c0), st0, skip) + h_conds(kids, i + 1, st, skip));
    }
//@@ at after loop 1
    let ghost stk = self.modifier_stack@;
    proof {
        assert(sviews(stk).len() == stk.len());
        assert(sviews(stk) == st);
        if own {
            assert(st.len() == st0.len() + 1);
            assert forall|i: int| 0 <= i < st0.len() implies sviews(stk.drop_last())[i] == st0[i] by {
                assert(sviews(stk)[i] == st[i]);
            }
            assert(sviews(stk.drop_last()) =~= st0);
        }
    }
//@@ at tail
    proof { assert(self.stack() =~= st0); }
//@@ end

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::visit_root
    requires
        old(self).stack().len() == 0, good(old(self).modifiers@), root_ok(rnd(*root)),
        k_titles(nds(root.children@), root.children@.len() as int, inm(old(self).modifiers@)),
    ensures r is Ok, r->Ok_0@.len() == 1, hvs(r->Ok_0@) == seq![h_root(rnd(*root), old(self).with_vm_skip)],
//@@ closure 0
|acc: String, w: &str| -> (r: String) ensures r@ == acc@ + cap(w@)
//@@ at start
    broadcast use lemma_hvs_add, lemma_hvs_empty, lemma_hvs_push, lemma_hv;
    let ghost kids = nds(root.children@);
    let ghost skip = self.with_vm_skip;
    let ghost p = inm(self.modifiers@);
    let ghost q = |t: Seq<char>| title_ok(t);
    proof { assert(self.stack() =~= Seq::empty()); }
//@@ loop 0
    invariant
        kids == nds(root.children@), self.stack() == Seq::<Seq<char>>::empty(), self.with_vm_skip == skip,
        good(self.modifiers@), p == inm(self.modifiers@), root_ok(rnd(*root)), q == (|t: Seq<char>| title_ok(t)),
        k_titles(kids, kids.len() as int, p),
        hvs(contract_children@) == h_top(kids, vx_it0.index@ as int, skip),
//@@ at loop 0 start
    broadcast use lemma_hvs_add, lemma_hvs_empty, lemma_hvs_push, lemma_hv;
    let ghost i = vx_it0.index@ as int;
    let ghost ch = hvs(contract_children@);
    let ghost a0 = *ast;
    proof {
        lemma_nd(root.children@[i]); assert(kids[i] == nd(root.children@[i]));
        assert(rnd(*root)->Root_kids[i] is Cond || rnd(*root)->Root_kids[i] is Act);
        lemma_k_at(kids, kids.len() as int, i, p);
        lemma_k_at(kids, kids.len() as int, i, q);
        assert(tr(hw())); lemma_catws();
        reveal_strlit("test_"); assert("test_"@ =~= lit_test());
    }
//@@ at let words#0
    let ghost w0 = words.remaining();
//@@ at let words#1
    proof {
        let t = action.title@;
        assert(sviews(words.remaining()) =~= (if w0.len() > 0 { sviews(w0).skip(1) } else { sviews(w0) }));
    }
//@@ at let test_name#0
    proof { assert(test_name@ =~= rest_words(action.title@)); }
//@@ at let test_name#2
    proof { assert(test_name@ =~= act_test(action.title@)); }
//@@ at loop 0 end
    proof {
        match kids[i] {
            SNode::Act { title, span, .. } => {
                let f = SHir::Fun { name: act_test(title), modifier: false, span, mods: None, body: Some(with_skip(h_act(kids[i]), skip)) };
                assert(hvs(contract_children@) =~= ch.push(f));
                assert(hvs(contract_children@) =~= h_top(kids, i + 1, skip));
            }
            n => { assert(hvs(contract_children@) =~= h_top(kids, i + 1, skip)); }
        }
    }
//@@ end

//@@ fn crates/foundry/src/hir/translator.rs TranslatorI::translate
    requires
        old(self).stack().len() == 0, good(old(self).modifiers@), root_ok(nd(*ast)),
        k_titles(nd(*ast)->Root_kids, nd(*ast)->Root_kids.len() as int, inm(old(self).modifiers@)),
    ensures hv(r) == h_root(nd(*ast), old(self).with_vm_skip),
//@@ at start
    proof { lemma_nd(*ast); }
//@@ at let hirs
    proof { assert(hvs(hirs@)[0] == hv(hirs@[0])); }
//@@ end
}
impl Translator {
//@@ fn crates/foundry/src/hir/translator.rs Translator::translate
    requires
        good(modifiers@), root_ok(nd(*ast)),
        k_titles(nd(*ast)->Root_kids, nd(*ast)->Root_kids.len() as int, inm(modifiers@)),
    ensures hv(r) == h_root(nd(*ast), cfg.emit_vm_skip),
//@@ end
}
//@@ fn crates/foundry/src/hir/mod.rs translate_one
    requires root_ok(nd(*ast)),
    ensures hv(r) == h_root(nd(*ast), cfg.emit_vm_skip),
//@@ end
}
fn main() {}
