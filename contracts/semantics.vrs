//@@ include common
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ enum crates/syntax/src/semantics.rs ErrorKind
//@@ struct crates/syntax/src/semantics.rs Error
//@@ struct crates/syntax/src/semantics.rs Errors
//@@ type crates/syntax/src/semantics.rs Result
//@@ struct crates/syntax/src/semantics.rs SemanticAnalyzer
//@@ include ast
//@@ include text
//@@ include names
//@@ include semspec

//@@ include btree
//@@ include semview
impl Clone for Error {
    /// derived (trusted)
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs to_pascal_case stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs lower_first_letter stub from=utils
//@@ end
impl Span {
//@@ fn crates/syntax/src/span.rs Span::new
    ensures r.start == start, r.end == end,
//@@ end
//@@ fn crates/syntax/src/span.rs Span::splat
    ensures r.start == pos, r.end == pos,
//@@ end
//@@ fn crates/syntax/src/span.rs Span::with_end
    ensures r.start == self.start, r.end == pos,
//@@ end
}
impl Ast {
//@@ fn crates/syntax/src/ast.rs Ast::span
    ensures *r == nspan(nd(*self)),
//@@ at start
    proof { lemma_nd(*self); }
//@@ end
}


proof fn lemma_es_push(v: Seq<Error>, e: Error)
    ensures es(v.push(e)) == es(v).push((ek(e.kind), e.span)),
{ assert(es(v.push(e)) =~= es(v).push((ek(e.kind), e.span))); }

pub open spec fn cnd(c: Condition) -> SNode { SNode::Cond { title: c.title@, span: c.span, kids: nds(c.children@) } }

pub open spec fn gi(g: Map<Seq<char>, Seq<Span>>, id: Seq<char>, s: Span) -> Map<Seq<char>, Seq<Span>> {
    g.insert(id, if g.dom().contains(id) { g[id].push(s) } else { seq![s] })
}
/// more identifiers grouped into g
pub open spec fn more(g: Map<Seq<char>, Seq<Span>>, ids: Seq<(Seq<char>, Span)>) -> Map<Seq<char>, Seq<Span>>
    decreases ids.len()
{ if ids.len() == 0 { g } else { gi(more(g, ids.drop_last()), ids.last().0, ids.last().1) } }

proof fn lemma_more(g: Map<Seq<char>, Seq<Span>>, a: Seq<(Seq<char>, Span)>, b: Seq<(Seq<char>, Span)>)
    ensures more(more(g, a), b) == more(g, a + b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_more(g, a, b.drop_last());
    }
}
proof fn lemma_group(ids: Seq<(Seq<char>, Span)>)
    ensures group(ids) == more(Map::empty(), ids),
    decreases ids.len(),
{ if ids.len() > 0 { lemma_group(ids.drop_last()); } }

proof fn lemma_more1(g: Map<Seq<char>, Seq<Span>>, id: Seq<char>, s: Span)
    ensures more(g, seq![(id, s)]) == gi(g, id, s),
{ let x = seq![(id, s)]; assert(x.drop_last() =~= Seq::empty()); assert(more(g, x.drop_last()) == g); assert(x.last() == (id, s)); }

proof fn lemma_gi(m0: Map<Seq<char>, Vec<Span>>, m1: Map<Seq<char>, Vec<Span>>, id: Seq<char>, s: Span)
    requires m1 == m0.insert(id, m1[id]), m1[id]@ =~= (if m0.dom().contains(id) { m0[id]@.push(s) } else { seq![s] }),
    ensures mv(m1) == gi(mv(m0), id, s),
{
    assert(m1.dom() =~= m0.dom().insert(id));
    assert(mv(m1).dom() =~= m1.dom());
    assert(mv(m0).dom() =~= m0.dom());
    assert(mv(m1) =~= gi(mv(m0), id, s));
}

proof fn lemma_group_nonempty(ids: Seq<(Seq<char>, Span)>)
    ensures forall|k: Seq<char>| group(ids).dom().contains(k) ==> (#[trigger] group(ids)[k]).len() > 0,
    decreases ids.len(),
{
    if ids.len() > 0 {
        let p = ids.drop_last();
        lemma_group_nonempty(p);
        assert forall|k: Seq<char>| group(ids).dom().contains(k) implies (#[trigger] group(ids)[k]).len() > 0 by {
            if k != ids.last().0 { assert(group(p).dom().contains(k)); assert(group(p)[k].len() > 0); }
        }
    }
}

proof fn lemma_k_step(e0: Seq<(EK, Span)>, g0: Map<Seq<char>, Seq<Span>>, kids: Seq<SNode>, i: int)
    requires 0 <= i < kids.len(),
    ensures
        (e0 + k_errs(kids, i)) + c_errs(kids[i]) == e0 + k_errs(kids, i + 1),
        more(more(g0, k_ids(kids, i)), c_ids(kids[i])) == more(g0, k_ids(kids, i + 1)),
{
    lemma_more(g0, k_ids(kids, i), c_ids(kids[i]));
    assert((e0 + k_errs(kids, i)) + c_errs(kids[i]) =~= e0 + k_errs(kids, i + 1));
}
proof fn lemma_cond(e00: Seq<(EK, Span)>, g00: Map<Seq<char>, Seq<Span>>, c: SNode)
    requires c is Cond,
    ensures
        more(gi(g00, ident(c->Cond_title), c->Cond_span), k_ids(c->Cond_kids, c->Cond_kids.len() as int)) == more(g00, c_ids(c)),
        (e00 + (if c->Cond_kids.len() == 0 { seq![(EK::CondEmpty, c->Cond_span)] } else { Seq::empty() })) + k_errs(c->Cond_kids, c->Cond_kids.len() as int)
            == e00 + c_errs(c),
{
    let n = c->Cond_kids.len() as int;
    let id = ident(c->Cond_title);
    lemma_more1(g00, id, c->Cond_span);
    lemma_more(g00, seq![(id, c->Cond_span)], k_ids(c->Cond_kids, n));
    assert((e00 + (if n == 0 { seq![(EK::CondEmpty, c->Cond_span)] } else { Seq::empty() })) + k_errs(c->Cond_kids, n) =~= e00 + c_errs(c));
}

// the statement of C05: accepted exactly when nothing is empty and no identifier occurs twice
pub open spec fn c_full(n: SNode) -> bool
    decreases n, 0int
{
    match n {
        SNode::Cond { kids, .. } => kids.len() > 0 && k_full(kids, kids.len() as int),
        SNode::Act { .. } => true,
        _ => false,
    }
}
pub open spec fn k_full(kids: Seq<SNode>, i: int) -> bool
    decreases kids, i
{ if i <= 0 || i > kids.len() { true } else { k_full(kids, i - 1) && c_full(kids[i - 1]) } }
pub open spec fn distinct(ids: Seq<(Seq<char>, Span)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ids.len() ==> (#[trigger] ids[i]).0 != (#[trigger] ids[j]).0
}
/// the positions at which id occurs, in order
pub open spec fn occurs(ids: Seq<(Seq<char>, Span)>, id: Seq<char>) -> Seq<Span>
    decreases ids.len()
{
    if ids.len() == 0 { Seq::empty() }
    else if ids.last().0 == id { occurs(ids.drop_last(), id).push(ids.last().1) }
    else { occurs(ids.drop_last(), id) }
}
proof fn lemma_group_occurs(ids: Seq<(Seq<char>, Span)>, id: Seq<char>)
    ensures
        group(ids).dom().contains(id) <==> occurs(ids, id).len() > 0,
        group(ids).dom().contains(id) ==> group(ids)[id] == occurs(ids, id),
    decreases ids.len(),
{
    if ids.len() > 0 {
        lemma_group_occurs(ids.drop_last(), id);
        if ids.last().0 == id { assert(occurs(ids, id) =~= occurs(ids.drop_last(), id).push(ids.last().1)); }
    }
}
proof fn lemma_occurs_ge(ids: Seq<(Seq<char>, Span)>, id: Seq<char>)
    ensures occurs(ids, id).len() > 0 <==> exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).0 == id,
    decreases ids.len(),
{
    if ids.len() > 0 {
        let p = ids.drop_last();
        lemma_occurs_ge(p, id);
        if occurs(p, id).len() > 0 {
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == id;
            assert(ids[i] == p[i]);
        }
        if ids.last().0 == id { assert(ids[ids.len() - 1].0 == id); }
        if exists|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).0 == id {
            let i = choose|i: int| 0 <= i < ids.len() && (#[trigger] ids[i]).0 == id;
            if i < p.len() { assert(p[i] == ids[i]); }
        }
    }
}
proof fn lemma_distinct(ids: Seq<(Seq<char>, Span)>)
    ensures distinct(ids) <==> forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() <= 1,
    decreases ids.len(),
{
    if ids.len() > 0 {
        let p = ids.drop_last();
        lemma_distinct(p);
        let x = ids.last().0;
        lemma_occurs_ge(p, x);
        if distinct(ids) {
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by {
                assert(p[i] == ids[i] && p[j] == ids[j]);
            }
            assert(distinct(p));
            if occurs(p, x).len() > 0 {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x;
                assert(ids[i] == p[i]);
                assert(ids[ids.len() - 1].0 == x);
                assert(false);
            }
            assert forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() <= 1 by { assert(occurs(p, id).len() <= 1); }
        }
        if forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() <= 1 {
            assert forall|id: Seq<char>| (#[trigger] occurs(p, id)).len() <= 1 by { assert(occurs(ids, id).len() <= 1); }
            assert(distinct(p));
            assert(occurs(ids, x).len() <= 1);
            assert(occurs(p, x).len() == 0);
            assert forall|i: int, j: int| 0 <= i < j < ids.len() implies (#[trigger] ids[i]).0 != (#[trigger] ids[j]).0 by {
                assert(ids[i] == p[i]);
                if j < p.len() { assert(ids[j] == p[j]); }
            }
        }
    }
}
proof fn lemma_full(n: SNode)
    ensures c_errs(n).len() == 0 <==> c_full(n),
    decreases n, 0int,
{ match n { SNode::Cond { kids, .. } => lemma_kfull(kids, kids.len() as int), _ => {} } }
proof fn lemma_kfull(kids: Seq<SNode>, i: int)
    ensures k_errs(kids, i).len() == 0 <==> k_full(kids, i),
    decreases kids, i,
{ if !(i <= 0 || i > kids.len()) { lemma_kfull(kids, i - 1); lemma_full(kids[i - 1]); } }
proof fn lemma_dup(v: Seq<Seq<Span>>, i: int)
    requires 0 <= i <= v.len(),
    ensures dup_errs(v, i).len() == 0 <==> forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).len() <= 1,
    decreases i,
{ if i > 0 { lemma_dup(v, i - 1); } }

/// a tree is accepted exactly when its root and all its conditions have children and no
/// identifier occurs twice; every identifier that does is reported once, with all its
/// positions in order
proof fn theorem_accepted(n: SNode)
    requires n is Root,
    ensures ({
        let ids = t_ids(n->Root_kids, n->Root_kids.len() as int);
        let keys = sorted_keys(group(ids).dom());
        &&& reported(n).len() == 0 <==>
            n->Root_kids.len() > 0 && k_full(n->Root_kids, n->Root_kids.len() as int) && distinct(ids)
        &&& keys.no_duplicates()
        &&& forall|i: int| 0 <= i < keys.len() ==> #[trigger] groups(group(ids))[i] == occurs(ids, keys[i])
        &&& forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() > 0 ==> keys.contains(id)
    }),
{
    let kids = n->Root_kids;
    let ids = t_ids(kids, kids.len() as int);
    let g = group(ids);
    let keys = sorted_keys(g.dom());
    let v = groups(g);
    axiom_sorted_keys(g.dom());
    lemma_kfull(kids, kids.len() as int);
    lemma_distinct(ids);
    lemma_dup(v, v.len() as int);
    assert(v.len() == keys.len());
    assert forall|i: int| 0 <= i < keys.len() implies #[trigger] v[i] == occurs(ids, keys[i]) by {
        assert(keys.to_set().contains(keys[i]));
        lemma_group_occurs(ids, keys[i]);
    }
    assert forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() > 0 implies keys.contains(id) by {
        lemma_group_occurs(ids, id);
        assert(keys.to_set().contains(id));
    }
    if forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).len() <= 1 {
        assert forall|id: Seq<char>| (#[trigger] occurs(ids, id)).len() <= 1 by {
            if occurs(ids, id).len() > 0 {
                assert(keys.contains(id));
                let j = choose|j: int| 0 <= j < keys.len() && keys[j] == id;
                assert(v[j] == occurs(ids, keys[j]));
            }
        }
    }
    if distinct(ids) {
        assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).len() <= 1 by {
            assert(v[j] == occurs(ids, keys[j]));
        }
    }
}

impl<'t> SemanticAnalyzer<'t> {
//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::new
    ensures r.st() == (Seq::<(EK, Span)>::empty(), Map::<Seq<char>, Seq<Span>>::empty()), r.ok(), r.text == text,
//@@ at tail
    proof {
        assert(es(vx_r.errors@) =~= Seq::empty());
        assert(mv(vx_r.identifiers@) =~= Map::empty());
    }
//@@ end

//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::error
    ensures
        final(self).text == old(self).text, final(self).identifiers == old(self).identifiers,
        final(self).st().0 == old(self).st().0.push((ek(kind), span)),
        old(self).ok() ==> final(self).ok(),
//@@ at end
    proof { lemma_es_push(old(self).errors@, self.errors@.last()); }
//@@ end

//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::visit_action
    ensures r is Ok, *final(self) == *old(self),
//@@ end
//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::visit_description
    ensures r is Ok, *final(self) == *old(self),
//@@ end

//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::visit_condition
    ensures r is Ok, final(self).text == old(self).text, old(self).ok() ==> final(self).ok(),
        final(self).st().0 == old(self).st().0 + c_errs(cnd(*condition)),
        final(self).st().1 == more(old(self).st().1, c_ids(cnd(*condition))),
    decreases condition,
//@@ at before loop 0
    let ghost (e0, g0) = self.st();
    let ghost kids = nds(condition.children@);
    let ghost id = ident(condition.title@);
    proof {
        lemma_gi(old(self).identifiers@, self.identifiers@, id, condition.span);
        assert(e0 =~= old(self).st().0 + (if kids.len() == 0 { seq![(EK::CondEmpty, condition.span)] } else { Seq::empty() }));
        assert(g0 == gi(old(self).st().1, id, condition.span));
    }
//@@ loop 0
    invariant
        kids == nds(condition.children@),
        self.text == old(self).text, old(self).ok() ==> self.ok(),
        self.st().0 == e0 + k_errs(kids, vx_it0.index@ as int),
        self.st().1 == more(g0, k_ids(kids, vx_it0.index@ as int)),
//@@ at loop 0 start
    let ghost i = vx_it0.index@ as int;
    proof { lemma_nd(*ast); assert(kids[i] == nd(*ast)); assert(nspan(nd(*ast)) == nspan(kids[i])); }
//@@ at loop 0 end
    proof {
        lemma_k_step(e0, g0, kids, i);
        assert(self.st().1 == more(more(g0, k_ids(kids, i)), c_ids(kids[i])));
        assert(self.st().0 =~= (e0 + k_errs(kids, i)) + c_errs(kids[i]));
    }
//@@ at after loop 0
    proof { lemma_cond(old(self).st().0, old(self).st().1, cnd(*condition)); }
//@@ end

//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::visit_root
    ensures r is Ok, final(self).text == old(self).text, old(self).ok() ==> final(self).ok(),
        final(self).st().0 == old(self).st().0 + root_errs(SNode::Root { name: root.contract_name@, span: root.span, kids: nds(root.children@) }),
        final(self).st().1 == more(old(self).st().1, t_ids(nds(root.children@), root.children@.len() as int)),
//@@ at before loop 0
    let ghost (e0, g0) = self.st();
    let ghost kids = nds(root.children@);
    proof {
        assert(e0 =~= old(self).st().0 + (if kids.len() == 0 { seq![(EK::TreeEmpty, Span { start: root.span.end, end: root.span.end })] } else { Seq::empty() }));
    }
//@@ loop 0
    invariant
        kids == nds(root.children@),
        self.text == old(self).text, old(self).ok() ==> self.ok(),
        self.st().0 == e0 + k_errs(kids, vx_it0.index@ as int),
        self.st().1 == more(g0, t_ids(kids, vx_it0.index@ as int)),
//@@ at loop 0 start
    let ghost i = vx_it0.index@ as int;
    let ghost g1 = self.st().1;
    let ghost m1 = self.identifiers@;
    proof { lemma_nd(*ast); assert(kids[i] == nd(*ast)); assert(nspan(nd(*ast)) == nspan(kids[i])); }
//@@ at loop 0 end
    proof {
        let ids = match kids[i] { SNode::Act { title, span, .. } => seq![(ident(title), span)], n => c_ids(n) };
        lemma_more(g0, t_ids(kids, i), ids);
        if kids[i] is Act {
            lemma_gi(m1, self.identifiers@, ident(kids[i]->Act_title), kids[i]->Act_span);
            lemma_more1(g1, ident(kids[i]->Act_title), kids[i]->Act_span);
            assert(self.st().1 =~= gi(g1, ident(kids[i]->Act_title), kids[i]->Act_span));
        }
        assert(self.st().1 == more(more(g0, t_ids(kids, i)), ids));
        assert(self.st().0 =~= e0 + (k_errs(kids, i) + c_errs(kids[i])));
    }
//@@ at after loop 0
    proof {
        let rn = SNode::Root { name: root.contract_name@, span: root.span, kids: kids };
        assert(self.st().0 =~= old(self).st().0 + root_errs(rn));
    }
//@@ end

//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::analyze
    requires old(self).st() == (Seq::<(EK, Span)>::empty(), Map::<Seq<char>, Seq<Span>>::empty()), old(self).ok(),
    ensures
        match r {
            Ok(_) => reported(nd(*ast)).len() == 0,
            Err(e) => reported(nd(*ast)).len() > 0 && es(e.0@) == reported(nd(*ast)) && texts(e.0@, old(self).text@),
        },
//@@ at start
    proof { lemma_nd(*ast); }
//@@ at before loop 0
    let ghost v = groups(group(root_ids(nd(*ast))));
    let ghost e0 = self.st().0;
    proof {
        lemma_group(root_ids(nd(*ast)));
        assert(self.st().1 == group(root_ids(nd(*ast))));
        assert(e0 =~= root_errs(nd(*ast)));
        let m = self.identifiers@;
        assert(mv(m).dom() =~= m.dom());
        axiom_sorted_keys(m.dom());
        lemma_group_nonempty(root_ids(nd(*ast)));
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i].len() > 0 && v[i] == m[sorted_keys(m.dom())[i]]@ by {
            assert(sorted_keys(m.dom()).to_set().contains(sorted_keys(m.dom())[i]));
        }
    }
//@@ loop 0
    invariant
        self.text == old(self).text, self.ok(), vx_it0.seq().len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] vx_it0.seq()[i])@ == v[i],
        forall|i: int| 0 <= i < v.len() ==> v[i].len() > 0,
        self.st().0 == e0 + dup_errs(v, vx_it0.index@ as int),
//@@ at after loop 0
    proof {
        assert(self.st().0 == reported(nd(*ast)));
        assert(self.errors@.len() == self.st().0.len());
    }
//@@ end
}
}
fn main() {}
