//@@ include roundpre

// ---------------------------------------------------------------- plans with and without `vm.skip`
/// two functions of the same name and kind
pub open spec fn alike(a: SHir, b: SHir) -> bool {
    match (a, b) {
        (SHir::Fun { name, modifier, .. }, SHir::Fun { name: n2, modifier: m2, .. }) => name == n2 && modifier == m2,
        _ => false,
    }
}
pub open spec fn all_alike(v: Seq<SHir>, w: Seq<SHir>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> alike(#[trigger] v[i], w[i]) }
proof fn lemma_alike_add(a: Seq<SHir>, b: Seq<SHir>, c: Seq<SHir>, d: Seq<SHir>)
    requires all_alike(a, c), all_alike(b, d),
    ensures all_alike(a + b, c + d),
{
    assert forall|i: int| 0 <= i < (a + b).len() implies alike(#[trigger] (a + b)[i], (c + d)[i]) by {
        if i < a.len() { assert(alike(a[i], c[i])); } else { assert(alike(b[i - a.len()], d[i - a.len()])); }
    }
}
proof fn lemma_cond_alike(n: SNode, st: Seq<Seq<char>>)
    ensures all_alike(h_cond(n, st, true), h_cond(n, st, false)),
    decreases n, 0int,
{
    hide(camel); hide(cond_test); hide(h_acts); hide(only_actions);
    match n {
        SNode::Cond { title, span, kids } => {
            let name = camel(title);
            let own = !only_actions(kids);
            let st2 = if own { st.push(name) } else { st };
            lemma_conds_alike(kids, kids.len() as int, st2);
            let body = h_acts(kids, kids.len() as int);
            let a = if own { seq![SHir::Fun { name, modifier: true, span, mods: None, body: None }] } else { Seq::empty() };
            let b = |skip: bool| -> Seq<SHir> { if body.len() > 0 {
                    seq![SHir::Fun {
                        name: cond_test(title, body), modifier: false, span,
                        mods: if st2.len() == 0 { None } else { Some(st2) },
                        body: Some(with_skip(body, skip)) }]
                } else { Seq::empty() } };
            assert(all_alike(a, a));
            assert(all_alike(b(true), b(false)));
            lemma_alike_add(a, b(true), a, b(false));
            lemma_alike_add(a + b(true), h_conds(kids, kids.len() as int, st2, true), a + b(false), h_conds(kids, kids.len() as int, st2, false));
            assert(h_cond(n, st, true) == a + b(true) + h_conds(kids, kids.len() as int, st2, true));
            assert(h_cond(n, st, false) == a + b(false) + h_conds(kids, kids.len() as int, st2, false));
        }
        _ => {}
    }
}
proof fn lemma_conds_alike(kids: Seq<SNode>, i: int, st: Seq<Seq<char>>)
    requires 0 <= i <= kids.len(),
    ensures all_alike(h_conds(kids, i, st, true), h_conds(kids, i, st, false)),
    decreases kids, i,
{
    if i > 0 {
        lemma_conds_alike(kids, i - 1, st);
        lemma_cond_alike(kids[i - 1], st);
        lemma_alike_add(h_conds(kids, i - 1, st, true), h_cond(kids[i - 1], st, true), h_conds(kids, i - 1, st, false), h_cond(kids[i - 1], st, false));
    }
}
pub open spec fn top1(n: SNode, skip: bool) -> Seq<SHir> {
    match n {
        SNode::Act { title, span, .. } => seq![SHir::Fun { name: act_test(title), modifier: false, span, mods: None, body: Some(with_skip(h_act(n), skip)) }],
        _ => h_cond(n, Seq::empty(), skip),
    }
}
proof fn lemma_top_alike(kids: Seq<SNode>, i: int)
    requires 0 <= i <= kids.len(),
    ensures all_alike(h_top(kids, i, true), h_top(kids, i, false)),
    decreases i,
{
    hide(act_test); hide(h_act); hide(h_cond);
    if i > 0 {
        lemma_top_alike(kids, i - 1);
        lemma_cond_alike(kids[i - 1], Seq::empty());
        assert(all_alike(top1(kids[i - 1], true), top1(kids[i - 1], false)));
        lemma_alike_add(h_top(kids, i - 1, true), top1(kids[i - 1], true), h_top(kids, i - 1, false), top1(kids[i - 1], false));
    }
}
/// trees whose contracts have the same name and alike functions
pub open spec fn tree_alike(a: SHir, b: SHir) -> bool { is_tree(a) && is_tree(b) && t_name(a) == t_name(b) && all_alike(t_kids(a), t_kids(b)) }
proof fn lemma_root_alike(n: SNode)
    ensures tree_alike(h_root(n, true), h_root(n, false)),
{ hide(h_top); lemma_top_alike(n->Root_kids, n->Root_kids.len() as int); }
proof fn lemma_pfx_alike(v: Seq<SHir>, w: Seq<SHir>, f: Seq<char>)
    requires all_alike(v, w),
    ensures all_alike(pfxs(v, f), pfxs(w, f)),
{ assert forall|i: int| 0 <= i < v.len() implies alike(#[trigger] pfxs(v, f)[i], pfxs(w, f)[i]) by { assert(alike(v[i], w[i])); } }
proof fn lemma_all_alike(a: Seq<SHir>, b: Seq<SHir>, n: int)
    requires a.len() == b.len(), 0 <= n <= a.len(), forall|i: int| 0 <= i < a.len() ==> tree_alike(#[trigger] a[i], b[i]),
    ensures all_alike(all_of(a, n), all_of(b, n)),
    decreases n,
{
    hide(f_name); hide(pfxs);
    if n > 0 {
        lemma_all_alike(a, b, n - 1);
        assert(tree_alike(a[n - 1], b[n - 1]));
        let f = f_name(t_name(a[n - 1]));
        lemma_pfx_alike(t_kids(a[n - 1]), t_kids(b[n - 1]), f);
        lemma_alike_add(all_of(a, n - 1), pfxs(t_kids(a[n - 1]), f), all_of(b, n - 1), pfxs(t_kids(b[n - 1]), f));
    }
}
proof fn lemma_kept_alike(v: Seq<SHir>, w: Seq<SHir>, i: int, seen: Set<Seq<char>>)
    requires all_alike(v, w), 0 <= i <= v.len(),
    ensures seen_by(v, i, seen) == seen_by(w, i, seen), all_alike(kept(v, i, seen), kept(w, i, seen)),
    decreases i,
{ if i > 0 { lemma_kept_alike(v, w, i - 1, seen); assert(alike(v[i - 1], w[i - 1])); } }
proof fn lemma_not_bad(ts: Seq<Seq<char>>, i: int, k: int)
    requires 0 <= i <= k < ts.len(), bad_text(ts, i) >= ts.len(),
    ensures tree_of(ts[k]) is Tree,
    decreases ts.len() - i,
{ hide(tree_of); if i < k { lemma_not_bad(ts, i + 1, k); } }
/// whether tests start with `vm.skip` has no part in which functions there are
proof fn lemma_plans_alike(s: Seq<char>, a: bool, b: bool)
    requires plan_of(s, a) is Plan,
    ensures plan_of(s, b) is Plan, tree_alike(plan_of(s, a)->Plan_0, plan_of(s, b)->Plan_0),
{
    hide(tree_of); hide(texts_of); hide(h_root); hide(kept); hide(all_of); hide(c_name); hide(has_sep);
    let ts = texts_of(s);
    let (v, w) = (planned_trees(s, a), planned_trees(s, b));
    assert forall|i: int| 0 <= i < v.len() implies tree_alike(#[trigger] v[i], w[i]) by { both_alike(tree_of(ts[i])->Tree_0, a, b); }
    if ts.len() == 1 { assert(tree_alike(v[0], w[0])); }
    else {
        assert forall|i: int| 0 <= i < w.len() implies t_ok(w, i) by { assert(t_ok(v, i)); assert(tree_alike(v[i], w[i])); assert(tree_alike(v[0], w[0])); }
        if v.len() > 0 { assert(tree_alike(v[0], w[0])); }
        lemma_all_alike(v, w, v.len() as int);
        lemma_kept_alike(all_of(v, v.len() as int), all_of(w, w.len() as int), all_of(v, v.len() as int).len() as int, Set::empty());
    }
}
proof fn both_alike(n: SNode, a: bool, b: bool)
    ensures tree_alike(h_root(n, a), h_root(n, b)),
{
    lemma_root_alike(n);
    let (x, y) = (h_root(n, true), h_root(n, false));
    assert forall|i: int| 0 <= i < t_kids(y).len() implies alike(#[trigger] t_kids(y)[i], t_kids(x)[i]) by { assert(alike(t_kids(x)[i], t_kids(y)[i])); }
    assert forall|i: int| 0 <= i < t_kids(x).len() implies alike(#[trigger] t_kids(x)[i], t_kids(x)[i]) by { assert(alike(t_kids(x)[i], t_kids(y)[i])); }
    assert forall|i: int| 0 <= i < t_kids(y).len() implies alike(#[trigger] t_kids(y)[i], t_kids(y)[i]) by { assert(alike(t_kids(x)[i], t_kids(y)[i])); }
    assert(tree_alike(y, x));
}

//@@ include outlinespec
proof fn lemma_shown_alike(v: Seq<SHir>, w: Seq<SHir>, n: int, sm: bool)
    requires all_alike(v, w), 0 <= n <= v.len(),
    ensures all_alike(shown(v, n, sm), shown(w, n, sm)),
    decreases n,
{ if n > 0 { lemma_shown_alike(v, w, n - 1, sm); assert(alike(v[n - 1], w[n - 1])); } }
proof fn lemma_outline_alike(t: Seq<char>, a: SHir, b: SHir, sm: bool)
    requires has_outline(t, a, sm), tree_alike(a, b),
    ensures has_outline(t, b, sm),
{
    let (v, w) = (t_kids(a), t_kids(b));
    lemma_shown_alike(v, w, v.len() as int, sm);
    let u = pt_of(t)->Some_0;
    let d = *(u.0@[contract_at(u.0@, 0)]->ContractDefinition_0);
    assert forall|i: int| 0 <= i < d.parts@.len() implies part_is(#[trigger] d.parts@[i], shown(w, w.len() as int, sm)[i]) by {
        assert(part_is(d.parts@[i], shown(v, v.len() as int, sm)[i]));
        assert(alike(shown(v, v.len() as int, sm)[i], shown(w, w.len() as int, sm)[i]));
    }
}

// ---------------------------------------------------------------- C17
/// a tree file whose functions have distinct names, which are identifiers
pub open spec fn well_named(s: Seq<char>, skip: bool) -> bool {
    (roots_plain(s) || texts_of(s).len() == 1) && (plan_of(s, skip) matches PL::Plan(h) ==> identifiers(h) && distinct(t_kids(h)))
}
proof fn lemma_version_no_q(v: Seq<char>)
    requires version_ok(v),
    ensures no_q(v),
{ assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != '"' by { assert(version_char(v[i])); } }
/// what scaffolding gives has the outline of the plan
pub proof fn scaffolded(s: Seq<char>, cfg: Config, r: AnyResult<String>)
    requires scaffold_is(r, s, cfg), r is Ok, well_named(s, cfg.emit_vm_skip), version_ok(cfg.solidity_version@),
    ensures plan_of(s, false) is Plan, has_outline(r->Ok_0@, plan_of(s, false)->Plan_0, cfg.skip_modifiers), distinct(t_kids(plan_of(s, false)->Plan_0)),
{
    hide(plan_of); hide(err_of); hide(has_outline); hide(s_unit); hide(comments_ok); hide(names_ok); hide(clean); hide(identifiers);
    assert(plan_of(s, cfg.emit_vm_skip) is Plan) by { reveal(plan_of); }
    lemma_version_no_q(cfg.solidity_version@);
    let h = plan_of(s, cfg.emit_vm_skip)->Plan_0;
    let g = plan_of(s, false)->Plan_0;
    let text = s_unit(h, cfg.solidity_version@, cfg.emit_vm_skip, cfg.skip_modifiers, false);
    axiom_printed(h, cfg.solidity_version@, cfg.emit_vm_skip, cfg.skip_modifiers);
    axiom_formatted(text, r->Ok_0@, h, cfg.skip_modifiers);
    lemma_plans_alike(s, cfg.emit_vm_skip, false);
    lemma_outline_alike(r->Ok_0@, h, g, cfg.skip_modifiers);
    assert forall|i: int, j: int| 0 <= i < j < t_kids(g).len() && t_kids(g)[i] is Fun && t_kids(g)[j] is Fun
        implies name_of(#[trigger] t_kids(g)[i]) != name_of(#[trigger] t_kids(g)[j]) by {
        assert(alike(t_kids(h)[i], t_kids(g)[i]));
        assert(alike(t_kids(h)[j], t_kids(g)[j]));
    }
}
/// scaffolding the same text with the same options again gives the same text
pub proof fn scaffolds_again(s: Seq<char>, cfg: Config, r: AnyResult<String>, again: AnyResult<String>)
    requires scaffold_is(r, s, cfg), scaffold_is(again, s, cfg),
    ensures r is Ok <==> again is Ok, r is Ok ==> r->Ok_0@ == again->Ok_0@,
{ hide(plan_of); hide(err_of); hide(s_unit); hide(clean); hide(emits_plan); hide(combiner::c_err); hide(roots_plain); }
/// C17: the file that the scaffold command writes for a tree file passes check, and
/// check --fix gives a text with the same contract and functions
pub proof fn scaffolded_file_passes(scaffolds: Cli, checks: Cli, f: PathBuf, s: Seq<char>, t: Seq<char>, c: Context)
    requires
        scaffolds.command matches Commands::Scaffold(x) && well_named(s, x.with_vm_skip) && version_ok(x.solidity_version@),
        checks.command matches Commands::Check(y) && (scaffolds.command->Scaffold_0.skip_modifiers ==> y.skip_modifiers),
        // the tree has the text s, all the time, and the file beside it has the text that scaffolding gives
        gives(scaffolds, f, t),
        context_for(Ok(c), checks, f),
        forall|x: Seq<char>| was_read(f, x) ==> x == s,
        forall|x: Seq<char>| was_read(beside(f), x) ==> x == t,
    ensures
        wrong(c) == Seq::<SV>::empty(),
        forall|t2: Seq<char>| #[trigger] mended(c, t2) ==> has_outline(t2, hv(c.hir), scaffolds.command->Scaffold_0.skip_modifiers),
{
    hide(plan_of); hide(err_of); hide(scaffold_is); hide(hv); hide(deviations); hide(well_named); hide(placed); hide(outline_is);
    let sm = scaffolds.command->Scaffold_0.skip_modifiers;
    let (s1, cfg, r) = choose|s1: Seq<char>, cfg: Config, r: AnyResult<String>|
        was_read(f, s1) && cfg_is(cfg, scaffolds) && #[trigger] scaffold_is(r, s1, cfg)
        && r is Ok && t == (match forge(r->Ok_0@) { Some(x) => x, None => r->Ok_0@ });
    assert(s1 == s);
    scaffolded(s, cfg, r);
    let h = plan_of(s, false)->Plan_0;
    if let Some(x) = forge(r->Ok_0@) { axiom_formatted(r->Ok_0@, x, h, sm); }
    assert(has_outline(t, h, sm));
    assert(c.sol == beside(f));
    assert(c.src@ == t);
    assert(hv(c.hir) == h);
    let u = c.pt;
    assert(outline_is(u, h, sm));
    lemma_outline(u, h, sm, env(c));
    assert forall|t2: Seq<char>| #[trigger] mended(c, t2) implies has_outline(t2, h, sm) by {
        let (vs, ms, r2) = choose|vs: Seq<Violation>, ms: Seq<Context>, r2: Context| #![trigger fix_chain(one_by_one(vs, vs.len() as int), ms), reordered(ms.last(), r2)]
            svs(vs) == wrong(c) && fix_chain(one_by_one(vs, vs.len() as int), ms) && ms.len() == one_by_one(vs, vs.len() as int).len() + 1
            && ms[0] == c && reordered(ms.last(), r2)
            && t2 == (match pretty(r2.src@, r2.pt, r2.comments) { Some(x) => x, None => r2.src@ });
        assert(svs(vs).len() == 0);
        assert(vs.len() == 0);
        assert(ms.last() == c);
        assert(!some_misplaced(wrong(c)));
        assert(r2 == c);
        if let Some(x) = pretty(c.src@, c.pt, c.comments) { axiom_pretty(c.src@, c.pt, c.comments, x, h, sm); }
    }
}
}
fn main() {}
