// ---------------------------------------------------------------- what a tree is translated to
pub open spec fn lit_test() -> Seq<char> { seq!['t', 'e', 's', 't', '_'] }
pub open spec fn lit_revert() -> Seq<char> { seq!['t', 'e', 's', 't', '_', 'R', 'e', 'v', 'e', 'r', 't'] }
pub open spec fn lit_should_revert() -> Seq<char> {
    seq!['i', 't', ' ', 's', 'h', 'o', 'u', 'l', 'd', ' ', 'r', 'e', 'v', 'e', 'r', 't']
}

/// the comments of an action: its title and the texts of its descriptions
pub open spec fn h_act(n: SNode) -> Seq<SHir> {
    match n {
        SNode::Act { title, kids, .. } => seq![SHir::Comment(title)] + h_descs(kids, kids.len() as int),
        _ => Seq::empty(),
    }
}
pub open spec fn h_descs(kids: Seq<SNode>, i: int) -> Seq<SHir>
    decreases i
{
    if i <= 0 || i > kids.len() { Seq::empty() }
    else { match kids[i - 1] { SNode::Desc { text, .. } => h_descs(kids, i - 1).push(SHir::Comment(text)), _ => h_descs(kids, i - 1) } }
}
/// the comments of all actions among kids
pub open spec fn h_acts(kids: Seq<SNode>, i: int) -> Seq<SHir>
    decreases i
{ if i <= 0 || i > kids.len() { Seq::empty() } else { h_acts(kids, i - 1) + h_act(kids[i - 1]) } }

pub open spec fn only_actions(kids: Seq<SNode>) -> bool { forall|i: int| 0 <= i < kids.len() ==> #[trigger] kids[i] is Act }

pub open spec fn is_revert(body: Seq<SHir>) -> bool {
    body.len() > 0 && match body[0] { SHir::Comment(c) => san(lowercase(trim(c))) == lit_should_revert(), _ => false }
}
pub open spec fn rest_words(title: Seq<char>) -> Seq<char> {
    let w = words(title);
    cat(caps(if w.len() > 0 { w.skip(1) } else { w }))
}
/// the name of a condition's test
pub open spec fn cond_test(title: Seq<char>, body: Seq<SHir>) -> Seq<char> {
    let kw = cap(words(title)[0]);
    if is_revert(body) { lit_revert() + kw + seq!['_'] + rest_words(title) } else { lit_test() + (kw + rest_words(title)) }
}
/// the name of a top-level action's test
pub open spec fn act_test(title: Seq<char>) -> Seq<char> { lit_test() + san(rest_words(title)) }

pub open spec fn with_skip(body: Seq<SHir>, skip: bool) -> Seq<SHir> { if skip { body.push(SHir::Skip) } else { body } }

/// everything a condition generates; `stack`: the modifiers of its ancestors, outermost first
pub open spec fn h_cond(n: SNode, stack: Seq<Seq<char>>, skip: bool) -> Seq<SHir>
    decreases n, 0int
{
    match n {
        SNode::Cond { title, span, kids } => {
            let own = !only_actions(kids);
            let name = camel(title);
            let st = if own { stack.push(name) } else { stack };
            let body = h_acts(kids, kids.len() as int);
            (if own { seq![SHir::Fun { name, modifier: true, span, mods: None, body: None }] } else { Seq::empty() })
                + (if body.len() > 0 {
                    seq![SHir::Fun {
                        name: cond_test(title, body), modifier: false, span,
                        mods: if st.len() == 0 { None } else { Some(st) },
                        body: Some(with_skip(body, skip)) }]
                } else { Seq::empty() })
                + h_conds(kids, kids.len() as int, st, skip)
        }
        _ => Seq::empty(),
    }
}
pub open spec fn h_conds(kids: Seq<SNode>, i: int, stack: Seq<Seq<char>>, skip: bool) -> Seq<SHir>
    decreases kids, i
{ if i <= 0 || i > kids.len() { Seq::empty() } else { h_conds(kids, i - 1, stack, skip) + h_cond(kids[i - 1], stack, skip) } }

/// everything the root's children generate
pub open spec fn h_top(kids: Seq<SNode>, i: int, skip: bool) -> Seq<SHir>
    decreases i
{
    if i <= 0 || i > kids.len() { Seq::empty() }
    else {
        h_top(kids, i - 1, skip) + match kids[i - 1] {
            SNode::Act { title, span, .. } => seq![SHir::Fun {
                name: act_test(title), modifier: false, span, mods: None, body: Some(with_skip(h_act(kids[i - 1]), skip)) }],
            n => h_cond(n, Seq::empty(), skip),
        }
    }
}
pub open spec fn h_root(n: SNode, skip: bool) -> SHir {
    SHir::Root { kids: seq![SHir::Contract { name: n->Root_name, kids: h_top(n->Root_kids, n->Root_kids.len() as int, skip) }] }
}

/// the titles of all conditions satisfy p / the root's children are conditions and actions only
pub open spec fn c_titles(n: SNode, p: spec_fn(Seq<char>) -> bool) -> bool
    decreases n, 0int
{ match n { SNode::Cond { title, kids, .. } => p(title) && k_titles(kids, kids.len() as int, p), _ => true } }
pub open spec fn k_titles(kids: Seq<SNode>, i: int, p: spec_fn(Seq<char>) -> bool) -> bool
    decreases kids, i
{ if i <= 0 || i > kids.len() { true } else { k_titles(kids, i - 1, p) && c_titles(kids[i - 1], p) } }

/// a title has a first word, which is not longer when capitalised than the title
pub open spec fn title_ok(t: Seq<char>) -> bool { words(t).len() > 0 && blen(cap(words(t)[0])) <= blen(t) }
pub open spec fn root_ok(n: SNode) -> bool {
    &&& n is Root
    &&& k_titles(n->Root_kids, n->Root_kids.len() as int, |t: Seq<char>| title_ok(t))
    &&& forall|i: int| 0 <= i < n->Root_kids.len() ==> (#[trigger] n->Root_kids[i] is Cond || n->Root_kids[i] is Act)
}
