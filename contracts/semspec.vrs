// ---------------------------------------------------------------- what the semantic analysis reports
pub ghost enum EK { Dup(Seq<Span>), CondEmpty, NodeUnexpected, TreeEmpty }

/// the identifier a title stands for
pub open spec fn ident(title: Seq<char>) -> Seq<char> { camel(san(title)) }

/// the problems of one node below a condition (or a condition below the root), in preorder
pub open spec fn c_errs(n: SNode) -> Seq<(EK, Span)>
    decreases n, 0int
{
    match n {
        SNode::Cond { title, span, kids } =>
            (if kids.len() == 0 { seq![(EK::CondEmpty, span)] } else { Seq::empty() }) + k_errs(kids, kids.len() as int),
        SNode::Act { .. } => Seq::empty(),
        _ => seq![(EK::NodeUnexpected, nspan(n))],
    }
}
pub open spec fn k_errs(kids: Seq<SNode>, i: int) -> Seq<(EK, Span)>
    decreases kids, i
{ if i <= 0 || i > kids.len() { Seq::empty() } else { k_errs(kids, i - 1) + c_errs(kids[i - 1]) } }

/// the identifiers of the conditions of a node, in preorder, with their positions
pub open spec fn c_ids(n: SNode) -> Seq<(Seq<char>, Span)>
    decreases n, 0int
{
    match n {
        SNode::Cond { title, span, kids } => seq![(ident(title), span)] + k_ids(kids, kids.len() as int),
        _ => Seq::empty(),
    }
}
pub open spec fn k_ids(kids: Seq<SNode>, i: int) -> Seq<(Seq<char>, Span)>
    decreases kids, i
{ if i <= 0 || i > kids.len() { Seq::empty() } else { k_ids(kids, i - 1) + c_ids(kids[i - 1]) } }

/// at the top level actions have identifiers too
pub open spec fn t_ids(kids: Seq<SNode>, i: int) -> Seq<(Seq<char>, Span)>
    decreases i
{
    if i <= 0 || i > kids.len() { Seq::empty() }
    else {
        t_ids(kids, i - 1) + (match kids[i - 1] {
            SNode::Act { title, span, .. } => seq![(ident(title), span)],
            n => c_ids(n),
        })
    }
}

/// identifiers grouped: every one with its positions in order
pub open spec fn group(ids: Seq<(Seq<char>, Span)>) -> Map<Seq<char>, Seq<Span>>
    decreases ids.len()
{
    if ids.len() == 0 { Map::empty() }
    else {
        let g = group(ids.drop_last());
        let (id, s) = ids.last();
        g.insert(id, if g.dom().contains(id) { g[id].push(s) } else { seq![s] })
    }
}

/// the keys of a map in the order of their text (trusted: the order of std's BTreeMap)
pub uninterp spec fn sorted_keys(d: Set<Seq<char>>) -> Seq<Seq<char>>;
pub broadcast axiom fn axiom_sorted_keys(d: Set<Seq<char>>)
    ensures (#[trigger] sorted_keys(d)).to_set() == d, sorted_keys(d).no_duplicates();

pub open spec fn at_start(s: Span) -> Span { Span { start: s.start, end: s.start } }

pub open spec fn dup_errs(v: Seq<Seq<Span>>, i: int) -> Seq<(EK, Span)>
    decreases i
{
    if i <= 0 || i > v.len() { Seq::empty() }
    else if v[i - 1].len() > 1 { dup_errs(v, i - 1).push((EK::Dup(v[i - 1]), at_start(v[i - 1][0]))) }
    else { dup_errs(v, i - 1) }
}
pub open spec fn groups(m: Map<Seq<char>, Seq<Span>>) -> Seq<Seq<Span>> { sorted_keys(m.dom()).map_values(|k: Seq<char>| m[k]) }

pub open spec fn root_errs(n: SNode) -> Seq<(EK, Span)> {
    match n {
        SNode::Root { span, kids, .. } =>
            (if kids.len() == 0 { seq![(EK::TreeEmpty, Span { start: span.end, end: span.end })] } else { Seq::empty() })
                + k_errs(kids, kids.len() as int),
        SNode::Cond { .. } => c_errs(n),
        _ => Seq::empty(),
    }
}
pub open spec fn root_ids(n: SNode) -> Seq<(Seq<char>, Span)> {
    match n {
        SNode::Root { span, kids, .. } => t_ids(kids, kids.len() as int),
        SNode::Cond { .. } => c_ids(n),
        _ => Seq::empty(),
    }
}
/// everything the analysis reports, in order
pub open spec fn reported(n: SNode) -> Seq<(EK, Span)> {
    let v = groups(group(root_ids(n)));
    root_errs(n) + dup_errs(v, v.len() as int)
}
