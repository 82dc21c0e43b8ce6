//@@ struct crates/syntax/src/ast.rs Root
//@@ struct crates/syntax/src/ast.rs Condition
//@@ struct crates/syntax/src/ast.rs Action
//@@ struct crates/syntax/src/ast.rs Description
//@@ enum crates/syntax/src/ast.rs Ast

// the value of a syntax tree
pub ghost enum SNode {
    Root { name: Seq<char>, span: Span, kids: Seq<SNode> },
    Cond { title: Seq<char>, span: Span, kids: Seq<SNode> },
    Act { title: Seq<char>, span: Span, kids: Seq<SNode> },
    Desc { text: Seq<char>, span: Span },
}

pub open spec fn nd(a: Ast) -> SNode
    decreases a
{
    match a {
        Ast::Root(x) => SNode::Root { name: x.contract_name@, span: x.span,
            kids: Seq::new(x.children@.len(), |i: int| if 0 <= i < x.children@.len() { nd(x.children@[i]) } else { arbitrary() }) },
        Ast::Condition(x) => SNode::Cond { title: x.title@, span: x.span,
            kids: Seq::new(x.children@.len(), |i: int| if 0 <= i < x.children@.len() { nd(x.children@[i]) } else { arbitrary() }) },
        Ast::Action(x) => SNode::Act { title: x.title@, span: x.span,
            kids: Seq::new(x.children@.len(), |i: int| if 0 <= i < x.children@.len() { nd(x.children@[i]) } else { arbitrary() }) },
        Ast::ActionDescription(x) => SNode::Desc { text: x.text@, span: x.span },
    }
}

pub open spec fn nds(v: Seq<Ast>) -> Seq<SNode> { Seq::new(v.len(), |i: int| nd(v[i])) }

pub open spec fn nspan(n: SNode) -> Span {
    match n { SNode::Root { span, .. } => span, SNode::Cond { span, .. } => span, SNode::Act { span, .. } => span, SNode::Desc { span, .. } => span }
}

pub proof fn lemma_nd(a: Ast)
    ensures match a {
        Ast::Root(x) => nd(a) == (SNode::Root { name: x.contract_name@, span: x.span, kids: nds(x.children@) }),
        Ast::Condition(x) => nd(a) == (SNode::Cond { title: x.title@, span: x.span, kids: nds(x.children@) }),
        Ast::Action(x) => nd(a) == (SNode::Act { title: x.title@, span: x.span, kids: nds(x.children@) }),
        Ast::ActionDescription(x) => nd(a) == (SNode::Desc { text: x.text@, span: x.span }),
    },
{
    match a {
        Ast::Root(x) => assert(nd(a)->Root_kids =~= nds(x.children@)),
        Ast::Condition(x) => assert(nd(a)->Cond_kids =~= nds(x.children@)),
        Ast::Action(x) => assert(nd(a)->Act_kids =~= nds(x.children@)),
        Ast::ActionDescription(x) => {}
    }
}

pub broadcast proof fn lemma_nds_push(v: Seq<Ast>, a: Ast)
    ensures #[trigger] nds(v.push(a)) == nds(v).push(nd(a)),
{ assert(nds(v.push(a)) =~= nds(v).push(nd(a))); }
