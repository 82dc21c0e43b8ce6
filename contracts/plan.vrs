//@@ include common
//@@ cell pos identifier_mode current
//@@ mono T=Tokenizer
//@@ mono P=Parser
//@@ byval TokenizerI
//@@ byval ParserI
//@@ life ParserI 't
//@@ path anyhow::Result = AnyResult
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ vmethod map = vx_map

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new stub from=combiner
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine stub from=combiner
//@@ end
}
}
}
//@@ include planspec

verus! {
/// `map`, eagerly
pub fn vx_map<T, U, F: Fn(T) -> U>(it: std::vec::IntoIter<T>, f: F) -> (r: Vec<U>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|i: int| 0 <= i < it.remaining().len() ==> f.requires((#[trigger] it.remaining()[i],)),
    ensures it.will_return_none(), r@.len() == it.remaining().len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((it.remaining()[i],), #[trigger] r@[i]),
{
    let v: Vec<T> = it.collect();
    let ghost v0 = v@;
    let mut out: Vec<U> = Vec::new();
    for x in w: v
        invariant
            w.seq() == v0, out@.len() == w.index@,
            forall|i: int| 0 <= i < v0.len() ==> f.requires((#[trigger] v0[i],)),
            forall|i: int| 0 <= i < w.index@ ==> f.ensures((v0[i],), #[trigger] out@[i]),
    { let y = f(x); out.push(y); }
    out
}

//@@ include treelemmas
broadcast proof fn lemma_every_tree(r: AnyResult<Vec<Ast>>, ts: Seq<Seq<char>>)
    requires #[trigger] every(r, ts), r is Ok,
    ensures r->Ok_0@.len() == ts.len(), bad_text(ts, 0) == ts.len(),
        forall|i: int| 0 <= i < ts.len() ==> root_ok(nd(#[trigger] r->Ok_0@[i])) && nd(r->Ok_0@[i]) == tree_of(ts[i])->Tree_0,
{
    assert forall|i: int| 0 <= i < ts.len() implies root_ok(nd(#[trigger] r->Ok_0@[i])) && nd(r->Ok_0@[i]) == tree_of(ts[i])->Tree_0 by {
        lemma_tree_ok(ts[i]);
    }
}
broadcast proof fn lemma_every_err(r: AnyResult<Vec<Ast>>, ts: Seq<Seq<char>>)
    requires #[trigger] every(r, ts), r is Err,
    ensures bad_text(ts, 0) < ts.len(), err_of(r->Err_0, ts[bad_text(ts, 0)]),
{}
broadcast proof fn lemma_planned(hs: Seq<Hir>, s: Seq<char>, skip: bool)
    requires hs.len() == texts_of(s).len(), forall|i: int| 0 <= i < hs.len() ==> hv(#[trigger] hs[i]) == h_root(tree_of(texts_of(s)[i])->Tree_0, skip),
    ensures #![trigger hvs(hs), planned_trees(s, skip)] hvs(hs) == planned_trees(s, skip),
{ assert(hvs(hs) =~= planned_trees(s, skip)); }
//@@ fn crates/syntax/src/lib.rs parse stub from=front
//@@ end
//@@ fn crates/foundry/src/hir/mod.rs translate_one stub from=hir
//@@ end
//@@ fn crates/foundry/src/hir/mod.rs translate tryconv
    ensures plan_is(r, text@, cfg.emit_vm_skip),
//@@ closure 0
    |ast: Ast| -> (r: Hir)
        requires root_ok(nd(ast))
        ensures hv(r) == h_root(nd(ast), cfg.emit_vm_skip)
//@@ at start
    hide(tree_of); hide(root_ok); hide(merged); hide(err_of); hide(combiner::c_err); hide(t_ok); hide(every); hide(h_top); hide(bad_text); hide(first_bad);
    broadcast use {lemma_planned, lemma_every_tree, lemma_every_err};
//@@ end
}
fn main() {}
