/// the names of a file's trees have no quotes
pub open spec fn roots_plain(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < texts_of(s).len() ==> (#[trigger] tree_of(texts_of(s)[i]) matches TR::Tree(n) && no_q(n->Root_name))
}
