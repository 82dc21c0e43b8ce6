/// forge-fmt's parse tree and comments of a text, if it is Solidity
pub uninterp spec fn pt_of(s: Seq<char>) -> Option<SourceUnit>;
pub uninterp spec fn notes_of(s: Seq<char>) -> Comments;
/// a text, its parse tree, and locations that are in the text
pub open spec fn parsed_as(s: Seq<char>, u: SourceUnit) -> bool { pt_of(s) == Some(u) && placed(u, s) }
