// ---------------------------------------------------------------- what a violation is reported as
/// p is part of w
pub open spec fn mentions(w: Seq<char>, p: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| w == #[trigger] around(a, p, b) }
broadcast proof fn lemma_mentions_left(a: Seq<char>, b: Seq<char>, q: Seq<char>)
    requires mentions(a, q),
    ensures #[trigger] mentions(a + b, q),
{ let (x, y) = choose|x: Seq<char>, y: Seq<char>| a == #[trigger] around(x, q, y); assert(a + b =~= around(x, q, y + b)); }
broadcast proof fn lemma_mentions_right(a: Seq<char>, b: Seq<char>, q: Seq<char>)
    requires mentions(b, q),
    ensures #[trigger] mentions(a + b, q),
{ let (x, y) = choose|x: Seq<char>, y: Seq<char>| b == #[trigger] around(x, q, y); assert(a + b =~= around(a + x, q, y)); }
broadcast proof fn lemma_mentions_self(q: Seq<char>)
    ensures #[trigger] mentions(q, q),
{ assert(q =~= around(Seq::empty(), q, Seq::empty())); }
broadcast proof fn lemma_add_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
broadcast proof fn lemma_skip_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] (a + b).skip(a.len() as int) == b,
{ assert((a + b).skip(a.len() as int) =~= b); }
broadcast group mention_lemmas { lemma_mentions_left, lemma_mentions_right, lemma_mentions_self }
pub open spec fn around(a: Seq<char>, p: Seq<char>, b: Seq<char>) -> Seq<char> { a + p + b }
/// a number in decimal
pub uninterp spec fn dec(n: int) -> Seq<char>;
/// `file:line`, or the file
pub open spec fn place(l: Location) -> Seq<char> {
    match l { Location::Code(f, n) => f@ + ":"@ + dec(n as int), Location::File(f) => f@ }
}
/// whether the tree or the Solidity file is at fault
pub open spec fn culprit(e: AnyErr) -> Seq<char> { if e is Msg { "solidity"@ } else { "tree"@ } }
/// everything the reader has to be told about the kind of a violation
pub open spec fn explains(k: ViolationKind, w: Seq<char>) -> bool {
    match k {
        ViolationKind::ContractMissing(n) => mentions(w, n@),
        ViolationKind::ContractNameNotMatches(a, b) => mentions(w, a@) && mentions(w, b@),
        ViolationKind::SolidityFileMissing(f) => mentions(w, f@),
        ViolationKind::FileUnreadable => true,
        ViolationKind::FunctionOrderMismatch(f, _, _) => f.name matches Some(n) && mentions(w, n.name@),
        ViolationKind::MatchingFunctionMissing(f, _) => mentions(w, f.identifier@),
        ViolationKind::ParsingFailed(e) => mentions(w, culprit(e)),
    }
}
pub open spec fn reports(v: Violation, w: Seq<char>) -> bool { explains(v.kind, w) && mentions(w, place(v.location)) }
/// a function that is out of order has a name
pub open spec fn nameable(k: ViolationKind) -> bool { k matches ViolationKind::FunctionOrderMismatch(f, _, _) ==> f.name is Some }
