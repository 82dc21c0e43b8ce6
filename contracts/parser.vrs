//@@ include common
//@@ cell current
//@@ mono P=Parser
//@@ byval ParserI
//@@ life ParserI 't
//@@ path Span::default = vx_span_default

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};

//@@ struct crates/syntax/src/span.rs Position derive=Clone,Copy
//@@ struct crates/syntax/src/span.rs Span derive=Clone,Copy needs=Default
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ enum crates/syntax/src/parser.rs ErrorKind
//@@ struct crates/syntax/src/parser.rs Error
//@@ type crates/syntax/src/parser.rs Result
//@@ type crates/syntax/src/parser.rs Lexeme
//@@ struct crates/syntax/src/parser.rs Parser derive=Clone,Copy
//@@ struct crates/syntax/src/parser.rs ParserI
//@@ include ast
//@@ include text
//@@ include names

//@@ include parsespec
// ---------------------------------------------------------------- code under contract

//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ fn crates/syntax/src/utils.rs repeat_str stub from=utils
//@@ end

impl Position {
//@@ fn crates/syntax/src/span.rs Position::new
    ensures r.offset == offset, r.line == line, r.column == column,
//@@ end
}

impl Position {
//@@ fn crates/syntax/src/span.rs Position::default
    ensures r == default_span().start,
//@@ end
}
/// `Span::default()` is derived
pub fn vx_span_default() -> (r: Span) ensures r == default_span() { Span { start: Position::default(), end: Position::default() } }
impl Span {
//@@ fn crates/syntax/src/span.rs Span::new
    ensures r.start == start, r.end == end,
//@@ end

//@@ fn crates/syntax/src/span.rs Span::with_start
    ensures r.start == pos, r.end == self.end,
//@@ end
}

impl Ast {
//@@ fn crates/syntax/src/ast.rs Ast::span
    ensures *r == nspan(nd(*self)),
//@@ at start
    proof { lemma_nd(*self); }
//@@ end
}

impl Parser {
//@@ fn crates/syntax/src/parser.rs Parser::new
    ensures true,
//@@ end

//@@ fn crates/syntax/src/parser.rs Parser::parse
    ensures exists|cur: int| outcome(r, p_tree(gts(tokens@)), cur, text@),
//@@ end

//@@ fn crates/syntax/src/parser.rs Parser::reset
    ensures final(self).current == 0,
//@@ end
}

impl<'t> ParserI<'t> {
pub open spec fn t(&self) -> Seq<GTok> { gts(self.tokens@) }
pub open spec fn cur(&self) -> int { self.parser.current as int }
pub open spec fn same(&self, o: &Self) -> bool { self.text == o.text && self.tokens == o.tokens }
/// between two productions the parser stands at a branch or at the end
pub open spec fn at_branch(&self) -> bool {
    0 <= self.cur() <= self.t().len() && (self.cur() < self.t().len() ==> branch(self.t()[self.cur()]))
}

//@@ fn crates/syntax/src/parser.rs ParserI::new
    ensures r.text == text, r.tokens == tokens, r.parser == parser,
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::error
    ensures r.kind == kind, r.text@ == self.text@, r.span == span,
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::is_eof
    ensures r == (self.cur() == self.t().len()),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::current
    ensures r matches Some(x) ==> self.cur() < self.t().len() && gt(*x) == self.t()[self.cur()],
        r is None ==> self.cur() >= self.t().len(),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::peek
    requires self.cur() <= self.t().len(),
    ensures r matches Some(x) ==> self.cur() + 1 < self.t().len() && gt(*x) == self.t()[self.cur() + 1],
        r is None ==> self.cur() + 1 >= self.t().len(),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::previous
    requires self.cur() <= self.t().len(),
    ensures r matches Some(x) ==> self.cur() > 0 && gt(*x) == self.t()[self.cur() - 1],
        r is None ==> self.cur() == 0,
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::consume
    requires old(self).cur() <= old(self).t().len(),
    ensures final(self).same(old(self)),
        final(self).cur() == (if old(self).cur() == old(self).t().len() { old(self).cur() } else { old(self).cur() + 1 }),
        r matches Some(x) ==> final(self).cur() < final(self).t().len() && gt(*x) == final(self).t()[final(self).cur()],
        r is None ==> final(self).cur() == final(self).t().len(),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse
    ensures outcome(r, p_tree(old(self).t()), final(self).cur(), old(self).text@),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_root
    requires old(self).cur() == 0, old(self).t().len() > 0, gt(*token) == old(self).t()[0], token.kind is Word,
    ensures outcome(r, p_root(old(self).t()), final(self).cur(), old(self).text@),
//@@ loop 0
    invariant
        self.same(old(self)), 0 < self.cur() <= self.t().len(),
        p_top(self.t(), 1, Seq::empty()) == p_top(self.t(), self.cur(), nds(children@)),
    ensures self.cur() == self.t().len(),
    decreases self.t().len() - self.cur(),
//@@ at before loop 0
    broadcast use lemma_nds_push;
    proof { assert(nds(children@) =~= Seq::empty()); }
//@@ at tail
    proof { if let Ok(ref a) = vx_r { lemma_nd(*a); } }
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_branch
    requires old(self).cur() < old(self).t().len(), gt(*token) == old(self).t()[old(self).cur()], branch(gt(*token)),
    ensures final(self).same(old(self)),
        outcome(r, p_branch(old(self).t(), old(self).cur()), final(self).cur(), old(self).text@),
        r is Ok ==> final(self).at_branch() && final(self).cur() > old(self).cur(),
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_condition
    requires old(self).cur() < old(self).t().len(), gt(*token) == old(self).t()[old(self).cur()], branch(gt(*token)),
    ensures final(self).same(old(self)),
        outcome(r, p_cond(old(self).t(), old(self).cur()), final(self).cur(), old(self).text@),
        r is Ok ==> final(self).at_branch() && final(self).cur() > old(self).cur(),
    decreases old(self).t().len() - old(self).cur(),
//@@ at before loop 0
    broadcast use lemma_nds_push;
    proof { assert(nds(children@) =~= Seq::empty()); }
//@@ loop 0
    invariant
        self.same(old(self)), self.at_branch(), self.cur() > old(self).cur(),
        p_kids(self.t(), old(self).cur(), words_end(self.t(), old(self).cur() + 2), true, Seq::empty())
            == p_kids(self.t(), old(self).cur(), self.cur(), true, nds(children@)),
    ensures self.cur() == self.t().len() || col(self.t()[self.cur()]) <= col(gt(*token)),
    decreases self.t().len() - self.cur(),
//@@ closure 0
    |t: &Token| -> (r: bool) ensures r == (col(gt(*t)) > col(gt(*token)))
//@@ at let title#0
    proof { lemma_join_len(self.t(), old(self).cur() + 1, self.cur()); }
//@@ at tail
    proof { if let Ok(ref a) = vx_r { lemma_nd(*a); } }
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_action
    requires old(self).cur() < old(self).t().len(), gt(*token) == old(self).t()[old(self).cur()], branch(gt(*token)),
    ensures final(self).same(old(self)),
        outcome(r, p_act(old(self).t(), old(self).cur()), final(self).cur(), old(self).text@),
        r is Ok ==> final(self).at_branch() && final(self).cur() > old(self).cur(),
//@@ at before loop 0
    broadcast use lemma_nds_push;
    proof { assert(nds(children@) =~= Seq::empty()); }
//@@ loop 0
    invariant
        self.same(old(self)), self.at_branch(), self.cur() > old(self).cur(),
        p_kids(self.t(), old(self).cur(), words_end(self.t(), old(self).cur() + 2), false, Seq::empty())
            == p_kids(self.t(), old(self).cur(), self.cur(), false, nds(children@)),
    ensures self.cur() == self.t().len() || col(self.t()[self.cur()]) <= col(gt(*token)),
    decreases self.t().len() - self.cur(),
//@@ closure 0
    |t: &Token| -> (r: bool) ensures r == (col(gt(*t)) > col(gt(*token)))
//@@ at tail
    proof { if let Ok(ref a) = vx_r { lemma_nd(*a); } }
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_description
    requires old(self).cur() + 1 < old(self).t().len(), gt(*token) == old(self).t()[old(self).cur()], branch(gt(*token)),
    ensures final(self).same(old(self)),
        final(self).at_branch() && final(self).cur() > old(self).cur() + 1,
        final(self).cur() == words_end(old(self).t(), old(self).cur() + 2),
        r matches Ok(a) && nd(a) == (SNode::Desc {
            text: rep(seq![' '], column_delta as int) + join(old(self).t(), old(self).cur() + 1, final(self).cur()),
            span: Span { start: token.span.start, end: old(self).t()[final(self).cur() - 1].span.end } }),
//@@ at start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); }
//@@ at tail
    proof { if let Ok(ref a) = vx_r { lemma_nd(*a); } }
//@@ end

//@@ fn crates/syntax/src/parser.rs ParserI::parse_string
    requires old(self).cur() + 1 < old(self).t().len(), gt(*start_token) == old(self).t()[old(self).cur() + 1],
    ensures final(self).same(old(self)), final(self).at_branch(),
        final(self).cur() == words_end(old(self).t(), old(self).cur() + 2),
        final(self).cur() >= old(self).cur() + 2,
        r@ == join(old(self).t(), old(self).cur() + 1, final(self).cur()),
//@@ at start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); lemma_words_end(self.t(), self.cur() + 2); }
//@@ loop 0
    invariant_except_break
        old(self).cur() + 1 <= self.cur() < self.t().len(),
        words_end(self.t(), old(self).cur() + 2) == words_end(self.t(), self.cur() + 1),
        string@ == join(self.t(), old(self).cur() + 1, self.cur() + 1),
    invariant
        self.same(old(self)),
    ensures
        self.cur() == words_end(self.t(), old(self).cur() + 2),
        string@ == join(self.t(), old(self).cur() + 1, self.cur()),
    decreases self.t().len() - self.cur(),
//@@ end
}

} // verus!
fn main() {}
