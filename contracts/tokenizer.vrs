//@@ include common
//@@ cell pos identifier_mode
//@@ mono T=Tokenizer
//@@ byval TokenizerI

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};

//@@ struct crates/syntax/src/span.rs Position derive=Clone,Copy
//@@ struct crates/syntax/src/span.rs Span derive=Clone,Copy
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ enum crates/syntax/src/tokenizer.rs ErrorKind
//@@ struct crates/syntax/src/tokenizer.rs Error
//@@ type crates/syntax/src/tokenizer.rs Result
//@@ struct crates/syntax/src/tokenizer.rs Tokenizer derive=Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs TokenizerI

//@@ include tokspec
/// the reference token that a token's kind and span denote
pub open spec fn stok(t: Token, s: Seq<char>) -> STok {
    STok { kind: t.kind, a: idx(s, t.span.start.offset as int), b: idx(s, t.span.end.offset as int) }
}

pub open spec fn stoks(ts: Seq<Token>, s: Seq<char>) -> Seq<STok> { ts.map_values(|t: Token| stok(t, s)) }

pub broadcast proof fn lemma_stoks_push(ts: Seq<Token>, t: Token, s: Seq<char>)
    ensures #[trigger] stoks(ts.push(t), s) == stoks(ts, s).push(stok(t, s)),
{ assert(stoks(ts.push(t), s) =~= stoks(ts, s).push(stok(t, s))); }

pub broadcast proof fn lemma_idx_b(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_off(s, #[trigger] off(s, k) as int), idx(s, off(s, k) as int) == k,
{ lemma_idx(s, k); }

// ---------------------------------------------------------------- code under contract

impl Position {
//@@ fn crates/syntax/src/span.rs Position::new
    ensures r.offset == offset, r.line == line, r.column == column,
//@@ end
}

impl Span {
//@@ fn crates/syntax/src/span.rs Span::new
    ensures r.start == start, r.end == end,
//@@ end

//@@ fn crates/syntax/src/span.rs Span::splat
    ensures r.start == pos, r.end == pos,
//@@ end

//@@ fn crates/syntax/src/span.rs Span::with_start
    ensures r.start == pos, r.end == self.end,
//@@ end
}

impl Token {
//@@ fn crates/syntax/src/tokenizer.rs Token::is_branch
    ensures r == is_branch_kind(self.kind),
//@@ end
}

impl Tokenizer {
//@@ fn crates/syntax/src/tokenizer.rs Tokenizer::new
    ensures true,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs Tokenizer::tokenize
    ensures match lex(text@, 0, false, Seq::empty()) {
        Lex::Ok(st) => r matches Ok(ts) && toks_are(ts@, st, text@),
        Lex::Bad(j) => 0 <= j < text@.len() && (r matches Err(e) && e.text@ == text@
            && e.kind == ErrorKind::IdentifierCharInvalid(text@[j])
            && pos_is(e.span.start, text@, j) && pos_is(e.span.end, text@, j)),
    },
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs Tokenizer::reset
    ensures pos_is(final(self).pos, Seq::<char>::empty(), 0), !final(self).identifier_mode,
//@@ end
}

impl<'s> TokenizerI<'s> {
pub open spec fn s(&self) -> Seq<char> { self.text@ }
/// current character position
pub open spec fn k(&self) -> int { idx(self.s(), self.tokenizer.pos.offset as int) }
pub open spec fn wf(&self) -> bool {
    &&& 0 <= self.k() <= self.s().len()
    &&& pos_is(self.tokenizer.pos, self.s(), self.k())
}
pub open spec fn mode(&self) -> bool { self.tokenizer.identifier_mode }

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::new
    ensures r.text@ == text@,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::error
    ensures r.kind == kind, r.text@ == self.text@, r.span == span,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::text
    ensures r@ == self.s(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::char
    requires self.wf(), self.k() < self.s().len(),
    ensures r == self.s()[self.k()],
//@@ at start
    proof { lemma_idx(self.s(), self.k()); }
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::char_at
    requires is_off(self.s(), i as int), idx(self.s(), i as int) < self.s().len(),
    ensures r == self.s()[idx(self.s(), i as int)],
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::offset
    ensures r == self.tokenizer.pos.offset,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::is_eof
    requires self.wf(),
    ensures r == (self.k() == self.s().len()),
//@@ at start
    proof { lemma_idx(self.s(), self.k()); lemma_idx(self.s(), self.s().len() as int);
        lemma_off_mono(self.s(), self.k(), self.s().len() as int); }
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::pos
    ensures r == self.tokenizer.pos,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::span
    ensures r.start == self.tokenizer.pos, r.end == self.tokenizer.pos,
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::peek
    requires self.wf(),
    ensures r == (if self.k() + 1 < self.s().len() { Some(self.s()[self.k() + 1]) } else { None }),
//@@ at start
    proof {
        lemma_idx(self.s(), self.k());
        if self.k() < self.s().len() {
            lemma_idx(self.s(), self.k() + 1);
            lemma_off_mono(self.s(), self.k() + 1, self.s().len() as int);
            assert(self.s() == self.text@);
            let _ = self.text.spec_bytes();
        }
    }
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::enter_identifier_mode
    ensures final(self).text == old(self).text, final(self).tokenizer.pos == old(self).tokenizer.pos, final(self).mode(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::exit_identifier_mode
    ensures final(self).text == old(self).text, final(self).tokenizer.pos == old(self).tokenizer.pos, !final(self).mode(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::is_identifier_mode
    ensures r == self.mode(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::exit_mode
    ensures final(self).text == old(self).text, final(self).tokenizer.pos == old(self).tokenizer.pos, !final(self).mode(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::scan
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).text == old(self).text, final(self).mode() == old(self).mode(),
        old(self).k() == old(self).s().len() ==> r is None && final(self).k() == old(self).k(),
        old(self).k() < old(self).s().len() ==> final(self).k() == old(self).k() + 1
            && r == (if final(self).k() < final(self).s().len() { Some(final(self).s()[final(self).k()]) } else { None }),
//@@ at start
    proof {
        lemma_idx(self.s(), self.k());
        lemma_line_col(self.s(), self.k());
        if self.k() < self.s().len() {
            lemma_idx(self.s(), self.k() + 1);
            lemma_off_mono(self.s(), self.k() + 1, self.s().len() as int);
            let _ = self.text.spec_bytes();
        }
    }
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::tokenize
    ensures match lex(old(self).s(), 0, false, Seq::empty()) {
        Lex::Ok(st) => r matches Ok(ts) && toks_are(ts@, st, old(self).s()),
        Lex::Bad(j) => 0 <= j < old(self).s().len() && (r matches Err(e) && e.text@ == old(self).s()
            && e.kind == ErrorKind::IdentifierCharInvalid(old(self).s()[j])
            && pos_is(e.span.start, old(self).s(), j) && pos_is(e.span.end, old(self).s(), j)),
    },
//@@ at before loop 0
    broadcast use lemma_stoks_push, lemma_idx_b;
    proof { reveal_strlit("├"); reveal_strlit("└"); assert("├"@ =~= seq!['├']); assert("└"@ =~= seq!['└']); assert(off(self.s(), 0) == 0); assert(stoks(tokens@, self.s()) =~= Seq::empty()); }
//@@ loop 0
    invariant_except_break
        lex(self.s(), 0, false, Seq::empty()) == lex(self.s(), self.k(), self.mode(), stoks(tokens@, self.s())),
    invariant
        self.text == old(self).text,
        self.wf(),
        toks_are(tokens@, stoks(tokens@, self.s()), self.s()),
    ensures
        lex(self.s(), 0, false, Seq::empty()) == Lex::Ok(stoks(tokens@, self.s())),
    decreases self.s().len() - self.k(),
//@@ closure 0
    |c: char| -> (r: bool) ensures r == (c == '/')
//@@ at loop 0 start
    proof { if self.k() < self.s().len() {
        let ts = stoks(tokens@, self.s());
        assert(ts.len() == tokens@.len());
        assert(ts.len() > 0 ==> ts.last().kind == tokens@.last().kind);
        let k = self.k();
        let s = self.s();
        assert(s.subrange(k, k + 1) =~= seq![s[k]]);

        lemma_word_end(self.s(), self.k());
        lemma_comment_end(self.s(), self.k());
        lemma_first_bad_range(self.s(), self.k(), word_end(self.s(), self.k()));
    } }
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::scan_comments
    requires old(self).wf(), old(self).k() < old(self).s().len(),
    ensures final(self).wf(), final(self).text == old(self).text, final(self).mode() == old(self).mode(),
        final(self).k() + 1 == comment_end(old(self).s(), old(self).k()),
//@@ loop 0
    invariant
        self.wf(), self.text == old(self).text, self.mode() == old(self).mode(), self.k() < self.s().len(),
        comment_end(self.s(), old(self).k()) == comment_end(self.s(), self.k()),
    ensures self.k() + 1 == comment_end(self.s(), old(self).k()),
    decreases self.s().len() - self.k(),
//@@ end

//@@ fn crates/syntax/src/tokenizer.rs TokenizerI::scan_word
    requires old(self).wf(), old(self).k() < old(self).s().len(),
    ensures ({
        let s = old(self).s();
        let k = old(self).k();
        let e = word_end(s, k);
        let b = first_bad(s, k, e);
        &&& k <= e < s.len()
        &&& final(self).wf() && final(self).text == old(self).text && final(self).mode() == old(self).mode()
        &&& if old(self).mode() && b <= e {
                k <= b && (r matches Err(er) && er.text@ == s && er.kind == ErrorKind::IdentifierCharInvalid(s[b])
                    && pos_is(er.span.start, s, b) && pos_is(er.span.end, s, b))
            } else {
                final(self).k() == e && (r matches Ok(t) && tok_is(t, STok { kind: word_kind(s.subrange(k, e + 1)), a: k, b: e }, s))
            }
    }),
//@@ loop 0
    invariant
        self.wf(), self.text == old(self).text, self.mode() == old(self).mode(),
        old(self).k() <= self.k() < self.s().len(),
        pos_is(span_start, self.s(), old(self).k()),
        lexeme@ =~= self.s().subrange(old(self).k(), self.k()),
        word_end(self.s(), old(self).k()) == word_end(self.s(), self.k()),
        self.mode() ==> forall|i: int| old(self).k() <= i < self.k() ==> ident_char(self.s()[i]),
    decreases self.s().len() - self.k(),
//@@ at loop 0 start
    proof {
        assert(self.s().subrange(old(self).k(), self.k() + 1) =~= self.s().subrange(old(self).k(), self.k()).push(self.s()[self.k()]));
        lemma_word_end(self.s(), self.k());
        lemma_first_bad_range(self.s(), old(self).k(), word_end(self.s(), self.k()));
        lemma_first_bad_range(self.s(), self.k() + 1, word_end(self.s(), self.k()));
        if self.mode() { lemma_first_bad(self.s(), old(self).k(), word_end(self.s(), self.k()), self.k()); }
    }
//@@ end
}

//@@ fn crates/syntax/src/tokenizer.rs is_valid_identifier_char
    ensures r == ident_char(c),
//@@ end

} // verus!
fn main() {}
