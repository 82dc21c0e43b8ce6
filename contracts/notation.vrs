//@@ include common
//@@ path anyhow::Result = AnyResult
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path fmt::Formatter = VxFormatter
//@@ path std::fmt::Result = FmtResult
//@@ path fmt::Result = FmtResult
//@@ path cmp::max = vx_max
//@@ path result = core::result
//@@ vmethod lines = vx_lines
//@@ vmethod nth = vx_nth
//@@ vmethod to_string = vx_text
//@@ method join = vx_join

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include text
//@@ include names
//@@ include iters
}
//@@ include frontspec
verus! {
/// anyhow::Error: one of the errors of the phases
pub enum AnyErr { Tok(tokenizer::Error), Parse(parser::Error), Sem(semantics::Errors) }
}
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
}
}
pub mod notes {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include notespec
/// std's `lines` (trusted)
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a str) -> (r: std::vec::IntoIter<&'a str>)
    ensures sviews(r.remaining()) == lines_from(s@, 0), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ s.lines().collect::<Vec<_>>().into_iter() }
/// the n-th element
pub fn vx_nth<'a>(it: std::vec::IntoIter<&'a str>, n: usize) -> (r: Option<&'a str>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures ({ let v = sviews(it.remaining()); match r { Some(x) => n < v.len() && x@ == v[n as int], None => n >= v.len() } }),
{
    let v: Vec<&'a str> = it.collect();
    if n < v.len() { Some(v[n]) } else { None }
}
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
broadcast proof fn lemma_rep1(s: Seq<char>, n: int)
    requires s.len() == 1, n >= 0,
    ensures #[trigger] rep(s, n) == Seq::new(n as nat, |i: int| s[0]),
    decreases n,
{
    if n > 0 { lemma_rep1(s, n - 1); }
    assert(rep(s, n) =~= Seq::new(n as nat, |i: int| s[0]));
}
//@@ fn crates/syntax/src/utils.rs repeat_str stub from=utils
//@@ end
proof fn lits()
    ensures "\n"@ == seq!['\n'], " "@ == seq![' '], "^"@ == seq!['^'], ") ---\n"@ == ") ---"@ + "\n"@,
{
    reveal_strlit("\n"); reveal_strlit(" "); reveal_strlit("^"); reveal_strlit(") ---\n"); reveal_strlit(") ---");
    assert("\n"@ =~= seq!['\n']); assert(" "@ =~= seq![' ']); assert("^"@ =~= seq!['^']);
    assert(") ---\n"@ =~= ") ---"@ + "\n"@);
}
pub trait FrontendError<K: VxDisp>: Sized {
    spec fn kind_of(&self) -> K;
    spec fn text_of(&self) -> Seq<char>;
    spec fn span_of(&self) -> Span;
    fn kind(&self) -> (r: &K) ensures *r == self.kind_of();
    fn text(&self) -> (r: &str) ensures r@ == self.text_of();
    fn span(&self) -> (r: &Span) ensures *r == self.span_of();
//@@ fn crates/syntax/src/error.rs FrontendError::format_error bare
    requires showable(self.span_of()),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] shown_as(w, self.kind_of().disp(), self.text_of(), self.span_of()),
//@@ at start
    proof {
        lits();
        let (m, s, sp) = (self.kind_of().disp(), self.text_of(), self.span_of());
        let w1 = heading() + m;
        let w2 = heading() + m + seq!['\n', '\n'] + notation(s, sp) + seq!['\n'] + position_text(sp);
        if nowhere(sp) { assert(shown_as(w1, m, s, sp)); } else { assert(shown_as(w2, m, s, sp)); }
    }
//@@ end
//@@ fn crates/syntax/src/error.rs FrontendError::notate bare
    requires showable(self.span_of()), !nowhere(self.span_of()),
    ensures r@ == notation(self.text_of(), self.span_of()),
//@@ at start
    broadcast use lemma_rep1;
    proof { lits(); }
//@@ at tail
    proof {
        let ls = lines_from(self.text_of(), 0);
        let l = self.span_of().start.line - 1;
        if l < ls.len() {
            assert(vx_r@ =~= notation(self.text_of(), self.span_of()));
        } else { assert(vx_r@ =~= Seq::<char>::empty()); }
    }
//@@ end
}
/// the character under which the carets start is the one at which the error starts
pub open spec fn line_start(s: Seq<char>, i: int) -> bool { i == 0 || (0 < i <= s.len() && s[i - 1] == '\n') }
proof fn lemma_line_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= line_end(s, i) <= s.len(), line_end(s, i) < s.len() ==> s[line_end(s, i)] == '\n',
        forall|j: int| i <= j < line_end(s, i) ==> #[trigger] s[j] != '\n',
    decreases s.len() - i,
{ if i < s.len() && s[i] != '\n' { lemma_line_end(s, i + 1); } }
proof fn lemma_same_line(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), line_start(s, i), forall|j: int| i <= j < k ==> #[trigger] s[j] != '\n',
    ensures tokenizer::line_at(s, k) == tokenizer::line_at(s, i), tokenizer::col_at(s, k) == k - i + 1,
    decreases k - i,
{ if i < k { lemma_same_line(s, i, k - 1); } }
proof fn lemma_line_char(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < s.len(), line_start(s, i), s[k] != '\n', s[k] != '\r',
    ensures ({
        let m = tokenizer::line_at(s, k) - tokenizer::line_at(s, i);
        let ls = lines_from(s, i);
        0 <= m < ls.len() && 1 <= tokenizer::col_at(s, k) <= ls[m].len() && ls[m][tokenizer::col_at(s, k) - 1] == s[k]
    }),
    decreases s.len() - i,
{
    let e = line_end(s, i);
    lemma_line_end(s, i);
    let e2 = if e < s.len() && e > i && s[e - 1] == '\r' { e - 1 } else { e };
    if k < e {
        lemma_same_line(s, i, k);
        assert(s.subrange(i, e2)[k - i] == s[k]);
    } else {
        lemma_same_line(s, i, e);
        lemma_line_char(s, e + 1, k);
    }
}
/// C15: the notation of an error that starts at character k of the text quotes the line of
/// that character, and the first caret below it stands in the column of that character
pub proof fn notation_points_at(s: Seq<char>, sp: Span, k: int)
    requires 0 <= k < s.len(), s[k] != '\n', s[k] != '\r', tokenizer::pos_is(sp.start, s, k),
    ensures ({
        let n = notation(s, sp);
        let l = lines_from(s, 0)[sp.start.line - 1];
        let c = sp.start.column - 1;
        &&& 0 <= c < l.len() && l[c] == s[k]
        &&& n == l + seq!['\n'] + spaces(c) + carets(marks(sp)) + seq!['\n']
        &&& marks(sp) >= 1
    }),
{ lemma_line_char(s, 0, k); }
//@@ include notelemmas
/// an error that is either nowhere, or can be shown: the notation of it points at the
/// character at which it starts
pub open spec fn points(sp: Span, s: Seq<char>) -> bool {
    nowhere(sp) || exists|k: int| 0 <= k < s.len() && visible(s[k]) && #[trigger] tokenizer::pos_is(sp.start, s, k)
}
proof fn lemma_line_from_one(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures tokenizer::line_at(s, k) >= 1, tokenizer::col_at(s, k) >= 1,
    decreases k,
{ if k > 0 { lemma_line_from_one(s, k - 1); } }
proof fn lemma_pos(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), blen(s) <= isize::MAX,
    ensures tokenizer::pos_is(pos_at(s, k), s, k), 1 <= pos_at(s, k).line, 1 <= pos_at(s, k).column <= isize::MAX,
{
    lemma_line_from_one(s, k);
    tokenizer::lemma_line_col(s, k);
    lemma_off_mono(s, k, s.len() as int);
}
proof fn lemma_span_points(sp: Span, s: Seq<char>)
    requires located(sp, s), blen(s) <= isize::MAX,
    ensures points(sp, s), showable(sp),
{
    if span_in(sp, s) {
        let k = choose|k: int| 0 <= k < s.len() && visible(s[k]) && sp.start == #[trigger] pos_at(s, k);
        lemma_pos(s, k);
        let j = choose|k: int| 0 <= k < s.len() && visible(s[k]) && sp.end == #[trigger] pos_at(s, k);
        lemma_pos(s, j);
    }
}
/// C15: every error that reading a text gives can be shown, and is either at the default
/// position or at a character of the text
pub proof fn errors_point_at(s: Seq<char>, e: AnyErr)
    requires err_of(e, s), blen(s) <= isize::MAX,
    ensures match e {
        AnyErr::Tok(x) => points(x.span, s) && showable(x.span),
        AnyErr::Parse(x) => points(x.span, s) && showable(x.span),
        AnyErr::Sem(x) => forall|i: int| 0 <= i < x.0@.len() ==> points((#[trigger] x.0@[i]).span, s) && showable(x.0@[i].span),
    },
{
    lemma_located(s);
    match tree_of(s) {
        TR::BadTok(k) => { assert(span_in(Span { start: pos_at(s, k), end: pos_at(s, k) }, s)); lemma_span_points(Span { start: pos_at(s, k), end: pos_at(s, k) }, s); }
        TR::BadParse(_, sp) => { lemma_span_points(sp, s); }
        TR::BadSem(v) => {
            let x = e->Sem_0;
            assert forall|i: int| 0 <= i < x.0@.len() implies points((#[trigger] x.0@[i]).span, s) && showable(x.0@[i].span) by {
                assert(v[i].1 == x.0@[i].span);
                assert(span_in(v[i].1, s));
                lemma_span_points(x.0@[i].span, s);
            }
        }
        _ => {}
    }
}
}
}

pub mod note_tok {
use super::*;
use super::notes::*;
use super::tokenizer::{Error, ErrorKind};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
impl FrontendError<ErrorKind> for Error {
    open spec fn kind_of(&self) -> ErrorKind { self.kind }
    open spec fn text_of(&self) -> Seq<char> { self.text@ }
    open spec fn span_of(&self) -> Span { self.span }
//@@ fn crates/syntax/src/tokenizer.rs Error::kind bare
//@@ end
//@@ fn crates/syntax/src/tokenizer.rs Error::text bare
//@@ end
//@@ fn crates/syntax/src/tokenizer.rs Error::span bare
//@@ end
}
impl Error {
//@@ fn crates/syntax/src/tokenizer.rs Error::fmt
    requires showable(self.span),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] shown_as(w, self.kind.disp(), self.text@, self.span),
//@@ end
}
impl VxDisp for ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
}
}

pub mod note_parse {
use super::*;
use super::notes::*;
use super::parser::{Error, ErrorKind};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
impl FrontendError<ErrorKind> for Error {
    open spec fn kind_of(&self) -> ErrorKind { self.kind }
    open spec fn text_of(&self) -> Seq<char> { self.text@ }
    open spec fn span_of(&self) -> Span { self.span }
//@@ fn crates/syntax/src/parser.rs Error::kind bare
//@@ end
//@@ fn crates/syntax/src/parser.rs Error::text bare
//@@ end
//@@ fn crates/syntax/src/parser.rs Error::span bare
//@@ end
}
impl Error {
//@@ fn crates/syntax/src/parser.rs Error::fmt
    requires showable(self.span),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] shown_as(w, self.kind.disp(), self.text@, self.span),
//@@ end
}
impl VxDisp for ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
}
}

pub mod note_comb {
use super::*;
use super::notes::*;
use super::combiner::{Error, ErrorKind};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
impl FrontendError<ErrorKind> for Error {
    open spec fn kind_of(&self) -> ErrorKind { self.kind }
    open spec fn text_of(&self) -> Seq<char> { self.text@ }
    open spec fn span_of(&self) -> Span { self.span }
//@@ fn crates/foundry/src/hir/combiner.rs Error::kind bare
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Error::text bare
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Error::span bare
//@@ end
}
impl Error {
//@@ fn crates/foundry/src/hir/combiner.rs Error::fmt
    requires showable(self.span),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] shown_as(w, self.kind.disp(), self.text@, self.span),
//@@ end
}
impl VxDisp for ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
}
}

pub mod note_sem {
use super::*;
use super::notes::*;
use super::semantics::{Error, ErrorKind};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
impl FrontendError<ErrorKind> for Error {
    open spec fn kind_of(&self) -> ErrorKind { self.kind }
    open spec fn text_of(&self) -> Seq<char> { self.text@ }
    open spec fn span_of(&self) -> Span { self.span }
//@@ fn crates/syntax/src/semantics.rs Error::kind bare
//@@ end
//@@ fn crates/syntax/src/semantics.rs Error::text bare
//@@ end
//@@ fn crates/syntax/src/semantics.rs Error::span bare
//@@ end
}
impl Error {
//@@ fn crates/syntax/src/semantics.rs Error::fmt
    requires showable(self.span),
    ensures r is Ok ==> exists|w: Seq<char>| final(f)@ == old(f)@ + w && #[trigger] shown_as(w, self.kind.disp(), self.text@, self.span),
//@@ end
}
use super::semantics::Errors;
//@@ include joining
/// p is part of w
pub open spec fn mentions(w: Seq<char>, p: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| w == #[trigger] around(a, p, b) }
pub open spec fn around(a: Seq<char>, p: Seq<char>, b: Seq<char>) -> Seq<char> { a + p + b }
/// the lines of the positions of a clash, in order
pub open spec fn lines_of(v: Seq<Span>) -> Seq<Seq<char>> { v.map_values(|s: Span| dec(s.start.line as int)) }
pub open spec fn derefs<T>(a: Seq<&T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> *(#[trigger] a[i]) == b[i] }
pub open spec fn made(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
proof fn lemma_next<T, U>(v: Seq<T>, f: spec_fn(T) -> U, i: int)
    requires 0 <= i < v.len(),
    ensures v.take(i + 1).map_values(f) == v.take(i).map_values(f).push(f(v[i])),
{ assert(v.take(i + 1).map_values(f) =~= v.take(i).map_values(f).push(f(v[i]))); }
broadcast proof fn lemma_made(v: Seq<String>, x: String)
    ensures #[trigger] made(v.push(x)) == made(v).push(x@),
{ assert(made(v.push(x)) =~= made(v).push(x@)); }
pub open spec fn says(k: ErrorKind, w: Seq<char>) -> bool { k matches ErrorKind::IdentifierDuplicated(v) ==> mentions(w, jn(lines_of(v@), ", "@)) }
/// what Display prints (thiserror's expansion, proved below to say what it has to)
impl VxDisp for ErrorKind { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) ensures says(*self, r@) { unimplemented!() } }
pub open spec fn texts_of_errors(v: Seq<Error>) -> Seq<Seq<char>> { v.map_values(|e: Error| e.disp()) }
impl VxDisp for Error { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for &Error { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }
pub fn vx_text<T: VxDisp>(x: T) -> (r: String) ensures r@ == x.disp() { x.vx_disp() }
//@@ fn crates/syntax/src/semantics.rs format_spans chains
    ensures r@ == jn(lines_of(spans@), ", "@),
//@@ at start
    broadcast use lemma_made;
//@@ loop 0
    invariant derefs(vx_it0.seq(), spans@), made(vx_out@) == lines_of(spans@.take(vx_it0.index@ as int)),
//@@ at loop 0 end
    proof { lemma_next(spans@, |s: Span| dec(s.start.line as int), vx_it0.index@ as int); }
//@@ at tail
    proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
//@@ end
impl ErrorKind {
//@@ fn crates/syntax/src/semantics.rs ErrorKind::#error name=shown
    ensures says(*self, r@),
//@@ at tail
    proof {
        if let ErrorKind::IdentifierDuplicated(v) = self {
            let p = jn(lines_of(v@), ", "@);
            assert(vx_r@ =~= around("found an identifier more than once in lines: "@, p, Seq::empty()));
        }
    }
//@@ end
}
impl Errors {
//@@ fn crates/syntax/src/semantics.rs Errors::#error name=shown chains
    ensures r@ == jn(texts_of_errors(self.0@), Seq::<char>::empty()),
//@@ at start
    broadcast use lemma_made;
//@@ loop 0
    invariant derefs(vx_it0.seq(), vx_f0@), made(vx_out@) == texts_of_errors(vx_f0@.take(vx_it0.index@ as int)),
//@@ at loop 0 end
    proof { lemma_next(vx_f0@, |e: Error| e.disp(), vx_it0.index@ as int); }
//@@ at tail
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@@ end
}
}
}
fn main() {}
