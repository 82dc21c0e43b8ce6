// ---------------------------------------------------------------- reading a text: the three phases
pub mod tokenizer {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/syntax/src/tokenizer.rs ErrorKind
//@@ struct crates/syntax/src/tokenizer.rs Error
//@@ type crates/syntax/src/tokenizer.rs Result
//@@ struct crates/syntax/src/tokenizer.rs Tokenizer derive=Clone,Copy
//@@ include tokspec
impl Tokenizer {
//@@ fn crates/syntax/src/tokenizer.rs Tokenizer::new stub from=tokenizer
//@@ end
//@@ fn crates/syntax/src/tokenizer.rs Tokenizer::tokenize stub from=tokenizer
//@@ end
}
}
}
pub mod parser {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/syntax/src/parser.rs ErrorKind
//@@ struct crates/syntax/src/parser.rs Error
//@@ type crates/syntax/src/parser.rs Result
//@@ type crates/syntax/src/parser.rs Lexeme
//@@ struct crates/syntax/src/parser.rs Parser derive=Clone,Copy
//@@ include parsespec
impl Parser {
//@@ fn crates/syntax/src/parser.rs Parser::new stub from=parser
//@@ end
//@@ fn crates/syntax/src/parser.rs Parser::parse stub from=parser
//@@ end
}
}
}
pub mod semantics {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/syntax/src/semantics.rs ErrorKind
//@@ struct crates/syntax/src/semantics.rs Error
//@@ struct crates/syntax/src/semantics.rs Errors
//@@ type crates/syntax/src/semantics.rs Result
//@@ struct crates/syntax/src/semantics.rs SemanticAnalyzer
//@@ include btree
//@@ include semspec
//@@ include semview
impl<'t> SemanticAnalyzer<'t> {
//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::new stub from=semantics
//@@ end
//@@ fn crates/syntax/src/semantics.rs SemanticAnalyzer::analyze stub from=semantics
//@@ end
}
}
}
verus! {

pub type AnyResult<T> = core::result::Result<T, AnyErr>;
pub trait VxInto { spec fn as_any(&self, e: AnyErr) -> bool; fn vx_into(self) -> (r: AnyErr) where Self: Sized ensures self.as_any(r); }
impl VxInto for tokenizer::Error {
    open spec fn as_any(&self, e: AnyErr) -> bool { e == AnyErr::Tok(*self) }
    fn vx_into(self) -> (r: AnyErr) { AnyErr::Tok(self) }
}
impl VxInto for parser::Error {
    open spec fn as_any(&self, e: AnyErr) -> bool { e == AnyErr::Parse(*self) }
    fn vx_into(self) -> (r: AnyErr) { AnyErr::Parse(self) }
}
impl VxInto for semantics::Errors {
    open spec fn as_any(&self, e: AnyErr) -> bool { e == AnyErr::Sem(*self) }
    fn vx_into(self) -> (r: AnyErr) { AnyErr::Sem(self) }
}

pub open spec fn pos_at(s: Seq<char>, k: int) -> Position {
    Position { offset: off(s, k) as usize, line: tokenizer::line_at(s, k) as usize, column: tokenizer::col_at(s, k) as usize }
}
pub open spec fn gtok(t: tokenizer::STok, s: Seq<char>) -> parser::GTok {
    parser::GTok { kind: t.kind, lexeme: s.subrange(t.a, t.b + 1), span: Span { start: pos_at(s, t.a), end: pos_at(s, t.b) } }
}
pub open spec fn gtoks(st: Seq<tokenizer::STok>, s: Seq<char>) -> Seq<parser::GTok> { st.map_values(|t: tokenizer::STok| gtok(t, s)) }

/// what reading a text as one tree gives
pub ghost enum TR { Tree(SNode), BadTok(int), BadParse(parser::SK, Span), BadSem(Seq<(semantics::EK, Span)>) }
pub open spec fn tree_of(s: Seq<char>) -> TR {
    match tokenizer::lex(s, 0, false, Seq::empty()) {
        tokenizer::Lex::Bad(k) => TR::BadTok(k),
        tokenizer::Lex::Ok(st) => match parser::p_tree(gtoks(st, s)) {
            parser::PN::Err(k, sp) => TR::BadParse(k, sp),
            parser::PN::Ok(n, _) => if semantics::reported(n).len() > 0 { TR::BadSem(semantics::reported(n)) } else { TR::Tree(n) },
        },
    }
}
/// an error value that reports exactly what is wrong with s
pub open spec fn err_of(e: AnyErr, s: Seq<char>) -> bool {
    match (tree_of(s), e) {
        (TR::BadTok(k), AnyErr::Tok(x)) => x.text@ == s && 0 <= k < s.len() && x.kind == tokenizer::ErrorKind::IdentifierCharInvalid(s[k])
            && x.span == (Span { start: pos_at(s, k), end: pos_at(s, k) }),
        (TR::BadParse(k, sp), AnyErr::Parse(x)) => parser::err_is(x, k, sp, s),
        (TR::BadSem(v), AnyErr::Sem(x)) => semantics::es(x.0@) == v && semantics::texts(x.0@, s),
        _ => false,
    }
}

// ---------------------------------------------------------------- splitting a file into trees
pub open spec fn lit_nn() -> Seq<char> { seq!['\n', '\n'] }
pub open spec fn lit_slashes() -> Seq<char> { seq!['/', '/'] }
/// the parts of s from i on between separators
pub open spec fn parts(s: Seq<char>, p: Seq<char>, i: int) -> Seq<Seq<char>>
    decreases s.len() + 1 - i
{
    let k = find(s, p, i);
    if i < 0 || i > s.len() { Seq::empty() }
    else if k < i || k + p.len() > s.len() || p.len() == 0 { seq![s.skip(i)] }
    else { seq![s.subrange(i, k)] + parts(s, p, (k + p.len()) as int) }
}
//@@ include linesplit
pub open spec fn is_comment(l: Seq<char>) -> bool { prefixed(trim(l), lit_slashes()) }
pub open spec fn all_comments(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> is_comment(#[trigger] ls[i]) }
pub open spec fn is_tree_text(p: Seq<char>) -> bool { p.len() > 0 && !all_comments(lines_from(p, 0)) }
pub open spec fn trimmed(ps: Seq<Seq<char>>) -> Seq<Seq<char>> { ps.map_values(|p: Seq<char>| trim(p)) }
/// those that are neither empty nor only comments
pub open spec fn tree_texts(ps: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() }
    else if is_tree_text(ps.last()) { tree_texts(ps.drop_last()).push(ps.last()) }
    else { tree_texts(ps.drop_last()) }
}
pub open spec fn texts_of(s: Seq<char>) -> Seq<Seq<char>> {
    if trim(s).len() == 0 { seq![Seq::empty()] } else { tree_texts(trimmed(parts(s, lit_nn(), 0))) }
}
/// the first text that is not a tree
pub open spec fn bad_text(ts: Seq<Seq<char>>, i: int) -> int
    decreases ts.len() - i
{ if i < 0 || i >= ts.len() || !(tree_of(ts[i]) is Tree) { i } else { bad_text(ts, i + 1) } }
pub open spec fn one(r: AnyResult<Ast>, s: Seq<char>) -> bool {
    match r { Ok(a) => tree_of(s) == TR::Tree(nd(a)), Err(e) => err_of(e, s) }
}
pub open spec fn every(r: AnyResult<Vec<Ast>>, ts: Seq<Seq<char>>) -> bool {
    let b = bad_text(ts, 0);
    match r {
        Ok(v) => b == ts.len() && v@.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> tree_of(#[trigger] ts[i]) == TR::Tree(nd(v@[i])),
        Err(e) => b < ts.len() && err_of(e, ts[b]),
    }
}
}
