// ---------------------------------------------------------------- specification

/// line of character position k, starting at 1
pub open spec fn line_at(s: Seq<char>, k: int) -> nat
    decreases k
{ if k <= 0 { 1 } else if s[k - 1] == '\n' { line_at(s, k - 1) + 1 } else { line_at(s, k - 1) } }

/// column (in characters) of position k, starting at 1
pub open spec fn col_at(s: Seq<char>, k: int) -> nat
    decreases k
{ if k <= 0 { 1 } else if s[k - 1] == '\n' { 1 } else { col_at(s, k - 1) + 1 } }

pub open spec fn pos_is(p: Position, s: Seq<char>, k: int) -> bool {
    p.offset == off(s, k) && p.line == line_at(s, k) && p.column == col_at(s, k)
}

pub proof fn lemma_line_col(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures line_at(s, k) <= off(s, k) + 1, col_at(s, k) <= off(s, k) + 1,
    decreases k,
{ if k > 0 { lemma_line_col(s, k - 1); } }

/// a token of the reference lexer: characters a ..= b
pub struct STok { pub kind: TokenKind, pub a: int, pub b: int }

pub enum Lex { Ok(Seq<STok>), Bad(int) }

pub open spec fn is_branch_kind(k: TokenKind) -> bool { k is Tee || k is Corner }

pub open spec fn ident_char(c: char) -> bool {
    is_alnum(c) || c == '_' || c == '-' || c == '\'' || c == '"'
}

/// last character of the word that starts at k: words extend to the next whitespace
pub open spec fn word_end(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{
    if k + 1 >= s.len() || is_ws(s[k + 1]) { k } else { word_end(s, k + 1) }
}

/// first position after the comment containing k: the next newline, or the end
pub open spec fn comment_end(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{
    if k + 1 >= s.len() || s[k + 1] == '\n' { k + 1 } else { comment_end(s, k + 1) }
}

pub open spec fn word_kind(w: Seq<char>) -> TokenKind {
    if lowercase(w) == "when"@ { TokenKind::When }
    else if lowercase(w) == "it"@ { TokenKind::It }
    else if lowercase(w) == "given"@ { TokenKind::Given }
    else { TokenKind::Word }
}

/// first character in [k, e] that may not appear in an identifier (e + 1 if none)
pub open spec fn first_bad(s: Seq<char>, k: int, e: int) -> int
    decreases e + 1 - k
{
    if k > e || k < 0 || k >= s.len() { e + 1 } else if !ident_char(s[k]) { k } else { first_bad(s, k + 1, e) }
}

pub proof fn lemma_first_bad_range(s: Seq<char>, k: int, e: int)
    requires 0 <= k <= e + 1, e < s.len(),
    ensures k <= first_bad(s, k, e) <= e + 1,
    decreases e + 1 - k,
{ if k <= e { lemma_first_bad_range(s, k + 1, e); } }

pub open spec fn last_is_branch(t: Seq<STok>) -> bool { t.len() > 0 && is_branch_kind(t.last().kind) }

/// The reference lexer: from character k, with identifier mode m and tokens t so far.
pub open spec fn lex(s: Seq<char>, k: int, m: bool, t: Seq<STok>) -> Lex
    decreases s.len() - k
    via lex_dec
{
    if k < 0 || k >= s.len() { Lex::Ok(t) }
    else if s[k] == ' ' || s[k] == '─' || s[k] == '│' { lex(s, k + 1, m, t) }
    else if s[k] == '\n' || s[k] == '\t' || s[k] == '\r' { lex(s, k + 1, false, t) }
    else if s[k] == '├' { lex(s, k + 1, m, t.push(STok { kind: TokenKind::Tee, a: k, b: k })) }
    else if s[k] == '└' { lex(s, k + 1, m, t.push(STok { kind: TokenKind::Corner, a: k, b: k })) }
    else if s[k] == '/' && k + 1 < s.len() && s[k + 1] == '/' { lex(s, comment_end(s, k), false, t) }
    else {
        let e = word_end(s, k);
        if m && first_bad(s, k, e) <= e { Lex::Bad(first_bad(s, k, e)) }
        else {
            let kind = word_kind(s.subrange(k, e + 1));
            let m2 = m || (last_is_branch(t) && (kind is When || kind is Given));
            lex(s, e + 1, m2, t.push(STok { kind, a: k, b: e }))
        }
    }
}

#[via_fn]
proof fn lex_dec(s: Seq<char>, k: int, m: bool, t: Seq<STok>) {
    if 0 <= k < s.len() { lemma_word_end(s, k); lemma_comment_end(s, k); }
}

pub proof fn lemma_word_end(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures k <= word_end(s, k) < s.len(),
    decreases s.len() - k,
{ if !(k + 1 >= s.len() || is_ws(s[k + 1])) { lemma_word_end(s, k + 1); } }

pub proof fn lemma_comment_end(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures k < comment_end(s, k) <= s.len(),
    decreases s.len() - k,
{ if !(k + 1 >= s.len() || s[k + 1] == '\n') { lemma_comment_end(s, k + 1); } }

/// a bad character at j inside the word is the first one if all before it are fine
pub proof fn lemma_first_bad(s: Seq<char>, k: int, e: int, j: int)
    requires 0 <= k <= j <= e < s.len(), forall|i: int| k <= i < j ==> ident_char(s[i]),
    ensures first_bad(s, k, e) == first_bad(s, j, e),
    decreases j - k,
{ if k < j { lemma_first_bad(s, k + 1, e, j); } }

pub open spec fn tok_is(t: Token, st: STok, s: Seq<char>) -> bool {
    &&& 0 <= st.a <= st.b < s.len()
    &&& t.kind == st.kind
    &&& t.lexeme@ == s.subrange(st.a, st.b + 1)
    &&& pos_is(t.span.start, s, st.a)
    &&& pos_is(t.span.end, s, st.b)
}

pub open spec fn toks_are(ts: Seq<Token>, st: Seq<STok>, s: Seq<char>) -> bool {
    ts.len() == st.len() && forall|i: int| 0 <= i < ts.len() ==> #[trigger] tok_is(ts[i], st[i], s)
}

