//@@ include common
//@@ cell pos identifier_mode current
//@@ mono T=Tokenizer
//@@ mono P=Parser
//@@ byval TokenizerI
//@@ byval ParserI
//@@ life ParserI 't
//@@ path anyhow::Result = AnyResult
//@@ path splitter =
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path std::iter::once = vx_once_it
//@@ path Box::new = vx_id
//@@ vmethod filter = vx_filter
//@@ method split = vx_split
//@@ method lines = vx_lines
//@@ method starts_with = vx_starts_with
//@@ vmethod all = vx_all
//@@ vmethod collect = vx_collect_results

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include text
//@@ include names
//@@ include iters
//@@ const crates/syntax/src/splitter.rs TREES_SEPARATOR
}
//@@ include frontspec

verus! {
/// anyhow::Error: one of the errors of the phases
pub enum AnyErr { Tok(tokenizer::Error), Parse(parser::Error), Sem(semantics::Errors) }
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vx_once_it<T>(x: T) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == seq![x], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ let mut v = Vec::new(); v.push(x); v.into_iter() }

/// std's `split`, `lines`, `starts_with` (trusted)
#[verifier::external_body]
pub fn vx_split<'a>(s: &'a str, p: &str) -> (r: std::vec::IntoIter<&'a str>)
    ensures sviews(r.remaining()) == parts(s@, p@, 0), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ s.split(p).collect::<Vec<_>>().into_iter() }
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a str) -> (r: std::vec::IntoIter<&'a str>)
    ensures sviews(r.remaining()) == lines_from(s@, 0), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ s.lines().collect::<Vec<_>>().into_iter() }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }

pub open spec fn nonempty<'a>() -> spec_fn(&'a str) -> bool { |s: &'a str| s@.len() > 0 }
pub open spec fn comment_line<'a>() -> spec_fn(&'a str) -> bool { |s: &'a str| is_comment(s@) }
pub open spec fn not_comments<'a>() -> spec_fn(&'a str) -> bool { |s: &'a str| !all_comments(lines_from(s@, 0)) }
broadcast proof fn lemma_all_comments<'a>(v: Seq<&'a str>)
    ensures #![trigger sviews(v)] (forall|i: int| 0 <= i < v.len() ==> comment_line()(#[trigger] v[i])) == all_comments(sviews(v)),
{
    if all_comments(sviews(v)) {
        assert forall|i: int| 0 <= i < v.len() implies comment_line()(#[trigger] v[i]) by { assert(is_comment(sviews(v)[i])); }
    }
}
broadcast proof fn lemma_tree_texts<'a>(v: Seq<&'a str>)
    ensures sviews(#[trigger] filt(filt(v, nonempty()), not_comments())) == tree_texts(sviews(v)),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_tree_texts(v.drop_last());
        assert(sviews(v).drop_last() =~= sviews(v.drop_last()));
        let f1 = filt(v.drop_last(), nonempty());
        assert(f1.push(v.last()).drop_last() =~= f1);
        let f2 = filt(f1, not_comments());
        assert(sviews(f2.push(v.last())) =~= sviews(f2).push(v.last()@));
    } else {
        assert(sviews(filt(filt(v, nonempty()), not_comments())) =~= Seq::empty());
    }
}
broadcast proof fn lemma_trimmed<'a>(v: Seq<&'a str>, ps: Seq<Seq<char>>)
    requires v.len() == ps.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == trim(ps[i]),
    ensures #![trigger sviews(v), trimmed(ps)] sviews(v) == trimmed(ps),
{ assert(sviews(v) =~= trimmed(ps)); }
proof fn lemma_first_bad_text(ts: Seq<Seq<char>>, i: int, n: int)
    requires 0 <= i <= n <= ts.len(), n < ts.len() ==> !(tree_of(ts[n]) is Tree), forall|j: int| 0 <= j < n ==> tree_of(#[trigger] ts[j]) is Tree,
    ensures bad_text(ts, i) == n,
    decreases n - i,
{ if i < n { lemma_first_bad_text(ts, i + 1, n); } }
broadcast proof fn lemma_every(m: Seq<AnyResult<Ast>>, r: AnyResult<Vec<Ast>>, s: Seq<char>)
    requires #[trigger] collected(m, r), m.len() == texts_of(s).len(), forall|i: int| 0 <= i < m.len() ==> one(#[trigger] m[i], texts_of(s)[i]),
    ensures every(r, #[trigger] texts_of(s)),
{
    let ts = texts_of(s);
    match r {
        Ok(v) => {
            assert forall|i: int| 0 <= i < ts.len() implies tree_of(#[trigger] ts[i]) == TR::Tree(nd(v@[i])) by { assert(one(m[i], ts[i])); }
            lemma_first_bad_text(ts, 0, ts.len() as int);
        }
        Err(e) => {
            let n = choose|i: int| collected_err(m, i, e);
            assert(one(m[n], ts[n]));
            assert forall|j: int| 0 <= j < n implies tree_of(#[trigger] ts[j]) is Tree by { assert(one(m[j], ts[j])); }
            lemma_first_bad_text(ts, 0, n);
        }
    }
}
broadcast proof fn lemma_pos_at(p: Position, s: Seq<char>, k: int)
    requires #[trigger] tokenizer::pos_is(p, s, k),
    ensures p == pos_at(s, k),
{}
broadcast proof fn lemma_gtoks(ts: Seq<Token>, st: Seq<tokenizer::STok>, s: Seq<char>)
    requires #[trigger] tokenizer::toks_are(ts, st, s),
    ensures parser::gts(ts) == gtoks(st, s),
{
    assert forall|i: int| 0 <= i < ts.len() implies parser::gt(#[trigger] ts[i]) == gtok(st[i], s) by {
        assert(tokenizer::tok_is(ts[i], st[i], s));
        lemma_pos_at(ts[i].span.start, s, st[i].a);
        lemma_pos_at(ts[i].span.end, s, st[i].b);
    }
    assert(parser::gts(ts) =~= gtoks(st, s));
}
/// `collect` into a `Result`: the first error, or all values
#[verifier::loop_isolation(false)]
pub fn vx_collect_results<T, I: Iterator<Item = AnyResult<T>>>(it: I) -> (r: AnyResult<Vec<T>>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(), collected(it.remaining(), r),
{
    let v: Vec<AnyResult<T>> = it.collect();
    let ghost v0 = v@;
    let mut out: Vec<T> = Vec::new();
    for x in w: v
        invariant
            w.seq() == v0, out@.len() == w.index@,
            forall|i: int| 0 <= i < w.index@ ==> #[trigger] v0[i] is Ok && v0[i]->Ok_0 == out@[i],
    {
        match x {
            Ok(y) => out.push(y),
            Err(e) => { proof { assert(collected_err(v0, w.index@ as int, e)); } return Err(e); }
        }
    }
    Ok(out)
}
pub open spec fn collected_err<T>(s: Seq<AnyResult<T>>, i: int, e: AnyErr) -> bool {
    0 <= i < s.len() && s[i] == AnyResult::<T>::Err(e) && forall|j: int| 0 <= j < i ==> #[trigger] s[j] is Ok
}
pub open spec fn collected<T>(s: Seq<AnyResult<T>>, r: AnyResult<Vec<T>>) -> bool {
    match r {
        Ok(v) => v@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok && s[i]->Ok_0 == v@[i],
        Err(e) => exists|i: int| collected_err(s, i, e),
    }
}

// ---------------------------------------------------------------- code under contract
//@@ fn crates/syntax/src/splitter.rs not_only_comments
    ensures r == !all_comments(lines_from((*tree)@, 0)),
//@@ at start
    broadcast use lemma_all_comments;
    proof { assert(tr(comment_line())); }
//@@ closure 0
    |l: &str| -> (r: bool) ensures r == is_comment(l@)
    ---
    proof { reveal_strlit("//"); assert("//"@ =~= lit_slashes()); }
//@@ end

//@@ fn crates/syntax/src/splitter.rs split_trees ret=std::vec::IntoIter<&str>
    ensures sviews(r.remaining()) == texts_of(text@), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@@ closure 0
    |s: &&str| -> (r: bool) ensures r == ((*s)@.len() > 0)
//@@ at start
    broadcast use {lemma_tree_texts, lemma_trimmed};
    proof {
        reveal_strlit("\n\n"); assert("\n\n"@ =~= lit_nn()); reveal_strlit(""); assert(""@ =~= Seq::empty());
        assert(tr(nonempty())); assert(tr(not_comments()));
        assert(sviews(seq![""]) =~= seq![Seq::empty()]);
    }
//@@ end

//@@ fn crates/syntax/src/lib.rs parse_one tryconv
    ensures one(r, text@),
//@@ at start
    broadcast use {lemma_pos_at, lemma_gtoks};
//@@ end

//@@ fn crates/syntax/src/lib.rs parse
    ensures every(r, texts_of(text@)),
//@@ at start
    broadcast use lemma_every;
//@@ end
}
fn main() {}
