// ---------------------------------------------------------------- words and replacement
pub open spec fn cat(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }

/// end of the word that starts at or before i
pub open spec fn word_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || is_ws(s[i]) { i } else { word_end(s, i + 1) } }
pub open spec fn ws_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || !is_ws(s[i]) { i } else { ws_end(s, i + 1) } }

/// maximal runs of characters that are not whitespace
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { words_from(s, 0) }
pub open spec fn words_from(s: Seq<char>, i: int) -> Seq<Seq<char>>
    decreases s.len() - i
{
    let a = ws_end(s, i);
    let b = word_end(s, a);
    if i < 0 || a >= s.len() || b <= a || a < i || b > s.len() { Seq::empty() }
    else { seq![s.subrange(a, b)] + words_from(s, b) }
}

pub open spec fn sviews(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }

/// std's `split_whitespace` (trusted)
#[verifier::external_body]
pub fn vx_split_ws<'a>(s: &'a str) -> (r: std::vec::IntoIter<&'a str>)
    ensures sviews(r.remaining()) == words(s@), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ s.split_whitespace().collect::<Vec<_>>().into_iter() }

pub open spec fn repl(s: Seq<char>, h: spec_fn(char) -> bool, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { repl(s.drop_last(), h, to) + (if h(s.last()) { to } else { seq![s.last()] }) }
}
pub trait VxPat: Sized {
    spec fn hits(&self, c: char, b: bool) -> bool;
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String)
        ensures forall|h: spec_fn(char) -> bool| (forall|c: char, b: bool| #[trigger] self.hits(c, b) ==> b == h(c))
            ==> r@ == #[trigger] repl(s@, h, to@);
}
impl VxPat for char {
    open spec fn hits(&self, c: char, b: bool) -> bool { b == (c == *self) }
    #[verifier::external_body]
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String) { s.replace(self, to) }
}
impl<const N: usize> VxPat for [char; N] {
    open spec fn hits(&self, c: char, b: bool) -> bool { b == self@.contains(c) }
    #[verifier::external_body]
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String) { s.replace(self, to) }
}
impl<const N: usize> VxPat for &[char; N] {
    open spec fn hits(&self, c: char, b: bool) -> bool { b == self@.contains(c) }
    #[verifier::external_body]
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String) { s.replace(self, to) }
}
impl VxPat for &[char] {
    open spec fn hits(&self, c: char, b: bool) -> bool { b == self@.contains(c) }
    #[verifier::external_body]
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String) { s.replace(self, to) }
}
impl<F: Fn(char) -> bool> VxPat for F {
    open spec fn hits(&self, c: char, b: bool) -> bool { self.ensures((c,), b) }
    #[verifier::external_body]
    fn vx_replace_in(self, s: &str, to: &str) -> (r: String) { s.replace(self, to) }
}
/// std's `str::replace` with a character or a character predicate (trusted)
pub fn vx_replace<P: VxPat>(s: &str, p: P, to: &str) -> (r: String)
    ensures forall|h: spec_fn(char) -> bool| (forall|c: char, b: bool| #[trigger] p.hits(c, b) ==> b == h(c))
        ==> r@ == #[trigger] repl(s@, h, to@)
{ p.vx_replace_in(s, to) }

/// `collect::<String>()` of an iterator of strings
pub fn vx_collect_string<I: Iterator<Item = String>>(it: I) -> (r: String)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(),
        forall|w: Seq<Seq<char>>| w =~= views(it.remaining()) ==> r@ == #[trigger] cat(w),
{
    let v: Vec<String> = it.collect();
    let mut out = String::new();
    for x in w: v
        invariant out@ == cat(views(v@.take(w.index@))),
    {
        proof {
            let t = views(v@.take(w.index@ + 1));
            assert(t.drop_last() =~= views(v@.take(w.index@)));
            assert(t.last() == v@[w.index@]@);
        }
        out.push_str(x.as_str());
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out
}

pub open spec fn rep(s: Seq<char>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { rep(s, n - 1) + s } }
pub assume_specification [str::repeat] (s: &str, n: usize) -> (r: String) ensures r@ == rep(s@, n as int);

/// the text without surrounding whitespace
pub open spec fn trim_end(s: Seq<char>, j: int) -> int
    decreases j
{ if j <= 0 || j > s.len() || !is_ws(s[j - 1]) { j } else { trim_end(s, j - 1) } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> {
    let a = ws_end(s, 0);
    let b = trim_end(s, s.len() as int);
    if a >= b { Seq::empty() } else { s.subrange(a, b) }
}
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trim(s@);
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
/// where p first occurs in s at or after i; -1 if nowhere
pub open spec fn find(s: Seq<char>, p: Seq<char>, i: int) -> int
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { -1 } else if at(s, p, i) { i } else { find(s, p, i + 1) } }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, 0) }
#[verifier::external_body]
pub fn vx_split_once<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { None => find(s@, p@, 0) < 0, Some((a, b)) => find(s@, p@, 0) >= 0 && a@ == s@.take(find(s@, p@, 0)) && b@ == s@.skip(find(s@, p@, 0) + p@.len()) },
{ s.split_once(p) }
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { None => !prefixed(s@, p@), Some(a) => prefixed(s@, p@) && a@ == s@.skip(p@.len() as int) },
{ s.strip_prefix(p) }
