// Contracts for functions of std that the current sources do not call but a change to them may start to call.
// tools/check.py adds the entries a unit asks for (the verifier names them) and runs the verifier again; a
// function without an entry gets no contract, and then nothing that fails is believed.  All of them are trusted.
// `inductive`: the contract is of a kind that the solver can not always use without a lemma; what fails in a function
// that calls it is reported with a failing input or not at all.

// A pattern is a text (`&str`, `&String`) or a class of characters (a character, some characters, a predicate).

//@@ patterns
pub uninterp spec fn lit<P>(p: P) -> Option<Seq<char>>;
pub uninterp spec fn class<P>(p: P) -> spec_fn(char) -> bool;
pub open spec fn p_len<P>(p: P) -> int { if lit(p) is Some { lit(p)->0.len() as int } else { 1 } }
/// the pattern matches at character i
pub open spec fn p_at<P>(s: Seq<char>, p: P, i: int) -> bool {
    0 <= i && i + p_len(p) <= s.len()
        && (if lit(p) is Some { s.subrange(i, i + p_len(p)) == lit(p)->0 } else { (class(p))(s[i]) })
}
pub broadcast axiom fn ax_lit_str<'a>(p: &'a str) ensures #[trigger] lit::<&'a str>(p) == Some(p@);
pub broadcast axiom fn ax_lit_string<'a>(p: &'a String) ensures #[trigger] lit::<&'a String>(p) == Some(p@);
pub broadcast axiom fn ax_class_char(p: char)
    ensures (#[trigger] lit::<char>(p)) is None, class::<char>(p) == (|c: char| c == p);
pub broadcast axiom fn ax_class_array<const N: usize>(p: [char; N])
    ensures (#[trigger] lit::<[char; N]>(p)) is None, class::<[char; N]>(p) == (|c: char| p@.contains(c));
pub broadcast axiom fn ax_class_array_ref<'a, const N: usize>(p: &'a [char; N])
    ensures (#[trigger] lit::<&'a [char; N]>(p)) is None, class::<&'a [char; N]>(p) == (|c: char| p@.contains(c));
pub broadcast axiom fn ax_class_slice<'a>(p: &'a [char])
    ensures (#[trigger] lit::<&'a [char]>(p)) is None, class::<&'a [char]>(p) == (|c: char| p@.contains(c));
pub broadcast axiom fn ax_class_fn<F: Fn(char) -> bool>(p: F)
    ensures (#[trigger] lit::<F>(p)) is None,
        forall|c: char| p.requires((c,)) ==> p.ensures((c,), #[trigger] (class::<F>(p))(c));

pub proof fn lemma_off_part(s: Seq<char>, q: Seq<char>, i: int, k: int)
    requires 0 <= i, 0 <= k <= q.len(), i + q.len() <= s.len(), s.subrange(i, i + q.len()) == q,
    ensures off(s, i + k) == off(s, i) + off(q, k),
    decreases k,
{
    if k > 0 {
        lemma_off_part(s, q, i, k - 1);
        assert(s.subrange(i, i + q.len())[k - 1] == s[i + k - 1]);
    }
}
/// where a match starts and ends, in bytes (proved)
pub broadcast proof fn lemma_p_at<P>(s: Seq<char>, p: P, i: int)
    requires #[trigger] p_at(s, p, i),
    ensures
        off(s, i + p_len(p)) == off(s, i) + (if lit(p) is Some { blen(lit(p)->0) } else { cw(s[i]) }),
        is_off(s, off(s, i) as int), idx(s, off(s, i) as int) == i,
        is_off(s, off(s, i + p_len(p)) as int), idx(s, off(s, i + p_len(p)) as int) == i + p_len(p),
        i == 0 ==> off(s, i) == 0,
{
    if lit(p) is Some { lemma_off_part(s, lit(p)->0, i, lit(p)->0.len() as int); }
    lemma_idx(s, i);
    lemma_idx(s, i + p_len(p));
}

//@@ std core::str::impl&%0::starts_with
//@@ inductive
pub assume_specification<P: core::str::pattern::Pattern> [str::starts_with] (s: &str, p: P) -> (r: bool)
    ensures r == p_at(s@, p, 0);
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::ends_with
//@@ inductive
pub assume_specification<P> [str::ends_with] (s: &str, p: P) -> (r: bool)
    where P: core::str::pattern::Pattern, for<'a> <P as core::str::pattern::Pattern>::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures r == p_at(s@, p, s@.len() - p_len(p));
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::contains
//@@ inductive
pub assume_specification<P: core::str::pattern::Pattern> [str::contains] (s: &str, p: P) -> (r: bool)
    ensures r == exists|i: int| #[trigger] p_at(s@, p, i);
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::strip_prefix
//@@ inductive
pub assume_specification<P: core::str::pattern::Pattern> [str::strip_prefix] (s: &str, p: P) -> (r: Option<&str>)
    ensures match r { Some(t) => p_at(s@, p, 0) && t@ == s@.skip(p_len(p)), None => !p_at(s@, p, 0) };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::strip_suffix
//@@ inductive
pub assume_specification<P> [str::strip_suffix] (s: &str, p: P) -> (r: Option<&str>)
    where P: core::str::pattern::Pattern, for<'a> <P as core::str::pattern::Pattern>::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures match r { Some(t) => p_at(s@, p, s@.len() - p_len(p)) && t@ == s@.take(s@.len() - p_len(p)), None => !p_at(s@, p, s@.len() - p_len(p)) };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std alloc::str::impl&%5::replace
//@@ inductive
pub open spec fn p_swap<P>(s: Seq<char>, p: P, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || p_len(p) <= 0 { s }
    else if p_at(s, p, 0) { to + p_swap(s.skip(p_len(p)), p, to) }
    else { seq![s[0]] + p_swap(s.skip(1), p, to) }
}
pub assume_specification<P: core::str::pattern::Pattern> [str::replace] (s: &str, p: P, to: &str) -> (r: String)
    ensures p_len(p) > 0 ==> r@ == p_swap(s@, p, to@);
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::trim_start_matches
//@@ inductive
pub open spec fn p_off<P>(s: Seq<char>, p: P) -> Seq<char>
    decreases s.len()
{
    if p_len(p) > 0 && p_at(s, p, 0) { p_off(s.skip(p_len(p)), p) } else { s }
}
pub assume_specification<P: core::str::pattern::Pattern> [str::trim_start_matches] (s: &str, p: P) -> (r: &str)
    ensures r@ == p_off(s@, p);
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::trim_end_matches
//@@ inductive
pub open spec fn p_off_end<P>(s: Seq<char>, p: P) -> Seq<char>
    decreases s.len()
{
    if p_len(p) > 0 && p_at(s, p, s.len() - p_len(p)) { p_off_end(s.take(s.len() - p_len(p)), p) } else { s }
}
pub assume_specification<P> [str::trim_end_matches] (s: &str, p: P) -> (r: &str)
    where P: core::str::pattern::Pattern, for<'a> <P as core::str::pattern::Pattern>::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures r@ == p_off_end(s@, p);
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::find
//@@ inductive
pub open spec fn p_first<P>(s: Seq<char>, p: P, i: int) -> int
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { -1 } else if p_at(s, p, i) { i } else { p_first(s, p, i + 1) } }
pub assume_specification<P: core::str::pattern::Pattern> [str::find] (s: &str, p: P) -> (r: Option<usize>)
    ensures match r { None => p_first(s@, p, 0) < 0, Some(o) => p_first(s@, p, 0) >= 0 && o == off(s@, p_first(s@, p, 0)) };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::rfind
//@@ inductive
pub open spec fn p_last<P>(s: Seq<char>, p: P, i: int) -> int
    decreases i + 1
{ if i < 0 { -1 } else if p_at(s, p, i) { i } else { p_last(s, p, i - 1) } }
pub assume_specification<P> [str::rfind] (s: &str, p: P) -> (r: Option<usize>)
    where P: core::str::pattern::Pattern, for<'a> <P as core::str::pattern::Pattern>::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures match r { None => p_last(s@, p, s@.len() as int) < 0, Some(o) => p_last(s@, p, s@.len() as int) >= 0 && o == off(s@, p_last(s@, p, s@.len() as int)) };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::split_once
//@@ inductive
pub open spec fn p_split<P>(s: Seq<char>, p: P, i: int) -> int
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { -1 } else if p_at(s, p, i) { i } else { p_split(s, p, i + 1) } }
pub assume_specification<P: core::str::pattern::Pattern> [str::split_once] (s: &str, p: P) -> (r: Option<(&str, &str)>)
    ensures match r {
        None => p_split(s@, p, 0) < 0,
        Some((a, b)) => p_split(s@, p, 0) >= 0 && a@ == s@.take(p_split(s@, p, 0)) && b@ == s@.skip(p_split(s@, p, 0) + p_len(p)),
    };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::rsplit_once
//@@ inductive
pub open spec fn p_rsplit<P>(s: Seq<char>, p: P, i: int) -> int
    decreases i + 1
{ if i < 0 { -1 } else if p_at(s, p, i) { i } else { p_rsplit(s, p, i - 1) } }
pub assume_specification<P> [str::rsplit_once] (s: &str, p: P) -> (r: Option<(&str, &str)>)
    where P: core::str::pattern::Pattern, for<'a> <P as core::str::pattern::Pattern>::Searcher<'a>: core::str::pattern::ReverseSearcher<'a>
    ensures match r {
        None => p_rsplit(s@, p, s@.len() as int) < 0,
        Some((a, b)) => p_rsplit(s@, p, s@.len() as int) >= 0 && a@ == s@.take(p_rsplit(s@, p, s@.len() as int)) && b@ == s@.skip(p_rsplit(s@, p, s@.len() as int) + p_len(p)),
    };
//@@ broadcast ax_lit_str ax_lit_string ax_class_char ax_class_array ax_class_array_ref ax_class_slice ax_class_fn lemma_p_at

//@@ std core::str::impl&%0::trim_start
//@@ inductive
pub uninterp spec fn less_lead(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_less_lead(s: Seq<char>)
    ensures (#[trigger] less_lead(s)).len() <= s.len(), less_lead(s) == s.skip(s.len() - less_lead(s).len()),
        less_lead(s).len() > 0 ==> !is_ws(less_lead(s)[0]),
        forall|i: int| 0 <= i < s.len() - less_lead(s).len() ==> is_ws(s[i]);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == less_lead(s@);
//@@ broadcast ax_less_lead

//@@ std core::str::impl&%0::trim_end
//@@ inductive
pub uninterp spec fn less_trail(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_less_trail(s: Seq<char>)
    ensures (#[trigger] less_trail(s)).len() <= s.len(), less_trail(s) == s.take(less_trail(s).len() as int),
        less_trail(s).len() > 0 ==> !is_ws(less_trail(s).last()),
        forall|i: int| less_trail(s).len() <= i < s.len() ==> is_ws(s[i]);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == less_trail(s@);
//@@ broadcast ax_less_trail

//@@ std core::str::impl&%0::eq_ignore_ascii_case
//@@ inductive
pub assume_specification [str::eq_ignore_ascii_case] (a: &str, b: &str) -> (r: bool)
    ensures r == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> ascii_low(#[trigger] a@[i]) == ascii_low(b@[i]));

//@@ std core::char::methods::impl&%0::eq_ignore_ascii_case
pub assume_specification [char::eq_ignore_ascii_case] (a: &char, b: &char) -> (r: bool)
    ensures r == (ascii_low(*a) == ascii_low(*b));

//@@ std core::char::methods::impl&%0::to_ascii_lowercase
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == ascii_low(*c);

//@@ std core::char::methods::impl&%0::to_ascii_uppercase
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char) ensures r == ascii_up(*c);

//@@ std alloc::str::impl&%5::to_ascii_lowercase
//@@ inductive
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String)
    ensures r@ == s@.map_values(|c: char| ascii_low(c));

//@@ std alloc::str::impl&%5::to_ascii_uppercase
//@@ inductive
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String)
    ensures r@ == s@.map_values(|c: char| ascii_up(c));

//@@ std alloc::str::impl&%5::to_uppercase
//@@ inductive
pub uninterp spec fn uppercase(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == uppercase(s@);

//@@ std core::char::methods::impl&%0::is_ascii
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == (*c as u32 <= 0x7F);

//@@ std core::char::methods::impl&%0::is_ascii_digit
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');

//@@ std core::char::methods::impl&%0::is_ascii_uppercase
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');

//@@ std core::char::methods::impl&%0::is_ascii_lowercase
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');

//@@ std core::char::methods::impl&%0::is_ascii_alphabetic
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool)
    ensures r == (('A' <= *c && *c <= 'Z') || ('a' <= *c && *c <= 'z'));

//@@ std core::char::methods::impl&%0::is_ascii_alphanumeric
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool)
    ensures r == (('A' <= *c && *c <= 'Z') || ('a' <= *c && *c <= 'z') || ('0' <= *c && *c <= '9'));

//@@ std core::char::methods::impl&%0::is_ascii_whitespace
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c as u32 == 0xC);

//@@ std core::char::methods::impl&%0::is_ascii_punctuation
pub assume_specification [char::is_ascii_punctuation] (c: &char) -> (r: bool)
    ensures r == (('!' <= *c && *c <= '/') || (':' <= *c && *c <= '@') || ('[' <= *c && *c <= '`') || ('{' <= *c && *c <= '~'));

//@@ std core::char::methods::impl&%0::is_ascii_control
pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool)
    ensures r == (*c as u32 <= 0x1F || *c as u32 == 0x7F);

//@@ std core::char::methods::impl&%0::is_control
pub assume_specification [char::is_control] (c: char) -> (r: bool)
    ensures r == (c as u32 <= 0x1F || (0x7F <= c as u32 && c as u32 <= 0x9F));

//@@ std core::char::methods::impl&%0::is_alphabetic
pub uninterp spec fn is_alpha(c: char) -> bool;
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == is_alpha(c), r ==> is_alnum(c);

//@@ std core::char::methods::impl&%0::is_numeric
pub uninterp spec fn is_num(c: char) -> bool;
pub assume_specification [char::is_numeric] (c: char) -> (r: bool) ensures r == is_num(c), r ==> is_alnum(c);

//@@ std core::option::impl&%0::filter
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,)),
    ensures match o { Some(x) => (r == o && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)), None => r is None };

//@@ std core::option::impl&%0::map_or
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };

//@@ std core::option::impl&%0::map_or_else
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };

//@@ std core::option::impl&%0::is_none_or
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r };

//@@ std core::option::impl&%0::or
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });

//@@ std core::option::impl&%0::or_else
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures match o { Some(_) => r == o, None => f.ensures((), r) };

//@@ std core::option::impl&%0::xor
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None::<T> });

//@@ std core::option::impl&%0::and
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { p } else { None::<U> });

//@@ std core::option::impl&%0::replace
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);

//@@ std core::option::impl&%3::copied
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

//@@ std core::option::impl&%50::flatten
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });

//@@ std core::result::impl&%0::unwrap_or
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });

//@@ std core::result::impl&%0::is_ok_and
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(_) => !r };

//@@ std core::result::impl&%0::and_then
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };

//@@ std core::bool::impl&%0::then_some
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None });

//@@ std core::mem::replace
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

//@@ std core::num::impl&%11::abs_diff
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == (if a >= b { a - b } else { b - a });

//@@ std core::slice::impl&%0::reverse
//@@ inductive
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();

//@@ std core::slice::impl&%0::swap
//@@ inductive
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

//@@ std core::slice::iter::impl&%171::count
pub assume_specification<'a, T> [<core::slice::Iter<'a, T> as Iterator>::count] (it: core::slice::Iter<'a, T>) -> (r: usize)
    ensures r == it.remaining().len();

//@@ std alloc::string::impl&%0::truncate
//@@ inductive
pub assume_specification [String::truncate] (s: &mut String, n: usize)
    requires n >= blen(old(s)@) || is_off(old(s)@, n as int),
    ensures final(s)@ == (if n >= blen(old(s)@) { old(s)@ } else { old(s)@.take(idx(old(s)@, n as int)) });

//@@ std alloc::string::impl&%0::insert
//@@ inductive
pub assume_specification [String::insert] (s: &mut String, n: usize, c: char)
    requires is_off(old(s)@, n as int),
    ensures final(s)@ == old(s)@.insert(idx(old(s)@, n as int), c);

//@@ std alloc::string::impl&%0::insert_str
//@@ inductive
pub assume_specification [String::insert_str] (s: &mut String, n: usize, t: &str)
    requires is_off(old(s)@, n as int),
    ensures final(s)@ == old(s)@.take(idx(old(s)@, n as int)) + t@ + old(s)@.skip(idx(old(s)@, n as int));

//@@ std alloc::string::impl&%0::remove
//@@ inductive
pub assume_specification [String::remove] (s: &mut String, n: usize) -> (r: char)
    requires is_off(old(s)@, n as int), n < blen(old(s)@),
    ensures final(s)@ == old(s)@.remove(idx(old(s)@, n as int)), r == old(s)@[idx(old(s)@, n as int)];

//@@ std alloc::string::impl&%0::capacity
//@@ inductive
pub assume_specification [String::capacity] (s: &String) -> (r: usize);

//@@ std core::char::methods::impl&%0::len_utf16
pub assume_specification [char::len_utf16] (c: char) -> (r: usize)
    ensures r == (if c as u32 <= 0xFFFF { 1usize } else { 2usize });
