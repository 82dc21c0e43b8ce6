use vstd::prelude::*;
use vstd::string::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;

pub mod common {
use vstd::prelude::*;
use vstd::string::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;

verus! {

// ---------------------------------------------------------------- text model
// A string is its sequence of characters; byte offsets are sums of UTF-8 widths.

/// UTF-8 width of a character.
pub open spec fn cw(c: char) -> nat {
    if c as u32 <= 0x7F { 1 } else if c as u32 <= 0x7FF { 2 } else if c as u32 <= 0xFFFF { 3 } else { 4 }
}

/// Byte offset of character `k` of `s`.
pub open spec fn off(s: Seq<char>, k: int) -> nat
    decreases k
{
    if k <= 0 || k > s.len() { 0 } else { off(s, k - 1) + cw(s[k - 1]) }
}

/// Byte length of `s`.
pub open spec fn blen(s: Seq<char>) -> nat { off(s, s.len() as int) }

/// `o` is the byte offset of some character position of `s`.
pub open spec fn is_off(s: Seq<char>, o: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == o
}

/// The character position at byte offset `o`.
pub open spec fn idx(s: Seq<char>, o: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == o
}

pub proof fn lemma_off_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures off(s, a) <= off(s, b), off(s, b) - off(s, a) >= b - a,
    decreases b - a,
{
    if a < b { lemma_off_mono(s, a, b - 1); }
}

pub proof fn lemma_idx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures is_off(s, off(s, k) as int), idx(s, off(s, k) as int) == k,
{
    let j = idx(s, off(s, k) as int);
    assert(is_off(s, off(s, k) as int));
    if j < k { lemma_off_mono(s, j, k); }
    if k < j { lemma_off_mono(s, k, j); }
}

pub proof fn lemma_off_prefix(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i],
    ensures off(s, k) == off(t, k),
    decreases k,
{
    if k > 0 { lemma_off_prefix(s, t, k - 1); }
}

pub proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    let s = a + b;
    if b.len() == 0 {
        assert(s =~= a);
    } else {
        let b1 = b.drop_last();
        lemma_blen_concat(a, b1);
        lemma_off_prefix(s, a + b1, (s.len() - 1) as int);
        lemma_off_prefix(b, b1, (b.len() - 1) as int);
        assert(s[s.len() - 1] == b[b.len() - 1]);
    }
}

/// Rust guarantee: no allocation is larger than `isize::MAX` bytes.  (trusted)
pub broadcast axiom fn axiom_str_bytes(s: &str)
    ensures
        (#[trigger] s.spec_bytes()).len() == blen(s@),
        blen(s@) <= isize::MAX;

/// same for slices (only used for element types that are not zero-sized)
pub broadcast axiom fn axiom_slice_len<T>(s: &[T])
    ensures #[trigger] s@.len() < isize::MAX;

/// two `str` values with the same characters are the same value (trusted)
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b;

/// `&s[i..]`, `&s[..i]`, `&s[i..j]` (trusted: std's str indexing)
#[verifier::external_body]
pub fn vx_slice_from(s: &str, i: usize) -> (r: &str)
    requires is_off(s@, i as int),
    ensures r@ == s@.skip(idx(s@, i as int)),
{ &s[i..] }

#[verifier::external_body]
pub fn vx_slice_to(s: &str, i: usize) -> (r: &str)
    requires is_off(s@, i as int),
    ensures r@ == s@.take(idx(s@, i as int)),
{ &s[..i] }

#[verifier::external_body]
pub fn vx_slice(s: &str, i: usize, j: usize) -> (r: &str)
    requires is_off(s@, i as int), is_off(s@, j as int), i <= j,
    ensures r@ == s@.subrange(idx(s@, i as int), idx(s@, j as int)),
{ &s[i..j] }

/// panics are obligations
#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false,
{ unreachable!() }

pub fn vx_assert(c: bool)
    requires c,
{}

/// terminal output is not modelled
#[verifier::external_body]
pub fn vx_print() {}

// ---------------------------------------------------------------- std contracts (trusted)
pub assume_specification<T, F: FnOnce(T) -> bool> [core::option::Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };

pub uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String)
    ensures r@ == lowercase(s@);

pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub uninterp spec fn is_alnum(c: char) -> bool;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == is_alnum(c);

pub assume_specification [std::string::String::len] (s: &String) -> (r: usize)
    ensures r == blen(s@), r <= isize::MAX;
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T)
    ensures call_ensures(T::clone, (x,), r);
pub assume_specification<'a, T> [<std::slice::Iter<'a, T> as std::iter::Iterator>::last] (it: std::slice::Iter<'a, T>) -> (r: Option<&'a T>)
    ensures r == (if it.remaining().len() == 0 { None } else { Some(it.remaining().last()) });

/// strings are equal if their characters are (trusted)
pub trait VxStr {
    spec fn strv(&self) -> Seq<char>;
    fn vx_s(&self) -> (r: &str) ensures r@ == self.strv();
}
impl VxStr for String {
    open spec fn strv(&self) -> Seq<char> { self@ }
    fn vx_s(&self) -> (r: &str) { self.as_str() }
}
impl VxStr for &String {
    open spec fn strv(&self) -> Seq<char> { self@ }
    fn vx_s(&self) -> (r: &str) { self.as_str() }
}
impl VxStr for &str {
    open spec fn strv(&self) -> Seq<char> { self@ }
    fn vx_s(&self) -> (r: &str) { *self }
}
impl VxStr for &&str {
    open spec fn strv(&self) -> Seq<char> { self@ }
    fn vx_s(&self) -> (r: &str) { **self }
}
#[verifier::external_body]
pub fn vx_str_eq<A: VxStr, B: VxStr>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.strv() == b.strv())
{ a.vx_s() == b.vx_s() }

// ---------------------------------------------------------------- formatting helpers
pub trait VxDisp {
    spec fn disp(&self) -> Seq<char>;
    fn vx_disp(&self) -> (r: String) ensures r@ == self.disp();
}
impl VxDisp for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    fn vx_disp(&self) -> (r: String) { let r = self.clone(); assert(r@ == self@); assert(self.disp() == self@); r }
}
impl VxDisp for &str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    fn vx_disp(&self) -> (r: String) { (*self).to_owned() }
}
impl VxDisp for &String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    fn vx_disp(&self) -> (r: String) { (*self).clone() }
}

pub fn vx_concat(a: String, b: &str) -> (r: String)
    ensures r@ == a@ + b@,
{ let mut r = a; r.push_str(b); r }

pub trait VxStringFrom { spec fn sv(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv(); }
impl VxStringFrom for &String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    fn vx_to_string(&self) -> (r: String) { (*self).clone() }
}
impl VxStringFrom for &str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    fn vx_to_string(&self) -> (r: String) { (*self).to_owned() }
}
pub fn vx_string_from<T: VxStringFrom>(x: T) -> (r: String) ensures r@ == x.sv() { x.vx_to_string() }

} // verus!
} // mod common
use common::*;
