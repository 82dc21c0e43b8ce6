/// `rev`, `map_or`, `map_or_else`
pub fn vx_rev<I: Iterator>(it: I) -> (r: std::vec::IntoIter<I::Item>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(), r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == it.remaining().reverse(),
{
    let mut v: Vec<I::Item> = it.collect();
    let ghost v0 = v@;
    let mut out: Vec<I::Item> = Vec::new();
    loop
        invariant out@ == v0.skip(v@.len() as int).reverse(), v@.len() <= v0.len(), v@ == v0.take(v@.len() as int),
        ensures out@ == v0.reverse(),
        decreases v@.len(),
    {
        let ghost n = v@.len() as int;
        match v.pop() {
            Some(x) => {
                out.push(x);
                proof {
                    assert(v@ =~= v0.take(n - 1));
                    assert(out@ =~= v0.skip(n - 1).reverse());
                }
            }
            None => { assert(v0.skip(0) =~= v0); break; }
        }
    }
    out.into_iter()
}
pub fn vx_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d },
{ match o { Some(x) => f(x), None => d } }
pub fn vx_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> (r: U)
    requires match o { Some(x) => f.requires((x,)), None => d.requires(()) },
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) },
{ match o { Some(x) => f(x), None => d() } }
pub fn vx_same<T>(p: T) -> (r: T) ensures r == p { p }
/// `find` of a text, of one of two characters (trusted)
pub open spec fn any_of(s: Seq<char>, a: char, b: char, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { -1 } else if s[i] == a || s[i] == b { i } else { any_of(s, a, b, i + 1) } }
pub trait VxSought { spec fn place(&self, s: Seq<char>) -> int; }
impl VxSought for &str { open spec fn place(&self, s: Seq<char>) -> int { find(s, self@, 0) } }
impl VxSought for char { open spec fn place(&self, s: Seq<char>) -> int { any_of(s, *self, *self, 0) } }
impl VxSought for [char; 2] { open spec fn place(&self, s: Seq<char>) -> int { any_of(s, self@[0], self@[1], 0) } }
#[verifier::external_body]
pub fn vx_sfind<P: VxSought>(s: &str, p: P) -> (r: Option<usize>)
    ensures match r { Some(k) => p.place(s@) >= 0 && k == off(s@, p.place(s@)), None => p.place(s@) < 0 },
{ unimplemented!() }
/// a prefix of a vector
pub fn vx_vslice_to<T>(v: &Vec<T>, n: usize) -> (r: &[T])
    requires n <= v@.len(),
    ensures r@ == v@.take(n as int),
{ vstd::slice::slice_subrange(v.as_slice(), 0, n) }
/// locations (trusted: solang and forge-fmt)
pub trait VxLoc { spec fn at(&self) -> pt::Loc; fn lloc(&self) -> (r: pt::Loc) ensures r == self.at(); }
impl VxLoc for pt::FunctionDefinition { open spec fn at(&self) -> pt::Loc { fn_loc(*self) } #[verifier::external_body] fn lloc(&self) -> (r: pt::Loc) { unimplemented!() } }
impl VxLoc for pt::ContractPart { open spec fn at(&self) -> pt::Loc { part_loc(*self) } #[verifier::external_body] fn lloc(&self) -> (r: pt::Loc) { unimplemented!() } }
impl VxLoc for pt::ContractDefinition { open spec fn at(&self) -> pt::Loc { self.loc } fn lloc(&self) -> (r: pt::Loc) { self.loc } }
impl<T: VxLoc> VxLoc for &T { open spec fn at(&self) -> pt::Loc { (**self).at() } fn lloc(&self) -> (r: pt::Loc) { (**self).lloc() } }
impl<T: VxLoc> VxLoc for Box<T> { open spec fn at(&self) -> pt::Loc { (**self).at() } fn lloc(&self) -> (r: pt::Loc) { (**self).lloc() } }
pub fn vx_loc<T: VxLoc>(x: &T) -> (r: pt::Loc) ensures r == x.at() { x.lloc() }
