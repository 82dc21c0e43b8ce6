/// `find_map`, `find`, `enumerate`: eager versions
pub open spec fn first_some<T, B>(s: Seq<T>, h: spec_fn(T) -> Option<B>, i: int) -> Option<B>
    decreases s.len() - i
{ if i < 0 || i >= s.len() { None } else if h(s[i]) is Some { h(s[i]) } else { first_some(s, h, i + 1) } }
proof fn lemma_first_some<T, B>(s: Seq<T>, h: spec_fn(T) -> Option<B>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), forall|j: int| i <= j < k ==> h(#[trigger] s[j]) is None,
    ensures first_some(s, h, i) == first_some(s, h, k),
    decreases k - i,
{ if i < k { lemma_first_some(s, h, i + 1, k); } }
pub fn vx_find_map<I: Iterator, B, F: Fn(I::Item) -> Option<B>>(it: I, f: F) -> (r: Option<B>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,)),
    ensures it.will_return_none(),
        forall|h: spec_fn(I::Item) -> Option<B>| #[trigger] tr(h) && (forall|x: I::Item, b: Option<B>| f.ensures((x,), b) ==> b == h(x))
            ==> r == first_some(it.remaining(), h, 0),
{
    let v: Vec<I::Item> = it.collect();
    let ghost v0 = v@;
    let mut out: Option<B> = None;
    for x in w: v
        invariant
            w.seq() == v0,
            forall|x: I::Item| f.requires((x,)),
            forall|h: spec_fn(I::Item) -> Option<B>| #[trigger] tr(h) && (forall|x: I::Item, b: Option<B>| f.ensures((x,), b) ==> b == h(x))
                ==> first_some(v0, h, 0) == (if out is Some { out } else { first_some(v0, h, w.index@) }),
    {
        let ghost k = w.index@;
        if out.is_none() {
            out = f(x);
            proof {
                assert forall|h: spec_fn(I::Item) -> Option<B>| #[trigger] tr(h) && (forall|x: I::Item, b: Option<B>| f.ensures((x,), b) ==> b == h(x))
                    implies first_some(v0, h, 0) == (if out is Some { out } else { first_some(v0, h, k + 1) }) by {
                    assert(out == h(v0[k]));
                }
            }
        }
    }
    out
}
pub open spec fn first_hit<T>(s: Seq<T>, h: spec_fn(T) -> bool, i: int) -> Option<T>
    decreases s.len() - i
{ if i < 0 || i >= s.len() { None } else if h(s[i]) { Some(s[i]) } else { first_hit(s, h, i + 1) } }
pub fn vx_find<I: Iterator, F: Fn(&I::Item) -> bool>(it: I, f: F) -> (r: Option<I::Item>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((&x,)),
    ensures it.will_return_none(),
        forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
            ==> r == first_hit(it.remaining(), h, 0),
{
    let v: Vec<I::Item> = it.collect();
    let ghost v0 = v@;
    let mut out: Option<I::Item> = None;
    for x in w: v
        invariant
            w.seq() == v0,
            forall|x: I::Item| f.requires((&x,)),
            forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
                ==> first_hit(v0, h, 0) == (if out is Some { out } else { first_hit(v0, h, w.index@) }),
    {
        let ghost k = w.index@;
        if out.is_none() {
            let b = f(&x);
            proof {
                assert forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
                    implies first_hit(v0, h, 0) == (if b { Some(v0[k]) } else { first_hit(v0, h, k + 1) }) by {
                    assert(b == h(v0[k]));
                }
            }
            if b { out = Some(x); }
        }
    }
    out
}
pub open spec fn numbered<T>(r: Seq<(usize, T)>, s: Seq<T>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == i && r[i].1 == s[i]
}
pub fn vx_enumerate<I: Iterator>(it: I) -> (r: std::vec::IntoIter<(usize, I::Item)>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        numbered(r.remaining(), it.remaining()),
{
    let v: Vec<I::Item> = it.collect();
    let mut out: Vec<(usize, I::Item)> = Vec::new();
    let mut i: usize = 0;
    let ghost v0 = v@;
    let n = v.len();
    for x in w: v
        invariant v@ == v0, n == v0.len(), w.seq() == v0, i == w.index@, out@.len() == i,
            forall|k: int| 0 <= k < i ==> (#[trigger] out@[k]).0 == k && out@[k].1 == v0[k],
    { out.push((i, x)); i = i + 1; }
    out.into_iter()
}
/// what the references refer to
pub open spec fn derefs<'a, T>(w: Seq<&'a T>) -> Seq<T> { w.map_values(|x: &'a T| *x) }
broadcast proof fn lemma_derefs<'a, T>(w: Seq<&'a T>, v: Seq<T>)
    requires w.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> *(#[trigger] w[j]) == v[j],
    ensures #![trigger derefs(w), v.len()] derefs(w) == v,
{ assert(derefs(w) =~= v); }
