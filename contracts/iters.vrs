pub fn vx_once<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
pub fn vx_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: std::vec::IntoIter<T>)
    ensures r.remaining() == a@ + b@, r.obeys_prophetic_iter_laws(), r.decrease() is Some,
{ let mut a = a; let mut b = b; a.append(&mut b); a.into_iter() }
/// marks the functions the higher-order contracts are instantiated with
pub open spec fn tr<H>(h: H) -> bool { true }
/// `fold` with a string accumulator: f appends h(item) for every item in order
pub open spec fn catw<T>(a: Seq<char>, items: Seq<T>, h: spec_fn(T) -> Seq<char>) -> Seq<char>
    decreases items.len()
{ if items.len() == 0 { a } else { catw(a, items.drop_last(), h) + h(items.last()) } }
pub fn vx_fold<I: Iterator, F: Fn(String, I::Item) -> String>(it: I, a: String, f: F) -> (r: String)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: String, y: I::Item| f.requires((x, y)),
    ensures it.will_return_none(),
        forall|h: spec_fn(I::Item) -> Seq<char>| #[trigger] tr(h) && (forall|x: String, y: I::Item, z: String| f.ensures((x, y), z) ==> z@ == x@ + h(y))
            ==> r@ == catw(a@, it.remaining(), h),
{
    let v: Vec<I::Item> = it.collect();
    let ghost a0 = a@;
    let mut acc = a;
    for x in w: v
        invariant
            forall|x: String, y: I::Item| f.requires((x, y)),
            forall|h: spec_fn(I::Item) -> Seq<char>| #[trigger] tr(h) && (forall|x: String, y: I::Item, z: String| f.ensures((x, y), z) ==> z@ == x@ + h(y))
                ==> acc@ == catw(a0, v@.take(w.index@), h),
    {
        let ghost b = acc@;
        let ghost y = x;
        acc = f(acc, x);
        proof {
            let t = v@.take(w.index@ + 1);
            assert(t.drop_last() =~= v@.take(w.index@));
            assert forall|h: spec_fn(I::Item) -> Seq<char>| #[trigger] tr(h) && (forall|x: String, y: I::Item, z: String| f.ensures((x, y), z) ==> z@ == x@ + h(y))
                implies acc@ == catw(a0, t, h) by { assert(b == catw(a0, t.drop_last(), h)); assert(t.last() == y); }
        }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    acc
}

pub open spec fn filt<T>(s: Seq<T>, h: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else if h(s.last()) { filt(s.drop_last(), h).push(s.last()) } else { filt(s.drop_last(), h) } }
pub proof fn lemma_filt<T>(s: Seq<T>, h: spec_fn(T) -> bool)
    ensures filt(s, h).len() <= s.len(), filt(s, h).len() == s.len() <==> forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_filt(p, h);
        if filt(s, h).len() == s.len() {
            assert forall|i: int| 0 <= i < s.len() implies h(#[trigger] s[i]) by { if i < p.len() { assert(p[i] == s[i]); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> h(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < p.len() implies h(#[trigger] p[i]) by { assert(p[i] == s[i]); }
            assert(h(s[s.len() - 1]));
        }
    }
}
pub fn vx_filter<I: Iterator, F: Fn(&I::Item) -> bool>(it: I, f: F) -> (r: std::vec::IntoIter<I::Item>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((&x,)),
    ensures
        it.will_return_none(),
        r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
            ==> r.remaining() == filt(it.remaining(), h),
{
    let v: Vec<I::Item> = it.collect();
    let mut out: Vec<I::Item> = Vec::new();
    for x in w: v
        invariant
            forall|x: I::Item| f.requires((&x,)),
            forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
                ==> out@ == filt(v@.take(w.index@), h),
    {
        let ghost o = out@;
        let b = f(&x);
        if b { out.push(x); }
        proof {
            let t = v@.take(w.index@ + 1);
            assert(t.drop_last() =~= v@.take(w.index@));
            assert forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((&x,), b) ==> b == h(x))
                implies out@ == filt(t, h) by { assert(o == filt(t.drop_last(), h)); assert(t.last() == x); }
        }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    out.into_iter()
}
pub fn vx_count<I: Iterator>(it: I) -> (r: usize)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some,
    ensures it.will_return_none(), r == it.remaining().len(),
{ let v: Vec<I::Item> = it.collect(); v.len() }

pub fn vx_any<I: Iterator, F: Fn(I::Item) -> bool>(it: I, f: F) -> (r: bool)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,)),
    ensures it.will_return_none(),
        forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((x,), b) ==> b == h(x))
            ==> r == (exists|i: int| 0 <= i < it.remaining().len() && h(#[trigger] it.remaining()[i])),
{
    let v: Vec<I::Item> = it.collect();
    let mut ok = false;
    for x in w: v
        invariant
            forall|x: I::Item| f.requires((x,)),
            forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((x,), b) ==> b == h(x))
                ==> ok == (exists|i: int| 0 <= i < w.index@ && h(#[trigger] w.seq()[i])),
    { let b = f(x); ok = ok || b; }
    ok
}
pub fn vx_all<I: Iterator, F: Fn(I::Item) -> bool>(it: I, f: F) -> (r: bool)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,)),
    ensures it.will_return_none(),
        forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((x,), b) ==> b == h(x))
            ==> r == (forall|i: int| 0 <= i < it.remaining().len() ==> h(#[trigger] it.remaining()[i])),
{
    let v: Vec<I::Item> = it.collect();
    let mut ok = true;
    for x in w: v
        invariant
            forall|x: I::Item| f.requires((x,)),
            forall|h: spec_fn(I::Item) -> bool| #[trigger] tr(h) && (forall|x: I::Item, b: bool| f.ensures((x,), b) ==> b == h(x))
                ==> ok == (forall|i: int| 0 <= i < w.index@ ==> h(#[trigger] w.seq()[i])),
    { let b = f(x); ok = ok && b; }
    ok
}
