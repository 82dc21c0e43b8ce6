//@@ include common
//@@ method char_indices = vx_char_indices

verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include linespec
/// std's `char_indices` (trusted)
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: std::vec::IntoIter<(usize, char)>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r.remaining()[i]).0 == off(s@, i) && r.remaining()[i].1 == s@[i],
{ s.char_indices().collect::<Vec<_>>().into_iter() }
proof fn lemma_rest(s: Seq<char>, o: int, k: int, n: int)
    requires 0 <= k <= n <= s.len(), k < s.len() ==> off(s, k) >= o,
    ensures breaks(s, o, n) == breaks(s, o, k), since(s, o, n) == since(s, o, k),
    decreases n - k,
{ if k < n { lemma_rest(s, o, k, n - 1); lemma_off_mono(s, k, n - 1); } }
proof fn lemma_small(s: Seq<char>, o: int, n: int)
    requires 0 <= n <= s.len(),
    ensures breaks(s, o, n) <= n, since(s, o, n) <= n, n <= off(s, n), n <= blen(s),
    decreases n,
{ lemma_off_mono(s, 0, n); lemma_off_mono(s, n, s.len() as int); if n > 0 { lemma_small(s, o, n - 1); } }

//@@ fn crates/foundry/src/check/utils.rs offset_to_line_column
    requires start < blen(content@),
    ensures r.0 == line_of(content@, start as int), r.1 == column_of(content@, start as int),
//@@ at start
    proof { lemma_small(content@, start as int, content@.len() as int); }
//@@ loop 0
    invariant
        vx_it0.seq().len() == content@.len(), blen(content@) <= isize::MAX, content@.len() <= blen(content@),
        forall|i: int| 0 <= i < content@.len() ==> (#[trigger] vx_it0.seq()[i]).0 == off(content@, i) && vx_it0.seq()[i].1 == content@[i],
        line_counter == breaks(content@, start as int, vx_it0.index@) + 1,
        column_counter == since(content@, start as int, vx_it0.index@) + 1,
    ensures line_counter == line_of(content@, start as int), column_counter == column_of(content@, start as int),
//@@ at loop 0 start
    proof {
        let k = vx_it0.index@;
        lemma_small(content@, start as int, k);
        if off(content@, k) >= start { lemma_rest(content@, start as int, k, content@.len() as int); }
    }
//@@ end
//@@ fn crates/foundry/src/check/utils.rs offset_to_line
    requires start < blen(content@),
    ensures r == line_of(content@, start as int),
//@@ end
}
fn main() {}
