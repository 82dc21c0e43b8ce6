/// s with bytes a to b replaced with t
pub open spec fn patch(s: Seq<char>, a: int, b: int, t: Seq<char>) -> Seq<char> { s.take(idx(s, a)) + t + s.skip(idx(s, b)) }
