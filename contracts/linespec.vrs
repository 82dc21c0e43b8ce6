// ---------------------------------------------------------------- where a byte offset is
/// line breaks among the first n characters that start before byte o
pub open spec fn breaks(s: Seq<char>, o: int, n: int) -> nat
    decreases n
{
    if n <= 0 || n > s.len() { 0 }
    else { breaks(s, o, n - 1) + (if off(s, n - 1) < o && s[n - 1] == '\n' { 1nat } else { 0 }) }
}
/// characters since the last line break, among the same
pub open spec fn since(s: Seq<char>, o: int, n: int) -> nat
    decreases n
{
    if n <= 0 || n > s.len() { 0 }
    else if off(s, n - 1) < o { if s[n - 1] == '\n' { 0 } else { since(s, o, n - 1) + 1 } }
    else { since(s, o, n - 1) }
}
/// the 1-based line of byte o
pub open spec fn line_of(s: Seq<char>, o: int) -> nat { breaks(s, o, s.len() as int) + 1 }
pub open spec fn column_of(s: Seq<char>, o: int) -> nat { since(s, o, s.len() as int) + 1 }
