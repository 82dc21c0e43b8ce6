pub open spec fn line_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == '\n' { i } else { line_end(s, i + 1) } }
/// std's notion of lines: a final line may be empty only before its `\n`; `\r\n` ends lines too
pub open spec fn lines_from(s: Seq<char>, i: int) -> Seq<Seq<char>>
    decreases s.len() + 1 - i
{
    let e = line_end(s, i);
    if i < 0 || i >= s.len() || e < i || e > s.len() { Seq::empty() }
    else {
        let e2 = if e < s.len() && e > i && s[e - 1] == '\r' { e - 1 } else { e };
        seq![s.subrange(i, e2)] + lines_from(s, e + 1)
    }
}
