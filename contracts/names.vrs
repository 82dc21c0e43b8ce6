// ---------------------------------------------------------------- names
/// Unicode tables (trusted)
pub uninterp spec fn xid_continue(c: char) -> bool;
pub uninterp spec fn up_char(c: char) -> Seq<char>;
pub uninterp spec fn low_char(c: char) -> Seq<char>;

/// sanitizing: `-` becomes `_`, characters that cannot continue an identifier are
/// dropped (spaces stay), nothing else changes
pub open spec fn san(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let c = if s.last() == '-' { '_' } else { s.last() };
        if xid_continue(c) || c == ' ' { san(s.drop_last()).push(c) } else { san(s.drop_last()) }
    }
}

/// first letter in upper / lower case
pub open spec fn cap(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { up_char(s[0]) + s.skip(1) } }
pub open spec fn uncap(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { low_char(s[0]) + s.skip(1) } }

/// the words of a text capitalised and joined
pub open spec fn pascal(s: Seq<char>) -> Seq<char> { cat(caps(words(s))) }
pub open spec fn caps(w: Seq<Seq<char>>) -> Seq<Seq<char>> { w.map_values(|x: Seq<char>| cap(x)) }
pub open spec fn camel(s: Seq<char>) -> Seq<char> { uncap(pascal(s)) }
