// ---------------------------------------------------------------- where things are in a Solidity file
/// the first c at or after i that is not part of a comment; -1 if there is none
pub open spec fn row_end(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == '\n' || s[i] == '\r' { i } else { row_end(s, i + 1) } }
pub open spec fn comment_end(s: Seq<char>, i: int) -> int {
    let k = find(s, seq!['*', '/'], i + 2);
    if k < 0 { s.len() as int } else { k + 2 }
}
pub open spec fn two(s: Seq<char>, i: int, a: char, b: char) -> bool { 0 <= i && i + 1 < s.len() && s[i] == a && s[i + 1] == b }
pub open spec fn onto(i: int, j: int, n: int) -> int { if i < j <= n { j } else { i + 1 } }
pub open spec fn outside(s: Seq<char>, i: int, c: char) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { -1 }
    else if s[i] == c { i }
    else if two(s, i, '/', '/') { outside(s, onto(i, row_end(s, i), s.len() as int), c) }
    else if two(s, i, '/', '*') { outside(s, onto(i, comment_end(s, i), s.len() as int), c) }
    else { outside(s, i + 1, c) }
}
/// a location in the file
pub open spec fn spot(l: pt::Loc, s: Seq<char>) -> bool {
    l is File && l->File_1 <= l->File_2 && l->File_1 < blen(s) && is_off(s, l->File_1 as int) && is_off(s, l->File_2 as int)
}
/// forge-fmt's `CodeLocationExt::loc`: the whole function, the whole part (uninterpreted)
pub uninterp spec fn fn_loc(f: pt::FunctionDefinition) -> pt::Loc;
pub uninterp spec fn part_loc(p: pt::ContractPart) -> pt::Loc;
/// the byte after a function
pub open spec fn fn_end(f: pt::FunctionDefinition, s: Seq<char>) -> int {
    let e = fn_loc(f)->File_2 as int;
    let k = outside(s, idx(s, e), ';');
    if f.body is Some || k < 0 { e } else { off(s, k) as int + 1 }
}
/// the byte after a contract's opening brace
pub open spec fn header_end(c: pt::ContractDefinition) -> int {
    if c.base@.len() > 0 { c.base@.last().loc->File_2 as int }
    else { match c.name { Some(n) => n.loc->File_2 as int, None => c.loc->File_1 as int } }
}
pub open spec fn body_start(c: pt::ContractDefinition, s: Seq<char>) -> int { off(s, outside(s, idx(s, header_end(c)), '{')) as int + 1 }
pub open spec fn whole(f: pt::FunctionDefinition, s: Seq<char>) -> bool { spot(fn_loc(f), s) && spot(f.loc, s) }
pub open spec fn contract_placed(c: pt::ContractDefinition, s: Seq<char>) -> bool {
    &&& spot(c.loc, s) && c.loc->File_1 < c.loc->File_2 && is_off(s, c.loc->File_2 - 1)
    &&& c.name matches Some(n) ==> spot(n.loc, s)
    &&& forall|i: int| 0 <= i < c.base@.len() ==> spot((#[trigger] c.base@[i]).loc, s)
    &&& outside(s, idx(s, header_end(c)), '{') >= 0
    &&& forall|i: int| 0 <= i < c.parts@.len() ==> spot(part_loc(#[trigger] c.parts@[i]), s) && part_loc(c.parts@[i])->File_1 < c.loc->File_2
    &&& forall|i: int| 0 <= i < c.parts@.len() ==> (#[trigger] c.parts@[i] matches pt::ContractPart::FunctionDefinition(f) ==> whole(*f, s))
    &&& forall|i: int| 0 <= i < c.parts@.len() ==> (#[trigger] c.parts@[i] matches pt::ContractPart::FunctionDefinition(f) ==>
        part_loc(c.parts@[0])->File_1 <= fn_loc(*f)->File_1 && fn_end(*f, s) < c.loc->File_2)
    &&& forall|i: int, j: int| 0 <= i < j < c.parts@.len() && c.parts@[i] is FunctionDefinition && c.parts@[j] is FunctionDefinition
        ==> fn_end(*(#[trigger] c.parts@[i])->FunctionDefinition_0, s) <= fn_loc(*(#[trigger] c.parts@[j])->FunctionDefinition_0)->File_1
}
/// what the parser guarantees about its locations
pub open spec fn placed(u: pt::SourceUnit, s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < u.0@.len() ==> (#[trigger] u.0@[i] matches pt::SourceUnitPart::ContractDefinition(c) ==> contract_placed(*c, s))
}
/// where a missing function goes: after the closest function before it in the tree that the contract has
pub open spec fn gap(c: pt::ContractDefinition, kids: Seq<SHir>, i: int, s: Seq<char>) -> int
    decreases i
{
    if i <= 0 || i > kids.len() { body_start(c, s) }
    else if kids[i - 1] is Fun && sol::matched(c.parts@, kids[i - 1]) {
        fn_end(*(c.parts@[sol::first_match(c.parts@, kids[i - 1])]->FunctionDefinition_0), s)
    } else { gap(c, kids, i - 1, s) }
}
