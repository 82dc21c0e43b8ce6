//@@ include patching
// ---------------------------------------------------------------- reordering
/// the parts that the first n planned functions match, each once, in the order of the plan
pub open spec fn chosen(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 || n > kids.len() { Seq::empty() }
    else {
        let r = chosen(kids, parts, n - 1);
        let m = sol::first_match(parts, kids[n - 1]);
        if kids[n - 1] is Fun && m < parts.len() && !r.contains(m) { r.push(m) } else { r }
    }
}
pub open spec fn fn_at(parts: Seq<pt::ContractPart>, m: int) -> pt::FunctionDefinition { *(parts[m]->FunctionDefinition_0) }
/// bytes a to b of s
pub open spec fn cut(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(idx(s, a), idx(s, b)) }
pub open spec fn fn_text(f: pt::FunctionDefinition, s: Seq<char>) -> Seq<char> { cut(s, fn_loc(f)->File_1 as int, fn_end(f, s)) }
pub open spec fn fn_texts(l: Seq<int>, parts: Seq<pt::ContractPart>, s: Seq<char>) -> Seq<Seq<char>> { l.map_values(|m: int| fn_text(fn_at(parts, m), s)) }
/// s with the first n of these functions blanked
pub open spec fn blanked(l: Seq<int>, n: int, parts: Seq<pt::ContractPart>, s: Seq<char>) -> Seq<char>
    decreases n
{
    if n <= 0 || n > l.len() { s }
    else {
        let f = fn_at(parts, l[n - 1]);
        let (a, b) = (fn_loc(f)->File_1 as int, fn_end(f, s));
        patch(blanked(l, n - 1, parts, s), a, b, rep(" "@, b - a))
    }
}
/// the chosen functions first, then everything else of the contract
pub open spec fn ordered(c: pt::ContractDefinition, kids: Seq<SHir>, s: Seq<char>) -> Seq<char> {
    let l = chosen(kids, c.parts@, kids.len() as int);
    let (a, b) = (part_loc(c.parts@[0])->File_1 as int, c.loc->File_2 - 1);
    s.take(idx(s, a)) + jn(fn_texts(l, c.parts@, s), "\n\n"@) + (if l.len() == c.parts@.len() { Seq::empty() } else { banner() })
        + cut(blanked(l, l.len() as int, c.parts@, s), a, b) + s.skip(idx(s, b))
}
