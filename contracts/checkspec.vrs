// ---------------------------------------------------------------- the deviations of a Solidity file from a plan
/// a path as text (std's `to_string_lossy`)
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;

pub ghost enum VK {
    ContractMissing(Seq<char>),
    NameDiffers(Seq<char>, Seq<char>),
    NoFile(Seq<char>),
    Unreadable,
    OutOfOrder(pt::FunctionDefinition, int, int),
    FnMissing(SHir, int),
    Unparsable(AnyErr),
}
pub ghost enum VL { At(Seq<char>, int), In(Seq<char>) }
pub ghost struct SV { pub kind: VK, pub loc: VL }
pub open spec fn vkind(k: ViolationKind) -> VK {
    match k {
        ViolationKind::ContractMissing(n) => VK::ContractMissing(n@),
        ViolationKind::ContractNameNotMatches(a, b) => VK::NameDiffers(a@, b@),
        ViolationKind::SolidityFileMissing(f) => VK::NoFile(f@),
        ViolationKind::FileUnreadable => VK::Unreadable,
        ViolationKind::FunctionOrderMismatch(f, s, h) => VK::OutOfOrder(f, s as int, h as int),
        ViolationKind::MatchingFunctionMissing(f, h) => VK::FnMissing(fv(f), h as int),
        ViolationKind::ParsingFailed(e) => VK::Unparsable(e),
    }
}
pub open spec fn vloc(l: Location) -> VL { match l { Location::Code(f, n) => VL::At(f@, n as int), Location::File(f) => VL::In(f@) } }
pub open spec fn sv(v: Violation) -> SV { SV { kind: vkind(v.kind), loc: vloc(v.location) } }
pub open spec fn svs(v: Seq<Violation>) -> Seq<SV> { v.map_values(|x: Violation| sv(x)) }

//@@ include plannedspec

/// what is compared: the texts of both paths, the file and its parse tree, the option
pub ghost struct Env { pub tree: Seq<char>, pub sol: Seq<char>, pub src: Seq<char>, pub skip: bool }

/// the contract has another name
pub open spec fn name_deviation(name: Seq<char>, c: pt::ContractDefinition, e: Env) -> Seq<SV> {
    match c.name {
        Some(i) => if i.name@ == san(name) { Seq::empty() }
            else { seq![SV { kind: VK::NameDiffers(san(name), i.name@), loc: VL::At(e.sol, line_of(e.src, c.loc->File_1 as int) as int) }] },
        None => Seq::empty(),
    }
}
/// the first n planned functions: those without a match
pub open spec fn missing(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, e: Env, n: int) -> Seq<SV>
    decreases n
{
    if n <= 0 || n > kids.len() { Seq::empty() }
    else {
        let r = missing(kids, parts, e, n - 1);
        match kids[n - 1] {
            SHir::Fun { modifier, span, .. } =>
                if sol::matched(parts, kids[n - 1]) || (e.skip && modifier) { r }
                else { r.push(SV { kind: VK::FnMissing(kids[n - 1], n - 1), loc: VL::At(e.tree, span.start.line as int) }) },
            _ => r,
        }
    }
}
/// the first n planned functions: those with a match, and the match
pub open spec fn present(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, n: int) -> Seq<(usize, usize)>
    decreases n
{
    if n <= 0 || n > kids.len() { Seq::empty() }
    else {
        let r = present(kids, parts, n - 1);
        if kids[n - 1] is Fun && sol::matched(parts, kids[n - 1]) { r.push(((n - 1) as usize, sol::first_match(parts, kids[n - 1]) as usize)) } else { r }
    }
}
/// stands after a match of a later planned function
pub open spec fn inverted(p: Seq<(usize, usize)>, i: int, j: int) -> bool {
    exists|k: int| i < k < j && p[i].1 > (#[trigger] p[k]).1
}
pub open spec fn late(p: Seq<(usize, usize)>, n: int) -> Seq<(usize, usize)>
    decreases n
{
    if n <= 0 || n > p.len() { Seq::empty() }
    else if inverted(p, n - 1, p.len() as int) { late(p, n - 1).push(p[n - 1]) }
    else { late(p, n - 1) }
}
pub open spec fn disordered(l: Seq<(usize, usize)>, parts: Seq<pt::ContractPart>, e: Env) -> Seq<SV> {
    l.map_values(|x: (usize, usize)| {
        let f = *(parts[x.1 as int]->FunctionDefinition_0);
        SV { kind: VK::OutOfOrder(f, x.1 as int, x.0 as int), loc: VL::At(e.sol, line_of(e.src, f.loc->File_1 as int) as int) }
    })
}
pub open spec fn fn_deviations(kids: Seq<SHir>, parts: Seq<pt::ContractPart>, e: Env) -> Seq<SV> {
    let p = present(kids, parts, kids.len() as int);
    missing(kids, parts, e, kids.len() as int) + disordered(late(p, p.len() as int), parts, e)
}
/// everything that check reports, in order
pub open spec fn deviations(h: SHir, u: pt::SourceUnit, e: Env) -> Seq<SV> {
    let kids = h->Root_kids;
    let k = planned_at(kids, 0);
    let c = sol::contract_at(u.0@, 0);
    if c >= u.0@.len() {
        if k < kids.len() { seq![SV { kind: VK::ContractMissing(kids[k]->Contract_name), loc: VL::In(e.tree) }] } else { Seq::empty() }
    } else {
        let d = *(u.0@[c]->ContractDefinition_0);
        name_deviation(kids[k]->Contract_name, d, e) + fn_deviations(kids[k]->Contract_kids, d.parts@, e)
    }
}
/// positions in the parse tree are positions in the file
pub open spec fn lies_in(l: pt::Loc, s: Seq<char>) -> bool { l is File && l->File_1 < blen(s) }
pub open spec fn contract_in(c: pt::ContractDefinition, s: Seq<char>) -> bool {
    lies_in(c.loc, s) && forall|i: int| 0 <= i < c.parts@.len() ==> (#[trigger] c.parts@[i] matches pt::ContractPart::FunctionDefinition(f) ==> lies_in(f.loc, s))
}
pub open spec fn tree_in(u: pt::SourceUnit, s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < u.0@.len() ==> (#[trigger] u.0@[i] matches pt::SourceUnitPart::ContractDefinition(c) ==> contract_in(*c, s))
}
