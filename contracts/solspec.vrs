// ---------------------------------------------------------------- the parse tree of a planned contract
// (locations are not specified: nothing is printed from them)
pub open spec fn id_is(i: Identifier, n: Seq<char>) -> bool { i.name@ == n }
pub open spec fn path_is(p: IdentifierPath, n: Seq<char>) -> bool { p.identifiers@.len() == 1 && id_is(p.identifiers@[0], n) }
pub open spec fn base_is(b: Base, n: Seq<char>) -> bool { path_is(b.name, n) && b.args is None }
pub open spec fn str_is(l: StringLiteral, s: Seq<char>) -> bool { !l.unicode && l.string@ == s }
pub open spec fn var_is(e: Expression, n: Seq<char>) -> bool { e matches Expression::Variable(i) && id_is(i, n) }

pub open spec fn oid_is(i: Option<Identifier>, n: Seq<char>) -> bool { match i { Some(i) => id_is(i, n), None => false } }
pub open spec fn is_string_ty(e: Expression) -> bool { match e { Expression::Type(_, t) => t is String, _ => false } }
pub open spec fn is_vm_skip_fn(e: Expression) -> bool { match e { Expression::MemberAccess(_, o, m) => var_is(*o, "vm"@) && id_is(m, "skip"@), _ => false } }
pub open spec fn is_true(e: Expression) -> bool { match e { Expression::BoolLiteral(_, b) => b, _ => false } }
/// a comment, disguised as the definition of a variable
pub open spec fn comment_is(s: Statement, c: Seq<char>) -> bool {
    match s {
        Statement::VariableDefinition(_, d, Some(Expression::StringLiteral(v))) =>
            is_string_ty(d.ty) && d.storage is None && oid_is(d.name, "__bulloak_comment__"@) && v@.len() == 1 && str_is(v@[0], c),
        _ => false,
    }
}
pub open spec fn is_vm_skip(s: Statement) -> bool {
    match s {
        Statement::Expression(_, Expression::FunctionCall(_, f, a)) => is_vm_skip_fn(*f) && a@.len() == 1 && is_true(a@[0]),
        _ => false,
    }
}
/// one statement of a test
pub open spec fn stmt_is(s: Statement, h: SHir) -> bool {
    match h { SHir::Comment(c) => comment_is(s, c), SHir::Skip => is_vm_skip(s), _ => false }
}
pub open spec fn placeholder(s: Statement) -> bool {
    s matches Statement::VariableDefinition(_, d, i) && i is None && var_is(d.ty, "_"@) && d.storage is None && d.name is None
}
/// what a test's body prints: its comments and statements
pub open spec fn printed(b: Seq<SHir>, n: int) -> Seq<SHir>
    decreases n
{
    if n <= 0 || n > b.len() { Seq::empty() }
    else { match b[n - 1] { SHir::Comment(_) | SHir::Skip => printed(b, n - 1).push(b[n - 1]), _ => printed(b, n - 1) } }
}
pub open spec fn stmts_are(v: Seq<Statement>, b: Seq<SHir>) -> bool {
    let p = printed(b, b.len() as int);
    v.len() == p.len() && forall|i: int| 0 <= i < v.len() ==> stmt_is(#[trigger] v[i], p[i])
}
pub open spec fn mods_are(v: Seq<FunctionAttribute>, m: Seq<Seq<char>>) -> bool {
    v.len() == m.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches FunctionAttribute::BaseOrModifier(_, b) && base_is(b, m[i]))
}
pub open spec fn external_attr(a: FunctionAttribute) -> bool { a matches FunctionAttribute::Visibility(v) && v is External }
pub open spec fn fn_is(f: FunctionDefinition, h: SHir) -> bool {
    h matches SHir::Fun { name, modifier, mods, body, .. } && {
        &&& oid_is(f.name, name)
        &&& f.params@.len() == 0 && f.returns@.len() == 0 && f.return_not_returns is None
        &&& match f.body {
            Some(Statement::Block { unchecked, statements, .. }) => !unchecked
                && if modifier { statements@.len() == 1 && placeholder(statements@[0]) }
                   else { stmts_are(statements@, if body is Some { body->0 } else { Seq::empty() }) },
            _ => false,
        }
        &&& if modifier { f.ty is Modifier && f.attributes@.len() == 0 }
            else {
                f.ty is Function && f.attributes@.len() >= 1 && external_attr(f.attributes@[0])
                    && mods_are(f.attributes@.skip(1), if mods is Some { mods->0 } else { Seq::empty() })
            }
    }
}
/// the functions of a contract that are printed
pub open spec fn shown(kids: Seq<SHir>, n: int, skip_mods: bool) -> Seq<SHir>
    decreases n
{
    if n <= 0 || n > kids.len() { Seq::empty() }
    else {
        match kids[n - 1] {
            SHir::Fun { modifier, .. } => if modifier && skip_mods { shown(kids, n - 1, skip_mods) } else { shown(kids, n - 1, skip_mods).push(kids[n - 1]) },
            _ => shown(kids, n - 1, skip_mods),
        }
    }
}
pub open spec fn fns_are(v: Seq<ContractPart>, hs: Seq<SHir>) -> bool {
    v.len() == hs.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] matches ContractPart::FunctionDefinition(f) && fn_is(*f, hs[i]))
}
pub open spec fn contract_is(p: SourceUnitPart, h: SHir, test: bool, skip_mods: bool) -> bool {
    h matches SHir::Contract { name, kids } && p matches SourceUnitPart::ContractDefinition(c) && {
        &&& c.ty is Contract && oid_is(c.name, name)
        &&& if test { c.base@.len() == 1 && base_is(c.base@[0], "Test"@) } else { c.base@.len() == 0 }
        &&& fns_are(c.parts@, shown(kids, kids.len() as int, skip_mods))
    }
}
pub open spec fn pragma_is(p: SourceUnitPart, version: Seq<char>) -> bool {
    p matches SourceUnitPart::PragmaDirective(_, Some(i), Some(s)) && id_is(i, "solidity"@) && str_is(s, version)
}
pub open spec fn import_is(p: SourceUnitPart) -> bool {
    p matches SourceUnitPart::ImportDirective(Import::Rename(ImportPath::Filename(l), v, _)) && str_is(l, "forge-std/Test.sol"@)
        && v@.len() == 1 && id_is(v@[0].0, "Test"@) && v@[0].1 is None
}
pub open spec fn contracts(kids: Seq<SHir>, n: int) -> Seq<SHir>
    decreases n
{
    if n <= 0 || n > kids.len() { Seq::empty() }
    else if kids[n - 1] is Contract { contracts(kids, n - 1).push(kids[n - 1]) }
    else { contracts(kids, n - 1) }
}
pub open spec fn unit_is(u: SourceUnit, h: SHir, version: Seq<char>, test: bool, skip_mods: bool) -> bool {
    h matches SHir::Root { kids } && {
        let k: int = if test { 2 } else { 1 };
        let cs = contracts(kids, kids.len() as int);
        &&& u.0@.len() == k + cs.len() && pragma_is(u.0@[0], version) && (test ==> import_is(u.0@[1]))
        &&& forall|i: int| k <= i < u.0@.len() ==> contract_is(#[trigger] u.0@[i], cs[i - k], test, skip_mods)
    }
}
