//@@ include joining

/// `to_string` of a string (trusted)
pub broadcast axiom fn axiom_string_to_string(s: &String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r),
    ensures r@ == s@;
/// solang's `Display` of what it prints itself (trusted; axioms for the shapes that bulloak emits)
pub uninterp spec fn show<T: VxShow>(x: T) -> Seq<char>;
pub trait VxShow: Sized {}
impl<T: VxShow> VxDisp for T {
    open spec fn disp(&self) -> Seq<char> { show(*self) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
impl VxShow for SourceUnitPart {}
impl VxShow for ContractTy {}
impl VxShow for Identifier {}
impl VxShow for FunctionTy {}
impl VxShow for FunctionAttribute {}
impl VxShow for Parameter {}
impl VxShow for Statement {}
impl VxShow for Expression {}
impl VxShow for Annotation {}
impl VxShow for EnumDefinition {}
impl VxShow for StructDefinition {}
impl VxShow for EventDefinition {}
impl VxShow for ErrorDefinition {}
impl VxShow for VariableDefinition {}
impl VxShow for TypeDefinition {}
impl VxShow for Using {}

pub open spec fn marker() -> Seq<char> { "string __bulloak_comment__ = \""@ }
pub open spec fn marked(c: Seq<char>) -> Seq<char> { marker() + c + "\";"@ }
pub broadcast axiom fn axiom_show_contract_ty(x: ContractTy)
    requires x is Contract,
    ensures #[trigger] show(x) == "contract"@;
pub broadcast axiom fn axiom_show_identifier(x: Identifier)
    ensures #[trigger] show(x) == x.name@;
pub broadcast axiom fn axiom_show_fn_ty(x: FunctionTy)
    ensures x is Function ==> #[trigger] show(x) == "function"@, x is Modifier ==> show(x) == "modifier"@;
pub broadcast axiom fn axiom_show_attr(x: FunctionAttribute)
    ensures external_attr(x) ==> #[trigger] show(x) == "external"@;
pub open spec fn mod_is(x: FunctionAttribute, n: Seq<char>) -> bool { match x { FunctionAttribute::BaseOrModifier(_, b) => base_is(b, n), _ => false } }
pub broadcast axiom fn axiom_show_mod(x: FunctionAttribute, n: Seq<char>)
    requires #[trigger] mod_is(x, n),
    ensures show(x) == n;
pub broadcast axiom fn axiom_show_pragma(x: SourceUnitPart, v: Seq<char>)
    requires #[trigger] pragma_is(x, v),
    ensures show(x) == "pragma solidity "@ + v + ";"@;
pub broadcast axiom fn axiom_show_import(x: SourceUnitPart)
    requires #[trigger] import_is(x),
    ensures show(x) == "import {Test} from \"forge-std/Test.sol\";"@;
pub broadcast axiom fn axiom_show_comment(x: Statement, c: Seq<char>)
    requires #[trigger] comment_is(x, c),
    ensures show(x) == marked(c);
pub broadcast axiom fn axiom_show_placeholder(x: Statement)
    requires #[trigger] placeholder(x),
    ensures show(x) == "_;"@;
pub broadcast axiom fn axiom_show_skip(x: Expression)
    requires #[trigger] skip_call(x),
    ensures show(x) == "vm.skip(true)"@;
pub open spec fn skip_call(e: Expression) -> bool {
    match e { Expression::FunctionCall(_, f, a) => is_vm_skip_fn(*f) && a@.len() == 1 && is_true(a@[0]), _ => false }
}
pub broadcast group show_axioms {
    axiom_show_contract_ty, axiom_show_identifier, axiom_show_fn_ty, axiom_show_attr, axiom_show_mod, axiom_show_pragma, axiom_show_import, axiom_show_comment, axiom_show_placeholder, axiom_show_skip,
}

// the text of a parse tree
pub open spec fn t_expr(e: Expression) -> Seq<char> {
    match e {
        Expression::Variable(i) => if i.name@ == "_"@ { "_;"@ } else { show(i) },
        Expression::FunctionCall(_, _, _) => show(e) + ";"@,
        _ => show(e),
    }
}
pub open spec fn t_stmt(s: Statement) -> Seq<char>
    decreases s, 1int, 0int
{
    match s {
        Statement::Block { loc, unchecked, statements } => {
            let n = statements@.len() as int;
            (if unchecked { "unchecked "@ } else { Seq::empty() }) + "{\n"@ + jn(t_block(s, n), "\n"@) + (if n == 0 { Seq::empty() } else { "\n"@ }) + "}"@
        }
        Statement::Expression(_, e) => t_expr(e),
        _ => show(s),
    }
}
/// the first n statements of a block
pub open spec fn t_block(s: Statement, n: int) -> Seq<Seq<char>>
    decreases s, 0int, n
{
    match s {
        Statement::Block { loc, unchecked, statements } =>
            if n <= 0 || n > statements@.len() { Seq::empty() } else { t_block(s, n - 1).push(t_stmt(statements@[n - 1])) },
        _ => Seq::empty(),
    }
}
pub proof fn lemma_block(s: Statement, n: int)
    requires s is Block, 0 <= n <= s->statements@.len(),
    ensures t_block(s, n) == t_stmts(s->statements@.take(n)),
    decreases n,
{
    if n > 0 {
        lemma_block(s, n - 1);
        assert(s->statements@.take(n).drop_last() =~= s->statements@.take(n - 1));
        assert(t_stmts(s->statements@.take(n)) =~= t_stmts(s->statements@.take(n - 1)).push(t_stmt(s->statements@[n - 1])));
        match s { Statement::Block { loc, unchecked, statements } => { assert(t_block(s, n) == t_block(s, n - 1).push(t_stmt(statements@[n - 1]))); } _ => {} }
    } else { assert(t_block(s, n) =~= t_stmts(s->statements@.take(n))); }
}
pub open spec fn t_stmts(v: Seq<Statement>) -> Seq<Seq<char>> { v.map_values(|x: Statement| t_stmt(x)) }
pub broadcast proof fn lemma_blocks(s: Statement)
    requires s is Block,
    ensures #[trigger] t_stmt(s) == (if s->unchecked { "unchecked "@ } else { Seq::empty() }) + "{\n"@ + jn(t_stmts(s->statements@), "\n"@)
        + (if s->statements@.len() == 0 { Seq::empty() } else { "\n"@ }) + "}"@,
{
    lemma_block(s, s->statements@.len() as int);
    assert(s->statements@.take(s->statements@.len() as int) =~= s->statements@);
    match s { Statement::Block { loc, unchecked, statements } => {} _ => {} }
}
pub open spec fn t_params(v: ParameterList, n: int) -> Seq<Seq<char>>
    decreases n
{
    if n <= 0 || n > v@.len() { Seq::empty() }
    else { match v@[n - 1].1 { Some(p) => t_params(v, n - 1).push(show(p)), None => t_params(v, n - 1) } }
}
pub open spec fn t_attrs(v: Seq<FunctionAttribute>) -> Seq<Seq<char>> { v.map_values(|x: FunctionAttribute| show(x)) }
pub open spec fn t_fn(f: FunctionDefinition) -> Seq<char> {
    show(f.ty) + " "@ + (match f.name { Some(n) => show(n), None => Seq::empty() })
        + "("@ + jn(t_params(f.params, f.params@.len() as int), ", "@) + ")"@
        + (if f.attributes@.len() == 0 { Seq::empty() } else { " "@ + jn(t_attrs(f.attributes@), " "@) })
        + (if f.returns@.len() == 0 { Seq::empty() } else { " returns ("@ + jn(t_params(f.returns, f.returns@.len() as int), " "@) + ")"@ })
        + (match f.body { Some(b) => " "@ + t_stmt(b), None => ";"@ })
}
pub open spec fn t_cpart(p: ContractPart) -> Seq<char> {
    match p {
        ContractPart::FunctionDefinition(f) => t_fn(*f),
        ContractPart::StraySemicolon(_) => ";"@,
        ContractPart::EnumDefinition(x) => show(*x),
        ContractPart::StructDefinition(x) => show(*x),
        ContractPart::EventDefinition(x) => show(*x),
        ContractPart::ErrorDefinition(x) => show(*x),
        ContractPart::VariableDefinition(x) => show(*x),
        ContractPart::TypeDefinition(x) => show(*x),
        ContractPart::Annotation(x) => show(*x),
        ContractPart::Using(x) => show(*x),
    }
}
pub open spec fn t_cparts(v: Seq<ContractPart>) -> Seq<Seq<char>> { v.map_values(|x: ContractPart| t_cpart(x)) }
pub open spec fn t_bases(v: Seq<Base>) -> Seq<Seq<char>> { v.map_values(|x: Base| x.name.identifiers@[0].name@) }
pub open spec fn named_bases(v: Seq<Base>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).name.identifiers@.len() > 0 }
pub open spec fn t_contract(c: ContractDefinition) -> Seq<char> {
    show(c.ty) + " "@ + (match c.name { Some(n) => san(n.name@) + " "@, None => Seq::empty() })
        + (if c.base@.len() == 0 { Seq::empty() } else { "is "@ + jn(t_bases(c.base@), ", "@) + " "@ })
        + "{"@ + jn(t_cparts(c.parts@), "\n\n"@) + "}"@
}
pub open spec fn t_part(p: SourceUnitPart) -> Seq<char> {
    match p {
        SourceUnitPart::PragmaDirective(_, _, _) => "// SPDX-License-Identifier: UNLICENSED\n"@ + show(p),
        SourceUnitPart::ContractDefinition(c) => t_contract(*c),
        SourceUnitPart::FunctionDefinition(f) => t_fn(*f),
        SourceUnitPart::StraySemicolon(_) => ";"@,
        _ => show(p),
    }
}
pub open spec fn printable(p: SourceUnitPart) -> bool { p matches SourceUnitPart::ContractDefinition(c) ==> named_bases(c.base@) }
pub open spec fn t_parts(v: Seq<SourceUnitPart>) -> Seq<Seq<char>> { v.map_values(|x: SourceUnitPart| t_part(x)) }
pub open spec fn t_unit(u: SourceUnit) -> Seq<char> { jn(t_parts(u.0@), "\n"@) }

// ---------------------------------------------------------------- comments
/// last occurrence of p in s at or before i; -1 if none
pub open spec fn rfind(s: Seq<char>, p: Seq<char>, i: int) -> int
    decreases i + 1
{ if i < 0 { -1 } else if at(s, p, i) { i } else { rfind(s, p, i - 1) } }
/// one line, its disguised comment unveiled
pub open spec fn clean_line(l: Seq<char>) -> Seq<char> {
    let k = find(l, marker(), 0);
    let a = k + marker().len();
    let j = rfind(l, "\";"@, l.len() as int);
    if k < 0 || j < a { l } else { l.take(k) + "// "@ + l.subrange(a, j) + l.skip(j + 2) }
}
pub open spec fn eol(s: Seq<char>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || s[i] == '\n' { i } else { eol(s, i + 1) } }
/// every line
pub open spec fn clean(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    let e = eol(s, 0);
    if e < 0 || e >= s.len() { clean_line(s) } else { clean_line(s.take(e)) + seq!['\n'] + clean(s.skip(e + 1)) }
}
// ---------------------------------------------------------------- the regular expression (trusted)
#[verifier::external_body]
pub struct Regex { p: String }
pub uninterp spec fn re_pattern(r: Regex) -> Seq<char>;
pub uninterp spec fn re_valid(p: Seq<char>) -> bool;
pub uninterp spec fn re_replaced(p: Seq<char>, s: Seq<char>, to: Seq<char>) -> Seq<char>;
#[derive(Debug)]
pub struct RegexError;
pub broadcast axiom fn axiom_re_valid()
    ensures #[trigger] re_valid("string __bulloak_comment__ = \"(.*)\";"@);
pub broadcast axiom fn axiom_re_replaced(s: Seq<char>)
    ensures #[trigger] re_replaced("string __bulloak_comment__ = \"(.*)\";"@, s, "// $1"@) == clean(s);
impl Regex {
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: std::result::Result<Regex, RegexError>)
        ensures re_valid(p@) ==> r is Ok && re_pattern(r->Ok_0) == p@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_all(&self, s: &str, to: &str) -> (r: String)
        ensures r@ == re_replaced(re_pattern(*self), s@, to@),
    { unimplemented!() }
}
