// ---------------------------------------------------------------- checking, and fixing, the files of a command
pub open spec fn env(c: Context) -> Env { Env { tree: path_text(c.tree), sol: path_text(c.sol), src: c.src@, skip: c.cfg.skip_modifiers } }
/// what Context::new gives for a file of the command
pub open spec fn context_for(r: core::result::Result<Context, Violation>, cli: Cli, f: PathBuf) -> bool {
    exists|cfg: Config| #[trigger] cfg_is(cfg, cli) && context_is(r, f, cfg)
}
pub open spec fn contexts_for(rs: Seq<core::result::Result<Context, Violation>>, files: Seq<PathBuf>, cli: Cli) -> bool {
    rs.len() == files.len() && forall|i: int| 0 <= i < rs.len() ==> context_for(#[trigger] rs[i], cli, files[i])
}
/// why some of the files cannot be checked, and what the others are checked with
pub open spec fn unmade(rs: Seq<core::result::Result<Context, Violation>>) -> Seq<SV>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { match rs.last() { Ok(_) => unmade(rs.drop_last()), Err(v) => unmade(rs.drop_last()).push(sv(v)) } } }
pub open spec fn made(rs: Seq<core::result::Result<Context, Violation>>) -> Seq<Context>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else { match rs.last() { Ok(c) => made(rs.drop_last()).push(c), Err(_) => made(rs.drop_last()) } } }
pub open spec fn wrong(c: Context) -> Seq<SV> { deviations(hv(c.hir), c.pt, env(c)) }
pub open spec fn all_wrong(cs: Seq<Context>, n: int) -> Seq<SV>
    decreases n
{ if n <= 0 || n > cs.len() { Seq::empty() } else { all_wrong(cs, n - 1) + wrong(cs[n - 1]) } }
/// everything that checking the files finds, in order
pub open spec fn report(rs: Seq<core::result::Result<Context, Violation>>) -> Seq<SV> {
    unmade(rs) + all_wrong(made(rs), made(rs).len() as int)
}
pub uninterp spec fn violation_text(v: Violation) -> Seq<char>;
pub open spec fn listed(x: SV) -> bool { exists|v: Violation| sv(v) == x && #[trigger] told(violation_text(v)) && reports(v, violation_text(v)) }
pub open spec fn all_listed(l: Seq<SV>) -> bool { forall|i: int| 0 <= i < l.len() ==> listed(#[trigger] l[i]) }

// ---------------------------------------------------------------- fixing a file
pub open spec fn misplaced(k: ViolationKind) -> bool { k is FunctionOrderMismatch }
/// the violations that are fixed one by one
pub open spec fn one_by_one(vs: Seq<Violation>, n: int) -> Seq<Violation>
    decreases n
{ if n <= 0 || n > vs.len() { Seq::empty() } else if misplaced(vs[n - 1].kind) { one_by_one(vs, n - 1) } else { one_by_one(vs, n - 1).push(vs[n - 1]) } }
/// fixing the violations l one after another gives the contexts ms
pub open spec fn fix_chain(l: Seq<Violation>, ms: Seq<Context>) -> bool {
    0 < ms.len() <= l.len() + 1 && forall|i: int| 0 <= i < ms.len() - 1 ==> fix_is((#[trigger] l[i]).kind, ms[i], ms[i + 1])
}
pub open spec fn some_misplaced(l: Seq<SV>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).kind is OutOfOrder }
pub open spec fn reordered(m: Context, r: Context) -> bool {
    match (contract_of(m.pt), plan_kids(hv(m.hir))) {
        (Some(c), Some(k)) if some_misplaced(wrong(m)) =>
            r.tree == m.tree && r.sol == m.sol && r.hir == m.hir && r.cfg == m.cfg
                && r.src@ == ordered(c, k, m.src@) && parsed_as(r.src@, r.pt) && r.comments == notes_of(r.src@),
        _ => r == m,
    }
}
/// the text that fixing the file of c gives
pub open spec fn mended(c: Context, t: Seq<char>) -> bool {
    exists|vs: Seq<Violation>, ms: Seq<Context>, r: Context| #![trigger fix_chain(one_by_one(vs, vs.len() as int), ms), reordered(ms.last(), r)]
        svs(vs) == wrong(c) && fix_chain(one_by_one(vs, vs.len() as int), ms) && ms.len() == one_by_one(vs, vs.len() as int).len() + 1
        && ms[0] == c && reordered(ms.last(), r)
        && t == (match pretty(r.src@, r.pt, r.comments) { Some(x) => x, None => r.src@ })
}
/// the text of a fixed file: written to the Solidity file (or an error), unless it is only to be shown
pub open spec fn delivered(x: Check, c: Context, t: Seq<char>) -> bool {
    x.stdout || written(c.sol, t) || unwritten(c.sol)
}
pub open spec fn fixed(x: Check, c: Context) -> bool { exists|t: Seq<char>| #[trigger] mended(c, t) && delivered(x, c, t) }
/// fixing may write t to p
pub open spec fn fix_writes(x: Check, cli: Cli, p: PathBuf, t: Seq<char>) -> bool {
    x.fix && !x.stdout && exists|c: Context, i: int| 0 <= i < x.files@.len() && #[trigger] context_for(Ok(c), cli, x.files@[i]) && mended(c, t) && p == c.sol
}
/// (assumed) the functions of a contract, put in another order, are still Solidity
pub open spec fn reorders() -> bool {
    forall|s: Seq<char>, u: SourceUnit, c: pt::ContractDefinition, k: Seq<SHir>| #![trigger ordered(c, k, s), parsed_as(s, u)]
        banner_is_comment() && parsed_as(s, u) && contract_of(u) == Some(c) && c.parts@.len() > 0 ==> pt_of(ordered(c, k, s)) is Some
}
