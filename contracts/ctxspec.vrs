// ---------------------------------------------------------------- what check compares
pub open spec fn text_is(r: core::result::Result<String, Violation>, p: PathBuf) -> bool {
    match r {
        Ok(t) => was_read(p, t@),
        Err(v) => unread(p) && sv(v) == (SV { kind: VK::Unreadable, loc: VL::In(path_text(p)) }),
    }
}
pub open spec fn sol_path_is(r: core::result::Result<PathBuf, Violation>, tree: PathBuf, ext: Seq<char>) -> bool {
    let sol = with_ext(tree, ext);
    match r {
        Ok(p) => p == sol && seen(sol),
        Err(v) => unseen(sol) && sv(v) == (SV { kind: VK::NoFile(path_text(tree)), loc: VL::In(path_text(tree)) }),
    }
}
/// the tree's text t cannot be planned: e says why
pub open spec fn unplannable(t: Seq<char>, e: AnyErr) -> bool {
    match plan_of(t, false) {
        PL::Plan(_) => false,
        PL::BadText(b) => err_of(e, texts_of(t)[b]),
        PL::BadMerge(i) => e matches AnyErr::Comb(c) && combiner::c_err(planned_trees(t, false), i, c, t),
    }
}
pub open spec fn sol_ext() -> Seq<char> { seq!['t', '.', 's', 'o', 'l'] }
/// the plan of the tree and the parse tree of the file next to it, or the one of the two that is at fault
pub open spec fn context_is(r: core::result::Result<Context, Violation>, tree: PathBuf, cfg: Config) -> bool {
    let sol = with_ext(tree, sol_ext());
    match r {
        Ok(c) => {
            &&& c.tree == tree && c.sol == sol && c.cfg == cfg
            &&& exists|t: Seq<char>| #[trigger] was_read(tree, t) && plan_of(t, false) == PL::Plan(hv(c.hir))
            &&& seen(sol) && was_read(sol, c.src@) && parsed_as(c.src@, c.pt) && c.comments == notes_of(c.src@)
        }
        Err(v) => match (vkind(v.kind), vloc(v.location)) {
            (VK::Unreadable, VL::In(p)) => (p == path_text(tree) && unread(tree)) || (p == path_text(sol) && seen(sol) && unread(sol)),
            (VK::NoFile(f), VL::In(p)) => f == path_text(tree) && p == path_text(tree) && unseen(sol),
            (VK::Unparsable(e), VL::In(p)) =>
                (p == path_text(tree) && exists|t: Seq<char>| #[trigger] was_read(tree, t) && unplannable(t, e))
                || (p == path_text(sol) && e is Msg && exists|s: Seq<char>| #[trigger] was_read(sol, s) && pt_of(s) is None),
            _ => false,
        },
    }
}
