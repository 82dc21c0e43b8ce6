// ---------------------------------------------------------------- forge's formatter (trusted: a function of its input)
pub uninterp spec fn forge(s: Seq<char>) -> Option<Seq<char>>;
pub struct FmtErr { pub x: u8 }
pub uninterp spec fn fmt_err_text(e: FmtErr) -> Seq<char>;
impl VxDisp for FmtErr {
    open spec fn disp(&self) -> Seq<char> { fmt_err_text(*self) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn fmt(s: &String) -> (r: core::result::Result<String, FmtErr>)
    ensures match forge(s@) { Some(t) => r matches Ok(x) && x@ == t, None => r is Err },
{ unimplemented!() }

/// what scaffolding a file gives: its plan, printed and formatted
pub open spec fn formats_plan(r: AnyResult<String>, s: Seq<char>, cfg: Config) -> bool {
    match plan_of(s, cfg.emit_vm_skip) {
        PL::Plan(h) => match forge(clean(s_unit(h, cfg.solidity_version@, cfg.emit_vm_skip, cfg.skip_modifiers, true))) {
            Some(t) => r matches Ok(x) && x@ == t,
            None => r matches Err(AnyErr::Msg(_)),
        },
        PL::BadText(b) => r matches Err(e) && err_of(e, texts_of(s)[b]),
        PL::BadMerge(i) => r matches Err(AnyErr::Comb(e)) && combiner::c_err(planned_trees(s, cfg.emit_vm_skip), i, e, s),
    }
}
pub open spec fn scaffold_is(r: AnyResult<String>, s: Seq<char>, cfg: Config) -> bool {
    formats_plan(r, s, cfg) && ((roots_plain(s) || texts_of(s).len() == 1) && no_q(cfg.solidity_version@) ==> emits_plan(r, s, cfg))
}
/// when no name has a quote, what is formatted is the text of the plan, with all its comments in place, each on one line
pub open spec fn emits_plan(r: AnyResult<String>, s: Seq<char>, cfg: Config) -> bool {
    match plan_of(s, cfg.emit_vm_skip) {
        PL::Plan(h) => names_ok(h) && comments_ok(h) && match forge(s_unit(h, cfg.solidity_version@, cfg.emit_vm_skip, cfg.skip_modifiers, false)) {
            Some(t) => r matches Ok(x) && x@ == t,
            None => r matches Err(AnyErr::Msg(_)),
        },
        _ => true,
    }
}
