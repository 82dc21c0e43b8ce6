//@@ path crate::cli =
//@@ prints
//@@ include roundpre
impl Scaffold {
//@@ fn crates/bulloak/src/scaffold.rs Scaffold::run stub from=cliscaffold
//@@ end
}
impl Check {
//@@ fn crates/bulloak/src/check.rs Check::run stub from=clicheck
//@@ end
}
/// what the command line asks for
pub uninterp spec fn asked(c: Cli) -> bool;
impl Cli {
    /// clap (trusted: it gives the command that was asked for, or ends the process itself)
    #[verifier::external_body]
    pub fn parse() -> (r: Cli) ensures asked(r) { unimplemented!() }
}
/// what a command may write, and when it may exit with a failure
pub open spec fn permitted(c: Cli) -> bool {
    match c.command {
        Commands::Scaffold(x) =>
            (forall|p: PathBuf, t: Seq<char>, f: PathBuf| x.files@.contains(f) && #[trigger] writable(x, c, f, p, t) ==> may_write(p, t))
            && (all_run(x, c) && some_failed(x, c) ==> may_exit(1)),
        Commands::Check(x) =>
            (forall|p: PathBuf, t: Seq<char>| fix_writes(x, c, p, t) ==> #[trigger] may_write(p, t))
            && (!x.fix ==> forall|rs: Seq<core::result::Result<Context, Violation>>|
                #[trigger] contexts_for(rs, x.files@, c) && report(rs).len() > 0 && all_listed(report(rs)) ==> may_exit(1)),
    }
}
/// what is true when a command ends with status 0
pub open spec fn succeeded(c: Cli) -> bool {
    match c.command {
        Commands::Scaffold(x) => forall|i: int| 0 <= i < x.files@.len() ==> done(x, c, #[trigger] x.files@[i]),
        Commands::Check(x) => exists|rs: Seq<core::result::Result<Context, Violation>>| #[trigger] contexts_for(rs, x.files@, c)
            && (x.fix ==> forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i] matches Ok(d) ==> fixed(x, d)))
            && (!x.fix ==> report(rs).len() == 0),
    }
}
//@@ fn crates/bulloak/src/cli.rs run tryconv
    requires reorders(), forall|c: Cli| #[trigger] asked(c) ==> permitted(c),
    ensures r is Ok, exists|c: Cli| #[trigger] asked(c) && succeeded(c),
//@@ at start
    hide(reorders); hide(done); hide(writable); hide(all_run); hide(some_failed); hide(fix_writes); hide(contexts_for); hide(report); hide(all_listed); hide(fixed);
//@@ end
//@@ fn crates/bulloak/src/main.rs main
    requires reorders(), forall|c: Cli| #[trigger] asked(c) ==> permitted(c),
    ensures exists|c: Cli| #[trigger] asked(c) && succeeded(c),
//@@ end
}
