// ---------------------------------------------------------------- scaffolding a file
/// the text that scaffolding f gives
pub open spec fn gives(cli: Cli, f: PathBuf, t: Seq<char>) -> bool {
    exists|s: Seq<char>, cfg: Config, r: AnyResult<String>|
        was_read(f, s) && cfg_is(cfg, cli) && #[trigger] scaffold_is(r, s, cfg)
        && r is Ok && t == (match forge(r->Ok_0@) { Some(x) => x, None => r->Ok_0@ })
}
pub open spec fn beside(f: PathBuf) -> PathBuf { with_ext(f, seq!['t', '.', 's', 'o', 'l']) }
/// scaffolding f may write t to p
pub open spec fn writable(x: Scaffold, cli: Cli, f: PathBuf, p: PathBuf, t: Seq<char>) -> bool {
    x.write_files && p == beside(f) && (x.force_write || unseen(p)) && gives(cli, f, t)
}
/// t was put where it belongs
pub open spec fn put(x: Scaffold, f: PathBuf, t: Seq<char>) -> bool {
    if x.write_files { written(beside(f), t) || (!x.force_write && seen(beside(f))) } else { printed(t) }
}
pub open spec fn done(x: Scaffold, cli: Cli, f: PathBuf) -> bool {
    exists|t: Seq<char>| #[trigger] gives(cli, f, t) && put(x, f, t)
}
pub open spec fn failed(x: Scaffold, cli: Cli, f: PathBuf) -> bool {
    unread(f) || (x.write_files && unwritten(beside(f)))
        || exists|s: Seq<char>, cfg: Config, r: AnyResult<String>| was_read(f, s) && cfg_is(cfg, cli) && #[trigger] scaffold_is(r, s, cfg) && r is Err
}
pub open spec fn reported(f: PathBuf) -> bool { told("file: "@ + path_text(f)) }
/// every file was processed, and the ones that failed are reported
pub open spec fn all_run(x: Scaffold, cli: Cli) -> bool {
    forall|i: int| 0 <= i < x.files@.len() ==> done(x, cli, #[trigger] x.files@[i]) || (failed(x, cli, x.files@[i]) && reported(x.files@[i]))
}
pub open spec fn some_failed(x: Scaffold, cli: Cli) -> bool { exists|i: int| 0 <= i < x.files@.len() && failed(x, cli, #[trigger] x.files@[i]) }
/// what a file gives, named by what was read and computed
pub broadcast proof fn lemma_gives(cli: Cli, f: PathBuf, s: Seq<char>, cfg: Config, r: AnyResult<String>)
    requires #[trigger] was_read(f, s), #[trigger] cfg_is(cfg, cli), #[trigger] scaffold_is(r, s, cfg), r is Ok,
    ensures gives(cli, f, match forge(r->Ok_0@) { Some(x) => x, None => r->Ok_0@ }),
{ hide(scaffold_is); hide(cfg_is); }
