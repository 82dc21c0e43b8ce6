/// the options a command is run with
pub open spec fn cfg_is(c: Config, cli: Cli) -> bool {
    match cli.command {
        Commands::Scaffold(x) => c.solidity_version@ == x.solidity_version@ && c.emit_vm_skip == x.with_vm_skip && c.skip_modifiers == x.skip_modifiers,
        Commands::Check(x) => c.solidity_version@ == DEFAULT_SOL_VERSION@ && !c.emit_vm_skip && c.skip_modifiers == x.skip_modifiers,
    }
}
