//@@ include common
//@@ path anyhow::Result = AnyResult
//@@ path anyhow::Error = AnyErr
//@@ path ast::Root = Root
//@@ path ast::Condition = Condition
//@@ path ast::Action = Action
//@@ path ast::Description = Description
//@@ path ast::Ast = Ast
//@@ path bulloak_syntax =
//@@ path hir::Root = HRoot
//@@ path hir::hir =
//@@ path hir =
//@@ path result = core::result
//@@ path crate::scaffold =
//@@ path crate::check =
//@@ path bulloak_foundry::config =
//@@ path std::process = process
//@@ path fs::write = vx_write
//@@ path Path = PathBuf
//@@ path crate =
//@@ method exists = vx_exists
//@@ method with_extension = vx_with_ext
//@@ method display = vx_display
//@@ vmethod as_path = vx_same
//@@ vmethod into = vx_to_config
//@@ vmethod yellow = vx_paint
//@@ vmethod blue = vx_paint
//@@ prints

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ enum crates/syntax/src/tokenizer.rs TokenKind derive=PartialEq,Eq,Structural,Clone,Copy
//@@ struct crates/syntax/src/tokenizer.rs Token
//@@ include ast
//@@ include hirtypes
//@@ include text
//@@ include names
//@@ include hirspec
//@@ include combspec
//@@ struct crates/foundry/src/config.rs Config
}
//@@ include frontspec
pub mod combiner {
use super::*;
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext};
//@@ enum crates/foundry/src/hir/combiner.rs ErrorKind
//@@ struct crates/foundry/src/hir/combiner.rs Error
//@@ type crates/foundry/src/hir/combiner.rs Result
//@@ struct crates/foundry/src/hir/combiner.rs Combiner
//@@ type crates/foundry/src/hir/combiner.rs Identifier
//@@ type crates/foundry/src/hir/combiner.rs Index
//@@ include combview
impl Combiner {
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::new stub from=combiner
//@@ end
//@@ fn crates/foundry/src/hir/combiner.rs Combiner::combine stub from=combiner
//@@ end
}
}
}
//@@ include planspec
//@@ include pt
pub mod sol {
use super::*;
use super::pt::{
    Base, ContractDefinition, ContractPart, ContractTy, Expression, Parameter, ParameterList, Annotation,
    FunctionAttribute, FunctionDefinition, FunctionTy, Identifier, EnumDefinition, StructDefinition, EventDefinition, ErrorDefinition,
    VariableDefinition, TypeDefinition, Using,
    IdentifierPath, Import, ImportPath, Loc, SourceUnit, SourceUnitPart,
    Statement, StringLiteral, Type, VariableDeclaration, Visibility,
};
verus! {
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
//@@ include solspec
//@@ include fmtspec
//@@ include printspec
}
}
verus! {
use sol::*;
//@@ include plainspec
//@@ include scaffoldspec
//@@ include worldspec
//@@ include paths
//@@ include outspec
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
//@@ include clibits
//@@ fn crates/foundry/src/scaffold/mod.rs scaffold tryconv stub from=scaffold
//@@ end
//@@ const crates/foundry/src/constants.rs DEFAULT_SOL_VERSION
impl Config {
//@@ fn crates/foundry/src/config.rs Config::default stub from=context
//@@ end
}
//@@ struct crates/bulloak/src/scaffold.rs Scaffold
//@@ struct crates/bulloak/src/check.rs Check
//@@ struct crates/bulloak/src/cli.rs Cli
//@@ enum crates/bulloak/src/cli.rs Commands
//@@ include cfgspec
//@@ include runspec
broadcast proof fn lemma_add_empty(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s,
{ assert(Seq::<char>::empty() + s =~= s); }
impl Config {
//@@ fn crates/bulloak/src/cli.rs Config::from
    ensures cfg_is(r, *cli),
//@@ end
}
pub fn vx_to_config(c: &Cli) -> (r: Config) ensures cfg_is(r, *c) { Config::from(c) }
/// the list of errors has an entry for f
pub open spec fn listed(es: Seq<(&PathBuf, AnyErr)>, f: PathBuf) -> bool { exists|j: int| 0 <= j < es.len() && *(#[trigger] es[j]).0 == f }
impl Scaffold {
//@@ fn crates/bulloak/src/scaffold.rs Scaffold::write_file tryconv
    requires
        self.force_write ==> may_write(*file, text@),
        unseen(*file) ==> may_write(*file, text@),
    ensures match r {
        Ok(()) => written(*file, text@) || (!self.force_write && seen(*file)),
        Err(_) => unwritten(*file),
    },
//@@ at start
    hide(gives);
//@@ end
//@@ fn crates/bulloak/src/scaffold.rs Scaffold::process_file tryconv matches
    requires forall|p: PathBuf, t: Seq<char>| writable(*self, *cfg, *file, p, t) ==> #[trigger] may_write(p, t),
    ensures match r { Ok(()) => done(*self, *cfg, *file), Err(e) => failed(*self, *cfg, *file) },
//@@ at start
    hide(scaffold_is);
    broadcast use {lemma_add_empty, lemma_gives};
    proof { reveal_strlit("t.sol"); assert("t.sol"@ =~= seq!['t', '.', 's', 'o', 'l']); }
//@@ end
//@@ fn crates/bulloak/src/scaffold.rs Scaffold::report_errors
    ensures forall|i: int| 0 <= i < errors@.len() ==> reported(*(#[trigger] errors@[i]).0),
//@@ at start
    proof { reveal_strlit("file: "); }
//@@ loop 0
    invariant forall|i: int| 0 <= i < vx_it0.index@ ==> reported(*(#[trigger] errors@[i]).0),
//@@ end
//@@ fn crates/bulloak/src/scaffold.rs Scaffold::run chains matches
    requires
        forall|p: PathBuf, t: Seq<char>, f: PathBuf| self.files@.contains(f) && #[trigger] writable(*self, *cfg, f, p, t) ==> may_write(p, t),
        all_run(*self, *cfg) && some_failed(*self, *cfg) ==> may_exit(1),
    ensures forall|i: int| 0 <= i < self.files@.len() ==> done(*self, *cfg, #[trigger] self.files@[i]),
//@@ at start
    hide(done); hide(failed); hide(gives);
//@@ loop 0
    invariant
        forall|p: PathBuf, t: Seq<char>, f: PathBuf| self.files@.contains(f) && #[trigger] writable(*self, *cfg, f, p, t) ==> may_write(p, t),
        vx_it0.seq().len() == self.files@.len(), forall|i: int| 0 <= i < self.files@.len() ==> *(#[trigger] vx_it0.seq()[i]) == self.files@[i],
        forall|i: int| 0 <= i < vx_it0.index@ ==> done(*self, *cfg, #[trigger] self.files@[i]) || (failed(*self, *cfg, self.files@[i]) && listed(vx_out@, self.files@[i])),
        vx_out@.len() > 0 ==> some_failed(*self, *cfg),
//@@ at loop 0 start
    let ghost vx_old = vx_out@;
//@@ at loop 0 end
    proof {
        assert(forall|f: PathBuf| listed(vx_old, f) ==> listed(vx_out@, f)) by {
            assert forall|f: PathBuf| listed(vx_old, f) implies listed(vx_out@, f) by {
                let j = choose|j: int| 0 <= j < vx_old.len() && *(#[trigger] vx_old[j]).0 == f;
                assert(*vx_out@[j].0 == f);
            }
        }
        assert(vx_out@.len() == vx_old.len() || *vx_out@[vx_old.len() as int].0 == self.files@[vx_it0.index@]);
    }
//@@ end
}
}
fn main() {}
