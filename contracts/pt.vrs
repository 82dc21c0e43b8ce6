// ---------------------------------------------------------------- solang's parse tree
// extracted from the version of solang-parser that Cargo.lock names; what bulloak never looks into is opaque
pub mod pt {
use super::*;
verus! {
//@@ enum @solang-parser/src/pt.rs Loc derive=Clone,Copy
//@@ struct @solang-parser/src/pt.rs Identifier
//@@ struct @solang-parser/src/pt.rs IdentifierPath
//@@ struct @solang-parser/src/pt.rs SourceUnit
//@@ enum @solang-parser/src/pt.rs SourceUnitPart
//@@ enum @solang-parser/src/pt.rs Import
//@@ enum @solang-parser/src/pt.rs ImportPath
//@@ type @solang-parser/src/pt.rs ParameterList
//@@ enum @solang-parser/src/pt.rs Type
//@@ enum @solang-parser/src/pt.rs StorageLocation
//@@ struct @solang-parser/src/pt.rs VariableDeclaration
//@@ enum @solang-parser/src/pt.rs ContractPart
//@@ enum @solang-parser/src/pt.rs ContractTy
//@@ struct @solang-parser/src/pt.rs Base
//@@ struct @solang-parser/src/pt.rs ContractDefinition
//@@ struct @solang-parser/src/pt.rs StringLiteral
//@@ struct @solang-parser/src/pt.rs NamedArgument
//@@ enum @solang-parser/src/pt.rs Expression
//@@ struct @solang-parser/src/pt.rs Parameter
//@@ struct @solang-parser/src/pt.rs Annotation
//@@ enum @solang-parser/src/pt.rs Mutability
//@@ enum @solang-parser/src/pt.rs Visibility
//@@ enum @solang-parser/src/pt.rs FunctionAttribute
//@@ enum @solang-parser/src/pt.rs FunctionTy derive=Clone,Copy
//@@ struct @solang-parser/src/pt.rs FunctionDefinition
//@@ enum @solang-parser/src/pt.rs Statement
//@@ enum @solang-parser/src/pt.rs CatchClause
#[verifier::external_body] pub struct EnumDefinition;
#[verifier::external_body] pub struct StructDefinition;
#[verifier::external_body] pub struct EventDefinition;
#[verifier::external_body] pub struct ErrorDefinition;
#[verifier::external_body] pub struct VariableDefinition;
#[verifier::external_body] pub struct TypeDefinition;
#[verifier::external_body] pub struct Using;
#[verifier::external_body] pub struct HexLiteral;
#[verifier::external_body] pub struct YulBlock;

impl Loc {
//@@ fn @solang-parser/src/pt.rs Loc::start
    requires self is File,
    ensures r == self->File_1,
//@@ end
//@@ fn @solang-parser/src/pt.rs Loc::end
    requires self is File,
    ensures r == self->File_2,
//@@ end
}
pub fn not_a_file() -> ! requires false { vx_unreachable() }
}
}
pub mod hir { pub use super::{Hir, HRoot as Root, ContractDefinition, FunctionDefinition, FunctionTy, Comment, StatementType, Statement}; }
/// the sources may name these types by their crate
pub mod solang_parser { pub use super::pt; }
