//@@ include common
//@@ path hir::Hir = Hir
//@@ path hir::Root = HRoot
//@@ path hir =
//@@ path result = core::result

verus! {
use std::path::PathBuf;
broadcast use {axiom_str_bytes, axiom_str_ext, axiom_slice_len};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
//@@ include span
//@@ include text
//@@ include names
//@@ include hirtypes
//@@ struct crates/foundry/src/config.rs Config
//@@ fn crates/syntax/src/utils.rs sanitize stub from=utils
//@@ end
//@@ const crates/foundry/src/constants.rs INTERNAL_DEFAULT_INDENTATION
//@@ include emitspec
//@@ include emitview
//@@ struct crates/foundry/src/scaffold/emitter.rs EmitterI
impl Emitter {
//@@ fn crates/foundry/src/scaffold/emitter.rs Emitter::new
    ensures r.indent == 2, r.solidity_version@ == cfg.solidity_version@,
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs Emitter::emit
    requires *hir is FunctionDefinition,
    ensures r@ == e_fn(hv(*hir), self.indent as int),
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs Emitter::indent
    ensures r@ == pad(self.indent as int),
//@@ end
}
impl EmitterI {
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::new
    ensures r.emitter == emitter,
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::emit
    requires *hir is FunctionDefinition,
    ensures r@ == e_fn(hv(*hir), old(self).emitter.indent as int),
//@@ at start
    broadcast use lemma_hv;
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::emit_modifier
    ensures r@ == e_modifier(modifier@, self.emitter.indent as int),
//@@ at tail
    proof { reveal_strlit("\n"); assert(emitted@ =~= e_modifier(modifier@, self.emitter.indent as int)); }
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::emit_fn_header
    ensures r@ == e_header(function.identifier@, (match function.modifiers { Some(m) => Some(views(m@)), None => None }), self.emitter.indent as int),
//@@ loop 0
    invariant
        has_modifiers, function.modifiers matches Some(m) && m == *modifiers,
        vx_it0.seq().len() == modifiers@.len(), forall|i: int| 0 <= i < modifiers@.len() ==> *(#[trigger] vx_it0.seq()[i]) == modifiers@[i],
        fn_body_indentation@ == rep(pad(self.emitter.indent as int), 2), fn_indentation@ == pad(self.emitter.indent as int),
        emitted@ == e_start + e_mods(views(modifiers@), vx_it0.index@ as int, self.emitter.indent as int),
//@@ at before loop 0
    let ghost e_start = emitted@;
    proof { assert(e_start + e_mods(views(modifiers@), 0, self.emitter.indent as int) =~= e_start); }
//@@ at loop 0 end
    proof {
        let k = vx_it0.index@ as int;
        assert(views(modifiers@)[k] == modifiers@[k]@);
        assert(emitted@ =~= e_start + e_mods(views(modifiers@), k + 1, self.emitter.indent as int));
    }
//@@ at tail
    proof { assert(emitted@ =~= e_header(function.identifier@, (match function.modifiers { Some(m) => Some(views(m@)), None => None }), self.emitter.indent as int)); }
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::visit_root stub
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::visit_contract stub
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::visit_function
    ensures r matches Ok(s) && s@ == e_fn(fv(*function), old(self).emitter.indent as int), final(self).emitter.indent == old(self).emitter.indent,
//@@ loop 0
    invariant
        function.children matches Some(c) && c == *children, self.emitter.indent == old(self).emitter.indent,
        vx_it0.seq().len() == children@.len(), forall|i: int| 0 <= i < children@.len() ==> *(#[trigger] vx_it0.seq()[i]) == children@[i],
        emitted@ == e_start + e_lines(hvs(children@), vx_it0.index@ as int, self.emitter.indent as int),
//@@ at before loop 0
    let ghost e_start = emitted@;
    proof { assert(e_start + e_lines(hvs(children@), 0, self.emitter.indent as int) =~= e_start); }
//@@ at loop 0 start
    broadcast use lemma_hv;
//@@ at loop 0 end
    proof {
        let k = vx_it0.index@ as int;
        assert(hvs(children@)[k] == hv(children@[k]));
        assert(emitted@ =~= e_start + e_lines(hvs(children@), k + 1, self.emitter.indent as int));
    }
//@@ at tail
    proof { assert(emitted@ =~= e_fn(fv(*function), old(self).emitter.indent as int)); }
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::visit_comment
    ensures r matches Ok(s) && s@ == e_line(SHir::Comment(comment.lexeme@), old(self).emitter.indent as int), final(self).emitter.indent == old(self).emitter.indent,
//@@ at tail
    proof { assert(emitted@ =~= e_line(SHir::Comment(comment.lexeme@), old(self).emitter.indent as int)); }
//@@ end
//@@ fn crates/foundry/src/scaffold/emitter.rs EmitterI::visit_statement
    ensures r matches Ok(s) && s@ == e_line(SHir::Skip, old(self).emitter.indent as int), final(self).emitter.indent == old(self).emitter.indent,
//@@ at tail
    proof { assert(emitted@ =~= e_line(SHir::Skip, old(self).emitter.indent as int)); }
//@@ end
}
}
fn main() {}
