import json
S='crates/syntax/src/'; F='crates/foundry/src/'; B='crates/bulloak/src/'
P=[]
import re,os
def where(m,files):
    n=m.split('::')[-1].split('/')[0]
    # the file of `impl Owner` first
    if '::' in m:
        o=m.split('::')[0]
        files=sorted(files,key=lambda f: not re.search(r'\bimpl\b.*\b'+re.escape(o)+r'\b',open('/repo/'+f).read()))
    for f in files:
        for i,l in enumerate(open('/repo/'+f),1):
            if re.search(r'\bfn '+re.escape(n)+r'\b',l): return f'{f}:{i}'
    for f in files:
        t=m.split('::')[0]
        for i,l in enumerate(open('/repo/'+f),1):
            if re.search(r'\bfn .*',l) and n in l: return f'{f}:{i}'
    raise Exception(m)
def p(id,title,st,over,q,why,files,mech): P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=where(m,files)) for m in mech])))
p('C01','Lexing loses nothing and reports exact positions',
"Every word and branch character of a tree reaches the result exactly once, in order, with the exact text of the source; the only characters that may be dropped are whitespace, the drawing characters `─` and `│` between words, and comments from a word-initial `//` up to the end of that line. Every reported span carries the right byte offset, the right 1-based line and the right 1-based column counted in characters, also after non-ASCII text.",
['inputs'],"all texts, of any length and with any Unicode characters",
"The tokenizer tests feed about twenty fixed trees, nearly all ASCII apart from the branch characters; they cannot reach the mix of comment placement, multi-byte characters, tabs, carriage returns and end of input.",
[S+'tokenizer.rs',S+'span.rs'],['TokenizerI::tokenize','TokenizerI::scan','TokenizerI::scan_word','TokenizerI::scan_comments','TokenizerI::peek','TokenizerI::char_at'])
p('C02','Keywords and identifier rules apply exactly where documented',
"A word is a keyword exactly when the whole word equals `when`, `given` or `it` ignoring letter case. The words of a condition title, from the word after a `when`/`given` that directly follows a branch character up to the end of its line (or the next tab, carriage return or comment), may only contain alphanumeric characters, `_`, `-`, `'` and `\"`; the first other character is reported as invalid at its exact position, and no other word of a tree is ever restricted that way.",
['inputs'],"all texts: every placement of keywords, every case mix, every character in every word position",
"Tests cover a handful of invalid characters in one position; they do not cover where the restriction must start and stop for every history of preceding tokens.",
[S+'tokenizer.rs'],['TokenizerI::tokenize','TokenizerI::scan_word','is_valid_identifier_char','enter_identifier_mode/exit_mode'])
p('C03','The syntax tree mirrors the drawn tree',
"For every accepted tree the parsed structure has exactly one node per branch character, in source order, and a node is a child of the closest preceding node of which its branch character is strictly to the right, conditions holding conditions and actions and actions holding their descriptions. Titles are the words joined by single spaces (keyword included; condition titles with `-` turned into `_` and characters not allowed in identifiers removed), descriptions are indented by their column distance to the action, and each node's span runs from its branch character to its last token.",
['inputs'],"all accepted trees, of any depth, width and indentation",
"The parser tests compare about fifteen fixed shapes; nesting is decided by column comparisons over arbitrary token sequences, for which no finite set of shapes is enough.",
[S+'parser.rs',S+'utils.rs'],['ParserI::parse','ParserI::parse_root','ParserI::parse_branch','ParserI::parse_condition','ParserI::parse_action','ParserI::parse_description','ParserI::parse_string'])
p('C04','Malformed trees are rejected with the right error, never a crash',
"For every text, reading one tree terminates without crashing and gives either a syntax tree or one error whose kind and position identify the first offence: empty text, a root that is not a plain word, words or keywords where a branch is required, a branch not followed by `when`/`given`/`it`, a condition without a title, an action child that is not plain text, a missing continuation at the end of the text, a top-level `├` that ends the text or a top-level `└` that does not. No other tree is rejected by the parser.",
['inputs'],"all texts, including every malformed one",
"There are a dozen negative tests; totality (no panic, no endless loop) and the exact set of rejected trees quantify over all token sequences.",
[S+'parser.rs',S+'lib.rs'],['ParserI::parse','ParserI::parse_root','ParserI::parse_branch','ParserI::parse_condition','ParserI::parse_action','parse_one'])
p('C05','Semantic analysis rejects exactly the ambiguous or empty trees',
"A parsed tree is accepted exactly when its root has children, every condition has children, and no two conditions (at any depth) or top-level actions map to the same identifier (title sanitized, words capitalised and joined, first letter lowered). Otherwise all such problems are reported, each empty node at its own position and each clashing identifier once with all the lines where it occurs in order, and the report is the same on every run.",
['inputs'],"all syntax trees, of any depth and with any titles",
"Five tests on small trees; the rule compares all pairs of nodes after normalisation and its report order depended on hash-map iteration, which a test samples once.",
[S+'semantics.rs',S+'visitor.rs'],['SemanticAnalyzer::analyze','SemanticAnalyzer::visit_root','SemanticAnalyzer::visit_condition'])
p('C06','One test per action group, guarded by exactly its enclosing conditions',
"Scaffolding a tree yields, in source order, one test per top-level action and one per condition that has at least one direct action, and one modifier per condition that has at least one child condition, emitted before everything else the condition generates, with a condition's own test before those of its child conditions. Each condition's test applies exactly the modifiers of its ancestors, outermost first, plus its own if it has one; top-level tests apply none, and every applied modifier is defined.",
['inputs'],"all accepted trees, of any depth and branching",
"About fifteen fixed trees are compared; which modifiers are on the stack at a node depends on the whole path and on every sibling subtree visited before.",
[F+'hir/translator.rs',F+'scaffold/modifiers.rs',F+'hir/mod.rs'],['TranslatorI::visit_root','TranslatorI::visit_condition','ModifierDiscoverer::visit_condition','translate_one'])
p('C07','Names are derived from titles by the documented rules',
"Test and modifier names are a fixed function of titles: a condition's modifier is its title in camel case; its test is `test_` plus the title in pascal case, or `test_Revert` + keyword + `_` + the rest when its first action is exactly `it should revert` (ignoring case, punctuation and surrounding space); a top-level action's test is `test_` plus its title without `it`, in pascal case and sanitized. Sanitizing turns `-` into `_` and drops every character that cannot continue an identifier, and changes nothing else.",
['inputs'],"all titles, any Unicode",
"Unit tests name three or four strings per helper; the rules must hold for every string, including empty, multi-byte and one-word titles.",
[S+'utils.rs',F+'hir/translator.rs',F+'scaffold/modifiers.rs'],['sanitize','to_pascal_case','upper_first_letter','lower_first_letter','TranslatorI::visit_condition','TranslatorI::visit_root','ModifierDiscoverer::visit_condition'])
p('C08','Test bodies hold every action and description verbatim, in order',
"The body of each generated test consists of one comment per action of its group, each followed by one comment per description of that action, in source order and with the exact text of the tree, and of nothing else, except that with the vm-skip option exactly one `vm.skip(true);` is the only statement of every test. Modifiers contain only the placeholder, and never a skip.",
['inputs','configurations'],"all accepted trees with any action and description text, with and without vm-skip",
"Tests compare a few bodies with plain text; nothing covers arbitrary characters in comments, which are smuggled through a string literal and a regular expression.",
[F+'hir/translator.rs',F+'sol/translator.rs',F+'sol/fmt.rs',F+'scaffold/emitter.rs'],['TranslatorI::visit_action','TranslatorI::visit_description','TranslatorI::visit_condition','TranslatorI::visit_comment','TranslatorI::visit_statement','EmitterI::visit_function','cleanup_comments'])
p('C09','Multiple trees merge into one contract in order, prefixed and without duplicates',
"A file with several trees yields one contract, named by the part of the first root before the first `::`, holding the functions of all trees in order; every test name gets the capitalised remainder of its own root's name inserted after `test_`, modifier names are unchanged, and of several functions that end up with the same name only the first is kept. It is an error, and nothing is emitted, if any root lacks `::`, if its contract name is blank, or if it differs from the first tree's contract name; a file with a single tree is used as it is.",
['inputs'],"all sequences of accepted trees, any number of trees and any root names",
"The combiner tests cover two or three trees with two names; order, prefixes and de-duplication must hold for any number of trees and any overlap.",
[F+'hir/combiner.rs',F+'hir/mod.rs'],['CombinerI::combine','prefix_test','prefix_test_with','update_children','collect_modifier','translate'])
p('C10','The emitted Solidity is exactly the planned contract',
"For every accepted tree whose names are valid Solidity identifiers, scaffolding emits a file with the licence line, the pragma with the configured version, the forge-std import and `is Test` exactly when vm-skip is on, and one contract with exactly the planned modifiers and tests in order, each test `external` and parameterless; skip-modifiers drops the modifier definitions and nothing else. When the planned contract is not valid Solidity because of a name, scaffolding reports an error for that file instead of crashing.",
['inputs','configurations'],"all accepted trees and all combinations of the scaffold options",
"Snapshot tests cover a dozen trees with one option each; the output passes through three printers whose agreement must hold for all trees and option combinations.",
[F+'sol/translator.rs',F+'sol/fmt.rs',F+'scaffold/mod.rs',F+'scaffold/emitter.rs'],['TranslatorI::visit_root','TranslatorI::visit_contract','TranslatorI::visit_function','gen_function_attr','gen_function_body','Formatter::visit_source_unit','scaffold','EmitterI::visit_root'])
p('C11','Check reports exactly the real deviations',
"Check reports a violation for a missing Solidity file, an unreadable or unparsable input, a Solidity file without a contract, a first contract whose name differs from the sanitized root name, each planned function with no function of the same name and kind in that contract (modifiers excepted with skip-modifiers), and each matched function that stands after a match of a later planned function; it reports nothing else and each of these exactly once, with the file and line of the offending construct; for an unparsable input it says whether the tree or the Solidity file is at fault. Anything extra in the Solidity file is ignored.",
['inputs'],"all pairs of a tree and a Solidity file, any number, order and mix of functions, any text between them",
"Integration tests use about ten file pairs; missing sets and inversions range over all subsets and permutations, and line numbers over all file contents.",
[F+'check/rules/structural_match.rs',F+'sol/mod.rs',F+'check/context.rs',F+'check/utils.rs'],['StructuralMatcher::check','check_contract_names','check_fns_structure','find_contract','find_matching_fn','fns_match','Context::new','offset_to_line'])
p('C12','Check --fix reaches a clean state and keeps user code',
"For every tree that scaffold accepts with distinct function names, and every parsable Solidity file whose first contract is a `contract`, `check --fix` terminates without crashing and leaves a file on which the same check reports no violation; missing functions are inserted directly after the function that precedes them in the tree. Every function, statement and declaration of the original file is still present exactly once, and apart from formatting, the contract's name and the position of functions nothing in the user's code changes.",
['inputs','histories'],"all pairs of a tree and a parsable Solidity file: any subset of missing functions, any order, any extra code",
"Seven fix tests use hand-made files; the insertion position and the reordering depend on every subset and permutation of present functions and on arbitrary text between them.",
[F+'check/violation.rs',F+'check/context.rs',B+'check.rs'],['ViolationKind::fix','get_insertion_offset','find_contract_body_start','fix_order','Context::insert_function_at','Check::run'])
p('C13','Files are written only when and where asked',
"Scaffold writes only the `.t.sol` next to each tree, only with the write option, and never changes an existing file without the force option; without the write option it writes nothing and prints instead. Check writes nothing without `--fix` or with `--fix --stdout`, and with `--fix` it writes only the `.t.sol` of trees that it could read and parse; tree files are never modified.",
['configurations','inputs','histories'],"all combinations of options and existing files, over any list of inputs and repeated runs",
"The integration tests check that a file is skipped once; no test covers the combinations of options, existing files and failing neighbours in one batch.",
[B+'scaffold.rs',B+'check.rs'],['Scaffold::process_file','Scaffold::write_file','Check::write','Check::run'])
p('C14','Exit status tells the truth and one bad file does not stop the batch',
"Scaffold exits 0 exactly when every given tree was processed without error and check (without `--fix`) exits 0 exactly when no violation was found in any given tree; otherwise they exit 1 and report every failing file. A file that fails never prevents the others of the same invocation from being processed, and each one's result does not depend on its neighbours.",
['inputs','configurations','fault_sequences'],"all lists of input files, any mix of good, bad, missing and unreadable ones, in any order",
"Integration tests run one or two files; the guarantee ranges over every batch and every position of a failing file.",
[B+'scaffold.rs',B+'check.rs',B+'main.rs',B+'cli.rs'],['Scaffold::run','Scaffold::report_errors','Check::run','exit'])
p('C15','Error reports point at the offending text',
"For every error with a position, the report quotes the source line on which the error starts and puts the first caret under the character at which it starts, with as many carets as the reported columns span (at least one); an error at the default position (offset 0 to 0) shows only its message. Check reports the line on which the offending construct starts, also in files with non-ASCII text, and never crashes while doing so.",
['inputs'],"all error spans over all texts, all offsets in all Solidity files, any Unicode",
"One test formats one ASCII error; line and column arithmetic mixes bytes, characters and lines, which agree on ASCII and differ elsewhere.",
[S+'error.rs',F+'check/utils.rs',F+'check/rules/structural_match.rs'],['FrontendError::notate','FrontendError::format_error','offset_to_line_column','offset_to_line'])
p('C16','A file splits into exactly its non-empty, non-comment trees',
"A tree file is read as the maximal pieces between blank-line separators (two consecutive newlines), trimmed, in order, leaving out pieces that are empty or consist only of `//` lines; a blank file counts as one empty tree. No other text is dropped, merged or reordered, and the result is the list of trees obtained by reading each piece on its own, or an error as soon as one piece fails.",
['inputs'],"all file texts: any number of pieces, blank lines, comments and surrounding whitespace",
"The splitter test enumerates five inputs with one or two trees and one to four newlines.",
[S+'splitter.rs',S+'lib.rs'],['split_trees','not_only_comments','parse','parse_one'])
p('C17','A scaffolded file always passes check',
"For every tree file that scaffold accepts and whose generated functions have distinct names made of identifier characters, checking the tree against the file that scaffold just wrote reports no violation, with default options, with vm-skip, and with skip-modifiers on both sides; running `check --fix` on it changes no function and running scaffold again gives the same bytes.",
['inputs','configurations'],"all accepted tree files and option combinations",
"No test runs scaffold and check on the same tree; the two commands derive names and order through different code paths.",
[F+'scaffold/mod.rs',F+'check/rules/structural_match.rs',F+'hir/mod.rs',F+'sol/translator.rs'],['scaffold','translate','StructuralMatcher::check','check_fns_structure','TranslatorI::visit_contract'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len([s for s in x['statement'].replace('`.t.sol`','').split('. ')])
    if n>3: print(x['id'],n)
