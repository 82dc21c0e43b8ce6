// ---------------------------------------------------------------- the text of a planned contract
// (m: comments still disguised as variables)
pub open spec fn s_line(h: SHir, m: bool) -> Seq<char> {
    match h { SHir::Comment(c) => if m { marked(c) } else { "// "@ + c }, _ => "vm.skip(true);"@ }
}
pub open spec fn s_lines(p: Seq<SHir>, m: bool) -> Seq<Seq<char>> { p.map_values(|h: SHir| s_line(h, m)) }
pub open spec fn s_body(p: Seq<SHir>, m: bool) -> Seq<char> {
    "{\n"@ + jn(s_lines(p, m), "\n"@) + (if p.len() == 0 { Seq::empty() } else { "\n"@ }) + "}"@
}
pub open spec fn s_fn(h: SHir, m: bool) -> Seq<char> {
    match h {
        SHir::Fun { name, modifier, mods, body, .. } =>
            if modifier { "modifier "@ + name + "() {\n_;\n}"@ }
            else {
                let b = if body is Some { body->0 } else { Seq::empty() };
                "function "@ + name + "() "@ + jn(seq!["external"@] + (if mods is Some { mods->0 } else { Seq::empty() }), " "@) + " "@
                    + s_body(printed(b, b.len() as int), m)
            },
        _ => Seq::empty(),
    }
}
pub open spec fn s_fns(hs: Seq<SHir>, m: bool) -> Seq<Seq<char>> { hs.map_values(|h: SHir| s_fn(h, m)) }
pub open spec fn s_contract(h: SHir, test: bool, skip_mods: bool, m: bool) -> Seq<char> {
    match h {
        SHir::Contract { name, kids } => "contract "@ + san(name) + (if test { " is Test {"@ } else { " {"@ })
            + jn(s_fns(shown(kids, kids.len() as int, skip_mods), m), "\n\n"@) + "}"@,
        _ => Seq::empty(),
    }
}
pub open spec fn s_contracts(cs: Seq<SHir>, test: bool, skip_mods: bool, m: bool) -> Seq<Seq<char>> {
    cs.map_values(|h: SHir| s_contract(h, test, skip_mods, m))
}
pub open spec fn s_head(version: Seq<char>) -> Seq<char> { "// SPDX-License-Identifier: UNLICENSED\n"@ + ("pragma solidity "@ + version + ";"@) }
pub open spec fn s_import() -> Seq<char> { "import {Test} from \"forge-std/Test.sol\";"@ }
/// the Solidity text of a plan, before it is formatted
pub open spec fn s_unit(h: SHir, version: Seq<char>, test: bool, skip_mods: bool, m: bool) -> Seq<char> {
    let kids = h->Root_kids;
    jn(seq![s_head(version)] + (if test { seq![s_import()] } else { Seq::empty() })
        + s_contracts(contracts(kids, kids.len() as int), test, skip_mods, m), "\n"@)
}

// names that can be printed: no quotes; comments: one line each
pub open spec fn no_q(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '"' }
pub open spec fn no_nl(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' }
pub open spec fn no_qs(v: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < v.len() ==> no_q(#[trigger] v[i]) }
pub open spec fn line_ok(h: SHir) -> bool { match h { SHir::Comment(c) => no_nl(c), _ => true } }
pub open spec fn lines_ok(b: Seq<SHir>) -> bool { forall|i: int| 0 <= i < b.len() ==> line_ok(#[trigger] b[i]) }
pub open spec fn fn_names_ok(h: SHir) -> bool {
    match h { SHir::Fun { name, mods, .. } => no_q(name) && (mods is Some ==> no_qs(mods->0)), _ => true }
}
pub open spec fn fn_lines_ok(h: SHir) -> bool { match h { SHir::Fun { body, .. } => body is Some ==> lines_ok(body->0), _ => true } }
pub open spec fn fns_names_ok(v: Seq<SHir>) -> bool { forall|i: int| 0 <= i < v.len() ==> fn_names_ok(#[trigger] v[i]) }
pub open spec fn fns_lines_ok(v: Seq<SHir>) -> bool { forall|i: int| 0 <= i < v.len() ==> fn_lines_ok(#[trigger] v[i]) }
pub open spec fn names_ok(h: SHir) -> bool {
    h matches SHir::Root { kids } && forall|i: int| 0 <= i < kids.len() ==> (#[trigger] kids[i] matches SHir::Contract { kids: fs, .. } ==> fns_names_ok(fs))
}
pub open spec fn comments_ok(h: SHir) -> bool {
    h matches SHir::Root { kids } && forall|i: int| 0 <= i < kids.len() ==> (#[trigger] kids[i] matches SHir::Contract { kids: fs, .. } ==> fns_lines_ok(fs))
}
