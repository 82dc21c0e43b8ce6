// ---------------------------------------------------------------- how a function of the plan is written by `check --fix`
pub open spec fn pad(n: int) -> Seq<char> { rep(" "@, n) }
pub open spec fn e_modifier(name: Seq<char>, n: int) -> Seq<char> {
    pad(n) + "modifier "@ + name + "() {\n"@ + rep(pad(n), 2) + "_;\n"@ + pad(n) + "}\n"@ + "\n"@
}
/// the modifiers, one a line
pub open spec fn e_mods(m: Seq<Seq<char>>, k: int, n: int) -> Seq<char>
    decreases k
{ if k <= 0 || k > m.len() { Seq::empty() } else { e_mods(m, k - 1, n) + (rep(pad(n), 2) + m[k - 1] + "\n"@) } }
pub open spec fn e_header(name: Seq<char>, mods: Option<Seq<Seq<char>>>, n: int) -> Seq<char> {
    match mods {
        Some(m) => pad(n) + "function "@ + name + "()\n"@ + rep(pad(n), 2) + "external\n"@ + e_mods(m, m.len() as int, n) + pad(n) + "{\n"@,
        None => pad(n) + "function "@ + name + "()"@ + " external"@ + " {\n"@,
    }
}
pub open spec fn e_line(h: SHir, n: int) -> Seq<char> {
    match h {
        SHir::Comment(c) => rep(pad(n), 2) + "// "@ + c + "\n"@,
        SHir::Skip => rep(pad(n), 2) + "vm.skip(true);\n"@,
        _ => Seq::empty(),
    }
}
pub open spec fn e_lines(b: Seq<SHir>, k: int, n: int) -> Seq<char>
    decreases k
{ if k <= 0 || k > b.len() { Seq::empty() } else { e_lines(b, k - 1, n) + e_line(b[k - 1], n) } }
pub open spec fn e_fn(h: SHir, n: int) -> Seq<char> {
    match h {
        SHir::Fun { name, modifier, mods, body, .. } =>
            if modifier { e_modifier(name, n) }
            else { e_header(name, mods, n) + (match body { Some(b) => e_lines(b, b.len() as int, n), None => Seq::empty() }) + pad(n) + "}\n\n"@ },
        _ => Seq::empty(),
    }
}
pub open spec fn e_fns(v: Seq<SHir>, k: int, n: int) -> Seq<char>
    decreases k
{ if k <= 0 || k > v.len() { Seq::empty() } else { e_fns(v, k - 1, n) + e_fn(v[k - 1], n) } }
