// ---------------------------------------------------------------- how an error in a tree is shown
//@@ include formatter
/// a number in decimal
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }

/// an error at the default position
pub open spec fn nowhere(sp: Span) -> bool { sp.start.offset == 0 && sp.end.offset == 0 }
/// as many carets as the columns of the error, at least one
pub open spec fn marks(sp: Span) -> int { if sp.end.column > sp.start.column { sp.end.column - sp.start.column + 1 } else { 1 } }
pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| ' ') }
pub open spec fn carets(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| '^') }
/// the line on which the error starts, and carets below it
pub open spec fn notation(s: Seq<char>, sp: Span) -> Seq<char> {
    let ls = lines_from(s, 0);
    let l = sp.start.line - 1;
    if 0 <= l < ls.len() { ls[l] + seq!['\n'] + spaces(sp.start.column - 1) + carets(marks(sp)) + seq!['\n'] } else { Seq::empty() }
}
/// 1-based lines and columns, and no overflow in between
pub open spec fn showable(sp: Span) -> bool {
    nowhere(sp) || (1 <= sp.start.line && 1 <= sp.start.column <= isize::MAX && sp.end.column <= isize::MAX)
}
/// w is the report of an error: it has the message and, unless the error is nowhere, the
/// notation and its line and column, in that order
pub open spec fn shown_as(w: Seq<char>, message: Seq<char>, s: Seq<char>, sp: Span) -> bool {
    if nowhere(sp) { w == heading() + message }
    else { w == heading() + message + seq!['\n', '\n'] + notation(s, sp) + seq!['\n'] + position_text(sp) }
}
pub open spec fn heading() -> Seq<char> { rep("•"@, 79) + seq!['\n'] + "bulloak error: "@ }
pub open spec fn position_text(sp: Span) -> Seq<char> { "--- (line "@ + dec(sp.start.line as int) + ", column "@ + dec(sp.start.column as int) + ") ---\n"@ }
