/// index of the first contract of a plan at or after i
pub open spec fn planned_at(kids: Seq<SHir>, i: int) -> int
    decreases kids.len() - i
{ if i < 0 || i >= kids.len() { kids.len() as int } else if kids[i] is Contract { i } else { planned_at(kids, i + 1) } }
