pub open spec fn c_err(ts: Seq<SHir>, i: int, e: Error, text: Seq<char>) -> bool {
    &&& forall|j: int| 0 <= j < i ==> t_ok(ts, j)
    &&& e.text@ == text && e.span.start == pos0() && e.span.end == pos0()
    &&& match e.kind {
        ErrorKind::SeparatorMissing(k) => !has_sep(t_name(ts[i])) && k == i + 1,
        ErrorKind::ContractNameMissing(k) => has_sep(t_name(ts[i])) && trim(c_name(t_name(ts[i]))).len() == 0 && k == i + 1,
        ErrorKind::ContractNameMismatch { actual, expected } => has_sep(t_name(ts[i])) && trim(c_name(t_name(ts[i]))).len() > 0
            && actual@ == c_name(t_name(ts[i])) && expected@ == c_name(t_name(ts[0])) && actual@ != expected@,
    }
}
