pub open spec fn ek(k: ErrorKind) -> EK {
    match k {
        ErrorKind::IdentifierDuplicated(v) => EK::Dup(v@),
        ErrorKind::ConditionEmpty => EK::CondEmpty,
        ErrorKind::NodeUnexpected => EK::NodeUnexpected,
        ErrorKind::TreeEmpty => EK::TreeEmpty,
    }
}
pub open spec fn es(v: Seq<Error>) -> Seq<(EK, Span)> { v.map_values(|e: Error| (ek(e.kind), e.span)) }
pub open spec fn texts(v: Seq<Error>, t: Seq<char>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).text@ == t }
pub open spec fn mv(m: Map<Seq<char>, Vec<Span>>) -> Map<Seq<char>, Seq<Span>> { m.map_values(|v: Vec<Span>| v@) }
impl<'t> SemanticAnalyzer<'t> {
    pub open spec fn st(&self) -> (Seq<(EK, Span)>, Map<Seq<char>, Seq<Span>>) { (es(self.errors@), mv(self.identifiers@)) }
    pub open spec fn ok(&self) -> bool { texts(self.errors@, self.text@) }
}
