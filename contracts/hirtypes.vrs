//@@ enum crates/foundry/src/hir/hir.rs Hir sub=Root->HRoot,Identifier->String
//@@ struct crates/foundry/src/hir/hir.rs Root as=HRoot sub=Identifier->String
//@@ struct crates/foundry/src/hir/hir.rs ContractDefinition sub=Identifier->String
//@@ enum crates/foundry/src/hir/hir.rs FunctionTy
//@@ struct crates/foundry/src/hir/hir.rs FunctionDefinition sub=Identifier->String
//@@ struct crates/foundry/src/hir/hir.rs Comment
//@@ enum crates/foundry/src/hir/hir.rs StatementType
//@@ struct crates/foundry/src/hir/hir.rs Statement

// the value of a HIR
pub ghost enum SHir {
    Root { kids: Seq<SHir> },
    Contract { name: Seq<char>, kids: Seq<SHir> },
    Fun { name: Seq<char>, modifier: bool, span: Span, mods: Option<Seq<Seq<char>>>, body: Option<Seq<SHir>> },
    Comment(Seq<char>),
    Skip,
}

pub open spec fn hv(h: Hir) -> SHir
    decreases h
{
    match h {
        Hir::Root(x) => SHir::Root {
            kids: Seq::new(x.children@.len(), |i: int| if 0 <= i < x.children@.len() { hv(x.children@[i]) } else { arbitrary() }) },
        Hir::ContractDefinition(x) => SHir::Contract { name: x.identifier@,
            kids: Seq::new(x.children@.len(), |i: int| if 0 <= i < x.children@.len() { hv(x.children@[i]) } else { arbitrary() }) },
        Hir::FunctionDefinition(x) => SHir::Fun {
            name: x.identifier@, modifier: x.ty is Modifier, span: x.span,
            mods: match x.modifiers { Some(m) => Some(views(m@)), None => None },
            body: match x.children {
                Some(c) => Some(Seq::new(c@.len(), |i: int| if 0 <= i < c@.len() { hv(c@[i]) } else { arbitrary() })),
                None => None,
            } },
        Hir::Comment(x) => SHir::Comment(x.lexeme@),
        Hir::Statement(x) => SHir::Skip,
    }
}
pub open spec fn hvs(v: Seq<Hir>) -> Seq<SHir> { Seq::new(v.len(), |i: int| hv(v[i])) }

pub open spec fn fv(x: FunctionDefinition) -> SHir {
    SHir::Fun {
        name: x.identifier@, modifier: x.ty is Modifier, span: x.span,
        mods: match x.modifiers { Some(m) => Some(views(m@)), None => None },
        body: match x.children { Some(c) => Some(hvs(c@)), None => None },
    }
}

pub broadcast proof fn lemma_hv(h: Hir)
    ensures #[trigger] hv(h) == (match h {
        Hir::Root(x) => SHir::Root { kids: hvs(x.children@) },
        Hir::ContractDefinition(x) => SHir::Contract { name: x.identifier@, kids: hvs(x.children@) },
        Hir::FunctionDefinition(x) => fv(x),
        Hir::Comment(x) => SHir::Comment(x.lexeme@),
        Hir::Statement(x) => SHir::Skip,
    }),
{
    match h {
        Hir::Root(x) => assert(hv(h)->Root_kids =~= hvs(x.children@)),
        Hir::ContractDefinition(x) => assert(hv(h)->Contract_kids =~= hvs(x.children@)),
        Hir::FunctionDefinition(x) => {
            if let Some(c) = x.children { assert(hv(h)->body->0 =~= hvs(c@)); }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_hvs_push(v: Seq<Hir>, a: Hir)
    ensures #[trigger] hvs(v.push(a)) == hvs(v).push(hv(a)),
{ assert(hvs(v.push(a)) =~= hvs(v).push(hv(a))); }
pub broadcast proof fn lemma_hvs_add(v: Seq<Hir>, w: Seq<Hir>)
    ensures #[trigger] hvs(v + w) == hvs(v) + hvs(w),
{ assert(hvs(v + w) =~= hvs(v) + hvs(w)); }
pub broadcast proof fn lemma_hvs_empty(v: Seq<Hir>)
    requires v.len() == 0,
    ensures #[trigger] hvs(v) == Seq::<SHir>::empty(),
{ assert(hvs(v) =~= Seq::<SHir>::empty()); }
