//@@ include parsedspec
#[verifier::external_body] pub struct InlineConfig;
#[verifier::external_body] pub struct InvalidItem;
pub struct Parsed<'a> { pub src: &'a str, pub pt: SourceUnit, pub comments: Comments, pub inline_config: InlineConfig, pub invalid_inline_config_items: Vec<InvalidItem> }
/// forge-fmt's parser (trusted: a function of the text, whose locations lie in the text)
#[verifier::external_body]
pub fn parse<'a>(s: &'a str) -> (r: core::result::Result<Parsed<'a>, Vec<Diagnostic>>)
    ensures match r { Ok(p) => p.src == s && parsed_as(s@, p.pt) && p.comments == notes_of(s@), Err(_) => pt_of(s@) is None },
{ unimplemented!() }
