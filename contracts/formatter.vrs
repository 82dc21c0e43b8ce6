/// std's formatting target (trusted): the text it has received so far
#[verifier::external_body]
pub struct VxFormatter<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct FmtError { x: u8 }
pub type FmtResult = core::result::Result<(), FmtError>;
impl VxFormatter<'_> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_write_str(&mut self, s: String) -> (r: FmtResult)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@,
    { unimplemented!() }
}
