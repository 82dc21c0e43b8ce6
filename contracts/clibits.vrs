pub fn vx_display(p: &PathBuf) -> (r: String) ensures r@ == path_text(*p) { vx_lossy(p) }
impl VxInto for IoErr {
    open spec fn as_any(&self, e: AnyErr) -> bool { e is Msg }
    #[verifier::external_body]
    fn vx_into(self) -> (r: AnyErr) { unimplemented!() }
}
pub uninterp spec fn err_text(e: AnyErr) -> Seq<char>;
impl VxDisp for AnyErr {
    open spec fn disp(&self) -> Seq<char> { err_text(*self) }
    #[verifier::external_body]
    fn vx_disp(&self) -> (r: String) { unimplemented!() }
}
