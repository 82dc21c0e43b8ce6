// ---------------------------------------------------------------- paths (trusted)
pub assume_specification [<PathBuf as Clone>::clone] (p: &PathBuf) -> (r: PathBuf) ensures r == *p;
pub trait VxPath { spec fn ptext(&self) -> Seq<char>; fn lossy(&self) -> (r: String) ensures r@ == self.ptext(); }
impl VxPath for PathBuf { open spec fn ptext(&self) -> Seq<char> { path_text(*self) } #[verifier::external_body] fn lossy(&self) -> (r: String) { unimplemented!() } }
impl VxPath for &PathBuf { open spec fn ptext(&self) -> Seq<char> { path_text(**self) } fn lossy(&self) -> (r: String) { (*self).lossy() } }
pub fn vx_lossy<P: VxPath>(p: &P) -> (r: String) ensures r@ == p.ptext() { p.lossy() }
pub fn vx_owned(s: String) -> (r: String) ensures r == s { s }
pub fn vx_as_path(p: &PathBuf) -> (r: &PathBuf) ensures r == p { p }
