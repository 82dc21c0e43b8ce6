// ---------------------------------------------------------------- the world
// Facts about what happened while the program ran.  They are uninterpreted: only the
// functions below establish them.
/// reading the file at p gave the text t
pub uninterp spec fn was_read(p: PathBuf, t: Seq<char>) -> bool;
/// reading the file at p failed
pub uninterp spec fn unread(p: PathBuf) -> bool;
/// something was, was not, at p
pub uninterp spec fn seen(p: PathBuf) -> bool;
pub uninterp spec fn unseen(p: PathBuf) -> bool;
/// p with another extension
pub uninterp spec fn with_ext(p: PathBuf, e: Seq<char>) -> PathBuf;

#[verifier::external_body] pub struct IoErr;
pub mod fs {
use super::*;
/// std's `fs::read_to_string` (trusted)
#[verifier::external_body]
pub fn read_to_string(p: &PathBuf) -> (r: core::result::Result<String, IoErr>)
    ensures match r { Ok(t) => was_read(*p, t@), Err(_) => unread(*p) },
{ unimplemented!() }
}
/// std's `Path::exists`, `set_extension`, `with_extension`, `to_string_lossy` (trusted)
#[verifier::external_body]
pub fn vx_exists(p: &PathBuf) -> (r: bool) ensures r ==> seen(*p), !r ==> unseen(*p) { unimplemented!() }
#[verifier::external_body]
pub fn vx_set_ext(p: &mut PathBuf, e: &str) -> (r: bool) ensures *final(p) == with_ext(*old(p), e@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_with_ext(p: &PathBuf, e: &str) -> (r: PathBuf) ensures r == with_ext(*p, e@) { unimplemented!() }
pub fn vx_path_buf(p: &PathBuf) -> (r: PathBuf) ensures r == *p { p.clone() }
pub fn vx_same<T>(p: T) -> (r: T) ensures r == p { p }
