// ---------------------------------------------------------------- what the program says and writes
/// a line went to the standard output, to the standard error
pub uninterp spec fn printed(s: Seq<char>) -> bool;
pub uninterp spec fn told(s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn vx_println(s: String) ensures printed(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_eprintln(s: String) ensures told(s@) { unimplemented!() }
/// what the program may write, and with which status it may exit: the callers of the
/// functions below have to show it
pub uninterp spec fn may_write(p: PathBuf, t: Seq<char>) -> bool;
pub uninterp spec fn may_exit(code: int) -> bool;
pub uninterp spec fn written(p: PathBuf, t: Seq<char>) -> bool;
pub uninterp spec fn unwritten(p: PathBuf) -> bool;
pub trait VxAsPath { spec fn apath(&self) -> PathBuf; }
impl VxAsPath for PathBuf { open spec fn apath(&self) -> PathBuf { *self } }
impl VxAsPath for &PathBuf { open spec fn apath(&self) -> PathBuf { **self } }
/// std's `fs::write` (trusted)
#[verifier::external_body]
pub fn vx_write<P: VxAsPath>(p: P, t: &str) -> (r: core::result::Result<(), IoErr>)
    requires may_write(p.apath(), t@),
    ensures match r { Ok(()) => written(p.apath(), t@), Err(_) => unwritten(p.apath()) },
{ unimplemented!() }
pub mod process {
use super::*;
#[verifier::external_body]
pub fn exit(code: i32) -> !
    requires may_exit(code as int),
{ unimplemented!() }
}
/// colours
pub struct Painted { pub x: u8 }
impl VxDisp for Painted { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_paint<T>(x: T) -> (r: Painted) { unimplemented!() }
#[verifier::external_body]
pub fn vx_debug<T>(x: &T) -> (r: String) { unimplemented!() }
