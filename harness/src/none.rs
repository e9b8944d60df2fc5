//! Makes the interpreter build everything else.
use nargun::verif as _;
use nv as _;
fn main() {}
