//@include prelude.vx
//@include types.vx
//@include traits.vx
//@include prims.vx
//@include encs.vx
//@include knot.vx
//@include gen.vx
//@include dec.vx
//@include gendec.vx
//@include rt.vx
//@include perfb.vx
} // verus!
}
pub use vals::*;
//@include perf.vx
pub mod m_message {
use super::*;
verus! {
broadcast use gperf;
//@include msg.vx
} // verus!
}
pub use m_message::*;
//@include frames.vx
//@include io.vx
fn main() {}
