//@include prelude.vx
//@include types.vx
//@include conn.vx
//@include snd.vx
//@include sess.vx
//@include link.vx
//@include conn2.vx
} // verus!
}
//@include dsp.vx
//@include hsk.vx
fn main() {}
