//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include hash.vx
//@@ include transcript.vx
}
fn main(){}
