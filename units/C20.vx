//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include fp2.vx
}
fn main(){}
