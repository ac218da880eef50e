//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include pad.vx
}
fn main(){}
