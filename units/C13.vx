//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include air.vx
//@@ include conalg.vx
}
fn main(){}
