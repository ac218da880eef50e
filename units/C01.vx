//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include domain.vx
}
fn main(){}
