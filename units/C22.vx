//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include domain.vx
//@@ include precomp.vx
}
fn main(){}
