//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include pointwise.vx
//@@ include evalat.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include upoly.vx
}
fn main(){}
