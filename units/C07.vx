//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include chunks.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include batchinv.vx
}
fn main(){}
