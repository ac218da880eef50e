//@@ include prelude.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include chunks.vx
}
fn main(){}
