//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include log2.vx
//@@ include worker.vx
//@@ include hash.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include merkle.vx
}
fn main(){}
