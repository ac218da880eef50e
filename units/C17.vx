//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include log2.vx
//@@ include worker.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include poly.vx
//@@ include hash.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include combiner.vx
//@@ include merkle.vx
//@@ include chal.vx
//@@ include frispec.vx
//@@ include friver.vx
//@@ include friif.vx
//@@ include fricompl.vx
}
fn main(){}
