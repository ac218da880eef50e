//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include polyfft.vx
//@@ include hash.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include combiner.vx
//@@ include merkle.vx
//@@ include chal.vx
//@@ include frispec.vx
//@@ include frival.vx
//@@ include frimath.vx
}
fn main(){}
