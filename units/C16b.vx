//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include lde.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include polyfft.vx
//@@ include polylde.vx
//@@ include hash.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include combiner.vx
//@@ include merkle.vx
//@@ include chal.vx
//@@ include frispec.vx
//@@ include frimath.vx
//@@ include fricoef.vx
}
fn main(){}
