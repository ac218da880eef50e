//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include lde.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include polyfft.vx
//@@ include polylde.vx
//@@ include pointwise.vx
//@@ include roots.vx
//@@ include interp.vx
}
fn main(){}
