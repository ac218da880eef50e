//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include lde.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include air.vx
//@@ include conalg.vx
//@@ include satis.vx
//@@ include allmut.vx
//@@ include witpoly.vx
}
fn main(){}
