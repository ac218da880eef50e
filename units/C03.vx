//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
}
fn main(){}
