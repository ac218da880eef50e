//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include lde.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include polyfft.vx
//@@ include polylde.vx
//@@ include pointwise.vx
//@@ include chunks.vx
//@@ include batchinv.vx
//@@ include precomp.vx
//@@ include air.vx
//@@ include conalg.vx
//@@ include satis.vx
//@@ include remap.vx
//@@ include ixmap.vx
//@@ include comp.vx
//@@ include masks.vx
//@@ include hash.vx
//@@ include evalat.vx
//@@ include transcript.vx
//@@ include chal.vx
//@@ include inst.vx
//@@ include chspec.vx
//@@ include ali.vx
//@@ include alig.vx
//@@ include deep.vx
}
fn main(){}
