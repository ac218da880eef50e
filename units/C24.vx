//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include poly.vx
//@@ include fftmath.vx
//@@ include fft.vx
//@@ include pfft.vx
//@@ include lde.vx
//@@ include dist.vx
//@@ include distm.vx
//@@ include fftinv.vx
//@@ include polyfft.vx
//@@ include polylde.vx
//@@ include pointwise.vx
//@@ include chunks.vx
//@@ include batchinv.vx
//@@ include precomp.vx
//@@ include air.vx
//@@ include conalg.vx
//@@ include satis.vx
//@@ include remap.vx
//@@ include ixmap.vx
//@@ include comp.vx
//@@ include masks.vx
//@@ include hash.vx
//@@ include evalat.vx
//@@ include transcript.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include combiner.vx
//@@ include merkle.vx
//@@ include chal.vx
//@@ include frispec.vx
//@@ include friver.vx
//@@ include friif.vx
//@@ include frival.vx
//@@ include frimath.vx
//@@ include fricompl.vx
//@@ include chalidx.vx
//@@ include inst.vx
//@@ include vcomp.vx
//@@ include vcomp2.vx
//@@ include vnew.vx
//@@ include chspec.vx
//@@ include ali.vx
//@@ include alig.vx
//@@ include deep.vx
//@@ include vver.vx
pub mod composed { use super::*;
//@@ include polyfn.vx
//@@ include allmut.vx
//@@ include witpoly.vx
//@@ include maskval.vx
//@@ include compl.vx
//@@ include compl2.vx
}
}
fn main(){}
