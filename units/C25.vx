//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include poly.vx
//@@ include air.vx
//@@ include conalg.vx
//@@ include satis.vx
//@@ include remap.vx
//@@ include ixmap.vx
//@@ include comp.vx
//@@ include masks.vx
//@@ include hash.vx
//@@ include transcript.vx
//@@ include digest.vx
//@@ include tcomb.vx
//@@ include combiner.vx
//@@ include merkle.vx
//@@ include chal.vx
//@@ include frispec.vx
//@@ include friver.vx
//@@ include friif.vx
//@@ include chalidx.vx
//@@ include inst.vx
//@@ include vcomp.vx
//@@ include vcomp2.vx
//@@ include vnew.vx
//@@ include chspec.vx
//@@ include vver.vx
}
fn main(){}
