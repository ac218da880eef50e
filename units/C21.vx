//@@ include prelude.vx
//@@ include alg.vx
//@@ include ring.vx
//@@ include bits.vx
//@@ include worker.vx
//@@ include log2.vx
//@@ include domain.vx
//@@ include air.vx
//@@ include conalg.vx
//@@ include satis.vx
//@@ include vdf.vx
}
fn main(){}
