//@@ include prelude.vx
//@@ include chalidx.vx
}
fn main(){}
