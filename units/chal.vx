// the challenge a root encodes
pub open spec fn chal<F: PrimeField>(root: Seq<u8>) -> F { choose|c: F| c.canon() == dig_val::<F>(root) }
pub proof fn l_chal<F: PrimeField>(c: F, root: Seq<u8>) requires c.canon() == dig_val::<F>(root) ensures c == chal::<F>(root) { F::ax_repr(c, chal::<F>(root)); }
