// ---- leaf encoding and digest interpretation ----
//@@ item src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder
pub open spec fn leaf_bytes<F: PrimeField>(x: F) -> Seq<u8> { sp_le(x.raw()) + Seq::new((32 - 8 * x.raw().len()) as nat, |i: int| 0u8) }
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder::encode_leaf ret=r impl="LeafEncoder"
//@@ subst "Self::Output" => "[u8; 32]"
requires F::NUM_BITS < 256
ensures r@ == leaf_bytes(*value)
//@@ begin
  proof { F::ax_bits(); F::ax_repr(*value, *value); }
//@@ end
  proof { assert(output@ =~= leaf_bytes(*value)); }
//@@ endfn
pub proof fn lemma_leaf_inj<F: PrimeField>(x: F, y: F) requires F::NUM_BITS < 256, leaf_bytes(x) == leaf_bytes(y) ensures x == y {
    F::ax_repr(x, y); F::ax_repr(y, x); F::ax_bits();
    assert(sp_le(x.raw()) =~= leaf_bytes(x).subrange(0, 8 * x.raw().len() as int));
    assert(sp_le(y.raw()) =~= leaf_bytes(y).subrange(0, 8 * y.raw().len() as int));
    l_sp_le_inj(x.raw(), y.raw());
}
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder::interpret_hash ret=r impl="HashEncoder"
//@@ subst "Self::Input" => "[u8; 32]"
requires F::NUM_BITS < 256
ensures r.canon() == dig_val::<F>(value@)
//@@ begin
  proof { F::ax_bits();  l_dig::<F>(value@);  }
//@@ loop 1 before
  proof { repr.ax_limbs(); }
  let ghost l0 = repr.limbs(); let ghost n = <F::Repr as PrimeFieldRepr>::nl() as int;
  proof { assert(l0 =~= dig_limbs(value@, n)); }
//@@ loop 1
  invariant n == <F::Repr as PrimeFieldRepr>::nl(), l0.len() == n, repr.limbs().len() == n, vx_n1 == n, vx_k1 <= n, n <= 4, F::CAPACITY < 256,
    forall|j: int| 0 <= j < vx_k1 ==> #[trigger] repr.limbs()[j] == shave1(l0[j], F::CAPACITY as int, j),
    forall|j: int| vx_k1 <= j < n ==> #[trigger] repr.limbs()[j] == l0[j],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = repr.limbs();
  proof { let c = F::CAPACITY as int - 64 * vx_i1; if 0 <= c < 64 { l_mask(vx_pre[vx_i1 as int], c as u64); lemma2_to64(); } if c < 0 { l_mask(vx_pre[vx_i1 as int], 0); lemma2_to64(); } }
//@@ loop 1 end
  proof { repr.ax_limbs(); assert forall|j: int| 0 <= j < vx_k1 implies #[trigger] repr.limbs()[j] == shave1(l0[j], F::CAPACITY as int, j) by { if j < vx_i1 { assert(repr.limbs()[j] == vx_pre[j]); } } }
//@@ loop 1 after
  proof { assert(repr.limbs() =~= shave(l0, F::CAPACITY as int)); l_shave(l0, F::CAPACITY as int, n); }
//@@ endfn
