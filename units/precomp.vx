// ---- precomputed root tables ----
//@@ item src/precomputations/mod.rs PrecomputedOmegas
pub open spec fn powers<F: FieldSpec>(g: F, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| fpow(g, i as nat)) }
//@@ fn src/precomputations/mod.rs PrecomputedOmegas::new_for_domain ret=r
requires worker.wf(), domain.wf(), domain.power_of_two < 64
ensures
  r.omegas@ == powers(domain.generator, domain.size as int),
  r.coset@ == Seq::new(domain.size as nat, |i: int| F::sgen().fmul(fpow(domain.generator, i as nat))),
  r.omegas_inv@ == Seq::new((domain.size / 2) as nat, |i: int| fpow(domain.generator, i as nat).finv())
//@@ begin
  let ghost w = domain.generator; let ghost wi = domain.generator.finv();
  proof { l_prim_nonzero(w, domain.power_of_two as nat); lemma2_to64_rest(); lemma_pow2_le(domain.power_of_two as nat, 63); }
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == domain.size, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1, omega == w,
    omegas@.len() == vx_l1,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] omegas@[i] == fpow(w, i as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = omegas@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2
  invariant vx_n2 == v@.len(), vx_k2 <= vx_n2, o >= 0, omega == w, u == fpow(w, (o + vx_k2) as nat),
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == fpow(w, (o + i) as nat),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_pow_step(w, (o + vx_i2) as nat); }
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] omegas@[i] == fpow(w, i as nat) by { if i < o { assert(omegas@[i] == vx_pre[i]); } } }
//@@ loop 3 before
  proof { lemma_num_chunks(vx_l2 as int, vx_c2 as int); assert(omegas@ =~= powers(w, domain.size as int)); }
//@@ loop 3
  invariant vx_c2 > 0, vx_c2 == chunk, vx_l2 == domain.size / 2, vx_n3 == num_chunks(vx_l2 as int, vx_c2 as int), vx_k3 <= vx_n3, omega_inv == wi,
    omegas_inv@.len() == vx_l2,
    forall|i: int| 0 <= i < off(vx_k3 as int, vx_c2 as int, vx_l2 as int) ==> #[trigger] omegas_inv@[i] == fpow(wi, i as nat),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost vx_pre = omegas_inv@; let ghost o = off(vx_i3 as int, vx_c2 as int, vx_l2 as int);
  proof { lemma_chunk_step(vx_i3 as int, vx_c2 as int, vx_l2 as int); }
//@@ loop 4
  invariant vx_n4 == v@.len(), vx_k4 <= vx_n4, o >= 0, omega_inv == wi, u == fpow(wi, (o + vx_k4) as nat),
    forall|i: int| 0 <= i < vx_k4 ==> #[trigger] v@[i] == fpow(wi, (o + i) as nat),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  proof { l_pow_step(wi, (o + vx_i4) as nat); }
//@@ loop 3 end
  proof { let o2 = off(vx_k3 as int, vx_c2 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] omegas_inv@[i] == fpow(wi, i as nat) by { if i < o { assert(omegas_inv@[i] == vx_pre[i]); } } }
//@@ stmt "let mut coset" before
  proof { lemma_num_chunks((domain.size / 2) as int, worker.csz((domain.size / 2) as int));
    assert forall|i: int| 0 <= i < omegas_inv@.len() implies #[trigger] omegas_inv@[i] == fpow(w, i as nat).finv() by { l_pow_inv(w, i as nat); }
    assert(omegas_inv@ =~= Seq::new((domain.size / 2) as nat, |i: int| fpow(domain.generator, i as nat).finv())); }
//@@ stmt "let mut coset" after
  proof { l_cl0::<F>(); assert(coset@ =~= omegas@); }
//@@ loop 5 before
  proof { lemma_num_chunks(vx_l3 as int, vx_c3 as int); }
//@@ loop 5
  invariant vx_c3 > 0, vx_l3 == domain.size, vx_n5 == num_chunks(vx_l3 as int, vx_c3 as int), vx_k5 <= vx_n5, mult_generator == F::sgen(),
    coset@.len() == vx_l3,
    forall|i: int| 0 <= i < off(vx_k5 as int, vx_c3 as int, vx_l3 as int) ==> #[trigger] coset@[i] == F::sgen().fmul(fpow(w, i as nat)),
    forall|i: int| off(vx_k5 as int, vx_c3 as int, vx_l3 as int) <= i < vx_l3 ==> #[trigger] coset@[i] == fpow(w, i as nat),
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  let ghost vx_pre = coset@; let ghost o = off(vx_i5 as int, vx_c3 as int, vx_l3 as int);
  proof { lemma_chunk_step(vx_i5 as int, vx_c3 as int, vx_l3 as int); }
//@@ loop 6
  invariant vx_n6 == v@.len(), vx_k6 <= vx_n6, o >= 0, mult_generator == F::sgen(),
    forall|i: int| 0 <= i < vx_k6 ==> #[trigger] v@[i] == F::sgen().fmul(fpow(w, (o + i) as nat)),
    forall|i: int| vx_k6 <= i < vx_n6 ==> #[trigger] v@[i] == fpow(w, (o + i) as nat),
  decreases vx_n6 - vx_k6
//@@ loop 6 before
  proof { assert forall|i: int| 0 <= i < v@.len() implies #[trigger] v@[i] == fpow(w, (o + i) as nat) by { assert(vx_pre[o + i] == fpow(w, (o + i) as nat)); } }
//@@ loop 6 start
  proof { F::ax_mul_comm(F::sgen(), fpow(w, (o + vx_i6) as nat)); }
//@@ loop 5 end
  proof { let o2 = off(vx_k5 as int, vx_c3 as int, vx_l3 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] coset@[i] == F::sgen().fmul(fpow(w, i as nat)) by { if i < o { assert(coset@[i] == vx_pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l3 implies #[trigger] coset@[i] == fpow(w, i as nat) by { assert(coset@[i] == vx_pre[i]); } }
//@@ loop 5 after
  proof { lemma_num_chunks(vx_l3 as int, vx_c3 as int); assert(coset@ =~= Seq::new(domain.size as nat, |i: int| F::sgen().fmul(fpow(domain.generator, i as nat)))); }
//@@ endfn
