//@@ fn src/fri/verifier.rs NaiveFriIop::verify_proof_queries ret=r attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]"
requires F::NUM_BITS < 256
ensures r == Ok::<bool, SynthesisError>(true) <==> degree == 2 && fri_accepts(*proof, natural_element_index as int, expected_value_from_oracle)
//@@ begin
  let ghost p = *proof; let ghost i0 = natural_element_index as int; let ghost v0 = expected_value_from_oracle; let ghost n0 = p.initial_degree_plus_one * p.lde_factor;
  let ghost k = fri_k(p); let ghost nr = p.roots@.len() as int;
  proof { ax_eq::<F>(); F::ax_two(); }
//@@ stmt "let domain_element" before
  proof { lemma_np2(n0); lemma_is_p2(np2(n0)); lemma_lg2_pow2(domain.power_of_two as nat); assert(domain.power_of_two == k); lemma2_to64(); 
     if k == 0 { l_pow_one::<F>(1); } }
//@@ stmt "let domain_element" after
  proof { l_prim_nonzero(domain.generator, k); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); lemma_pow2_step(63); } lemma_small_mod(i0 as nat, pow2(k)); if k >= 1 { lemma_pow2_step((k - 1) as nat); l_odd_index(domain.generator, k, i0 as nat); } else { assert(i0 == 0); } }
//@@ loop 1
  invariant degree == 2, p == *proof, nr == p.roots@.len(), vx_n1 == nr, 1 <= vx_k1 <= vx_n1, p.initial_degree_plus_one == degree_plus_one * pow2((vx_k1 - 1) as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { l_deg_odd(p.initial_degree_plus_one as int, degree_plus_one as int, p.output_coeffs_at_degree_plus_one as int, (vx_i1 - 1) as nat, (nr - 1) as nat); }
//@@ stmt "if degree_plus_one != proof" before
  proof { let e = pow2((nr - 1) as nat) as int; lemma_pow2_pos((nr - 1) as nat); let o = p.output_coeffs_at_degree_plus_one as int; let d = degree_plus_one as int; assert(d * e == o * e ==> d == o) by (nonlinear_arith) requires e >= 1; }
//@@ loop 2
  invariant_except_break
    vx_k2 < vx_n2, vx_k2 <= k, domain_size == pow2((k - vx_k2) as nat), domain_idx == fri_idx(k, i0, vx_k2 as int), omega == dgen::<F>((k - vx_k2) as nat), omega_inv == omega.finv(), omega != F::f0(),
    expected_value == if vx_k2 == 0 { None::<F> } else { Some(fri_fold(p, k, i0, vx_k2 - 1)) },
  invariant
    degree == 2, vx_c1 == 2, vx_l1 == p.queries@.len(), vx_n2 == nr, nr == p.roots@.len(), vx_nc1 == vx_l1 as int / 2, p == *proof, p.queries@.len() == 2 * nr, n0 == p.initial_degree_plus_one * p.lde_factor,
    vx_k2 <= vx_n2, 
    k == fri_k(p), domain.power_of_two == k, k <= F::S, k < 64,
    i0 == natural_element_index, 0 <= i0 < pow2(k), i0 % 2 == 1, v0 == expected_value_from_oracle, two_inv == ftwo::<F>().finv(), ftwo::<F>() != F::f0(),
    F::NUM_BITS < 256,
    forall|r: int| 0 <= r < vx_k2 ==> #[trigger] fri_round(p, k, i0, v0, r),
  ensures
    nr <= k, domain_idx == fri_idx(k, i0, nr - 1), omega == dgen::<F>((k - (nr - 1)) as nat), expected_value == Some(fri_val(p, k, i0, nr - 1)),
    forall|r: int| 0 <= r < nr ==> #[trigger] fri_round(p, k, i0, v0, r),
  decreases vx_n2 - vx_k2
//@@ loop 2 bound
  let ghost rd = round as int; let ghost m = pow2((k - round) as nat) as int; let ghost a = p.queries@[2 * rd]; let ghost b = p.queries@[2 * rd + 1];
  proof {
    assert(queries@.len() == 2 && queries@[0] == a && queries@[1] == b);
    lemma_pow2_pos((k - round) as nat); lemma_mod_bound(i0, m);
    lemma2_to64(); if k == round { assert(m == 1); } else { lemma_pow2_le(1, (k - round) as nat); }
    if round < k { assert(is_p2(m)); lemma_half(fri_idx(k, i0, rd), m); }
    assert(fri_accepts(p, i0, v0) ==> fri_round(p, k, i0, v0, rd));
    assert(fri_accepts(p, i0, v0) ==> fri_opens(a, fri_cos(k, i0, rd)[0] as int, k - rd, p.roots@[rd]@) && fri_opens(b, fri_cos(k, i0, rd)[1] as int, k - rd, p.roots@[rd]@));
    assert(fri_accepts(p, i0, v0) ==> fri_val(p, k, i0, rd) == if rd == 0 { v0 } else { fri_fold(p, k, i0, rd - 1) });
  }
//@@ loop 3
  invariant vx_k3 <= vx_n3, vx_n3 == 2, forall|j: int| 0 <= j < vx_k3 ==> (#[trigger] queries@[j]).index == coset_values@[0] || queries@[j].index == coset_values@[1],
  decreases vx_n3 - vx_k3
//@@ loop 4
  invariant vx_k4 <= vx_n4, vx_n4 == 2, forall|j: int| 0 <= j < vx_k4 ==> (#[trigger] queries@[j]).index == i0 ==> queries@[j].value == v0,
  decreases vx_n4 - vx_k4
//@@ loop 5
  invariant vx_k5 <= vx_n5, vx_n5 == 2, forall|j: int| 0 <= j < vx_k5 ==> (#[trigger] queries@[j]).index == coset_values@[j],
  decreases vx_n5 - vx_k5
//@@ loop 6
  invariant vx_k6 <= vx_n6, vx_n6 == 2, forall|j: int| 0 <= j < vx_k6 ==> fri_opens(#[trigger] queries@[j], coset_values@[j] as int, k - rd, p.roots@[rd]@),
  decreases vx_n6 - vx_k6
//@@ loop 7
  invariant vx_k7 <= vx_n7, vx_n7 == 2,
    vx_out7@ == if vx_k7 == 0 { Seq::<&TrivialBlake2sIopQuery<F>>::empty() } else if vx_k7 == 1 { if a.index == domain_idx { seq![&a] } else { seq![] } } else { if a.index == domain_idx { seq![&a] } else { seq![&b] } },
  decreases vx_n7 - vx_k7
//@@ stmt "let divisor" before
  proof { assert(fri_round(p, k, i0, v0, rd)); l_chal(iop_challenge, root@); l_fri_next(k, i0, rd, omega, omega_inv); }
//@@ stmt "if round + 1 ==" before
  proof { assert(supplied_value == fri_val(p, k, i0, rd)); }
//@@ loop 8
  invariant vx_k8 <= vx_n8, vx_n8 == p.final_coefficients@.len(), power == fpow(evaluation_point, vx_k8 as nat),
    expected_value_from_coefficients == fsum(term(p.final_coefficients@, evaluation_point), vx_k8 as int),
  decreases vx_n8 - vx_k8
//@@ loop 8 start
  proof { let t = term(p.final_coefficients@, evaluation_point); assert(t(vx_i8 as int) == p.final_coefficients@[vx_i8 as int].fmul(power)); F::ax_mul_comm(power, p.final_coefficients@[vx_i8 as int]); l_pow_step(evaluation_point, vx_i8 as nat); }
//@@ endfn
//@@ fn src/fri/verifier.rs NaiveFriIop::verify_prototype ret=r attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]"
requires pl_shape(*proof, leaf_values.coeffs@), natural_element_index < np2(proof.initial_degree_plus_one * proof.lde_factor)
ensures r == Ok::<bool, SynthesisError>(true) <==> pl_accepts(*proof, leaf_values.coeffs@, natural_element_index as int)
//@@ begin
  let ghost p = *proof; let ghost i0 = natural_element_index as int; let ghost lv = leaf_values.coeffs@; let ghost n0 = p.initial_degree_plus_one * p.lde_factor;
  let ghost k = pl_k(p); let ghost s = pl_rounds(p);
  proof { ax_eq::<F>(); F::ax_two(); lemma_np2(n0); lemma_is_p2(np2(n0)); lemma2_to64(); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); } }
//@@ stmt "let domain_element" before
  proof { lemma_lg2_pow2(domain.power_of_two as nat); assert(domain.power_of_two == k); }
//@@ stmt "let domain_element" after
  proof { l_prim_nonzero(domain.generator, k); lemma_pow2_step((k - 1) as nat); l_odd_index(domain.generator, k, i0 as nat); lemma_small_mod(i0 as nat, pow2(k)); }
//@@ stmt "let mut omega_inv" after
  proof { let g = domain.generator; l_pow_inv(g, pow2(k)); F::ax_one(F::f1()); l_inv_unique(F::f1(), F::f1()); }
//@@ loop 1
  invariant
    vx_n1 == s, vx_k1 <= vx_n1, domain_size == pow2((k - vx_k1) as nat), domain_idx == fri_idx(k, i0, vx_k1 as int), omega == dgen::<F>((k - vx_k1) as nat), omega_inv == omega.finv(), omega != F::f0(),
    expected_value == if vx_k1 == 0 { None::<F> } else { Some(pl_fold(p, lv, k, i0, vx_k1 - 1)) },
    forall|r: int| 0 <= r < vx_k1 ==> #[trigger] pl_link(p, lv, k, i0, r),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost rd = vx_i1 as int; let ghost m = pow2((k - rd) as nat) as int;
  proof {
    lemma_pow2_pos((k - rd) as nat); lemma_mod_bound(i0, m); lemma_pow2_le(1, (k - rd) as nat); assert(is_p2(m)); lemma_half(fri_idx(k, i0, rd), m);
    assert(pl_accepts(p, lv, i0) ==> pl_link(p, lv, k, i0, rd)); assert(pl_layer(p, lv, rd).len() >= m);
  }
//@@ stmt "let divisor" before
  proof { assert(pl_link(p, lv, k, i0, rd)); l_fri_next(k, i0, rd, omega, omega_inv); }
//@@ loop 2
  invariant vx_k2 <= vx_n2, vx_n2 == p.final_coefficients@.len(), power == fpow(evaluation_point, vx_k2 as nat),
    expected_value_from_coefficients == fsum(term(p.final_coefficients@, evaluation_point), vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { let t = term(p.final_coefficients@, evaluation_point); assert(t(vx_i2 as int) == p.final_coefficients@[vx_i2 as int].fmul(power)); F::ax_mul_comm(power, p.final_coefficients@[vx_i2 as int]); l_pow_step(evaluation_point, vx_i2 as nat); }
//@@ endfn
//@@ fn src/fri/query_producer.rs FRIProofPrototype::produce_proof ret=r attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]"
requires pl_committed(self, iop_values.coeffs@), natural_first_element_index < self.initial_degree_plus_one * self.lde_factor
ensures r is Ok,
  r->Ok_0.initial_degree_plus_one == self.initial_degree_plus_one, r->Ok_0.lde_factor == self.lde_factor, r->Ok_0.output_coeffs_at_degree_plus_one == self.output_coeffs_at_degree_plus_one,
  r->Ok_0.final_coefficients@ == self.final_coefficients@,
  r->Ok_0.roots@.len() == self.intermediate_values@.len() + 1, r->Ok_0.queries@.len() == 2 * r->Ok_0.roots@.len(),
  forall|t: int| 0 <= t <= self.intermediate_values@.len() ==> #[trigger] pl_answers(self, iop_values.coeffs@, lg2(self.initial_degree_plus_one * self.lde_factor), natural_first_element_index as int, r->Ok_0.queries@, r->Ok_0.roots@, t)
//@@ begin
  let ghost p = self; let ghost i0 = natural_first_element_index as int; let ghost lv = iop_values.coeffs@; let ghost n0 = (p.initial_degree_plus_one * p.lde_factor) as int;
  let ghost k = lg2(n0); let ghost s = p.intermediate_values@.len() as int;
  proof { lemma_is_p2(n0); lemma_small_mod(i0 as nat, pow2(k)); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); } }
//@@ loop 1
  invariant vx_n1 == s + 1, vx_k1 <= vx_n1, domain_size == pow2((k - vx_k1) as nat), domain_idx == fri_idx(k, i0, vx_k1 as int), roots@.len() == vx_k1, queries@.len() == 2 * vx_k1,
    forall|t: int| 0 <= t < vx_k1 ==> #[trigger] pl_answers(p, lv, k, i0, queries@, roots@, t),
  decreases vx_n1 - vx_k1
//@@ loop 1 bound
  let ghost rd = vx_i1 as int; let ghost m = pow2((k - rd) as nat) as int; let ghost q0 = queries@; let ghost r0 = roots@;
  proof {
    lemma_pow2_pos((k - rd) as nat); lemma_mod_bound(i0, m); lemma_pow2_le(1, (k - rd) as nat); lemma2_to64(); assert(is_p2(m)); lemma_half(fri_idx(k, i0, rd), m);
    assert(pl_layer(p, lv, rd).len() == m); assert(pl_iop(p, rd).tree.wf(pl_layer(p, lv, rd)));
    lemma_pow2_step((k - rd - 1) as nat); lemma_pow2_pos((k - rd - 1) as nat); lemma_mod_mod(i0, m / 2, 2);
  }
//@@ loop 2
  invariant vx_n2 == 2, vx_k2 <= 2, queries@.len() == 2 * rd + vx_k2, forall|t: int| 0 <= t < 2 * rd ==> queries@[t] == q0[t],
    vx_k2 >= 1 ==> pl_query(queries@[2 * rd], leaf_values.coeffs@, coset_values@[0] as int),
    vx_k2 >= 2 ==> pl_query(queries@[2 * rd + 1], leaf_values.coeffs@, coset_values@[1] as int),
  decreases vx_n2 - vx_k2
//@@ loop 1 inner_end
  proof {
    assert forall|t: int| 0 <= t < rd + 1 implies #[trigger] pl_answers(p, lv, k, i0, queries@, roots@, t) by {
      if t < rd { assert(pl_answers(p, lv, k, i0, q0, r0, t)); }
    }
  }
//@@ endfn
