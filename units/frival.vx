// ---- FRI prover by values ----
//@@ fn src/fri/fri_on_values.rs NaiveFriIop::proof_from_lde_by_values ret=r attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(100)]"
//@@ subst "l0_commitment : I" => "l0_commitment : TrivialBlake2sIOP<F>"
//@@ subst "I::create" => "TrivialBlake2sIOP::<F>::create"
//@@ subst "values_slice.to_vec()" => "vx_to_vec(values_slice)"
//@@ subst "let mut roots" => "let mut roots : Vec<[u8; 32]>"
requires F::NUM_BITS < 256, fft_able(*lde_values, worker), is_p2(lde_factor as int), is_p2(output_coeffs_at_degree_plus_one as int),
  lde_factor * output_coeffs_at_degree_plus_one <= lde_values.coeffs@.len(), lde_factor * output_coeffs_at_degree_plus_one >= 2
ensures r is Ok, pl_committed(r->Ok_0, lde_values.coeffs@), pl_folded(r->Ok_0, lde_values.coeffs@),
  r->Ok_0.lde_factor == lde_factor, r->Ok_0.output_coeffs_at_degree_plus_one == output_coeffs_at_degree_plus_one, r->Ok_0.initial_degree_plus_one * lde_factor == lde_values.coeffs@.len(),
  r->Ok_0.initial_degree_plus_one == output_coeffs_at_degree_plus_one * pow2(r->Ok_0.intermediate_values@.len()),
  r->Ok_0.final_root@ == nd(pl_layer(r->Ok_0, lde_values.coeffs@, r->Ok_0.intermediate_values@.len() as int), 1),
  exists|x: Seq<F>| x.len() >= output_coeffs_at_degree_plus_one && r->Ok_0.final_coefficients@ == x.subrange(0, output_coeffs_at_degree_plus_one as int)
     && #[trigger] is_dft(pl_layer(r->Ok_0, lde_values.coeffs@, r->Ok_0.intermediate_values@.len() as int), x, dgen::<F>((lde_values.exp - r->Ok_0.intermediate_values@.len()) as nat))
//@@ begin
  let ghost k = lde_values.exp as nat; let ghost leaf = lde_values.coeffs@; let ghost n = leaf.len() as int; let ghost w = lde_values.omega; let ghost wi = w.finv();
  let ghost lf = lde_factor as int; let ghost out = output_coeffs_at_degree_plus_one as int; let ghost s = (k - lg2(lf) - lg2(out)) as int;
  proof {
    F::ax_two(); l_dgen_prim::<F>(k); l_prim_nonzero(w, k); lemma2_to64(); lemma2_to64_rest(); lemma_lg2_pow2(k); lemma_pow2_le(k, 31);
    l_fri_sizes(n, k, lf, out); assert(is_p2(n));
  }
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == omegas_inv@.len(), omegas_inv@.len() == n / 2, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] omegas_inv@[i] == fpow(wi, i as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = omegas_inv@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == off(vx_i1 + 1, vx_c1 as int, vx_l1 as int) - o, vx_k2 <= vx_n2, o >= 0, u == fpow(wi, (o + vx_k2) as nat),
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == fpow(wi, (o + i) as nat),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_pow_step(wi, (o + vx_i2) as nat); }
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] omegas_inv@[i] == fpow(wi, i as nat) by {
      if i >= o { assert(omegas_inv@[i] == fpow(wi, (o + (i - o)) as nat)); } else { assert(omegas_inv@[i] == vx_pre[i]); } } }
//@@ stmt "let mut next_domain_challenge" after
  proof { l_chal(next_domain_challenge, nd(leaf, 1)); }
//@@ loop 3
  invariant vx_n3 == s, num_steps == s, vx_k3 <= vx_n3, next_domain_size == pow2((k - vx_k3) as nat) / 2, omegas_inv_ref@.len() == n / 2,
    forall|i: int| 0 <= i < n / 2 ==> #[trigger] omegas_inv_ref@[i] == fpow(wi, i as nat),
    intermediate_values@.len() == vx_k3, intermediate_commitments@.len() == vx_k3, challenges@.len() == vx_k3 + 1, roots@.len() == vx_k3,
    values_slice@ == ivl(leaf, intermediate_values@, vx_k3 as int), next_domain_challenge == challenges@[vx_k3 as int],
    forall|t: int| 0 <= t <= vx_k3 ==> (#[trigger] ivl(leaf, intermediate_values@, t)).len() == pow2((k - t) as nat),
    forall|t: int| 0 <= t <= vx_k3 ==> (#[trigger] ici(l0_commitment, intermediate_commitments@, t)).tree.wf(ivl(leaf, intermediate_values@, t)),
    forall|t: int| 0 <= t <= vx_k3 ==> #[trigger] challenges@[t] == chal::<F>(nd(ivl(leaf, intermediate_values@, t), 1)),
    forall|t: int| 0 <= t < vx_k3 ==> #[trigger] roots@[t]@ == nd(ivl(leaf, intermediate_values@, t + 1), 1),
    forall|t: int| 0 <= t < vx_k3 ==> #[trigger] layer_folds(ivl(leaf, intermediate_values@, t), ivl(leaf, intermediate_values@, t + 1), challenges@[t], (k - t) as nat),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost rd = vx_i3 as int; let ghost h = pow2((k - rd - 1) as nat) as int; let ghost iv0 = intermediate_values@; let ghost ic0 = intermediate_commitments@; let ghost ch0 = challenges@; let ghost rt0 = roots@; let ghost c0 = next_domain_challenge; let ghost prev = values_slice@; let ghost m0 = next_domain_size;
  proof { lemma_pow2_step((k - rd - 1) as nat); lemma_pow2_pos((k - rd - 1) as nat); lemma_pow2_le((k - rd) as nat, k); lemma_shl1(rd as u64); lemma_shl_ty(rd as u32); lemma_pow2_le(rd as nat, k);
    assert(ivl(leaf, intermediate_values@, rd).len() == 2 * h); }
//@@ loop 4 before
  proof { lemma_num_chunks(vx_l2 as int, vx_c2 as int); }
//@@ loop 4
  invariant vx_c2 > 0, vx_c2 == chunk, vx_l2 == h, next_values@.len() == h, vx_n4 == num_chunks(vx_l2 as int, vx_c2 as int), vx_k4 <= vx_n4,
    forall|j: int| 0 <= j < off(vx_k4 as int, vx_c2 as int, vx_l2 as int) ==> #[trigger] next_values@[j] == ffold(prev[j], prev[j + h], c0, fpow(dgen::<F>((k - rd) as nat).finv(), j as nat)),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost pre4 = next_values@; let ghost o4 = off(vx_i4 as int, vx_c2 as int, vx_l2 as int);
  proof { lemma_chunk_step(vx_i4 as int, vx_c2 as int, vx_l2 as int); }
//@@ loop 5
  invariant vx_n5 == v@.len(), v@.len() == off(vx_i4 + 1, vx_c2 as int, vx_l2 as int) - o4, vx_k5 <= vx_n5, o4 >= 0, initial_k == o4,
    forall|j: int| 0 <= j < vx_k5 ==> #[trigger] v@[j] == ffold(prev[o4 + j], prev[o4 + j + h], c0, fpow(dgen::<F>((k - rd) as nat).finv(), (o4 + j) as nat)),
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  proof { l_idx_bound(o4 + vx_i5, rd as nat, (k - rd - 1) as nat); l_fold_omega::<F>(k, rd as nat, (o4 + vx_i5) as nat); lemma_pow2_step((k - 1) as nat); }
//@@ loop 4 end
  proof { let o2 = off(vx_k4 as int, vx_c2 as int, vx_l2 as int);
    assert forall|j: int| 0 <= j < o2 implies #[trigger] next_values@[j] == ffold(prev[j], prev[j + h], c0, fpow(dgen::<F>((k - rd) as nat).finv(), j as nat)) by {
      if j >= o4 { assert(next_values@[j] == ffold(prev[o4 + (j - o4)], prev[o4 + (j - o4) + h], c0, fpow(dgen::<F>((k - rd) as nat).finv(), (o4 + (j - o4)) as nat))); } else { assert(next_values@[j] == pre4[j]); } } }
//@@ stmt "let intermediate_iop" before
  proof { assert(layer_folds(prev, next_values@, c0, (k - rd) as nat)); lemma_pow2_le(1, (k - rd - 1) as nat); assert(is_p2(h)); lemma_lg2_pow2((k - rd - 1) as nat); }
  let ghost nv = next_values@;
//@@ stmt "next_domain_challenge =" after
  proof { l_chal(next_domain_challenge, nd(nv, 1)); lemma_np2(h); lemma_pow2_le((k - rd - 1) as nat, F::S as nat); }
//@@ stmt "next_domain_size >>=" before
  proof { lemma_shr1(next_domain_size); }
//@@ loop 3 inner_end
  proof {
    assert(iv0.push(intermediate_values@[rd]) =~= intermediate_values@); assert(intermediate_values@[rd].coeffs@ =~= nv);
    assert forall|t: int| 0 <= t <= rd implies #[trigger] ivl(leaf, intermediate_values@, t) == ivl(leaf, iv0, t) by { }
    assert forall|t: int| 0 <= t <= rd implies #[trigger] ici(l0_commitment, intermediate_commitments@, t) == ici(l0_commitment, ic0, t) by { }
  }
//@@ stmt "challenges . pop" before
  let ghost chs = challenges@; let ghost intermediate_values0 = intermediate_values@; let ghost rts = roots@; let ghost last = values_slice@;
//@@ stmt "let final_poly_values" before
  proof { assert(ivl(leaf, intermediate_values@, s) == last); lemma_np2(last.len() as int); lemma_pow2_le((k - s) as nat, F::S as nat); assert(is_p2(last.len() as int)); lemma_lg2_pow2((k - s) as nat); lemma_pow2_le((k - s) as nat, k); }
//@@ stmt "let final_poly_values" after
  proof { assert(final_poly_values.coeffs@ =~= last); lemma_lg2_pow2(final_poly_values.exp as nat); assert(final_poly_values.exp == k - s); }
//@@ stmt "let final_poly_coeffs" after
  let ghost x = final_poly_coeffs.coeffs@;
//@@ end tail
  proof {
    let p = vx_ret->Ok_0;
    assert(p.initial_degree_plus_one * p.lde_factor == n);
    assert forall|t: int| 0 <= t <= s implies #[trigger] pl_layer(p, leaf, t) == ivl(leaf, intermediate_values0, t) by { }
    assert forall|t: int| 0 <= t <= s implies #[trigger] pl_iop(p, t) == ici(p.l0_commitment, p.intermediate_commitments@, t) by { }
    assert forall|t: int| 0 <= t < s implies #[trigger] p.challenges@[t] == chal::<F>(nd(pl_layer(p, leaf, t), 1)) by { assert(chs[t] == chal::<F>(nd(ivl(leaf, intermediate_values0, t), 1))); }
    assert forall|t: int| 0 <= t <= s implies (#[trigger] pl_layer(p, leaf, t)).len() == pow2((k - t) as nat) by { assert(ivl(leaf, intermediate_values0, t).len() == pow2((k - t) as nat)); }
    assert forall|t: int| 0 <= t <= s implies (#[trigger] pl_iop(p, t)).tree.wf(pl_layer(p, leaf, t)) by { assert(ici(p.l0_commitment, p.intermediate_commitments@, t).tree.wf(ivl(leaf, intermediate_values0, t))); }
    assert forall|t: int| 0 <= t < s implies #[trigger] layer_folds(pl_layer(p, leaf, t), pl_layer(p, leaf, t + 1), p.challenges@[t], (k - t) as nat) by { assert(layer_folds(ivl(leaf, intermediate_values0, t), ivl(leaf, intermediate_values0, t + 1), chs[t], (k - t) as nat)); }
    assert(pl_committed(p, leaf));
    assert(pl_folded(p, leaf));
    lemma_is_p2(out); lemma_pow2_le(lg2(out), (k - s) as nat); assert(x.len() >= out); assert(p.final_coefficients@ == x.subrange(0, out));
    assert(is_dft(pl_layer(p, leaf, s), x, dgen::<F>((k - s) as nat)));
  }
//@@ endfn
