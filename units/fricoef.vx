// ---- FRI prover through the coefficients ----
// layer t is the evaluation of the round polynomial (up to the known deviation of the multi-coset LDE when a worker gets several cosets)
pub open spec fn layk<F: PrimeField>(a: Seq<F>, c: Seq<F>, k: nat, f: int, ch: int) -> bool {
    is_extk(a, c, F::f1(), dgen::<F>(k), pow2(k) as int, f, ch) && (ch == 1 ==> evals(a, c, k))
}
pub proof fn l_ext_evals<F: PrimeField>(a: Seq<F>, c: Seq<F>, k: nat) requires is_ext(a, c, F::f1(), dgen::<F>(k), pow2(k) as int) ensures evals(a, c, k) {
    assert forall|j: int| 0 <= j < pow2(k) implies #[trigger] a[j] == peval(c, fpow(dgen::<F>(k), j as nat)) by { l_one_l(fpow(dgen::<F>(k), j as nat)); }
}
pub open spec fn is_rounds<F: FieldSpec>(pp: Seq<Seq<F>>, c: Seq<F>, ch: Seq<F>, r: int) -> bool {
    pp.len() == r + 1 && pp[0] == c && forall|t: int| 0 <= t < r ==> #[trigger] pp[t + 1] == eo(pp[t], ch[t])
}
pub proof fn l_rounds<F: FieldSpec>(pp: Seq<Seq<F>>, c: Seq<F>, ch: Seq<F>, s: int, r: int) requires is_rounds(pp, c, ch, s), 0 <= r <= s ensures pp[r] == rpoly(c, ch, r) decreases r {
    if r > 0 { l_rounds(pp, c, ch, s, r - 1); assert(pp[(r - 1) + 1] == eo(pp[r - 1], ch[r - 1])); }
}
//@@ fn src/fri/mod.rs NaiveFriIop::proof_from_lde_through_coefficients ret=r attr="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(100)]"
//@@ subst "l0_commitment : I" => "l0_commitment : TrivialBlake2sIOP<F>"
//@@ subst "I::create" => "TrivialBlake2sIOP::<F>::create"
//@@ subst "next_coefficients.clone()" => "vx_to_vec(next_coefficients.as_slice())"
//@@ subst "let mut roots" => "let mut roots : Vec<[u8; 32]>"
requires F::NUM_BITS < 256, fft_able(lde_values, worker), is_p2(lde_factor as int), is_p2(output_coeffs_at_degree_plus_one as int),
  lde_factor * output_coeffs_at_degree_plus_one <= lde_values.coeffs@.len(), lde_factor * output_coeffs_at_degree_plus_one >= 2
ensures r is Ok, pl_committed(r->Ok_0, lde_values.coeffs@),
  r->Ok_0.lde_factor == lde_factor, r->Ok_0.output_coeffs_at_degree_plus_one == output_coeffs_at_degree_plus_one, r->Ok_0.initial_degree_plus_one * lde_factor == lde_values.coeffs@.len(),
  r->Ok_0.initial_degree_plus_one == output_coeffs_at_degree_plus_one * pow2(r->Ok_0.intermediate_values@.len()),
  r->Ok_0.final_root@ == nd(pl_layer(r->Ok_0, lde_values.coeffs@, r->Ok_0.intermediate_values@.len() as int), 1),
  coef_rounds(r->Ok_0, lde_values.coeffs@, worker.csz(lde_factor as int))
//@@ begin
  let ghost k = lde_values.exp as nat; let ghost leaf = lde_values.coeffs@; let ghost n = leaf.len() as int;
  let ghost lf = lde_factor as int; let ghost out = output_coeffs_at_degree_plus_one as int; let ghost s = (k - lg2(lf) - lg2(out)) as int; let ghost ch = worker.csz(lf); let ghost mut pp: Seq<Seq<F>> = seq![Seq::<F>::empty()];
  proof {
    lemma2_to64(); lemma2_to64_rest(); lemma_lg2_pow2(k); lemma_pow2_le(k, 31);
    l_fri_sizes(n, k, lf, out); assert(is_p2(n));
  }
//@@ stmt "let mut initial_polynomial_coeffs" after
  let ghost x = initial_polynomial_coeffs@; let ghost cc = x.subrange(0, n / lf);
//@@ stmt "let mut next_domain_challenge" after
  proof { pp = seq![cc]; l_chal(next_domain_challenge, nd(leaf, 1)); }
//@@ loop 1
  invariant vx_n1 == s, num_steps == s, vx_k1 <= vx_n1, coeffs@ == pp[vx_k1 as int], coeffs@.len() == out * pow2((s - vx_k1) as nat), next_domain_size == coeffs@.len() / 2,
    is_rounds(pp, cc, challenges@, vx_k1 as int),
    intermediate_values@.len() == vx_k1, intermediate_commitments@.len() == vx_k1, challenges@.len() == vx_k1 + 1, roots@.len() == vx_k1,
    next_domain_challenge == challenges@[vx_k1 as int],
    forall|t: int| 0 <= t <= vx_k1 ==> (#[trigger] ivl(leaf, intermediate_values@, t)).len() == pow2((k - t) as nat),
    forall|t: int| 0 <= t <= vx_k1 ==> (#[trigger] ici(l0_commitment, intermediate_commitments@, t)).tree.wf(ivl(leaf, intermediate_values@, t)),
    forall|t: int| 0 <= t <= vx_k1 ==> #[trigger] challenges@[t] == chal::<F>(nd(ivl(leaf, intermediate_values@, t), 1)),
    forall|t: int| 0 <= t < vx_k1 ==> #[trigger] roots@[t]@ == nd(ivl(leaf, intermediate_values@, t + 1), 1),
    forall|t: int| 1 <= t <= vx_k1 ==> layk(#[trigger] ivl(leaf, intermediate_values@, t), pp[t], (k - t) as nat, lf, ch),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost rd = vx_i1 as int; let ghost h = next_domain_size as int; let ghost iv0 = intermediate_values@; let ghost ic0 = intermediate_commitments@; let ghost ch0 = challenges@; let ghost rt0 = roots@; let ghost c0 = next_domain_challenge; let ghost prev = coeffs@; let ghost pp0 = pp;
  let ghost kk = (k - rd - 1) as nat; let ghost ee = (s - rd - 1) as nat;
  proof { lemma_pow2_step(kk); lemma_pow2_pos(kk); lemma_pow2_step(ee); lemma_pow2_pos(ee); lemma_pow2_le(kk, k);
    assert(out * (2 * pow2(ee)) == 2 * (out * pow2(ee))) by (nonlinear_arith); assert(h == out * pow2(ee)); assert(h >= 1) by (nonlinear_arith) requires h == out * pow2(ee), out >= 1, pow2(ee) >= 1;
    lemma_is_p2(out); lemma_pow2_adds(lg2(out), ee); assert(h == pow2(lg2(out) + ee)); assert(is_p2(h)); lemma_lg2_pow2(lg2(out) + ee); lemma_np2(h); lemma_pow2_le(lg2(out) + ee, k); lemma_pow2_le(lg2(out) + ee, F::S as nat); }
//@@ loop 2 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c2 as int); l_chunks_x2(vx_l1 as int, vx_c1 as int); }
//@@ loop 2
  invariant vx_c1 > 0, vx_c1 == chunk, vx_c2 == 2 * chunk, vx_l1 == h, vx_l2 == 2 * h, next_coefficients@.len() == h, vx_n2 == num_chunks(vx_l1 as int, vx_c1 as int), vx_n2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_k2 <= vx_n2,
    forall|j: int| 0 <= j < off(vx_k2 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] next_coefficients@[j] == eo(prev, c0)[j],
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost pre2 = next_coefficients@; let ghost o = off(vx_i2 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i2 as int, vx_c1 as int, vx_l1 as int); l_off_x2(vx_i2 as int, vx_c1 as int, vx_l1 as int); l_off_x2(vx_i2 + 1, vx_c1 as int, vx_l1 as int); }
//@@ loop 3 before
  proof { l_chunks_x2(v@.len() as int, 1); }
//@@ loop 3
  invariant vx_n3 == v@.len(), v@.len() == off(vx_i2 + 1, vx_c1 as int, vx_l1 as int) - o, vx_k3 <= vx_n3, o >= 0, vx_l3 == 2 * vx_n3, vx_c3 == 2, vx_n3 == num_chunks(vx_l3 as int, vx_c3 as int),
    forall|j: int| 0 <= j < vx_k3 ==> #[trigger] v@[j] == eo(prev, c0)[o + j],
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost j3 = vx_i3 as int;
//@@ stmt "tmp.mul_assign" before
  proof { assert(x == prev[2 * (o + j3)] && tmp == prev[2 * (o + j3) + 1]); F::ax_mul_comm(tmp, c0); F::ax_add_comm(c0.fmul(tmp), x); }
//@@ loop 2 end
  proof { let o2 = off(vx_k2 as int, vx_c1 as int, vx_l1 as int);
    assert forall|j: int| 0 <= j < o2 implies #[trigger] next_coefficients@[j] == eo(prev, c0)[j] by {
      if j >= o { assert(next_coefficients@[j] == eo(prev, c0)[o + (j - o)]); } else { assert(next_coefficients@[j] == pre2[j]); } } }
//@@ stmt "let next_coeffs_as_poly" before
  let ghost nc = next_coefficients@;
  proof { assert(nc =~= eo(prev, c0)); }
//@@ stmt "let next_values_as_poly" before
  proof { assert(next_coeffs_as_poly.coeffs@ =~= nc); lemma_lg2_pow2(next_coeffs_as_poly.exp as nat); }
//@@ stmt "let intermediate_iop" before
  let ghost nv = next_values_as_poly.coeffs@;
  proof { assert(next_values_as_poly.exp == kk); l_h_lf(h, lf, lg2(out) + ee, kk); assert(next_values_as_poly.omega == dgen::<F>(kk)); if ch == 1 { l_ext_evals(nv, nc, kk); } assert(layk(nv, nc, kk, lf, ch)); lemma_pow2_le(1, kk); assert(is_p2(nv.len() as int)); lemma_lg2_pow2(kk); }
//@@ stmt "next_domain_challenge =" after
  proof { l_chal(next_domain_challenge, nd(nv, 1)); }
//@@ loop 1 inner_end
  proof {
    pp = pp0.push(nc);
    assert(iv0.push(intermediate_values@[rd]) =~= intermediate_values@); assert(intermediate_values@[rd].coeffs@ =~= nv);
    assert forall|t: int| 0 <= t <= rd implies #[trigger] ivl(leaf, intermediate_values@, t) == ivl(leaf, iv0, t) by { }
    assert forall|t: int| 0 <= t <= rd implies #[trigger] ici(l0_commitment, intermediate_commitments@, t) == ici(l0_commitment, ic0, t) by { }
    assert forall|t: int| 0 <= t < rd + 1 implies #[trigger] pp[t + 1] == eo(pp[t], challenges@[t]) by { if t < rd { assert(pp0[t + 1] == eo(pp0[t], ch0[t])); } }
    assert forall|t: int| 1 <= t <= rd + 1 implies layk(#[trigger] ivl(leaf, intermediate_values@, t), pp[t], (k - t) as nat, lf, ch) by { if t <= rd { assert(layk(ivl(leaf, iv0, t), pp0[t], (k - t) as nat, lf, ch)); } }
  }
//@@ stmt "challenges . pop" before
  proof { lemma2_to64(); assert(coeffs@.len() == out * pow2(0)); }
  let ghost chs = challenges@; let ghost intermediate_values0 = intermediate_values@; let ghost rts = roots@; let ghost last = ivl(leaf, intermediate_values@, s);
//@@ end tail
  proof {
    let p = vx_ret->Ok_0; lemma2_to64();
    assert(p.initial_degree_plus_one * p.lde_factor == n);
    assert forall|t: int| 0 <= t <= s implies #[trigger] pl_layer(p, leaf, t) == ivl(leaf, intermediate_values0, t) by { }
    assert forall|t: int| 0 <= t <= s implies #[trigger] pl_iop(p, t) == ici(p.l0_commitment, p.intermediate_commitments@, t) by { }
    assert forall|t: int| 0 <= t < s implies #[trigger] p.challenges@[t] == chal::<F>(nd(pl_layer(p, leaf, t), 1)) by { assert(chs[t] == chal::<F>(nd(ivl(leaf, intermediate_values0, t), 1))); }
    assert forall|t: int| 0 <= t <= s implies (#[trigger] pl_layer(p, leaf, t)).len() == pow2((k - t) as nat) by { assert(ivl(leaf, intermediate_values0, t).len() == pow2((k - t) as nat)); }
    assert forall|t: int| 0 <= t <= s implies (#[trigger] pl_iop(p, t)).tree.wf(pl_layer(p, leaf, t)) by { assert(ici(p.l0_commitment, p.intermediate_commitments@, t).tree.wf(ivl(leaf, intermediate_values0, t))); }
    assert(pl_committed(p, leaf));
    assert forall|t: int| 0 <= t < s implies #[trigger] pp[t + 1] == eo(pp[t], p.challenges@[t]) by { assert(pp[t + 1] == eo(pp[t], chs[t])); }
    assert(is_rounds(pp, cc, p.challenges@, s)); l_rounds(pp, cc, p.challenges@, s, s);
    assert forall|t: int| 1 <= t <= s implies layk(#[trigger] pl_layer(p, leaf, t), rpoly(cc, p.challenges@, t), (k - t) as nat, lf, ch) by { l_rounds(pp, cc, p.challenges@, s, t); assert(layk(ivl(leaf, intermediate_values0, t), pp[t], (k - t) as nat, lf, ch)); }
    assert(is_dft(leaf, x, dgen::<F>(k)));
    assert(coef_rounds_of(p, leaf, ch, x));
  }
//@@ endfn
pub open spec fn coef_rounds_of<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, ch: int, x: Seq<F>) -> bool {
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len() as int; let c = x.subrange(0, p.initial_degree_plus_one as int);
    &&& is_dft(leaf, x, dgen::<F>(k))
    &&& forall|t: int| 1 <= t <= s ==> layk(#[trigger] pl_layer(p, leaf, t), rpoly(c, p.challenges@, t), (k - t) as nat, p.lde_factor as int, ch)
    &&& p.final_coefficients@ == rpoly(c, p.challenges@, s)
}
// the layers are the evaluations of the rounds of the interpolant's low part, and the final coefficients are the last of them
pub open spec fn coef_rounds<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, ch: int) -> bool { exists|x: Seq<F>| #[trigger] coef_rounds_of(p, leaf, ch, x) }
pub proof fn l_off_x2(i: int, c: int, n: int) ensures off(i, 2 * c, 2 * n) == 2 * off(i, c, n) { assert(i * (2 * c) == 2 * (i * c)) by (nonlinear_arith); }
pub proof fn l_chunks_x2(n: int, c: int) requires n >= 0, c > 0 ensures num_chunks(2 * n, 2 * c) == num_chunks(n, c) {
    let a = n + c - 1; let q = a / c; let r = a % c; lemma_fundamental_div_mod(a, c); lemma_mod_bound(a, c);
    assert(2 * n + 2 * c - 1 == q * (2 * c) + (2 * r + 1)) by (nonlinear_arith) requires a == c * q + r, a == n + c - 1;
    lemma_fundamental_div_mod_converse(2 * n + 2 * c - 1, 2 * c, q, 2 * r + 1);
}
pub proof fn l_h_lf(h: int, lf: int, e: nat, kk: nat) requires h == pow2(e), is_p2(lf), kk == e + lg2(lf) ensures h * lf == pow2(kk) { lemma_is_p2(lf); lemma_pow2_adds(e, lg2(lf)); }
// the prototype computed through the coefficients of a low-degree evaluation is the prototype of its polynomial
pub proof fn thm_by_coefs<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>)
    requires pl_committed(p, leaf), coef_rounds(p, leaf, 1), evals(leaf, c, lg2(p.initial_degree_plus_one * p.lde_factor)), c.len() == p.initial_degree_plus_one,
      p.initial_degree_plus_one == p.output_coeffs_at_degree_plus_one * pow2(p.intermediate_values@.len()), p.lde_factor >= 1,
      p.final_root@ == nd(pl_layer(p, leaf, p.intermediate_values@.len() as int), 1)
    ensures pl_of(p, leaf, c), pl_honest(p, leaf)
{
    let x = choose|x: Seq<F>| #[trigger] coef_rounds_of(p, leaf, 1, x);
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len(); let chs = p.challenges@; let out = p.output_coeffs_at_degree_plus_one as nat; let n = (p.initial_degree_plus_one * p.lde_factor) as int;
    lemma_is_p2(n); assert(c.len() <= n) by (nonlinear_arith) requires n == p.initial_degree_plus_one * p.lde_factor, p.lde_factor >= 1, c.len() == p.initial_degree_plus_one;
    assert(pl_layer(p, leaf, 0).len() == pow2(k));
    l_evals_unique(leaf, x, c, k); assert(x.subrange(0, p.initial_degree_plus_one as int) =~= c);
    assert forall|t: int| 0 <= t <= s implies evals(#[trigger] pl_layer(p, leaf, t), rpoly(c, chs, t), (k - t) as nat) by { }
    assert forall|r: int| 0 <= r < s implies #[trigger] layer_folds(pl_layer(p, leaf, r), pl_layer(p, leaf, r + 1), chs[r], (k - r) as nat) by { l_one_fold(p, leaf, c, r, s, k, out); }
    assert(pl_folded(p, leaf));
    l_of_honest(p, leaf, c);
}
pub proof fn l_one_fold<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>, r: int, s: nat, k: nat, out: nat)
    requires 0 <= r < s, s + 1 <= k <= F::S, c.len() == out * pow2(s), forall|t: int| 0 <= t <= s ==> evals(#[trigger] pl_layer(p, leaf, t), rpoly(c, p.challenges@, t), (k - t) as nat)
    ensures layer_folds(pl_layer(p, leaf, r), pl_layer(p, leaf, r + 1), p.challenges@[r], (k - r) as nat)
{
    let chs = p.challenges@; let q = rpoly(c, chs, r);
    l_rpoly_len(c, chs, out, s, r as nat); lemma_pow2_step((s - r - 1) as nat); let h = pow2((s - r - 1) as nat); assert((s - r - 1) as nat + 1 == (s - r) as nat); assert(out * (2 * h) == 2 * (out * h)) by (nonlinear_arith);
    assert(rpoly(c, chs, r + 1) == eo(q, chs[r])); 
    assert(evals(pl_layer(p, leaf, r), q, (k - r) as nat)); assert(evals(pl_layer(p, leaf, r + 1), rpoly(c, chs, r + 1), (k - (r + 1)) as nat)); assert((k - (r + 1)) as nat == ((k - r) as nat - 1) as nat);
    l_evals_fold(pl_layer(p, leaf, r), pl_layer(p, leaf, r + 1), q, chs[r], (k - r) as nat);
}
