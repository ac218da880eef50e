// ---- the verifier's transcript ----
pub open spec fn abs_roots(s: Seq<u8>, r: Seq<[u8; 32]>, n: int) -> Seq<u8> decreases n { if n <= 0 { s } else { abs_roots(s, r, n - 1) + r[n - 1]@ } }
pub open spec fn abs_elems<F: PrimeField>(s: Seq<u8>, r: Seq<F>, n: int) -> Seq<u8> decreases n { if n <= 0 { s } else { abs_elems(s, r, n - 1) + elem_bytes(r[n - 1]) } }
pub open spec fn roots_same(a: Seq<[u8; 32]>, b: Seq<[u8; 32]>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@ }
fn vx_roots_eq(a: &[[u8; 32]], b: &[[u8; 32]]) -> (r: bool) ensures r <==> roots_same(a@, b@) {
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), a@.len() == b@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] a@[j])@ == b@[j]@ decreases a@.len() - i { if !vx_arr_eq(&a[i], &b[i]) { assert(a@[i as int]@ != b@[i as int]@); return false; } i = i + 1; }
    true
}
pub trait VxDig { spec fn db(&self) -> Seq<u8>; fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.db(); }
impl VxDig for [u8; 32] { open spec fn db(&self) -> Seq<u8> { self@ } fn vx_bytes(&self) -> (r: &[u8]) { self.as_slice() } }
impl VxAsRef for &Vec<u8> { open spec fn sb(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
// the states of the transcript, and what is drawn from them
pub open spec fn st0<F: PrimeField>(q: InstanceProof<F>) -> Seq<u8> { abs_roots(Seq::empty(), q.f_iop_roots@, q.f_iop_roots@.len() as int) }
pub open spec fn v_cc<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<(F, F)> { ch_pairs(st0(q), 0, p_nc(p)) }
pub open spec fn v_bc<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<(F, F)> { ch_pairs(st0(q), p_nc(p), p_nb(p)) }
pub open spec fn st1<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<u8> { chs(st0(q), 2 * (p_nc(p) + p_nb(p))) + q.g_iop_root@ }
pub open spec fn v_z<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> F { chf::<F>(st1(p, q), 0) }
pub open spec fn v_ma<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<F> { ch_seq(st1(p, q), 1, pmasks(p).len() as int) }
pub open spec fn st2<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<u8> { abs_elems(chs(st1(p, q), (1 + pmasks(p).len()) as int) + q.h1_iop_roots@.last()@, q.fri_proof_h1.final_coefficients@, q.fri_proof_h1.final_coefficients@.len() as int) }
pub open spec fn st3<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> Seq<u8> { abs_elems(st2(p, q) + q.h2_iop_roots@.last()@, q.fri_proof_h2.final_coefficients@, q.fri_proof_h2.final_coefficients@.len() as int) }
pub open spec fn v_i1<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> int { chal_index(blake(1, st3(p, q)), psize(p) * lde, lde) }
pub open spec fn v_i2<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> int { chal_index(blake(1, chs(st3(p, q), 1)), pgsize(p) * lde, lde) }
pub open spec fn dom_at<F: PrimeField>(n: int, i: int) -> F { fpow(dgen::<F>(lg2(np2(n))), i as nat) }
pub open spec fn q_opens<F: PrimeField>(q: TrivialBlake2sIopQuery<F>, i: int, n: int, root: Seq<u8>) -> bool { q.index == i && q.path@.len() == lg2(n) && verifies(root, q.value, q.path@, i) }
pub open spec fn q_vals<F: PrimeField>(q: Seq<TrivialBlake2sIopQuery<F>>) -> Seq<F> { Seq::new(q.len(), |i: int| q[i].value) }
pub open spec fn fq_opens<F: PrimeField>(q: InstanceProof<F>, i: int, n: int, k: int) -> bool { q_opens(q.f_queries@[k], i, n, q.f_iop_roots@[k]@) }
// what the verifier expects of H1 and H2 at the queried points
pub open spec fn v_h1<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> F {
    h1v(pmasks(p), q_vals(q.f_queries@), q.f_at_z_m@, v_ma(p, q), v_z(p, q), dom_at::<F>(psize(p) * lde, v_i1(p, q, lde)), pmasks(p).len() as int) }
pub open spec fn v_g<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>) -> F { gcomp(p, fz_asg(pmasks(p), q.f_at_z_m@), v_cc(p, q), v_bc(p, q), v_z(p, q)) }
pub open spec fn v_h2<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> F { h2v(q.g_query.value, v_g(p, q), v_z(p, q), dom_at::<F>(pgsize(p) * lde, v_i2(p, q, lde))) }
pub open spec fn v_shape<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> bool {
    &&& q.f_queries@.len() == p.num_registers && q.f_iop_roots@.len() == p.num_registers && q.f_at_z_m@.len() == pmasks(p).len()
    &&& q.h1_iop_roots@.len() > 0 && roots_same(q.h1_iop_roots@, q.fri_proof_h1.roots@) && q.h2_iop_roots@.len() > 0 && roots_same(q.h2_iop_roots@, q.fri_proof_h2.roots@)
    &&& q.fri_proof_h1.lde_factor == lde && q.fri_proof_h2.lde_factor == lde
    &&& q.fri_proof_h1.initial_degree_plus_one == psize(p) && q.fri_proof_h2.initial_degree_plus_one == pgsize(p)
    &&& np2(psize(p) * lde) <= pow2(F::S as nat) && np2(pgsize(p) * lde) <= pow2(F::S as nat)
}
pub open spec fn v_accepts<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int) -> bool {
    let i1 = v_i1(p, q, lde); let i2 = v_i2(p, q, lde); let z = v_z(p, q);
    &&& v_shape(p, q, lde)
    // the trace oracles open at the queried index, the composition oracle at its own
    &&& forall|k: int| 0 <= k < p.num_registers ==> #[trigger] fq_opens(q, i1, psize(p) * lde, k)
    &&& q_opens(q.g_query, i2, pgsize(p) * lde, q.g_iop_root@)
    // the out-of-domain point is none of the points divided by
    &&& h1def(pmasks(p), z, dom_at::<F>(psize(p) * lde, i1)) && gdef(p, z) && z != dom_at::<F>(pgsize(p) * lde, i2)
    // both quotients are what FRI says they are
    &&& fri_accepts(q.fri_proof_h1, i1, v_h1(p, q, lde))
    &&& fri_accepts(q.fri_proof_h2, i2, v_h2(p, q, lde))
}
//@@ fn src/fri/mod.rs FRIProof::get_roots ret=r impl="FriProof"
ensures r@ == self.roots@
//@@ endfn
//@@ fn src/fri/mod.rs FRIProof::get_final_coefficients ret=r impl="FriProof"
ensures r@ == self.final_coefficients@
//@@ endfn
//@@ fn src/fri/mod.rs FRIProof::get_initial_degree_plus_one ret=r impl="FriProof"
ensures r == self.initial_degree_plus_one
//@@ endfn
//@@ fn src/fri/mod.rs FRIProof::get_lde_factor ret=r impl="FriProof"
ensures r == self.lde_factor
//@@ endfn
//@@ fn src/verifier/mod.rs InstanceProofScratchSpace::new ret=r
//@@ subst "T::new()" => "Blake2sTranscript::<F>::new()"
requires F::NUM_BITS < 256
ensures r.transcript.wf(), r.transcript@ == Seq::<u8>::empty(), r.constraint_challenges@.len() == 0, r.boundary_constraint_challenges@.len() == 0, r.h1_poly_challenges@.len() == 0
//@@ endfn
//@@ fn src/verifier/mod.rs Verifier::verify ret=r attr="#[verifier::rlimit(100)]"
//@@ subst "&proof.h1_iop_roots[..] != proof.fri_proof_h1.get_roots()" => "!vx_roots_eq(proof.h1_iop_roots.as_slice(), proof.fri_proof_h1.get_roots())"
//@@ subst "&proof.h2_iop_roots[..] != proof.fri_proof_h2.get_roots()" => "!vx_roots_eq(proof.h2_iop_roots.as_slice(), proof.fri_proof_h2.get_roots())"
//@@ subst ".as_ref()" => ".vx_bytes()"
//@@ subst "FRI::verify_proof" => "NaiveFriIop::<F>::verify_proof"
//@@ subst "Self::bytes_to_challenge_index" => "bytes_to_challenge_index"
requires self.wf(), F::NUM_BITS < 256, self.lde_factor >= 1, psize(self.instance) * self.lde_factor < 0x8000_0000_0000_0000, pgsize(self.instance) * self.lde_factor < 0x8000_0000_0000_0000
ensures r == Ok::<bool, SynthesisError>(true) <==> v_accepts(self.instance, *proof, self.lde_factor as int)
//@@ begin
  let ghost p = self.instance; let ghost q = *proof; let ghost lde = self.lde_factor as int; let ghost m = self.all_masks@; let ghost b = pbat(p);
  proof { l_inst_masks(p); l_pbat(p); lemma_np2(p.num_rows as int); lemma_np2(np2(pdeg(p)) * np2(p.num_rows as int)); lemma_np2(psize(p) * lde); lemma_np2(pgsize(p) * lde); lemma_np2_big(psize(p) * lde); lemma_np2_big(pgsize(p) * lde);
    assert(psize(p) * lde >= 1) by (nonlinear_arith) requires psize(p) >= 1, lde >= 1; assert(pgsize(p) * lde >= 1) by (nonlinear_arith) requires pgsize(p) >= 1, lde >= 1;
    l_flat_mono(b, 0, b.len() as int); }
//@@ loop 1
  invariant vx_n1 == q.f_iop_roots@.len(), vx_k1 <= vx_n1, q == *proof, scratch_space.transcript.wf(), scratch_space.transcript@ == abs_roots(Seq::empty(), q.f_iop_roots@, vx_k1 as int),
    scratch_space.constraint_challenges@.len() == 0, scratch_space.boundary_constraint_challenges@.len() == 0, scratch_space.h1_poly_challenges@.len() == 0,
  decreases vx_n1 - vx_k1
//@@ loop 2
  invariant vx_n2 == b.len(), vx_k2 <= vx_n2, q == *proof, p == self.instance, b == pbat(p), bview(self.constraints_batched_by_density@) == b, scratch_space.transcript.wf(), scratch_space.transcript@ == chs(st0(q), 2 * flat(b, vx_k2 as int)), flat(b, vx_k2 as int) >= 0,
    scratch_space.constraint_challenges@ == ch_pairs::<F>(st0(q), 0, flat(b, vx_k2 as int)), scratch_space.boundary_constraint_challenges@.len() == 0, scratch_space.h1_poly_challenges@.len() == 0,
  decreases vx_n2 - vx_k2
//@@ loop 2 before
  proof { assert(scratch_space.constraint_challenges@ =~= ch_pairs::<F>(st0(q), 0, 0)); }
//@@ loop 2 bound
  let ghost d = vx_i2 as int;
  proof { assert(b[d] == (self.constraints_batched_by_density@[d].0, self.constraints_batched_by_density@[d].1@)); }
//@@ loop 3
  invariant vx_n3 == batch@.len(), vx_k3 <= vx_n3, batch@ == b[d].1, 0 <= d < b.len(), flat(b, d) >= 0, scratch_space.transcript.wf(), scratch_space.transcript@ == chs(st0(q), 2 * (flat(b, d) + vx_k3)),
    scratch_space.constraint_challenges@ == ch_pairs::<F>(st0(q), 0, flat(b, d) + vx_k3), scratch_space.boundary_constraint_challenges@.len() == 0, scratch_space.h1_poly_challenges@.len() == 0,
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost t0 = scratch_space.transcript@; let ghost c0 = scratch_space.constraint_challenges@;
//@@ loop 3 inner_end
  proof { let o = flat(b, d) + vx_i3; l_ch2::<F>(st0(q), o, t0, scratch_space.transcript@, alpha, beta); assert(scratch_space.constraint_challenges@ =~= ch_pairs::<F>(st0(q), 0, o + 1)); }
//@@ loop 4
  invariant vx_n4 == p_nb(p), vx_k4 <= vx_n4, p == self.instance, p_nc(p) >= 0, scratch_space.transcript.wf(), scratch_space.transcript@ == chs(st0(q), 2 * (p_nc(p) + vx_k4)),
    scratch_space.constraint_challenges@ == v_cc(p, q), scratch_space.boundary_constraint_challenges@ == ch_pairs::<F>(st0(q), p_nc(p), vx_k4 as int), scratch_space.h1_poly_challenges@.len() == 0,
  decreases vx_n4 - vx_k4
//@@ loop 4 before
  proof { assert(scratch_space.boundary_constraint_challenges@ =~= ch_pairs::<F>(st0(q), p_nc(p), 0)); }
//@@ loop 4 start
  let ghost t0 = scratch_space.transcript@;
//@@ loop 4 inner_end
  proof { let o = p_nc(p) + vx_i4; l_ch2::<F>(st0(q), o, t0, scratch_space.transcript@, alpha, beta); assert(scratch_space.boundary_constraint_challenges@ =~= ch_pairs::<F>(st0(q), p_nc(p), vx_i4 + 1)); }
//@@ stmt "let z" before
  let ghost t1 = scratch_space.transcript@;
//@@ stmt "let z" after
  proof { l_chal(z, blake(1, t1)); assert(chs(t1, 0) == t1); assert(chs(t1, 1) == t1 + blake(1, t1)); }
//@@ loop 5
  invariant vx_n5 == m.len(), vx_k5 <= vx_n5, t1 == st1(p, q), scratch_space.transcript.wf(), scratch_space.transcript@ == chs(t1, 1 + vx_k5),
    scratch_space.constraint_challenges@ == v_cc(p, q), scratch_space.boundary_constraint_challenges@ == v_bc(p, q), scratch_space.h1_poly_challenges@ == ch_seq::<F>(t1, 1, vx_k5 as int),
  decreases vx_n5 - vx_k5
//@@ loop 5 before
  proof { assert(scratch_space.h1_poly_challenges@ =~= ch_seq::<F>(t1, 1, 0)); }
//@@ loop 5 start
  let ghost tt = scratch_space.transcript@;
//@@ loop 5 inner_end
  proof { l_chal(alpha, blake(1, tt)); assert(scratch_space.h1_poly_challenges@ =~= ch_seq::<F>(t1, 1, vx_i5 + 1)); }
//@@ loop 6
  invariant vx_n6 == q.fri_proof_h1.final_coefficients@.len(), vx_k6 <= vx_n6, q == *proof, scratch_space.transcript.wf(), scratch_space.transcript@ == abs_elems(chs(st1(p, q), (1 + m.len()) as int) + q.h1_iop_roots@.last()@, q.fri_proof_h1.final_coefficients@, vx_k6 as int),
    scratch_space.constraint_challenges@ == v_cc(p, q), scratch_space.boundary_constraint_challenges@ == v_bc(p, q), scratch_space.h1_poly_challenges@ == v_ma(p, q),
  decreases vx_n6 - vx_k6
//@@ loop 7
  invariant vx_n7 == q.fri_proof_h2.final_coefficients@.len(), vx_k7 <= vx_n7, q == *proof, scratch_space.transcript.wf(), scratch_space.transcript@ == abs_elems(st2(p, q) + q.h2_iop_roots@.last()@, q.fri_proof_h2.final_coefficients@, vx_k7 as int),
    scratch_space.constraint_challenges@ == v_cc(p, q), scratch_space.boundary_constraint_challenges@ == v_bc(p, q), scratch_space.h1_poly_challenges@ == v_ma(p, q),
  decreases vx_n7 - vx_k7
//@@ stmt "let x_challenge_index_h1" before
  proof { lemma_lg2_pow2(f_lde_domain.power_of_two as nat); lemma_lg2_pow2(g_lde_domain.power_of_two as nat); ax_blake_len(1, st3(p, q)); ax_blake_len(1, chs(st3(p, q), 1)); assert(chs(st3(p, q), 0) == st3(p, q)); assert(chs(st3(p, q), 1) == st3(p, q) + blake(1, st3(p, q))); }
//@@ loop 8
  invariant F::NUM_BITS < 256, vx_n8 == p.num_registers, vx_k8 <= vx_n8, q == *proof, p == self.instance, q.f_queries@.len() == p.num_registers, q.f_iop_roots@.len() == p.num_registers, x_challenge_index_h1 == v_i1(p, q, lde), f_lde_size == psize(p) * lde, 1 <= f_lde_size < 0x8000_0000_0000_0000, lde == self.lde_factor,
    f_ldes_at_x@.len() == vx_k8, forall|k: int| 0 <= k < vx_k8 ==> #[trigger] fq_opens(q, x_challenge_index_h1 as int, psize(p) * lde, k), forall|k: int| 0 <= k < vx_k8 ==> f_ldes_at_x@[k] == q.f_queries@[k].value,
  decreases vx_n8 - vx_k8
//@@ loop 8 start
  proof { assert(v_accepts(p, q, lde) ==> fq_opens(q, x_challenge_index_h1 as int, psize(p) * lde, vx_i8 as int)); }
//@@ loop 8 after
  proof { assert(f_ldes_at_x@ =~= q_vals(q.f_queries@)); }
//@@ stmt "let h_1_at_x" before
  let ghost x1 = fpow(f_lde_domain.generator, x_challenge_index_h1 as nat); let ghost x2 = fpow(g_lde_domain.generator, x_challenge_index_h2 as nat);
  proof { assert(x1 == dom_at::<F>(psize(p) * lde, v_i1(p, q, lde))); assert(x_challenge_index_h2 == v_i2(p, q, lde)); assert(x2 == dom_at::<F>(pgsize(p) * lde, v_i2(p, q, lde))); assert(z == v_z(p, q)); assert(scratch_space.h1_poly_challenges@ == v_ma(p, q)); 
    assert(q.f_queries@.len() == p.num_registers && q.f_iop_roots@.len() == p.num_registers && q.f_at_z_m@.len() == pmasks(p).len());
    assert(q.h1_iop_roots@.len() > 0 && q.h2_iop_roots@.len() > 0); assert(roots_same(q.h1_iop_roots@, q.fri_proof_h1.roots@) && roots_same(q.h2_iop_roots@, q.fri_proof_h2.roots@));
    assert(q.fri_proof_h1.lde_factor == lde && q.fri_proof_h2.lde_factor == lde);
    assert(q.fri_proof_h1.initial_degree_plus_one == psize(p)); assert(q.fri_proof_h2.initial_degree_plus_one == pgsize(p));
    assert(np2(psize(p) * lde) <= pow2(F::S as nat)); assert(np2(pgsize(p) * lde) <= pow2(F::S as nat)); assert(v_shape(p, q, lde)); }
//@@ stmt "let h_1_at_x" after
  proof { assert(h_1_at_x == v_h1(p, q, lde)); }
//@@ stmt "let g_at_z_from_verifier" after
  proof { assert(g_at_z_from_verifier == v_g(p, q)); }
//@@ stmt "let h_2_at_x" after
  proof { assert(h_2_at_x == v_h2(p, q, lde)); assert(q_opens(q.g_query, x_challenge_index_h2 as int, pgsize(p) * lde, q.g_iop_root@)); }
//@@ endfn
