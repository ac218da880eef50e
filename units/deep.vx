// ---- the DEEP quotients: real code ----
// point i of the domain the trace is extended to
pub open spec fn dpt<F: PrimeField>(n: int, i: int) -> F { fpow(dgen::<F>(lg2(n)), i as nat) }
pub open spec fn f_row<F: PrimeField>(l: Seq<Polynomial<F, Values>>, i: int) -> Seq<F> { Seq::new(l.len(), |r: int| l[r].coeffs@[i]) }
pub open spec fn fz_all<F: PrimeField>(ms: Seq<MaskProperties<F>>, f: Seq<Polynomial<F, Coefficients>>, z: F) -> Seq<F> { Seq::new(ms.len(), |k: int| peval(f[reg_of(ms[k].register)].coeffs@, mask_pt(ms[k], z))) }
pub open spec fn ldes_ok<F: PrimeField>(l: Seq<Polynomial<F, Values>>, regs: int, n: int) -> bool { l.len() == regs && forall|r: int| 0 <= r < regs ==> (#[trigger] l[r]).wf() && l[r].coeffs@.len() == n }
pub open spec fn off_pt<F: PrimeField>(v: F, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] dpt::<F>(n, i) != v }
pub open spec fn offs<F: PrimeField>(ms: Seq<MaskProperties<F>>, z: F, n: int, k: int) -> bool { forall|j: int| 0 <= j < k ==> off_pt(mask_pt(#[trigger] ms[j], z), n) }
// no denominator vanishes
pub open spec fn deep_def<F: PrimeField>(ms: Seq<MaskProperties<F>>, z: F, n: int, ng: int) -> bool { offs(ms, z, n, ms.len() as int) && off_pt(z, ng) }
pub open spec fn inv_at<F: PrimeField>(q: Polynomial<F, Values>, v: F, n: int) -> bool { q.wf() && q.coeffs@.len() == n && off_pt(v, n) && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == fsub(dpt::<F>(n, i), v).finv() }
pub open spec fn key_ok<F: PrimeField>(e: (StepDifference<F>, Polynomial<F, Values>), z: F, n: int) -> bool { e.0 is Mask && inv_at(e.1, e.0->Mask_0.fmul(z), n) }
pub open spec fn keys_ok<F: PrimeField>(s: Seq<(StepDifference<F>, Polynomial<F, Values>)>, z: F, n: int) -> bool { forall|e: int| 0 <= e < s.len() ==> key_ok(#[trigger] s[e], z, n) }
pub proof fn l_key_put<F: PrimeField>(s: Seq<(StepDifference<F>, Polynomial<F, Values>)>, k: StepDifference<F>, v: Polynomial<F, Values>, z: F, n: int) requires keys_ok(s, z, n), key_ok((k, v), z, n) ensures keys_ok(im_put(s, k, v), z, n), im_has(im_put(s, k, v), k), key_ok((k, im_val(im_put(s, k, v), k)), z, n)
{
    let t = im_put(s, k, v);
    assert forall|e: int| 0 <= e < t.len() implies key_ok(#[trigger] t[e], z, n) by { if im_has(s, k) { assert(im_at(s, k, im_ix(s, k))); if e != im_ix(s, k) { assert(t[e] == s[e]); } } else { if e < s.len() { assert(t[e] == s[e]); } } }
    if im_has(s, k) { assert(im_at(s, k, im_ix(s, k))); assert(im_at(t, k, im_ix(s, k))); } else { assert(im_at(t, k, s.len() as int)); }
    l_key_get(t, k, z, n);
}
pub proof fn l_key_get<F: PrimeField>(s: Seq<(StepDifference<F>, Polynomial<F, Values>)>, k: StepDifference<F>, z: F, n: int) requires keys_ok(s, z, n), im_has(s, k) ensures key_ok((k, im_val(s, k)), z, n) { assert(im_at(s, k, im_ix(s, k))); assert(key_ok(s[im_ix(s, k)], z, n)); assert(s[im_ix(s, k)] == (k, im_val(s, k))); }
// x - v at every point of the domain: zero somewhere exactly if v is a point of it
pub proof fn l_den<F: PrimeField>(q: Seq<F>, qv: Seq<F>, v: F, n: int) requires q.len() == 2, q[0] == fsub(F::f0(), v), q[1] == F::f1(), n >= 0, is_ext(qv, q, F::f1(), dgen::<F>(lg2(n)), n)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] qv[i] == fsub(dpt::<F>(n, i), v), has_zero(qv) <==> !off_pt(v, n)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] qv[i] == fsub(dpt::<F>(n, i), v) && (qv[i] == F::f0() <==> dpt::<F>(n, i) == v) by { l_one_l(dpt::<F>(n, i)); l_lin(q, dpt::<F>(n, i), v); l_nz(dpt::<F>(n, i), v); }
    if !off_pt(v, n) { let i = choose|i: int| 0 <= i < n && #[trigger] dpt::<F>(n, i) == v; assert(qv[i] == F::f0()); }
    if has_zero(qv) { let i = choose|i: int| 0 <= i < qv.len() && #[trigger] qv[i] == F::f0(); assert(dpt::<F>(n, i) == v); }
}
pub open spec fn h1_at<F: PrimeField>(q: Polynomial<F, Values>, ms: Seq<MaskProperties<F>>, l: Seq<Polynomial<F, Values>>, fz: Seq<F>, ch: Seq<F>, z: F, n: int, k: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == h1v(ms, f_row(l, i), fz, ch, z, dpt::<F>(n, i), k) }
pub open spec fn h2_at<F: PrimeField>(q: Polynomial<F, Values>, g: Seq<F>, gz: F, z: F, n: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == h2v(g[i], gz, z, dpt::<F>(n, i)) }
pub open spec fn deep_out<F: PrimeField>(t: (Polynomial<F, Values>, Polynomial<F, Values>, Vec<F>, F), p: InstanceProperties<F>, f: Seq<Polynomial<F, Coefficients>>, l: Seq<Polynomial<F, Values>>, g: Polynomial<F, Coefficients>, gl: Polynomial<F, Values>, s: Seq<u8>) -> bool {
    let z = chf::<F>(s, 0); let ms = pmasks(p); let fz = fz_all(ms, f, z);
    t.2@ == fz && t.3 == peval(g.coeffs@, z) && h1_at(t.0, ms, l, fz, ch_seq::<F>(s, 1, ms.len() as int), z, l[0].coeffs@.len() as int, ms.len() as int) && h2_at(t.1, gl.coeffs@, t.3, z, gl.coeffs@.len() as int) }
pub open spec fn ch_seq_ok(s0: Seq<u8>, t: Seq<u8>, k: int) -> bool { t == chs(s0, k) }
pub proof fn l_wf_np2<F: PrimeField, P: PolynomialForm>(q: Polynomial<F, P>) requires q.wf() ensures is_p2(q.coeffs@.len() as int), np2(q.coeffs@.len() as int) == q.coeffs@.len(), q.coeffs@.len() <= pow2(F::S as nat), admissible::<F>(q.coeffs@.len() as int)
{ let n = q.coeffs@.len() as int; lemma_lg2_pow2(q.exp as nat); lemma_pow2_le(q.exp as nat, F::S as nat); lemma_pow2_le(q.exp as nat, 63); lemma2_to64_rest(); assert(pow2(63) == 0x8000_0000_0000_0000); assert(is_p2(n)); l_np2_p2(n); }
//@@ fn src/ali/per_register/deep.rs ALIInstance::calculate_deep ret=r attr="#[verifier::rlimit(60)]"
//@@ subst "calculate_deep < T : Transcript < F > >" => "calculate_deep"
//@@ subst "transcript : & mut T" => "transcript : & mut Blake2sTranscript < F >"
requires self.all_masks@ == pmasks(self.properties), inst_m(self.properties), wits_ok(f_polys@, self.properties), ldes_ok(f_ldes@, self.properties.num_registers as int, f_ldes@[0].coeffs@.len() as int), f_ldes@.len() > 0, g_lde.wf(), wk_ok(worker), old(transcript).wf()
ensures r is Ok <==> deep_def(pmasks(self.properties), chf::<F>(old(transcript)@, 0), f_ldes@[0].coeffs@.len() as int, g_lde.coeffs@.len() as int),
  r matches Ok(t) ==> deep_out(t, self.properties, f_polys@, f_ldes@, *g_poly, *g_lde, old(transcript)@),
  final(transcript).wf(), r is Ok ==> final(transcript)@ == chs(old(transcript)@, 1 + pmasks(self.properties).len() as int)
//@@ begin
  let ghost p = self.properties; let ghost ms = pmasks(p); let ghost s0 = transcript@; let ghost zz = chf::<F>(s0, 0); let ghost n = f_ldes@[0].coeffs@.len() as int; let ghost ng = g_lde.coeffs@.len() as int; let ghost fz = fz_all(ms, f_polys@, zz); let ghost ch = ch_seq::<F>(s0, 1, ms.len() as int); let ghost q2 = Seq::new(2, |i: int| F::f0()); let ghost nr = p.num_registers as int;
  proof { l_inst_masks(p); lemma2_to64(); lemma2_to64_rest(); lemma_np2(2); F::ax_s(); assert(pow2(1) == 2); lemma_pow2_le(1, F::S as nat); l_wf_np2(f_ldes@[0]); l_wf_np2(*g_lde); assert(chs(s0, 1) == chs(s0, 0) + blake(1, chs(s0, 0))); }
//@@ stmt "let f_lde_size" before
  proof { l_chal(z, blake(1, s0)); assert(z == zz); }
//@@ loop 1
  invariant p == self.properties, s0 == old(transcript)@, vx_n1 == ms.len(), vx_k1 <= vx_n1, self.all_masks@ == ms, ms == pmasks(p), ms_all(ms, reads_ok::<F>(nr)), nr == p.num_registers, wits_ok(f_polys@, p), ldes_ok(f_ldes@, nr, n), n == f_ldes@[0].coeffs@.len(), wk_ok(worker), z == zz, zz == chf::<F>(s0, 0), f_lde_size == n, transcript.wf(), ch_seq_ok(s0, transcript@, 1 + vx_k1),
    fz == fz_all(ms, f_polys@, zz), ch == ch_seq::<F>(s0, 1, ms.len() as int), f_at_z_m@ == fz.take(vx_k1 as int), keys_ok(divisors_for_masks@, zz, n), offs(ms, zz, n, vx_k1 as int), h1_at(h1_lde, ms, f_ldes@, fz, ch, zz, n, vx_k1 as int), admissible::<F>(2), np2(2) == 2, q2 == Seq::new(2, |i: int| F::f0()), is_p2(n), np2(n) == n, n <= pow2(F::S as nat), n <= usize::MAX, ng == g_lde.coeffs@.len(), g_lde.wf(),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost j = vx_i1 as int; let ghost mj = ms[j]; let ghost v = mask_pt(mj, zz); let ghost h0 = h1_lde.coeffs@; let ghost dm0 = divisors_for_masks@; let ghost ts = transcript@;
  proof { assert(reads_ok::<F>(nr)(mj.register, mj.steps_difference)); }
//@@ stmt "let witness_value_at_z" before
  proof { assert(root == v); }
//@@ stmt "let divisor" before
  proof { assert(f_at_z_m@ =~= fz.take(j + 1)); if im_has(dm0, mj.steps_difference) { l_key_get(dm0, mj.steps_difference, zz, n); } }
//@@ stmt "q_poly . as_mut () [1]" before
  proof { assert(q_poly.coeffs@ =~= q2); }
//@@ stmt "inverse_q_poly_coset_values . batch_inversion" before
  let ghost qv = inverse_q_poly_coset_values.coeffs@;
  proof { l_dom_eq(inverse_q_poly_coset_values); l_den(q_poly.coeffs@, qv, v, n); if !off_pt(v, n) { assert(!off_pt(mask_pt(ms[j], zz), n)); assert(!offs(ms, zz, n, ms.len() as int)); } }
//@@ stmt "divisors_for_masks . insert" before
  proof { assert(inv_at(inverse_q_poly_coset_values, v, n)) by { assert forall|i: int| 0 <= i < n implies #[trigger] inverse_q_poly_coset_values.coeffs@[i] == fsub(dpt::<F>(n, i), v).finv() by { assert(qv[i] == fsub(dpt::<F>(n, i), v)); } } l_key_put(dm0, mj.steps_difference, inverse_q_poly_coset_values, zz, n); }
//@@ stmt "let mut f_minus_f_at_z" before
  proof { assert(inv_at(*divisor, v, n)); }
//@@ stmt "let mut f_minus_f_at_z" after
  let ghost a0 = f_minus_f_at_z.coeffs@;
//@@ stmt "let alpha" before
  let ghost a1 = f_minus_f_at_z.coeffs@;
//@@ stmt "let alpha" after
  proof { l_chal(alpha, blake(1, ts)); assert(chs(s0, 2 + j) == chs(s0, 1 + j) + blake(1, chs(s0, 1 + j))); assert(alpha == ch[j]); }
//@@ stmt "f_minus_f_at_z . scale" after
  let ghost a2 = f_minus_f_at_z.coeffs@;
//@@ stmt "f_minus_f_at_z . mul_assign" after
  let ghost a3 = f_minus_f_at_z.coeffs@;
//@@ stmt "h1_lde . add_assign" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] h1_lde.coeffs@[i] == h1v(ms, f_row(f_ldes@, i), fz, ch, zz, dpt::<F>(n, i), vx_k1 as int) by {
    let x = dpt::<F>(n, i); let d = fsub(x, v).finv(); let f = fsub(a0[i], fz[j]); assert(a1[i] == f); assert(a2[i] == a1[i].fmul(alpha)); assert(a3[i] == a2[i].fmul(divisor.coeffs@[i])); assert(h1_lde.coeffs@[i] == h0[i].fadd(a3[i])); assert(f_row(f_ldes@, i)[reg_of(mj.register)] == a0[i]);
    F::ax_mul_assoc(f, alpha, d); F::ax_mul_comm(alpha, d); F::ax_mul_assoc(f, d, alpha); } }
//@@ loop 1 after
  let ghost f1 = f_at_z_m@;
  proof { assert(f1 =~= fz); assert(h1_at(h1_lde, ms, f_ldes@, fz, ch, zz, n, ms.len() as int)); }
//@@ stmt "inverse_q_poly_coset_values . batch_inversion" before 2
  let ghost qg = inverse_q_poly_coset_values.coeffs@;
  proof { l_dom_eq(inverse_q_poly_coset_values); l_den(q_poly.coeffs@, qg, zz, ng); }
//@@ stmt "let g_at_z" before
  let ghost iq = inverse_q_poly_coset_values.coeffs@;
//@@ stmt "h2_lde . add_constant" after
  let ghost b1 = h2_lde.coeffs@;
//@@ stmt "h2_lde . mul_assign" after
  proof { assert(h2_at(h2_lde, g_lde.coeffs@, g_at_z, zz, ng)) by { assert forall|i: int| 0 <= i < ng implies #[trigger] h2_lde.coeffs@[i] == h2v(g_lde.coeffs@[i], g_at_z, zz, dpt::<F>(ng, i)) by { assert(h2_lde.coeffs@[i] == b1[i].fmul(iq[i])); assert(b1[i] == fsub(g_lde.coeffs@[i], g_at_z)); assert(qg[i] == fsub(dpt::<F>(ng, i), zz)); } } }
//@@ endfn
