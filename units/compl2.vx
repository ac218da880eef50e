// ---- completeness: an honest proof meets every equation the verifier checks ----
pub proof fn l_bsum_agree<F: PrimeField>(b: Seq<Constraint<F>>, a1: Asg<F>, a2: Asg<F>, rd: Rd<F>, p: int, ch: Seq<(F, F)>, o: int, x: F, n: int)
    requires agree(a1, a2, rd), 0 <= n <= b.len(), forall|i: int| 0 <= i < b.len() ==> c_reads(#[trigger] b[i], rd) ensures bsum(b, a1, p, ch, o, x, n) == bsum(b, a2, p, ch, o, x, n) decreases n
{ if n > 0 { l_bsum_agree(b, a1, a2, rd, p, ch, o, x, n - 1); l_cval_agree(b[n - 1], a1, a2, rd); } }
pub proof fn l_csum_agree<F: PrimeField>(p: InstanceProperties<F>, a1: Asg<F>, a2: Asg<F>, cc: Seq<(F, F)>, x: F, d: int)
    requires inst_m(p), agree(a1, a2, ms_rd(pmasks(p))), 0 <= d <= pbat(p).len() ensures csum(pbat(p), a1, pdeg(p), psize(p), p.num_rows as int, cc, x, d) == csum(pbat(p), a2, pdeg(p), psize(p), p.num_rows as int, cc, x, d) decreases d
{
    if d > 0 { l_csum_agree(p, a1, a2, cc, x, d - 1); l_pbat(p); let b = pbat(p)[d - 1].1;
        assert forall|i: int| 0 <= i < b.len() implies c_reads(#[trigger] b[i], ms_rd(pmasks(p))) by { assert(c_fine(p)(pbat(p)[d - 1].1[i])); }
        l_bsum_agree(b, a1, a2, ms_rd(pmasks(p)), pdeg(p), cc, flat(pbat(p), d - 1), x, b.len() as int); }
}
pub proof fn l_bndsum_agree<F: PrimeField>(p: InstanceProperties<F>, g: F, a1: Asg<F>, a2: Asg<F>, bc: Seq<(F, F)>, x: F, k: int)
    requires inst_m(p), agree(a1, a2, ms_rd(pmasks(p))), 0 <= k <= p.boundary_constraints@.len() ensures bndsum(g, p.boundary_constraints@, a1, pdeg(p), psize(p), bc, x, k) == bndsum(g, p.boundary_constraints@, a2, pdeg(p), psize(p), bc, x, k) decreases k
{ if k > 0 { l_bndsum_agree(p, g, a1, a2, bc, x, k - 1); l_inst_masks(p); let b = p.boundary_constraints@[k - 1]; assert(is_in(pmasks(p), mk(b.register, one_mask::<F>()))); assert(ms_rd(pmasks(p))(b.register, one_mask::<F>())); } }
pub proof fn l_gcomp_agree<F: PrimeField>(p: InstanceProperties<F>, a1: Asg<F>, a2: Asg<F>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, x: F) requires inst_m(p), agree(a1, a2, ms_rd(pmasks(p))) ensures gcomp(p, a1, cc, bc, x) == gcomp(p, a2, cc, bc, x)
{ l_csum_agree(p, a1, a2, cc, x, pbat(p).len() as int); l_bndsum_agree(p, csum(pbat(p), a1, pdeg(p), psize(p), p.num_rows as int, cc, x, pbat(p).len() as int), a1, a2, bc, x, p.boundary_constraints@.len() as int); }
// the claimed values are the witness polynomials' at the masked points
pub proof fn l_fz_agree<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, z: F) requires inst_m(p) ensures agree(fz_asg(pmasks(p), fz_all(pmasks(p), wit, z)), wasg(wit, z), ms_rd(pmasks(p)))
{
    l_inst_masks(p); let ms = pmasks(p); let fz = fz_all(ms, wit, z);
    assert forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(ms)(r, s) implies fz_asg(ms, fz)(r, s) == wasg(wit, z)(r, s) by {
        let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i] == mk(r, s); assert(is_in(ms, mk(r, s))); assert(0 <= i < ms.len() && ms[i] == mk(r, s));
        assert(reads_ok::<F>(p.num_registers as int)(ms[i].register, ms[i].steps_difference)); }
}
pub proof fn l_cancel<F: FieldSpec>(d: F, e: F) requires d != F::f0() ensures d.fmul(e).fmul(d.finv()) == e { F::ax_inv(d); F::ax_mul_comm(d, e); F::ax_mul_assoc(e, d, d.finv()); F::ax_one(e); }
// values of the witness polynomials on the extended domain
pub open spec fn ldes_at<F: PrimeField>(l: Seq<Polynomial<F, Values>>, wit: Seq<Polynomial<F, Coefficients>>, n: int) -> bool { l.len() == wit.len() && forall|r: int| 0 <= r < l.len() ==> lde_at(#[trigger] l[r], wit[r], n) }
pub open spec fn lde_at<F: PrimeField>(l: Polynomial<F, Values>, c: Polynomial<F, Coefficients>, n: int) -> bool { l.wf() && l.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] l.coeffs@[i] == peval(c.coeffs@, dpt::<F>(n, i)) }
// H1 is a polynomial of the trace's degree, H2 of the composition's
pub open spec fn h1_is<F: PrimeField>(ms: Seq<MaskProperties<F>>, l: Seq<Polynomial<F, Values>>, fz: Seq<F>, ch: Seq<F>, z: F, nn: int, k: int, q: spec_fn(F) -> F, n: int) -> bool {
    is_pf(q, n) && forall|i: int| 0 <= i < nn ==> h1v(ms, f_row(l, i), fz, ch, z, #[trigger] dpt::<F>(nn, i), k) == q(dpt::<F>(nn, i)) }
pub proof fn l_h1_q<F: PrimeField>(ms: Seq<MaskProperties<F>>, wit: Seq<Polynomial<F, Coefficients>>, l: Seq<Polynomial<F, Values>>, ch: Seq<F>, z: F, nn: int, k: int, n: int) -> (q: spec_fn(F) -> F)
    requires wpf(wit, n), ms_all(ms, reads_ok::<F>(wit.len() as int)), offs(ms, z, nn, ms.len() as int), ldes_at(l, wit, nn), 0 <= k <= ms.len()
    ensures h1_is(ms, l, fz_all(ms, wit, z), ch, z, nn, k, q, n) decreases k
{
    let fz = fz_all(ms, wit, z);
    if k <= 0 { l_pf_const(F::f0()); let q = |x: F| F::f0(); l_pf_mono(q, 1, n); q }
    else {
        let q0 = l_h1_q(ms, wit, l, ch, z, nn, k - 1, n); let mj = ms[k - 1]; assert(reads_ok::<F>(wit.len() as int)(mj.register, mj.steps_difference)); let r = reg_of(mj.register); let c = wit[r].coeffs@; let v = mask_pt(mj, z); let s = sdiv(c, v); let a = ch[k - 1];
        l_sdiv(c, v, v); let e = |x: F| peval(s, x); l_pf_coef(s); l_pf_mono(e, s.len() as int, n); l_pf_scale(a, e, n); let t = |x: F| e(x).fmul(a); l_pf_add(q0, t, n); let q = |x: F| q0(x).fadd(t(x));
        assert forall|i: int| 0 <= i < nn implies h1v(ms, f_row(l, i), fz, ch, z, #[trigger] dpt::<F>(nn, i), k) == q(dpt::<F>(nn, i)) by {
            let x = dpt::<F>(nn, i); assert(off_pt(mask_pt(ms[k - 1], z), nn)); assert(x != v); l_nz(x, v); l_sdiv(c, v, x); assert(lde_at(l[r], wit[r], nn)); assert(l[r].coeffs@[i] == peval(c, x)); assert(f_row(l, i)[r] == peval(c, x)); assert(fz[k - 1] == peval(c, v));
            l_cancel(fsub(x, v), peval(s, x)); assert(h1v(ms, f_row(l, i), fz, ch, z, x, k - 1) == q0(x)); }
        q
    }
}
pub proof fn l_low<F: PrimeField>(q: spec_fn(F) -> F, n: int, leaf: Seq<F>, nn: int) -> (c: Seq<F>) requires is_pf(q, n), is_p2(nn), n >= 0, leaf.len() == nn, forall|i: int| 0 <= i < nn ==> #[trigger] leaf[i] == q(dpt::<F>(nn, i)) ensures c.len() == n, evals(leaf, c, lg2(nn))
{
    let d = choose|c: Seq<F>| c.len() <= n && #[trigger] ag(c, q); let c = padded(d, n); lemma_is_p2(nn);
    assert forall|j: int| 0 <= j < pow2(lg2(nn)) implies #[trigger] leaf[j] == peval(c, fpow(dgen::<F>(lg2(nn)), j as nat)) by { let x = dpt::<F>(nn, j); l_padded_ev(d, n, x); assert(peval(d, x) == q(x)); }
    c
}
pub proof fn l_h2_c<F: PrimeField>(h2: Seq<F>, g: Seq<F>, gl: Seq<F>, z: F, nn: int) -> (c: Seq<F>)
    requires is_p2(nn), g.len() >= 1, h2.len() == nn, off_pt(z, nn), forall|i: int| 0 <= i < nn ==> #[trigger] h2[i] == h2v(gl[i], peval(g, z), z, dpt::<F>(nn, i)), forall|i: int| 0 <= i < nn ==> #[trigger] gl[i] == peval(g, dpt::<F>(nn, i))
    ensures c.len() == g.len(), evals(h2, c, lg2(nn))
{
    let s = sdiv(g, z); l_sdiv(g, z, z); let q = |x: F| peval(s, x); l_pf_coef(s); l_pf_mono(q, s.len() as int, g.len() as int);
    assert forall|i: int| 0 <= i < nn implies #[trigger] h2[i] == q(dpt::<F>(nn, i)) by { let x = dpt::<F>(nn, i); assert(x != z); l_nz(x, z); l_sdiv(g, z, x); assert(gl[i] == peval(g, x)); l_cancel(fsub(x, z), peval(s, x)); }
    l_low(q, g.len() as int, h2, nn)
}
// a point off the extended domain is no root of unity of the trace domain's order
pub proof fn l_off_root<F: PrimeField>(z: F, n: int, nn: int) requires is_p2(n), is_p2(nn), n <= nn <= pow2(F::S as nat), off_pt(z, nn) ensures fpow(z, n as nat) != F::f1()
{
    if fpow(z, n as nat) == F::f1() {
        let om = dgen::<F>(lg2(n)); let k = l_xn1::<F>(n); l_sub_self(F::f1()); assert(fsub(fpow(z, n as nat), F::f1()) == F::f0()); if vanish(z, om, 0, n) != F::f0() { l_mul_nonzero(vanish(z, om, 0, n), k); }
        lemma_is_p2(n); lemma_is_p2(nn); let a = lg2(n); let b = lg2(nn); if a > b { lemma_pow2_strictly_increases(b, a); } if b > F::S { lemma_pow2_strictly_increases(F::S as nat, b); } let d = (b - a) as nat;
        assert forall|t: int| 0 <= t < n implies z != fpow(om, #[trigger] (t as nat)) by {
            l_idx_bound(t, d, a); l_dgen_pw::<F>(a, d); let w = dgen::<F>(b); let j = t * pow2(d); l_pow_mul(w, pow2(d), t as nat); let pd = pow2(d) as int; assert(pd * t == t * pd) by (nonlinear_arith); assert(dpt::<F>(nn, j) != z); }
        l_vanish_nz(z, om, 0, n);
    }
}
pub proof fn l_gdef_off<F: PrimeField>(p: InstanceProperties<F>, z: F, nn: int) requires is_p2(psize(p)), is_p2(nn), psize(p) <= nn <= pow2(F::S as nat), off_pt(z, nn) ensures gdef(p, z)
{
    l_off_root(z, psize(p), nn);
    assert forall|k: int| 0 <= k < p.boundary_constraints@.len() implies z != #[trigger] bnd_pt(p, k) by { l_dgen_root::<F>(psize(p), p.boundary_constraints@[k].at_row as int); }
}
// what proof_from_lde_by_values guarantees of a prototype
pub open spec fn pl_by_values<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, x: Seq<F>) -> bool {
    &&& pl_committed(p, leaf) && pl_folded(p, leaf) && p.lde_factor >= 1
    &&& p.initial_degree_plus_one == p.output_coeffs_at_degree_plus_one * pow2(p.intermediate_values@.len())
    &&& p.final_root@ == nd(pl_layer(p, leaf, p.intermediate_values@.len() as int), 1)
    &&& x.len() >= p.output_coeffs_at_degree_plus_one && p.final_coefficients@ == x.subrange(0, p.output_coeffs_at_degree_plus_one as int)
    &&& is_dft(pl_layer(p, leaf, p.intermediate_values@.len() as int), x, dgen::<F>((lg2(p.initial_degree_plus_one * p.lde_factor) - p.intermediate_values@.len()) as nat))
}
// everything the prover did, for whatever witness polynomials
pub open spec fn q_made<F: PrimeField>(q: TrivialBlake2sIopQuery<F>, leaf: Seq<F>, i: int, root: Seq<u8>) -> bool { q.index == i && q.value == leaf[i] && q.path@.len() == lg2(leaf.len() as int) && root == nd(leaf, 1) && verifies(root, q.value, q.path@, i) }
pub open spec fn fq_made<F: PrimeField>(q: InstanceProof<F>, l: Seq<Polynomial<F, Values>>, i: int, k: int) -> bool { q_made(q.f_queries@[k], l[k].coeffs@, i, q.f_iop_roots@[k]@) }
pub struct PrData<F: PrimeField> { pub wit: Seq<Polynomial<F, Coefficients>>, pub l: Seq<Polynomial<F, Values>>, pub g: Polynomial<F, Coefficients>, pub gl: Polynomial<F, Values>, pub h1: Polynomial<F, Values>, pub h2: Polynomial<F, Values>, pub p1: FRIProofPrototype<F>, pub p2: FRIProofPrototype<F>, pub x1: Seq<F>, pub x2: Seq<F> }
pub open spec fn pr_sizes<F: PrimeField>(p: InstanceProperties<F>, lde: int) -> bool {
    p.num_rows >= 2 && p.num_registers >= 1 && lde >= 2 && is_p2(lde) && psize(p) * lde <= pow2(F::S as nat) && pgsize(p) * lde <= pow2(F::S as nat) && psize(p) * lde <= 0x8000_0000 && pgsize(p) * lde <= 0x8000_0000 && inst_m(p) }
pub open spec fn made_oracles<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int, d: PrData<F>) -> bool {
    &&& wits_ok(d.wit, p) && ldes_at(d.l, d.wit, psize(p) * lde) && q.f_iop_roots@.len() == p.num_registers && q.f_queries@.len() == p.num_registers
    &&& forall|k: int| 0 <= k < p.num_registers ==> #[trigger] fq_made(q, d.l, v_i1(p, q, lde), k)
    &&& g_at(d.g, p, d.wit, st0(q)) && lde_at(d.gl, d.g, pgsize(p) * lde) && q_made(q.g_query, d.gl.coeffs@, v_i2(p, q, lde), q.g_iop_root@)
}
pub open spec fn made_deep<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int, d: PrData<F>) -> bool {
    let z = v_z(p, q); let ms = pmasks(p);
    &&& deep_def(ms, z, psize(p) * lde, pgsize(p) * lde) && q.f_at_z_m@ == fz_all(ms, d.wit, z)
    &&& h1_at(d.h1, ms, d.l, q.f_at_z_m@, v_ma(p, q), z, psize(p) * lde, ms.len() as int) && h2_at(d.h2, d.gl.coeffs@, peval(d.g.coeffs@, z), z, pgsize(p) * lde)
}
pub open spec fn fri_made<F: PrimeField>(f: FRIProof<F>, roots: Seq<[u8; 32]>, p: FRIProofPrototype<F>, leaf: Seq<F>, x: Seq<F>, i: int, n: int, lde: int) -> bool {
    &&& pl_by_values(p, leaf, x) && made_from(f, p, leaf, i) && p.lde_factor == lde && p.initial_degree_plus_one == n
    &&& roots.len() == p.intermediate_values@.len() + 1 && forall|t: int| 0 <= t < roots.len() ==> (#[trigger] roots[t])@ == nd(pl_layer(p, leaf, t), 1)
}
pub open spec fn made_by<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int, d: PrData<F>) -> bool {
    &&& pr_sizes(p, lde) && made_oracles(p, q, lde, d) && made_deep(p, q, lde, d)
    &&& fri_made(q.fri_proof_h1, q.h1_iop_roots@, d.p1, d.h1.coeffs@, d.x1, v_i1(p, q, lde), psize(p), lde) && fri_made(q.fri_proof_h2, q.h2_iop_roots@, d.p2, d.h2.coeffs@, d.x2, v_i2(p, q, lde), pgsize(p), lde)
}
pub proof fn l_fri_acc<F: PrimeField>(f: FRIProof<F>, roots: Seq<[u8; 32]>, p: FRIProofPrototype<F>, leaf: Seq<F>, x: Seq<F>, c: Seq<F>, i: int, n: int, lde: int)
    requires fri_made(f, roots, p, leaf, x, i, n, lde), c.len() == n, evals(leaf, c, lg2(n * lde)), 0 <= i < n * lde, i % 2 == 1
    ensures fri_accepts(f, i, leaf[i]), roots.len() > 0, roots_same(roots, f.roots@), f.lde_factor == lde, f.initial_degree_plus_one == n
{
    thm_by_values(p, leaf, c, x); lemma_fri_complete(f, p, leaf, i);
    assert forall|t: int| 0 <= t < roots.len() implies (#[trigger] roots[t])@ == f.roots@[t]@ by { assert(pl_answers(p, leaf, lg2(p.initial_degree_plus_one * p.lde_factor), i, f.queries@, f.roots@, t)); }
}
pub proof fn l_sizes<F: PrimeField>(p: InstanceProperties<F>, lde: int) requires pr_sizes(p, lde)
    ensures is_p2(psize(p)), is_p2(pgsize(p)), psize(p) >= 2, psize(p) <= pgsize(p), is_p2(psize(p) * lde), is_p2(pgsize(p) * lde), np2(psize(p) * lde) == psize(p) * lde, np2(pgsize(p) * lde) == pgsize(p) * lde, psize(p) * lde >= 4, pgsize(p) * lde >= 4, (psize(p) * lde) % 2 == 0, (pgsize(p) * lde) % 2 == 0, pgsize(p) <= pow2(F::S as nat), psize(p) <= pow2(F::S as nat), psize(p) <= pgsize(p) * lde, pgsize(p) <= 0x8000_0000, lde <= 0x8000_0000
{
    let n = psize(p); let m = pgsize(p); lemma_np2(p.num_rows as int); l_deg_range(p.constraints@, p.constraints@.len() as int); let d = pdeg(p); lemma_np2(d); l_np2_scale(n, d); lemma_np2(n * d);
    assert(is_p2(n) && is_p2(np2(d))); lemma_is_p2(n); lemma_is_p2(np2(d)); lemma_is_p2(lde); lemma_pow2_mul(lg2(np2(d)), lg2(n)); assert(m == np2(d) * n); assert(m == pow2(lg2(np2(d)) + lg2(n))); lemma_is_p2(m);
    lemma_pow2_mul(lg2(n), lg2(lde)); lemma_pow2_mul(lg2(m), lg2(lde)); assert(n * lde == pow2(lg2(n) + lg2(lde))); assert(m * lde == pow2(lg2(m) + lg2(lde))); l_np2_p2(n * lde); l_np2_p2(m * lde);
    assert(m >= n) by (nonlinear_arith) requires m == np2(d) * n, np2(d) >= 1, n >= 1; assert(n * lde >= 4) by (nonlinear_arith) requires n >= 2, lde >= 2; assert(m * lde >= 2 * m) by (nonlinear_arith) requires m >= 1, lde >= 2; assert(n * lde >= 2 * n) by (nonlinear_arith) requires n >= 1, lde >= 2; assert(n * lde >= lde) by (nonlinear_arith) requires n >= 1, lde >= 2;
    if lg2(lde) == 0 { lemma2_to64(); } lemma_pow2_step((lg2(n) + lg2(lde) - 1) as nat); lemma_pow2_step((lg2(m) + lg2(lde) - 1) as nat);
}
pub proof fn thm_complete<F: PrimeField>(p: InstanceProperties<F>, q: InstanceProof<F>, lde: int, d: PrData<F>) requires made_by(p, q, lde, d), comp_ok(p, d.wit) ensures v_accepts(p, q, lde)
{
    let n = psize(p); let ng = pgsize(p); let nn = n * lde; let gn = ng * lde; let z = v_z(p, q); let ms = pmasks(p); let i1 = v_i1(p, q, lde); let i2 = v_i2(p, q, lde); let fz = q.f_at_z_m@; let cc = v_cc(p, q); let bc = v_bc(p, q);
    l_sizes(p, lde); l_inst_masks(p); lemma_chal_odd(blake(1, st3(p, q)), nn, lde); lemma_chal_odd(blake(1, chs(st3(p, q), 1)), gn, lde);
    let x1 = dom_at::<F>(nn, i1); let x2 = dom_at::<F>(gn, i2); assert(x1 == dpt::<F>(nn, i1)); assert(x2 == dpt::<F>(gn, i2));
    assert(wpf(d.wit, n)) by { assert forall|i: int| 0 <= i < d.wit.len() implies (#[trigger] d.wit[i]).coeffs@.len() == n by {} }
    let qf = l_h1_q(ms, d.wit, d.l, v_ma(p, q), z, nn, ms.len() as int, n);
    assert forall|i: int| 0 <= i < nn implies #[trigger] d.h1.coeffs@[i] == qf(dpt::<F>(nn, i)) by { assert(h1v(ms, f_row(d.l, i), fz, v_ma(p, q), z, dpt::<F>(nn, i), ms.len() as int) == qf(dpt::<F>(nn, i))); }
    let c1 = l_low(qf, n, d.h1.coeffs@, nn); let c2 = l_h2_c(d.h2.coeffs@, d.g.coeffs@, d.gl.coeffs@, z, gn);
    l_fri_acc(q.fri_proof_h1, q.h1_iop_roots@, d.p1, d.h1.coeffs@, d.x1, c1, i1, n, lde); l_fri_acc(q.fri_proof_h2, q.h2_iop_roots@, d.p2, d.h2.coeffs@, d.x2, c2, i2, ng, lde);
    // openings
    assert forall|k: int| 0 <= k < p.num_registers implies #[trigger] fq_opens(q, i1, nn, k) by { assert(fq_made(q, d.l, i1, k)); assert(lde_at(d.l[k], d.wit[k], nn)); }
    // H1
    assert(q_vals(q.f_queries@) =~= f_row(d.l, i1)) by { assert forall|k: int| 0 <= k < p.num_registers implies q_vals(q.f_queries@)[k] == f_row(d.l, i1)[k] by { assert(fq_made(q, d.l, i1, k)); } }
    assert(v_h1(p, q, lde) == d.h1.coeffs@[i1]);
    // H2
    l_gdef_off(p, z, gn); 
    assert forall|i: int| 0 <= i < pgsize(p) implies peval(d.g.coeffs@, #[trigger] cpt::<F>(pgsize(p), i)) == gcomp(p, wasg(d.wit, cpt::<F>(pgsize(p), i)), cc, bc, cpt::<F>(pgsize(p), i)) by {}
    thm_g(p, d.wit, d.g.coeffs@, cc, bc, z); l_fz_agree(p, d.wit, z); l_gcomp_agree(p, fz_asg(ms, fz), wasg(d.wit, z), cc, bc, z);
    assert(v_h2(p, q, lde) == d.h2.coeffs@[i2]);
    assert(off_pt(z, gn)); assert(z != x2);
    assert(h1def(ms, z, x1)) by { assert forall|i: int| 0 <= i < ms.len() implies x1 != mask_pt(#[trigger] ms[i], z) by { assert(off_pt(mask_pt(ms[i], z), nn)); } }
    assert(fz.len() == ms.len());
    assert(v_shape(p, q, lde));
}
