// ---- the composition polynomial: real code ----
// derived Clone: the clone is the value
impl<F: PrimeField> Clone for MaskProperties<F> { fn clone(&self) -> (r: Self) ensures r == *self { MaskProperties { register: self.register, steps_difference: self.steps_difference } } }
// what a trace polynomial assignment reads at x
pub open spec fn wasg<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, x: F) -> Asg<F> { |r: Register, s: StepDifference<F>| match s { StepDifference::Mask(m) => peval(wit[reg_of(r)].coeffs@, m.fmul(x)), _ => F::f0() } }
pub open spec fn wits_ok<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, p: InstanceProperties<F>) -> bool { wit.len() == p.num_registers && forall|i: int| 0 <= i < wit.len() ==> (#[trigger] wit[i]).wf() && wit[i].coeffs@.len() == psize(p) }
pub type Subst<F> = Seq<(MaskProperties<F>, Polynomial<F, Coefficients>)>;
// the same, from the map of masked polynomials
pub open spec fn sasg<F: PrimeField>(sub: Subst<F>, x: F) -> Asg<F> { |r: Register, s: StepDifference<F>| peval(im_val(sub, mk(r, s)).coeffs@, x) }
pub open spec fn shas<F: PrimeField>(sub: Subst<F>, m: int) -> Rd<F> { |r: Register, s: StepDifference<F>| im_has(sub, mk(r, s)) && im_val(sub, mk(r, s)).wf() && im_val(sub, mk(r, s)).coeffs@.len() == m }
pub type Cache<F> = Seq<(WitnessEvaluationData<F>, Polynomial<F, Values>)>;
pub open spec fn cell_ok<F: PrimeField>(e: (WitnessEvaluationData<F>, Polynomial<F, Values>), sub: Subst<F>, n: int) -> bool {
    e.1.wf() && e.1.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] e.1.coeffs@[i] == fpow(sasg(sub, cpt::<F>(n, i))(e.0.mask.register, e.0.mask.steps_difference), e.0.power as nat) }
pub open spec fn cache_ok<F: PrimeField>(s: Cache<F>, sub: Subst<F>, n: int) -> bool { forall|e: int| 0 <= e < s.len() ==> cell_ok(#[trigger] s[e], sub, n) }
pub proof fn l_cache_put<F: PrimeField>(s: Cache<F>, k: WitnessEvaluationData<F>, v: Polynomial<F, Values>, sub: Subst<F>, n: int) requires cache_ok(s, sub, n), cell_ok((k, v), sub, n) ensures cache_ok(im_put(s, k, v), sub, n)
{ let t = im_put(s, k, v); assert forall|e: int| 0 <= e < t.len() implies cell_ok(#[trigger] t[e], sub, n) by { if im_has(s, k) { assert(im_at(s, k, im_ix(s, k))); if e != im_ix(s, k) { assert(t[e] == s[e]); } } else { if e < s.len() { assert(t[e] == s[e]); } } } }
pub proof fn l_cache_get<F: PrimeField>(s: Cache<F>, k: WitnessEvaluationData<F>, sub: Subst<F>, n: int) requires cache_ok(s, sub, n), im_has(s, k) ensures cell_ok((k, im_val(s, k)), sub, n) { assert(im_at(s, k, im_ix(s, k))); assert(cell_ok(s[im_ix(s, k)], sub, n)); assert(s[im_ix(s, k)] == (k, im_val(s, k))); }
pub open spec fn sz_ok<F: PrimeField>(m: int, h: int, n: int) -> bool { is_p2(m) && is_p2(h) && m * h == n && n <= 0x8000_0000 && n <= pow2(F::S as nat) && is_p2(n) }
pub open spec fn wk_ok(worker: &Worker) -> bool { worker.wf() && worker.cpus < 0x8000_0000_0000_0000 }
pub open spec fn u_at<F: PrimeField>(r: Polynomial<F, Values>, t: UnivariateTerm<F>, sub: Subst<F>, n: int) -> bool { r.wf() && r.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r.coeffs@[i] == uval(t, sasg(sub, cpt::<F>(n, i))) }
pub open spec fn t_at<F: PrimeField>(r: Polynomial<F, Values>, t: ConstraintTerm<F>, sub: Subst<F>, n: int) -> bool { r.wf() && r.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r.coeffs@[i] == tval(t, sasg(sub, cpt::<F>(n, i))) }
pub open spec fn t_ne<F: PrimeField>(t: ConstraintTerm<F>) -> bool { t matches ConstraintTerm::Polyvariate(p) ==> p.terms@.len() > 0 }
pub open spec fn c_ne<F: PrimeField>(c: Constraint<F>) -> bool { forall|i: int| 0 <= i < c.terms@.len() ==> t_ne(#[trigger] c.terms@[i]) }
pub proof fn l_lde_dom<F: PrimeField>(p: Polynomial<F, Coefficients>, h: int, n: int) requires p.wf(), sz_ok::<F>(p.coeffs@.len() as int, h, n) ensures p.exp < 32, p.exp + lg2(h) == lg2(n), lg2(n) < 32, lg2(n) <= F::S, pow2(lg2(n)) == n
{
    let m = p.coeffs@.len() as int; lemma_lg2_pow2(p.exp as nat); lemma_is_p2(m); lemma_is_p2(h); lemma_is_p2(n); lemma_pow2_mul(lg2(m), lg2(h)); lemma_pow2_inj(lg2(n), lg2(m) + lg2(h)); lemma2_to64_rest(); lemma2_to64();
    if lg2(n) >= 32 { lemma_pow2_le(32, lg2(n)); } if lg2(n) > F::S { lemma_pow2_strictly_increases(F::S as nat, lg2(n)); }
}
//@@ fn src/ali/per_register/mod.rs ALIInstance::calculate_g::evaluate_for_mask ret=r rename=calculate_g__evaluate_for_mask
requires worker.wf(), mask is Mask
ensures r.same_domain(&f), r.coeffs@ == powered(f.coeffs@, mask->Mask_0)
//@@ endfn
//@@ fn src/ali/per_register/mod.rs ALIInstance::calculate_g::calculate_adjustment_polynomial_in_coset ret=r rename=calculate_g__calculate_adjustment_polynomial_in_coset
requires worker.wf(), adjustment >= 1, precomputations.coset@ == Seq::new(domain.size as nat, |i: int| cpt::<F>(domain.size as int, i)), is_p2(domain.size as int), domain.size <= pow2(F::S as nat), domain.size <= 0x8000_0000_0000_0000
ensures r.wf(), r.coeffs@.len() == domain.size, forall|i: int| 0 <= i < domain.size ==> #[trigger] r.coeffs@[i] == adj(adjustment as int, (alpha, beta), cpt::<F>(domain.size as int, i))
//@@ begin
  proof { lemma_np2(domain.size as int); l_cl0::<F>(); }
//@@ stmt "poly . pow" before
  proof { assert(poly.coeffs@ =~= Seq::new(domain.size as nat, |i: int| cpt::<F>(domain.size as int, i))); }
//@@ endfn
// length of the polynomial a term reads
pub open spec fn su_m<F: PrimeField>(t: UnivariateTerm<F>, sub: Subst<F>) -> int { im_val(sub, mk(t.register, t.steps_difference)).coeffs@.len() as int }
pub open spec fn t_m<F: PrimeField>(t: ConstraintTerm<F>, sub: Subst<F>) -> int { match t { ConstraintTerm::Univariate(u) => su_m(u, sub), ConstraintTerm::Polyvariate(p) => su_m(p.terms@[0], sub) } }
pub proof fn l_ucoeff<F: PrimeField>(c: F, v: F) ensures c == F::f1() ==> c.fmul(v) == v, c == F::f1().fneg() ==> c.fmul(v) == v.fneg(), c.fmul(v) == v.fmul(c) { F::ax_mul_comm(c, v); l_one_l(v); l_neg_one_mul(v); }
pub proof fn l_ext_cell<F: PrimeField>(q: Polynomial<F, Values>, u: UnivariateTerm<F>, sub: Subst<F>, e: WitnessEvaluationData<F>, r0: Seq<F>, m: int, h: int, n: int)
    requires e.mask == mk(u.register, u.steps_difference), e.power == u.power, n >= 0, is_ext(r0, im_val(sub, e.mask).coeffs@, F::sgen(), dgen::<F>(lg2(n)), n), q.wf(), q.coeffs@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == fpow(r0[i], u.power as nat)
    ensures cell_ok((e, q), sub, n)
{ assert forall|i: int| 0 <= i < n implies #[trigger] q.coeffs@[i] == fpow(sasg(sub, cpt::<F>(n, i))(e.mask.register, e.mask.steps_difference), e.power as nat) by { assert(r0[i] == peval(im_val(sub, e.mask).coeffs@, cpt::<F>(n, i))); assert(mk(e.mask.register, e.mask.steps_difference) == e.mask); } }
//@@ fn src/ali/per_register/mod.rs ALIInstance::calculate_g::evaluate_univariate_term_into_values ret=r attr="#[verifier::rlimit(40)]" rename=evaluate_univariate_term_into_values
requires wk_ok(worker), sz_ok::<F>(su_m(*uni, substituted_witness@), power_hint as int, su_m(*uni, substituted_witness@) * power_hint), shas(substituted_witness@, su_m(*uni, substituted_witness@))(uni.register, uni.steps_difference),
  cache_ok(old(evaluated_univariate_terms)@, substituted_witness@, su_m(*uni, substituted_witness@) * power_hint)
ensures cache_ok(final(evaluated_univariate_terms)@, substituted_witness@, su_m(*uni, substituted_witness@) * power_hint), r matches Ok(q) && u_at(q, *uni, substituted_witness@, su_m(*uni, substituted_witness@) * power_hint)
//@@ begin
  let ghost sub = substituted_witness@; let ghost es = evaluated_univariate_terms@; let ghost m = su_m(*uni, sub); let ghost n = m * power_hint; let ghost u = *uni; let ghost p = im_val(sub, mk(u.register, u.steps_difference));
  proof { ax_eq::<F>(); lemma2_to64_rest(); lemma_is_p2(power_hint as int); lemma_is_p2(n); lemma_is_p2(m); l_lde_dom(p, power_hint as int, n); assert(power_hint * m == n) by (nonlinear_arith) requires n == m * power_hint; assert(power_hint <= n) by (nonlinear_arith) requires n == m * power_hint, m >= 1, power_hint >= 0;
    assert forall|v: F| #[trigger] u.coeff.fmul(v) == v.fmul(u.coeff) && (u.coeff == F::f1() ==> u.coeff.fmul(v) == v) && (u.coeff == F::f1().fneg() ==> u.coeff.fmul(v) == v.fneg()) by { l_ucoeff(u.coeff, v); } }
//@@ stmt "let mut base = e . clone ()" before
  proof { l_cache_get(es, evaluation_data, sub, n); }
//@@ stmt "base . pow" before
  let ghost r0 = base.coeffs@;
//@@ stmt "evaluated_univariate_terms . insert" before
  proof { l_ext_cell(base, u, sub, evaluation_data, r0, m, power_hint as int, n); l_cache_put(es, evaluation_data, base, sub, n); }
//@@ endfn
pub open spec fn up_at<F: PrimeField>(r: Polynomial<F, Values>, t: Seq<UnivariateTerm<F>>, k: int, sub: Subst<F>, n: int) -> bool { r.wf() && r.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r.coeffs@[i] == uprod(t, sasg(sub, cpt::<F>(n, i)), k) }
pub proof fn l_u_first<F: PrimeField>(r: Polynomial<F, Values>, t: Seq<UnivariateTerm<F>>, sub: Subst<F>, n: int) requires t.len() > 0, u_at(r, t[0], sub, n) ensures up_at(r, t, 1, sub, n)
{ assert forall|i: int| 0 <= i < n implies #[trigger] r.coeffs@[i] == uprod(t, sasg(sub, cpt::<F>(n, i)), 1) by { let a = sasg(sub, cpt::<F>(n, i)); reveal_with_fuel(uprod, 2); l_one_l(uval(t[0], a)); } }
//@@ fn src/ali/per_register/mod.rs ALIInstance::calculate_g::evaluate_constraint_term_into_values ret=r attr="#[verifier::rlimit(40)]" rename=calculate_g__evaluate_constraint_term_into_values
//@@ subst "values_result . as_mut ()" => "& mut values_result"
requires wk_ok(worker), sz_ok::<F>(t_m(*term, substituted_witness@), power_hint as int, t_m(*term, substituted_witness@) * power_hint), t_reads(*term, shas(substituted_witness@, t_m(*term, substituted_witness@))), t_ne(*term),
  cache_ok(old(evaluated_univariate_terms)@, substituted_witness@, t_m(*term, substituted_witness@) * power_hint)
ensures cache_ok(final(evaluated_univariate_terms)@, substituted_witness@, t_m(*term, substituted_witness@) * power_hint), r matches Ok(q) && t_at(q, *term, substituted_witness@, t_m(*term, substituted_witness@) * power_hint)
//@@ begin
  let ghost sub = substituted_witness@; let ghost m = t_m(*term, sub); let ghost n = m * power_hint;
//@@ loop 1
  invariant vx_n1 == poly.terms@.len(), vx_k1 <= vx_n1, vx_n1 > 0, sub == substituted_witness@, n == m * power_hint, wk_ok(worker), sz_ok::<F>(m, power_hint as int, n), us_reads(poly.terms@, shas(sub, m)),
    cache_ok(evaluated_univariate_terms@, sub, n), values_result is Some <==> vx_k1 > 0, values_result matches Some(q) ==> up_at(q, poly.terms@, vx_k1 as int, sub, n),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { let u = poly.terms@[vx_i1 as int]; assert(shas(sub, m)(u.register, u.steps_difference)); assert(su_m(u, sub) == m); }
//@@ stmt "if let Some (res)" before
  let ghost v0 = values_result;
//@@ stmt "if let Some (res)" after
  proof { if v0 is None { l_u_first(t, poly.terms@, sub, n); } else { let q0 = v0->Some_0; let q = values_result->Some_0;
    assert forall|i: int| 0 <= i < n implies #[trigger] q.coeffs@[i] == uprod(poly.terms@, sasg(sub, cpt::<F>(n, i)), vx_k1 as int) by { assert(q.coeffs@[i] == q0.coeffs@[i].fmul(t.coeffs@[i])); } } }
//@@ stmt "as_values . scale" before
  let ghost w0 = as_values.coeffs@;
//@@ stmt "as_values . scale" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] as_values.coeffs@[i] == tval(*term, sasg(sub, cpt::<F>(n, i))) by { assert(as_values.coeffs@[i] == w0[i].fmul(poly.coeff)); F::ax_mul_comm(w0[i], poly.coeff); } }
//@@ endfn
// ---- the masked polynomials ----
pub open spec fn sub_has<F: PrimeField>(sub: Subst<F>, k: MaskProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, m: int) -> bool {
    im_has(sub, k) && im_val(sub, k).wf() && im_val(sub, k).coeffs@ == powered(wit[reg_of(k.register)].coeffs@, k.steps_difference->Mask_0) && im_val(sub, k).coeffs@.len() == m }
pub open spec fn subs_ok<F: PrimeField>(sub: Subst<F>, ms: Seq<MaskProperties<F>>, wit: Seq<Polynomial<F, Coefficients>>, m: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> sub_has(sub, #[trigger] ms[i], wit, m) }
pub proof fn l_sub_agree<F: PrimeField>(sub: Subst<F>, ms: Seq<MaskProperties<F>>, wit: Seq<Polynomial<F, Coefficients>>, m: int, x: F, q: Rd<F>, n: int)
    requires subs_ok(sub, ms, wit, m, ms.len() as int), ms_all(ms, q), q == reads_ok::<F>(n) ensures agree(sasg(sub, x), wasg(wit, x), ms_rd(ms))
{ assert forall|r: Register, d: StepDifference<F>| #[trigger] ms_rd(ms)(r, d) implies sasg(sub, x)(r, d) == wasg(wit, x)(r, d) by {
    let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i] == mk(r, d); assert(sub_has(sub, ms[i], wit, m)); assert(q(ms[i].register, ms[i].steps_difference)); l_peval_powered(wit[reg_of(r)].coeffs@, d->Mask_0, x); } }
pub proof fn l_sub_shas<F: PrimeField>(sub: Subst<F>, ms: Seq<MaskProperties<F>>, wit: Seq<Polynomial<F, Coefficients>>, m: int, t: ConstraintTerm<F>)
    requires subs_ok(sub, ms, wit, m, ms.len() as int), t_reads(t, ms_rd(ms)), t_ne(t) ensures t_reads(t, shas(sub, m)), t_m(t, sub) == m
{
    let p = ms_rd(ms); let s = shas(sub, m);
    assert forall|r: Register, d: StepDifference<F>| p(r, d) implies #[trigger] s(r, d) by { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i] == mk(r, d); assert(sub_has(sub, ms[i], wit, m)); }
    match t { ConstraintTerm::Univariate(u) => { assert(s(u.register, u.steps_difference)); }, ConstraintTerm::Polyvariate(q) => {
        assert forall|i: int| 0 <= i < q.terms@.len() implies s((#[trigger] q.terms@[i]).register, q.terms@[i].steps_difference) by { assert(p(q.terms@[i].register, q.terms@[i].steps_difference)); } assert(s(q.terms@[0].register, q.terms@[0].steps_difference)); } }
}
// lowering the constant coefficient lowers every value
pub proof fn l_fsum_first<F: FieldSpec>(a: spec_fn(int) -> F, b: spec_fn(int) -> F, v: F, n: int) requires n >= 1, a(0) == fsub(b(0), v), forall|i: int| 1 <= i < n ==> #[trigger] a(i) == b(i) ensures fsum(a, n) == fsub(fsum(b, n), v) decreases n
{
    if n == 1 { reveal_with_fuel(fsum, 2); F::ax_add_assoc(F::f0(), b(0), v.fneg()); }
    else { l_fsum_first(a, b, v, n - 1); assert(a(n - 1) == b(n - 1)); let s = fsum(b, n - 1); F::ax_add_assoc(s, v.fneg(), b(n - 1)); F::ax_add_comm(v.fneg(), b(n - 1)); F::ax_add_assoc(s, b(n - 1), v.fneg()); }
}
pub proof fn l_peval_low<F: FieldSpec>(s: Seq<F>, v: F, x: F) requires s.len() >= 1 ensures peval(s.update(0, fsub(s[0], v)), x) == fsub(peval(s, x), v)
{ let t = s.update(0, fsub(s[0], v)); let a = term(t, x); let b = term(s, x); l_pow0(x); F::ax_one(s[0]); F::ax_one(t[0]); assert forall|i: int| 1 <= i < s.len() implies #[trigger] a(i) == b(i) by {} l_fsum_first(a, b, v, s.len() as int); }
// ---- what the accumulators hold at every point of the coset ----
pub open spec fn ts_at<F: PrimeField>(q: Polynomial<F, Values>, t: Seq<ConstraintTerm<F>>, sub: Subst<F>, n: int, k: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == tsum(t, sasg(sub, cpt::<F>(n, i)), k) }
pub open spec fn bs_at<F: PrimeField>(q: Polynomial<F, Values>, b: Seq<Constraint<F>>, wit: Seq<Polynomial<F, Coefficients>>, p: int, cc: Seq<(F, F)>, o: int, n: int, k: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == bsum(b, wasg(wit, cpt::<F>(n, i)), p, cc, o, cpt::<F>(n, i), k) }
pub open spec fn cs_at<F: PrimeField>(q: Polynomial<F, Values>, p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, n: int, k: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == csum(pbat(p), wasg(wit, cpt::<F>(n, i)), pdeg(p), psize(p), p.num_rows as int, cc, cpt::<F>(n, i), k) }
pub open spec fn csv<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, x: F) -> F { csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, pbat(p).len() as int) }
pub open spec fn gs_at<F: PrimeField>(q: Polynomial<F, Values>, p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, n: int, k: int) -> bool { q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == bndsum(csv(p, wit, cc, cpt::<F>(n, i)), p.boundary_constraints@, wasg(wit, cpt::<F>(n, i)), pdeg(p), psize(p), bc, cpt::<F>(n, i), k) }
pub open spec fn ad_at<F: PrimeField>(q: Option<Polynomial<F, Values>>, e: int, ab: (F, F), n: int) -> bool { (q is Some <==> e > 0) && (q matches Some(r) ==> r.wf() && r.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r.coeffs@[i] == adj(e, ab, cpt::<F>(n, i))) }
// values scaled by the adjustment
pub open spec fn scaled_at<F: PrimeField>(q: Seq<F>, v: Seq<F>, e: int, ab: (F, F), n: int) -> bool { q.len() == n && v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q[i] == v[i].fmul(adj(e, ab, cpt::<F>(n, i))) }
pub open spec fn c_calc<F: PrimeField>(p: InstanceProperties<F>) -> spec_fn(Constraint<F>) -> bool { |c: Constraint<F>| c_fine(p)(c) && c_ne(c) }
pub open spec fn g_at<F: PrimeField>(g: Polynomial<F, Coefficients>, p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, s: Seq<u8>) -> bool {
    g.wf() && g.coeffs@.len() == pgsize(p) && forall|i: int| 0 <= i < pgsize(p) ==> peval(g.coeffs@, #[trigger] cpt::<F>(pgsize(p), i)) == gcomp(p, wasg(wit, cpt::<F>(pgsize(p), i)), ch_pairs::<F>(s, 0, p_nc(p)), ch_pairs::<F>(s, p_nc(p), p_nb(p)), cpt::<F>(pgsize(p), i)) }
pub open spec fn ch_ok(s0: Seq<u8>, t: Seq<u8>, k: int) -> bool { t == chs(s0, 2 * k) }
pub proof fn l_lg_small(n: int) requires is_p2(n), n <= 0x8000_0000 ensures lg2(n) < 32 { lemma_is_p2(n); lemma2_to64_rest(); lemma2_to64(); if lg2(n) >= 32 { lemma_pow2_le(32, lg2(n)); } }
//@@ fn src/ali/per_register/mod.rs ALIInstance::calculate_g ret=r attr="#[verifier::rlimit(80)]"
//@@ subst "transcript : & mut T" => "transcript : & mut Blake2sTranscript < F >"
//@@ subst "calculate_g < T : Transcript < F > >" => "calculate_g"
//@@ subst "Polynomial < F , Coefficients > , _ > :: new ()" => "Polynomial < F , Coefficients > > :: new ()"
requires ali_ok(*self), wits_ok(witness@, self.properties), wk_ok(worker), pgsize(self.properties) <= 0x8000_0000, old(transcript).wf(), forall|i: int| 0 <= i < self.properties.constraints@.len() ==> c_ne(#[trigger] self.properties.constraints@[i])
ensures r matches Ok(g) && g_at(g, self.properties, witness@, old(transcript)@), final(transcript).wf(), final(transcript)@ == chs(old(transcript)@, 2 * (p_nc(self.properties) + p_nb(self.properties)))
//@@ begin
  let ghost p = self.properties; let ghost wit = witness@; let ghost n = pgsize(p); let ghost mm = psize(p); let ghost b = pbat(p); let ghost s0 = transcript@; let ghost nc = p_nc(p); let ghost nb = p_nb(p); let ghost cc = ch_pairs::<F>(s0, 0, nc); let ghost bc = ch_pairs::<F>(s0, nc, nb); let ghost ms = pmasks(p); let ghost cs = p.constraints@; let ghost h = np2(pdeg(p)); let ghost dm = pdeg(p);
  proof { l_deg_range(cs, cs.len() as int); lemma_np2(p.num_rows as int); lemma_np2(pdeg(p)); l_np2_scale(mm, pdeg(p)); lemma_np2(n); l_dom_ok(self.constraints_domain); l_dom_ok(self.column_domain); lemma_lg2_pow2(self.constraints_domain.power_of_two as nat); lemma_pow2_le(self.constraints_domain.power_of_two as nat, F::S as nat); F::ax_s();
    l_pbat(p); l_inst_masks(p); l_flat_mono(b, 0, b.len() as int); assert(n == h * mm); assert(h * mm == mm * h) by (nonlinear_arith); assert(n / mm == h) by (nonlinear_arith) requires n == h * mm, mm >= 1;
    assert(sz_ok::<F>(mm, h, n)); l_deg_range(cs, cs.len() as int);
    assert forall|i: int| 0 <= i < cs.len() implies c_calc(p)(#[trigger] cs[i]) by { l_max_deg(cs, cs.len() as int, i); } l_bat_all(cs, cs.len() as int, c_calc(p)); }
//@@ loop 1
  invariant vx_n1 == ms.len(), vx_k1 <= vx_n1, self.all_masks@ == ms, ms_all(ms, reads_ok::<F>(p.num_registers as int)), ms_dist(ms), wits_ok(wit, p), witness@ == wit, wk_ok(worker), mm == psize(p), subs_ok(mask_applied_polynomials@, ms, wit, mm, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost sb = mask_applied_polynomials@; let ghost mi = ms[vx_i1 as int];
  proof { assert(reads_ok::<F>(p.num_registers as int)(mi.register, mi.steps_difference)); mask_applied_polynomials.ax_map(); }
//@@ stmt "mask_applied_polynomials . insert" before
  proof { l_im_put(sb, mi, masked); assert(*m == mi); assert forall|i: int| 0 <= i < vx_i1 implies sub_has(im_put(sb, mi, masked), #[trigger] ms[i], wit, mm) by { assert(ms[i] != ms[vx_i1 as int]); assert(sub_has(sb, ms[i], wit, mm)); } }
//@@ loop 2 before
  let ghost sub = mask_applied_polynomials@;
  proof { assert(ch_ok(s0, transcript@, 0)); }
//@@ loop 2
  invariant p == self.properties, ali_ok(*self), wits_ok(wit, p), wk_ok(worker), n == pgsize(p), mm == psize(p), b == pbat(p), dm == pdeg(p), cs == p.constraints@, ms == pmasks(p), nc == p_nc(p), nb == p_nb(p), cc == ch_pairs::<F>(s0, 0, nc), sz_ok::<F>(mm, h, n), lde_factor == h, transcript.wf(), zero_values.wf(), zero_values.coeffs@ == Seq::new(n as nat, |i: int| F::f0()),
    subs_ok(mask_applied_polynomials@, ms, wit, mm, ms.len() as int), ms_all(ms, reads_ok::<F>(p.num_registers as int)), sub == mask_applied_polynomials@,
    vx_n2 == b.len(), vx_k2 <= vx_n2, bat_of(b, c_calc(p)), bview(self.constraints_batched_by_density@) == b, vx_n2 == self.constraints_batched_by_density@.len(), cache_ok(evaluated_terms_map@, sub, n), ch_ok(s0, transcript@, flat(b, vx_k2 as int)), cs_at(g_values, p, wit, cc, n, vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost d = vx_i2 as int; let ghost o = flat(b, d); let ghost bb = b[d].1; let ghost gv0 = g_values.coeffs@;
  proof { assert(b[d] == (self.constraints_batched_by_density@[d].0, self.constraints_batched_by_density@[d].1@)); l_flat_mono(b, 0, d); l_flat_mono(b, d + 1, b.len() as int); }
//@@ loop 3
  invariant p == self.properties, ali_ok(*self), wits_ok(wit, p), wk_ok(worker), n == pgsize(p), mm == psize(p), b == pbat(p), dm == pdeg(p), cs == p.constraints@, ms == pmasks(p), nc == p_nc(p), nb == p_nb(p), cc == ch_pairs::<F>(s0, 0, nc), sz_ok::<F>(mm, h, n), lde_factor == h, transcript.wf(), zero_values.wf(), zero_values.coeffs@ == Seq::new(n as nat, |i: int| F::f0()),
    subs_ok(mask_applied_polynomials@, ms, wit, mm, ms.len() as int), ms_all(ms, reads_ok::<F>(p.num_registers as int)), sub == mask_applied_polynomials@, bat_of(b, c_calc(p)), 0 <= d < b.len(), bb == b[d].1, o == flat(b, d), o >= 0, o + bb.len() <= nc,
    vx_n3 == bb.len(), batch@ == bb, vx_k3 <= vx_n3, cache_ok(evaluated_terms_map@, sub, n), ch_ok(s0, transcript@, o + vx_k3), bs_at(batch_values, bb, wit, dm, cc, o, n, vx_k3 as int),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost j = vx_i3 as int; let ghost t0 = transcript@; let ghost cj = bb[j]; let ghost ab = cc[o + j]; let ghost e = dm - cj.degree;
  proof { assert(c_calc(p)(b[d].1[j])); }
//@@ stmt "let beta" after
  proof { l_ch2::<F>(s0, o + j, t0, transcript@, alpha, beta); assert(ab == (alpha, beta)); }
//@@ loop 4 before
  proof { assert(ad_at(adj_poly, e, ab, n)); }
//@@ loop 4
  invariant p == self.properties, ali_ok(*self), wits_ok(wit, p), wk_ok(worker), n == pgsize(p), mm == psize(p), b == pbat(p), dm == pdeg(p), cs == p.constraints@, ms == pmasks(p), nc == p_nc(p), nb == p_nb(p), cc == ch_pairs::<F>(s0, 0, nc), sz_ok::<F>(mm, h, n), lde_factor == h, transcript.wf(), zero_values.wf(), zero_values.coeffs@ == Seq::new(n as nat, |i: int| F::f0()),
    subs_ok(mask_applied_polynomials@, ms, wit, mm, ms.len() as int), ms_all(ms, reads_ok::<F>(p.num_registers as int)), sub == mask_applied_polynomials@, c_calc(p)(cj), *c == cj,
    vx_n4 == cj.terms@.len(), vx_k4 <= vx_n4, cache_ok(evaluated_terms_map@, sub, n), ts_at(constraint_values, cj.terms@, sub, n, vx_k4 as int), ch_ok(s0, transcript@, o + j + 1),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost tt = cj.terms@[vx_i4 as int]; let ghost cv0 = constraint_values.coeffs@;
  proof { assert(t_reads(tt, ms_rd(ms)) && t_ne(tt)); l_sub_shas(sub, ms, wit, mm, tt); }
//@@ stmt "constraint_values . add_assign" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] constraint_values.coeffs@[i] == tsum(cj.terms@, sasg(sub, cpt::<F>(n, i)), vx_k4 as int) by { assert(constraint_values.coeffs@[i] == cv0[i].fadd(subval.coeffs@[i])); } }
//@@ stmt "constraint_values . add_constant" before
  let ghost cv1 = constraint_values.coeffs@;
//@@ stmt "constraint_values . add_constant" after
  let ghost cv2 = constraint_values.coeffs@;
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] cv2[i] == cval(cj, wasg(wit, cpt::<F>(n, i))) by { let x = cpt::<F>(n, i); assert(cv2[i] == cv1[i].fadd(cj.constant_term)); F::ax_add_comm(cv1[i], cj.constant_term); l_sub_agree(sub, ms, wit, mm, x, reads_ok::<F>(p.num_registers as int), p.num_registers as int); l_cval_agree(cj, sasg(sub, x), wasg(wit, x), ms_rd(ms)); } }
//@@ stmt "batch_values . add_assign" before
  let ghost bv0 = batch_values.coeffs@; let ghost cv3 = constraint_values.coeffs@;
  proof { assert(scaled_at(cv3, cv2, e, ab, n)); }
//@@ stmt "batch_values . add_assign" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] batch_values.coeffs@[i] == bsum(bb, wasg(wit, cpt::<F>(n, i)), dm, cc, o, cpt::<F>(n, i), vx_k3 as int) by { assert(batch_values.coeffs@[i] == bv0[i].fadd(cv3[i])); assert(cv3[i] == cv2[i].fmul(adj(e, ab, cpt::<F>(n, i)))); } }
//@@ stmt "batch_values . mul_assign" before
  let ghost bv1 = batch_values.coeffs@;
  proof { assert(im_has(self.constraint_divisors@, b[d].0)); }
//@@ stmt "batch_values . mul_assign" after
  let ghost bv2 = batch_values.coeffs@;
//@@ stmt "g_values . add_assign (& worker , & batch_values)" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] g_values.coeffs@[i] == csum(b, wasg(wit, cpt::<F>(n, i)), dm, mm, p.num_rows as int, cc, cpt::<F>(n, i), vx_k2 as int) by { assert(g_values.coeffs@[i] == gv0[i].fadd(bv2[i])); assert(bv2[i] == bv1[i].fmul(divisors.coeffs@[i])); assert(divisors.coeffs@[i] == den_inv(cpt::<F>(n, i), mm, p.num_rows as int, b[d].0)); } }
//@@ loop 5 before
  proof { assert(gs_at(g_values, p, wit, cc, bc, n, 0)); }
//@@ loop 5
  invariant p == self.properties, ali_ok(*self), wits_ok(wit, p), wk_ok(worker), n == pgsize(p), mm == psize(p), b == pbat(p), dm == pdeg(p), cs == p.constraints@, ms == pmasks(p), nc == p_nc(p), nb == p_nb(p), cc == ch_pairs::<F>(s0, 0, nc), sz_ok::<F>(mm, h, n), lde_factor == h, transcript.wf(), zero_values.wf(), zero_values.coeffs@ == Seq::new(n as nat, |i: int| F::f0()),
    subs_ok(mask_applied_polynomials@, ms, wit, mm, ms.len() as int), ms_all(ms, reads_ok::<F>(p.num_registers as int)), bc == ch_pairs::<F>(s0, nc, nb), nc >= 0, vx_n5 == nb, vx_k5 <= vx_n5, witness@ == wit, ch_ok(s0, transcript@, nc + vx_k5), gs_at(g_values, p, wit, cc, bc, n, vx_k5 as int), dm >= 1,
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  let ghost j = vx_i5 as int; let ghost t0 = transcript@; let ghost bj = p.boundary_constraints@[j]; let ghost ab = bc[j]; let ghost gv0 = g_values.coeffs@; let ghost e = dm - 1;
  proof { assert(bnd_ok(bj, p.num_registers as int)); }
//@@ stmt "let adjustment = self . max_constraint_power - 1" before
  proof { l_ch2::<F>(s0, nc + j, t0, transcript@, alpha, beta); assert(ab == (alpha, beta)); }
//@@ stmt "let reg_num" before
  proof { assert(ad_at(adj_poly, e, ab, n)); }
//@@ stmt "let mut witness_poly" after
  let ghost w0 = witness_poly.coeffs@;
  proof { lemma_is_p2(mm); assert(w0.len() == mm); assert(w0.len() >= 1); }
//@@ stmt "let mut constraint_values = witness_poly" before
  let ghost w1 = witness_poly;
  proof { assert(w1.coeffs@ =~= w0.update(0, fsub(w0[0], bj.value->Some_0))); l_lde_dom(w1, h, n); }
//@@ stmt "let mut constraint_values = witness_poly" after
  let ghost cv2 = constraint_values.coeffs@;
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] cv2[i] == fsub(wasg(wit, cpt::<F>(n, i))(bj.register, one_mask::<F>()), bj.value->Some_0) by { let x = cpt::<F>(n, i); assert(cv2[i] == peval(w1.coeffs@, x)); l_peval_low(w0, bj.value->Some_0, x); l_one_l(x); } }
//@@ stmt "let divisors = self . boundary_constraint_divisors" before
  let ghost cv3 = constraint_values.coeffs@;
  proof { assert(scaled_at(cv3, cv2, e, ab, n)); assert(bdivs_has(self.boundary_constraint_divisors@, bj.at_row, n, mm)); }
//@@ stmt "g_values . add_assign (& worker , & constraint_values)" before
  let ghost cv4 = constraint_values.coeffs@;
//@@ stmt "g_values . add_assign (& worker , & constraint_values)" after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] g_values.coeffs@[i] == bndsum(csv(p, wit, cc, cpt::<F>(n, i)), p.boundary_constraints@, wasg(wit, cpt::<F>(n, i)), dm, mm, bc, cpt::<F>(n, i), vx_k5 as int) by { assert(g_values.coeffs@[i] == gv0[i].fadd(cv4[i])); assert(cv4[i] == cv3[i].fmul(divisors.coeffs@[i])); assert(cv3[i] == cv2[i].fmul(adj(e, ab, cpt::<F>(n, i)))); assert(divisors.coeffs@[i] == fsub(cpt::<F>(n, i), fpow(dgen::<F>(lg2(mm)), bj.at_row as nat)).finv()); } }
//@@ stmt "let g_poly" before
  let ghost gv = g_values.coeffs@;
  proof { l_dom_eq(g_values); lemma_lg2_pow2(g_values.exp as nat); l_lg_small(n); }
//@@ stmt "let g_poly" after
  proof { assert forall|i: int| 0 <= i < n implies peval(g_poly.coeffs@, #[trigger] cpt::<F>(n, i)) == gcomp(p, wasg(wit, cpt::<F>(n, i)), cc, bc, cpt::<F>(n, i)) by { assert(gv[i] == peval(g_poly.coeffs@, cpt::<F>(n, i))); } }
//@@ endfn
