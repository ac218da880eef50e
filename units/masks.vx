// ---- the masks cover what the constraints read, and nothing else ----
pub open spec fn ms_all<F: PrimeField>(s: Seq<MaskProperties<F>>, p: Rd<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> p((#[trigger] s[i]).register, s[i].steps_difference) }
pub open spec fn ms_rd<F: PrimeField>(s: Seq<MaskProperties<F>>) -> Rd<F> { |r: Register, d: StepDifference<F>| is_in(s, mk(r, d)) }
pub open spec fn ms_sub<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<MaskProperties<F>>) -> bool { s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==> s[i] == #[trigger] t[i] }
pub open spec fn ms_dist<F: PrimeField>(s: Seq<MaskProperties<F>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub proof fn l_set_add<F: PrimeField>(s: Seq<MaskProperties<F>>, m: MaskProperties<F>, p: Rd<F>)
    ensures is_in(set_add(s, m), m), ms_sub(s, set_add(s, m)), ms_all(s, p) && p(m.register, m.steps_difference) ==> ms_all(set_add(s, m), p), ms_dist(s) ==> ms_dist(set_add(s, m))
{ let t = set_add(s, m); if !is_in(s, m) { assert(t[s.len() as int] == m); } }
pub proof fn l_ms_sub<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<MaskProperties<F>>) requires ms_sub(s, t)
    ensures forall|r: Register, d: StepDifference<F>| #[trigger] ms_rd(s)(r, d) ==> ms_rd(t)(r, d)
{ assert forall|r: Register, d: StepDifference<F>| #[trigger] ms_rd(s)(r, d) implies ms_rd(t)(r, d) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == mk(r, d); assert(t[i] == s[i]); } }
pub proof fn l_m_us<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<UnivariateTerm<F>>, n: int, p: Rd<F>) requires 0 <= n <= t.len()
    ensures ms_sub(s, m_us(s, t, n)), forall|i: int| 0 <= i < n ==> is_in(m_us(s, t, n), mk((#[trigger] t[i]).register, t[i].steps_difference)),
        ms_all(s, p) && us_reads(t, p) ==> ms_all(m_us(s, t, n), p), ms_dist(s) ==> ms_dist(m_us(s, t, n)) decreases n
{
    if n > 0 { l_m_us(s, t, n - 1, p); let q = m_us(s, t, n - 1); let m = mk(t[n - 1].register, t[n - 1].steps_difference); l_set_add(q, m, p); l_ms_sub(q, set_add(q, m));
        assert forall|i: int| 0 <= i < n implies is_in(m_us(s, t, n), mk((#[trigger] t[i]).register, t[i].steps_difference)) by { if i < n - 1 { assert(ms_rd(q)(t[i].register, t[i].steps_difference)); } }
        assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] m_us(s, t, n)[i] by { assert(q[i] == s[i]); } }
}
pub proof fn l_m_t<F: PrimeField>(s: Seq<MaskProperties<F>>, t: ConstraintTerm<F>, p: Rd<F>)
    ensures ms_sub(s, m_t(s, t)), t_reads(t, ms_rd(m_t(s, t))), ms_all(s, p) && t_reads(t, p) ==> ms_all(m_t(s, t), p), ms_dist(s) ==> ms_dist(m_t(s, t))
{ match t { ConstraintTerm::Univariate(u) => l_set_add(s, mk(u.register, u.steps_difference), p), ConstraintTerm::Polyvariate(q) => l_m_us(s, q.terms@, q.terms@.len() as int, p) } }
pub proof fn l_t_reads_mono<F: PrimeField>(t: ConstraintTerm<F>, p: Rd<F>, q: Rd<F>) requires t_reads(t, p), forall|r: Register, d: StepDifference<F>| #[trigger] p(r, d) ==> q(r, d) ensures t_reads(t, q)
{ match t { ConstraintTerm::Univariate(u) => {}, ConstraintTerm::Polyvariate(k) => { assert forall|i: int| 0 <= i < k.terms@.len() implies q((#[trigger] k.terms@[i]).register, k.terms@[i].steps_difference) by { assert(p(k.terms@[i].register, k.terms@[i].steps_difference)); } } } }
pub proof fn l_m_ts<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<ConstraintTerm<F>>, n: int, p: Rd<F>) requires 0 <= n <= t.len()
    ensures ms_sub(s, m_ts(s, t, n)), forall|i: int| 0 <= i < n ==> t_reads(#[trigger] t[i], ms_rd(m_ts(s, t, n))),
        ms_all(s, p) && (forall|i: int| 0 <= i < n ==> t_reads(#[trigger] t[i], p)) ==> ms_all(m_ts(s, t, n), p), ms_dist(s) ==> ms_dist(m_ts(s, t, n)) decreases n
{
    if n > 0 { l_m_ts(s, t, n - 1, p); let q = m_ts(s, t, n - 1); let r = m_ts(s, t, n); l_m_t(q, t[n - 1], p); l_ms_sub(q, r);
        assert forall|i: int| 0 <= i < n implies t_reads(#[trigger] t[i], ms_rd(r)) by { if i < n - 1 { l_t_reads_mono(t[i], ms_rd(q), ms_rd(r)); } }
        assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] r[i] by { assert(q[i] == s[i]); } }
}
pub proof fn l_m_cs<F: PrimeField>(cs: Seq<Constraint<F>>, n: int, p: Rd<F>) requires 0 <= n <= cs.len()
    ensures forall|i: int| 0 <= i < n ==> c_reads(#[trigger] cs[i], ms_rd(m_cs(cs, n))),
        (forall|i: int| 0 <= i < n ==> c_reads(#[trigger] cs[i], p)) ==> ms_all(m_cs(cs, n), p), ms_dist(m_cs(cs, n)) decreases n
{
    if n > 0 { l_m_cs(cs, n - 1, p); let q = m_cs(cs, n - 1); let r = m_cs(cs, n); let c = cs[n - 1]; l_m_ts(q, c.terms@, c.terms@.len() as int, p); l_ms_sub(q, r);
        assert forall|i: int| 0 <= i < n implies c_reads(#[trigger] cs[i], ms_rd(r)) by { if i < n - 1 { l_c_reads_mono(cs[i], ms_rd(q), ms_rd(r)); } } }
}
pub proof fn l_c_reads_mono<F: PrimeField>(c: Constraint<F>, p: Rd<F>, q: Rd<F>) requires c_reads(c, p), forall|r: Register, d: StepDifference<F>| #[trigger] p(r, d) ==> q(r, d) ensures c_reads(c, q)
{ assert forall|i: int| 0 <= i < c.terms@.len() implies t_reads(#[trigger] c.terms@[i], q) by { l_t_reads_mono(c.terms@[i], p, q); } }
pub proof fn l_m_bs<F: PrimeField>(s: Seq<MaskProperties<F>>, bs: Seq<BoundaryConstraint<F>>, n: int, p: Rd<F>) requires 0 <= n <= bs.len()
    ensures ms_sub(s, m_bs(s, bs, n)), forall|i: int| 0 <= i < n ==> is_in(m_bs(s, bs, n), mk((#[trigger] bs[i]).register, one_mask::<F>())),
        ms_all(s, p) && (forall|i: int| 0 <= i < n ==> p((#[trigger] bs[i]).register, one_mask::<F>())) ==> ms_all(m_bs(s, bs, n), p), ms_dist(s) ==> ms_dist(m_bs(s, bs, n)) decreases n
{
    if n > 0 { l_m_bs(s, bs, n - 1, p); let q = m_bs(s, bs, n - 1); let m = mk(bs[n - 1].register, one_mask::<F>()); let r = m_bs(s, bs, n); l_set_add(q, m, p); l_ms_sub(q, r);
        assert forall|i: int| 0 <= i < n implies is_in(r, mk((#[trigger] bs[i]).register, one_mask::<F>())) by { if i < n - 1 { assert(ms_rd(q)(bs[i].register, one_mask::<F>())); } }
        assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] r[i] by { assert(q[i] == s[i]); } }
}
pub proof fn l_masks<F: PrimeField>(cs: Seq<Constraint<F>>, bs: Seq<BoundaryConstraint<F>>, p: Rd<F>)
    ensures ({ let m = masks_of(cs, bs);
        &&& forall|i: int| 0 <= i < cs.len() ==> c_reads(#[trigger] cs[i], ms_rd(m))
        &&& forall|i: int| 0 <= i < bs.len() ==> is_in(m, mk((#[trigger] bs[i]).register, one_mask::<F>()))
        &&& (forall|i: int| 0 <= i < cs.len() ==> c_reads(#[trigger] cs[i], p)) && (forall|i: int| 0 <= i < bs.len() ==> p((#[trigger] bs[i]).register, one_mask::<F>())) ==> ms_all(m, p)
        &&& ms_dist(m) })
{
    let n = cs.len() as int; let k = bs.len() as int; l_m_cs(cs, n, p); let q = m_cs(cs, n); l_m_bs(q, bs, k, p); let m = masks_of(cs, bs); l_ms_sub(q, m);
    assert forall|i: int| 0 <= i < cs.len() implies c_reads(#[trigger] cs[i], ms_rd(m)) by { l_c_reads_mono(cs[i], ms_rd(q), ms_rd(m)); }
}
// assignments that agree on what is read give the same values
pub open spec fn agree<F: PrimeField>(a: Asg<F>, b: Asg<F>, p: Rd<F>) -> bool { forall|r: Register, d: StepDifference<F>| #[trigger] p(r, d) ==> a(r, d) == b(r, d) }
pub proof fn l_uprod_agree<F: PrimeField>(s: Seq<UnivariateTerm<F>>, a: Asg<F>, b: Asg<F>, p: Rd<F>, n: int) requires agree(a, b, p), us_reads(s, p), 0 <= n <= s.len() ensures uprod(s, a, n) == uprod(s, b, n) decreases n
{ if n > 0 { l_uprod_agree(s, a, b, p, n - 1); assert(p(s[n - 1].register, s[n - 1].steps_difference)); } }
pub proof fn l_tval_agree<F: PrimeField>(t: ConstraintTerm<F>, a: Asg<F>, b: Asg<F>, p: Rd<F>) requires agree(a, b, p), t_reads(t, p) ensures tval(t, a) == tval(t, b)
{ match t { ConstraintTerm::Univariate(u) => { assert(p(u.register, u.steps_difference)); }, ConstraintTerm::Polyvariate(q) => l_uprod_agree(q.terms@, a, b, p, q.terms@.len() as int) } }
pub proof fn l_tsum_agree<F: PrimeField>(s: Seq<ConstraintTerm<F>>, a: Asg<F>, b: Asg<F>, p: Rd<F>, n: int) requires agree(a, b, p), 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> t_reads(#[trigger] s[i], p) ensures tsum(s, a, n) == tsum(s, b, n) decreases n
{ if n > 0 { l_tsum_agree(s, a, b, p, n - 1); l_tval_agree(s[n - 1], a, b, p); } }
pub proof fn l_cval_agree<F: PrimeField>(c: Constraint<F>, a: Asg<F>, b: Asg<F>, p: Rd<F>) requires agree(a, b, p), c_reads(c, p) ensures cval(c, a) == cval(c, b)
{ l_tsum_agree(c.terms@, a, b, p, c.terms@.len() as int); }
