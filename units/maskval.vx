// the assignment the witness polynomials give at the point x: "register r under the mask m" is the r-th polynomial at m * x
pub open spec fn mask_asg<F: PrimeField>(ps: Seq<Polynomial<F, Coefficients>>, x: F) -> Asg<F> { |r: Register, s: StepDifference<F>| match s { StepDifference::Mask(m) => peval(ps[reg_of(r)].coeffs@, m.fmul(x)), _ => F::f0() } }
pub proof fn l_u_masked<F: PrimeField>(a: UnivariateTerm<F>, b: UnivariateTerm<F>, om: F, w: Wit<F>, ps: Seq<Polynomial<F, Coefficients>>, rows: int, row: int)
    requires u_masked(a, b, om), u_ok(a, w.len() as int), u_in(a, row, rows), 0 <= row, rect(w), nrows(w) == rows, ps.len() == w.len(), om == dgen::<F>(lg2(np2(rows))),
        forall|i: int| 0 <= i < ps.len() ==> interpolates(#[trigger] ps[i], w[i]@)
    ensures uval(b, mask_asg(ps, fpow(om, row as nat))) == uval(a, row_asg(w, row))
{
    let r = reg_of(a.register); let k = step_of(a);
    assert(w[r]@.len() == rows); assert(interpolates(ps[r], w[r]@));
    lemma_np2(rows); lemma_is_p2(np2(rows)); lemma_pow2_inj(ps[r].exp as nat, lg2(np2(rows)));
    thm_witness_value(ps[r], w[r]@, row + k);
    l_pow_add(om, k as nat, row as nat);
    assert((k as nat + row as nat) as nat == (row + k) as nat);
}
pub proof fn l_t_masked<F: PrimeField>(a: ConstraintTerm<F>, b: ConstraintTerm<F>, om: F, w: Wit<F>, ps: Seq<Polynomial<F, Coefficients>>, rows: int, row: int)
    requires t_masked(a, b, om), t_ok(a, w.len() as int), t_in(a, row, rows), 0 <= row, rect(w), nrows(w) == rows, ps.len() == w.len(), om == dgen::<F>(lg2(np2(rows))),
        forall|i: int| 0 <= i < ps.len() ==> interpolates(#[trigger] ps[i], w[i]@)
    ensures tval(b, mask_asg(ps, fpow(om, row as nat))) == tval(a, row_asg(w, row))
{
    match a {
        ConstraintTerm::Univariate(u) => { l_u_masked(u, b->Univariate_0, om, w, ps, rows, row); }
        ConstraintTerm::Polyvariate(p) => { let q = b->Polyvariate_0; l_us_masked(p.terms@, q.terms@, om, w, ps, rows, row, p.terms@.len() as int); }
    }
}
pub proof fn l_us_masked<F: PrimeField>(a: Seq<UnivariateTerm<F>>, b: Seq<UnivariateTerm<F>>, om: F, w: Wit<F>, ps: Seq<Polynomial<F, Coefficients>>, rows: int, row: int, n: int)
    requires us_masked(a, b, om, a.len() as int), us_ok(a, w.len() as int), us_in(a, row, rows), 0 <= row, rect(w), nrows(w) == rows, ps.len() == w.len(), om == dgen::<F>(lg2(np2(rows))), 0 <= n <= a.len(),
        forall|i: int| 0 <= i < ps.len() ==> interpolates(#[trigger] ps[i], w[i]@)
    ensures uprod(b, mask_asg(ps, fpow(om, row as nat)), n) == uprod(a, row_asg(w, row), n)
    decreases n
{
    if n > 0 { l_us_masked(a, b, om, w, ps, rows, row, n - 1); assert(u_masked(a[n - 1], b[n - 1], om)); assert(u_ok(a[n - 1], w.len() as int)); assert(u_in(a[n - 1], row, rows)); l_u_masked(a[n - 1], b[n - 1], om, w, ps, rows, row); }
}
pub proof fn l_ts_masked<F: PrimeField>(a: Seq<ConstraintTerm<F>>, b: Seq<ConstraintTerm<F>>, om: F, w: Wit<F>, ps: Seq<Polynomial<F, Coefficients>>, rows: int, row: int, n: int)
    requires ts_masked(a, b, om, a.len() as int), forall|i: int| 0 <= i < a.len() ==> t_ok(#[trigger] a[i], w.len() as int), forall|i: int| 0 <= i < a.len() ==> t_in(#[trigger] a[i], row, rows),
        0 <= row, rect(w), nrows(w) == rows, ps.len() == w.len(), om == dgen::<F>(lg2(np2(rows))), 0 <= n <= a.len(),
        forall|i: int| 0 <= i < ps.len() ==> interpolates(#[trigger] ps[i], w[i]@)
    ensures tsum(b, mask_asg(ps, fpow(om, row as nat)), n) == tsum(a, row_asg(w, row), n)
    decreases n
{
    if n > 0 { l_ts_masked(a, b, om, w, ps, rows, row, n - 1); assert(t_masked(a[n - 1], b[n - 1], om)); assert(t_ok(a[n - 1], w.len() as int)); assert(t_in(a[n - 1], row, rows)); l_t_masked(a[n - 1], b[n - 1], om, w, ps, rows, row); }
}
// the masked constraint, evaluated over the witness polynomials at the row's domain point, is the original constraint on that row of the trace
pub proof fn thm_masked_value<F: PrimeField>(a: Constraint<F>, b: Constraint<F>, w: Wit<F>, ps: Seq<Polynomial<F, Coefficients>>, rows: int, row: int)
    requires c_masked(a, b, dgen::<F>(lg2(np2(rows)))), c_ok(a, w.len() as int), c_in(a, row, rows), 0 <= row, rect(w), nrows(w) == rows, ps.len() == w.len(),
        forall|i: int| 0 <= i < ps.len() ==> interpolates(#[trigger] ps[i], w[i]@)
    ensures cval(b, mask_asg(ps, fpow(dgen::<F>(lg2(np2(rows))), row as nat))) == cval(a, row_asg(w, row))
{ l_ts_masked(a.terms@, b.terms@, dgen::<F>(lg2(np2(rows))), w, ps, rows, row, a.terms@.len() as int); }
