// ---- completeness, part 1: for a satisfying trace the composition is a polynomial of fewer coefficients than its domain ----
//@@ ring ring_vq i a b c k q : (b * (k * q)) * ((i * a) * c) == (i * (((a * b) * c) * k)) * q
//@@ ring ring_bq u q a i : ((u * q) * a) * i == (i * u) * (q * a)
pub open spec fn wpf<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int) -> bool { n >= 1 && forall|i: int| 0 <= i < wit.len() ==> (#[trigger] wit[i]).coeffs@.len() == n }
pub proof fn l_pf_reg<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, r: Register, s: StepDifference<F>) requires wpf(wit, n), reads_ok::<F>(wit.len() as int)(r, s) ensures is_pf(|x: F| wasg(wit, x)(r, s), n)
{
    let m = s->Mask_0; let c = wit[reg_of(r)].coeffs@; let f = |x: F| wasg(wit, x)(r, s); let d = powered(c, m);
    assert forall|x: F| peval(d, x) == #[trigger] f(x) by { l_peval_powered(c, m, x); } l_pf_in(d, f, n);
}
pub proof fn l_pf_uval<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, t: UnivariateTerm<F>) requires wpf(wit, n), reads_ok::<F>(wit.len() as int)(t.register, t.steps_difference) ensures is_pf(|x: F| uval(t, wasg(wit, x)), (n - 1) * t.power + 1)
{
    let f = |x: F| wasg(wit, x)(t.register, t.steps_difference); l_pf_reg(wit, n, t.register, t.steps_difference); let e = t.power as nat; l_pf_pow(f, n - 1, e);
    let g = |x: F| fpow(f(x), e); l_pf_scale(t.coeff, g, (n - 1) * e + 1); let h = |x: F| t.coeff.fmul(g(x)); let u = |x: F| uval(t, wasg(wit, x));
    assert forall|x: F| h(x) == #[trigger] u(x) by {} l_pf_ext(h, u, (n - 1) * e + 1);
}
pub proof fn l_pf_uprod<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, s: Seq<UnivariateTerm<F>>, k: int) requires wpf(wit, n), 0 <= k <= s.len(), us_reads(s, reads_ok::<F>(wit.len() as int)) ensures is_pf(|x: F| uprod(s, wasg(wit, x), k), (n - 1) * udeg(s, k) + 1), udeg(s, k) >= 0 decreases k
{
    let f = |x: F| uprod(s, wasg(wit, x), k);
    if k == 0 { let g = |x: F| F::f1(); l_pf_const(F::f1()); assert forall|x: F| g(x) == #[trigger] f(x) by {} l_pf_ext(g, f, 1); assert((n - 1) * udeg(s, k) == 0); }
    else {
        l_pf_uprod(wit, n, s, k - 1); let t = s[k - 1]; l_pf_uval(wit, n, t); let g = |x: F| uprod(s, wasg(wit, x), k - 1); let h = |x: F| uval(t, wasg(wit, x)); let a = udeg(s, k - 1); let b = t.power as int;
        assert((n - 1) * a >= 0 && (n - 1) * b >= 0) by (nonlinear_arith) requires n >= 1, a >= 0, b >= 0; assert((n - 1) * (a + b) == (n - 1) * a + (n - 1) * b) by (nonlinear_arith);
        l_pf_mul(g, h, (n - 1) * a + 1, (n - 1) * b + 1); let q = |x: F| g(x).fmul(h(x)); assert forall|x: F| q(x) == #[trigger] f(x) by {} l_pf_ext(q, f, (n - 1) * (a + b) + 1);
    }
}
pub proof fn l_pf_tval<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, t: ConstraintTerm<F>) requires wpf(wit, n), t_wf(t), t_reads(t, reads_ok::<F>(wit.len() as int)) ensures is_pf(|x: F| tval(t, wasg(wit, x)), (n - 1) * tdeg(t) + 1), tdeg(t) >= 0
{
    let f = |x: F| tval(t, wasg(wit, x)); let d = (n - 1) * tdeg(t) + 1;
    match t {
        ConstraintTerm::Univariate(u) => { l_pf_uval(wit, n, u); let g = |x: F| uval(u, wasg(wit, x)); assert forall|x: F| g(x) == #[trigger] f(x) by {} l_pf_ext(g, f, d); }
        ConstraintTerm::Polyvariate(p) => { let k = p.terms@.len() as int; l_pf_uprod(wit, n, p.terms@, k); let g = |x: F| uprod(p.terms@, wasg(wit, x), k); l_pf_scale(p.coeff, g, d); let h = |x: F| p.coeff.fmul(g(x)); assert forall|x: F| h(x) == #[trigger] f(x) by {} l_pf_ext(h, f, d); }
    }
}
pub proof fn l_pf_tsum<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, s: Seq<ConstraintTerm<F>>, k: int, dd: int)
    requires wpf(wit, n), 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> t_wf(#[trigger] s[i]) && t_reads(s[i], reads_ok::<F>(wit.len() as int)), maxdeg(s, k) <= dd ensures is_pf(|x: F| tsum(s, wasg(wit, x), k), (n - 1) * dd + 1), maxdeg(s, k) >= 0 decreases k
{
    let f = |x: F| tsum(s, wasg(wit, x), k); let d = (n - 1) * dd + 1;
    if k == 0 { let g = |x: F| F::f0(); l_pf_const(F::f0()); assert forall|x: F| g(x) == #[trigger] f(x) by {} l_pf_ext(g, f, 1); assert((n - 1) * dd >= 0) by (nonlinear_arith) requires n >= 1, dd >= 0; l_pf_mono(f, 1, d); }
    else {
        l_pf_tsum(wit, n, s, k - 1, dd); let t = s[k - 1]; l_pf_tval(wit, n, t); let g = |x: F| tsum(s, wasg(wit, x), k - 1); let h = |x: F| tval(t, wasg(wit, x)); let e = tdeg(t);
        assert((n - 1) * e <= (n - 1) * dd) by (nonlinear_arith) requires n >= 1, e <= dd; l_pf_mono(h, (n - 1) * e + 1, d); l_pf_add(g, h, d); let q = |x: F| g(x).fadd(h(x)); assert forall|x: F| q(x) == #[trigger] f(x) by {} l_pf_ext(q, f, d);
    }
}
pub proof fn l_pf_cval<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, c: Constraint<F>) requires wpf(wit, n), c_wf(c), c_reads(c, reads_ok::<F>(wit.len() as int)) ensures is_pf(|x: F| cval(c, wasg(wit, x)), (n - 1) * c.degree + 1)
{
    let k = c.terms@.len() as int; let d = (n - 1) * c.degree + 1; l_pf_tsum(wit, n, c.terms@, k, c.degree as int); let g = |x: F| c.constant_term; let h = |x: F| tsum(c.terms@, wasg(wit, x), k); l_pf_const(c.constant_term);
    assert((n - 1) * c.degree >= 0) by (nonlinear_arith) requires n >= 1, c.degree >= 0; l_pf_mono(g, 1, d); l_pf_add(g, h, d); let q = |x: F| g(x).fadd(h(x)); let f = |x: F| cval(c, wasg(wit, x)); assert forall|x: F| q(x) == #[trigger] f(x) by {} l_pf_ext(q, f, d);
}
pub proof fn l_pf_adj<F: PrimeField>(e: int, ab: (F, F)) requires e >= 0 ensures is_pf(|x: F| adj(e, ab, x), e + 1)
{
    let f = |x: F| adj(e, ab, x);
    if e == 0 { let g = |x: F| ab.0; l_pf_const(ab.0); assert forall|x: F| g(x) == #[trigger] f(x) by {} l_pf_ext(g, f, 1); }
    else {
        let i = |x: F| x; l_pf_x::<F>(); l_pf_pow(i, 1, e as nat); let g = |x: F| fpow(i(x), e as nat); l_pf_scale(ab.0, g, e + 1); let h = |x: F| g(x).fmul(ab.0); let b = |x: F| ab.1; l_pf_const(ab.1); l_pf_mono(b, 1, e + 1); l_pf_add(h, b, e + 1);
        let q = |x: F| h(x).fadd(b(x)); assert forall|x: F| q(x) == #[trigger] f(x) by {} l_pf_ext(q, f, e + 1);
    }
}
pub open spec fn c_pol<F: PrimeField>(regs: int, m: int) -> spec_fn(Constraint<F>) -> bool { |c: Constraint<F>| c_wf(c) && c_reads(c, reads_ok::<F>(regs)) && c.degree <= m }
pub proof fn l_pf_bsum<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, n: int, b: Seq<Constraint<F>>, m: int, ch: Seq<(F, F)>, o: int, k: int)
    requires wpf(wit, n), n >= 2, 0 <= k <= b.len(), m >= 1, forall|i: int| 0 <= i < k ==> c_pol::<F>(wit.len() as int, m)(#[trigger] b[i]) ensures is_pf(|x: F| bsum(b, wasg(wit, x), m, ch, o, x, k), (n - 1) * m + 1) decreases k
{
    let f = |x: F| bsum(b, wasg(wit, x), m, ch, o, x, k); let d = (n - 1) * m + 1; assert((n - 1) * m >= 0) by (nonlinear_arith) requires n >= 2, m >= 1;
    if k == 0 { let g = |x: F| F::f0(); l_pf_const(F::f0()); assert forall|x: F| g(x) == #[trigger] f(x) by {} l_pf_ext(g, f, 1); l_pf_mono(f, 1, d); }
    else {
        l_pf_bsum(wit, n, b, m, ch, o, k - 1); let c = b[k - 1]; assert(c_pol::<F>(wit.len() as int, m)(c)); let e = m - c.degree; let w = c.degree as int; l_pf_cval(wit, n, c); l_pf_adj(e, ch[o + k - 1]);
        let g = |x: F| bsum(b, wasg(wit, x), m, ch, o, x, k - 1); let h = |x: F| cval(c, wasg(wit, x)); let a = |x: F| adj(e, ch[o + k - 1], x);
        assert((n - 1) * w >= 0) by (nonlinear_arith) requires n >= 2, w >= 0; l_pf_mul(h, a, (n - 1) * w + 1, e + 1); let ha = |x: F| h(x).fmul(a(x));
        assert((n - 1) * w + e + 1 <= d) by (nonlinear_arith) requires n >= 2, e == m - w, w <= m, d == (n - 1) * m + 1; l_pf_mono(ha, (n - 1) * w + e + 1, d); l_pf_add(g, ha, d); let q = |x: F| g(x).fadd(ha(x)); assert forall|x: F| q(x) == #[trigger] f(x) by {} l_pf_ext(q, f, d);
    }
}
pub open spec fn c_zero<F: PrimeField>(c: Constraint<F>, wit: Seq<Polynomial<F, Coefficients>>, om: F, rows: int) -> bool { forall|row: int| #[trigger] covers(c.density, row, rows) && row >= 0 ==> cval(c, wasg(wit, fpow(om, row as nat))) == F::f0() }
pub proof fn l_bsum_zero<F: PrimeField>(wit: Seq<Polynomial<F, Coefficients>>, b: Seq<Constraint<F>>, m: int, ch: Seq<(F, F)>, o: int, k: int, x: F)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> cval(#[trigger] b[i], wasg(wit, x)) == F::f0() ensures bsum(b, wasg(wit, x), m, ch, o, x, k) == F::f0() decreases k
{ if k > 0 { l_bsum_zero(wit, b, m, ch, o, k - 1, x); assert(cval(b[k - 1], wasg(wit, x)) == F::f0()); l_mul_zero(adj(m - b[k - 1].degree, ch[o + k - 1], x)); F::ax_zero(F::f0()); } }
// powers of the generator of a two-power domain are distinct
pub proof fn l_dist_dgen<F: PrimeField>(n: int, i: int, j: int) requires is_p2(n), n <= pow2(F::S as nat), 0 <= i < j < n ensures fpow(dgen::<F>(lg2(n)), i as nat) != fpow(dgen::<F>(lg2(n)), j as nat)
{
    let k = lg2(n); lemma_is_p2(n); if k > F::S { lemma_pow2_strictly_increases(F::S as nat, k); } let w = dgen::<F>(k); l_dgen_prim::<F>(k); l_prim_nonzero(w, k);
    if fpow(w, i as nat) == fpow(w, j as nat) { let a = fpow(w, i as nat); l_pow_nonzero(w, i as nat); l_pow_add(w, i as nat, (j - i) as nat); F::ax_one(a); l_mul_cancel(a, fpow(w, (j - i) as nat), F::f1()); l_prim_order(w, k, (j - i) as nat); }
}
pub proof fn l_dgen_root<F: PrimeField>(n: int, i: int) requires is_p2(n), n <= pow2(F::S as nat), 0 <= i ensures fpow(fpow(dgen::<F>(lg2(n)), i as nat), n as nat) == F::f1()
{
    let k = lg2(n); lemma_is_p2(n); if k > F::S { lemma_pow2_strictly_increases(F::S as nat, k); } let w = dgen::<F>(k); l_dgen_prim::<F>(k); l_pow_mul(w, i as nat, n as nat); l_pow_mul(w, n as nat, i as nat); l_pow_one::<F>(i as nat);
    assert(i as nat * n as nat == n as nat * i as nat) by (nonlinear_arith);
}
pub open spec fn xn1<F: FieldSpec>(n: int) -> spec_fn(F) -> F { |x: F| fsub(fpow(x, n as nat), F::f1()) }
// x^n - 1 is a nonzero constant times the product over the domain
pub proof fn l_xn1<F: PrimeField>(n: int) -> (k: F) requires is_p2(n), n <= pow2(F::S as nat) ensures k != F::f0(), forall|x: F| fsub(#[trigger] fpow(x, n as nat), F::f1()) == vanish(x, dgen::<F>(lg2(n)), 0, n).fmul(k)
{
    let om = dgen::<F>(lg2(n)); lemma_is_p2(n); lemma_pow2_pos(lg2(n)); let f = xn1::<F>(n); let i = |x: F| x; l_pf_x::<F>(); l_pf_pow(i, 1, n as nat); let g = |x: F| fpow(i(x), n as nat); let h = |x: F| F::f1().fneg(); l_pf_const(F::f1().fneg()); l_pf_mono(h, 1, n + 1); l_pf_add(g, h, n + 1);
    let gh = |x: F| g(x).fadd(h(x)); assert forall|x: F| gh(x) == #[trigger] f(x) by {} l_pf_ext(gh, f, n + 1);
    assert forall|i: int, j: int| 0 <= i < j < n implies fpow(om, #[trigger] (i as nat)) != fpow(om, #[trigger] (j as nat)) by { l_dist_dgen::<F>(n, i, j); }
    assert forall|t: int| 0 <= t < n implies f(fpow(om, #[trigger] (t as nat))) == F::f0() by { l_dgen_root::<F>(n, t); l_sub_self(F::f1()); }
    let q = l_pf_vdiv(f, n + 1, om, 0, n); l_pf_mono(q, 1, 1); let z0 = cpt::<F>(n, 0); let k = q(z0);
    let c = choose|c: Seq<F>| c.len() <= 1 && #[trigger] ag(c, q);
    assert forall|x: F| #[trigger] q(x) == k by { assert(peval(c, x) == q(x)); assert(peval(c, z0) == q(z0)); if c.len() == 1 { let e = Seq::<F>::empty(); assert(seq![c[0]] + e =~= c); l_pe_cons(c[0], e, x); l_pe_cons(c[0], e, z0); l_mul_zero(x); l_mul_zero(z0); } }
    l_cpt_out::<F>(n, n, 0); assert(f(z0) == vanish(z0, om, 0, n).fmul(q(z0))); if k == F::f0() { l_mul_zero(vanish(z0, om, 0, n)); l_sub_eq_zero(fpow(z0, n as nat), F::f1()); }
    assert forall|x: F| fsub(#[trigger] fpow(x, n as nat), F::f1()) == vanish(x, om, 0, n).fmul(k) by { assert(f(x) == vanish(x, om, 0, n).fmul(q(x))); assert(q(x) == k); }
    k
}

// what satisfaction gives: every constraint is of its degree and vanishes on the rows it covers, every boundary value is taken
pub open spec fn c_sound<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>) -> spec_fn(Constraint<F>) -> bool {
    |c: Constraint<F>| c_pol::<F>(wit.len() as int, pdeg(p))(c) && dense_ok(c.density, p.num_rows as int) && c_zero(c, wit, dgen::<F>(lg2(psize(p))), p.num_rows as int) }
pub open spec fn b_sound<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, k: int) -> bool {
    bnd_ok(p.boundary_constraints@[k], wit.len() as int) && wasg(wit, bnd_pt(p, k))(p.boundary_constraints@[k].register, one_mask::<F>()) == p.boundary_constraints@[k].value->Some_0 }
pub open spec fn comp_ok<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>) -> bool {
    &&& wpf(wit, psize(p)) && wit.len() == p.num_registers && 2 <= p.num_rows <= psize(p) && is_p2(psize(p)) && psize(p) <= pow2(F::S as nat)
    &&& forall|i: int| 0 <= i < p.constraints@.len() ==> c_sound(p, wit)(#[trigger] p.constraints@[i])
    &&& forall|k: int| 0 <= k < p.boundary_constraints@.len() ==> #[trigger] b_sound(p, wit, k)
}
pub open spec fn comp_d<F: PrimeField>(p: InstanceProperties<F>) -> int { (psize(p) - 1) * pdeg(p) + 1 }
pub open spec fn batch_is<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, d: int, q: spec_fn(F) -> F) -> bool {
    forall|x: F| fpow(x, psize(p) as nat) != F::f1() ==> #[trigger] q(x) == bsum(pbat(p)[d].1, wasg(wit, x), pdeg(p), cc, flat(pbat(p), d), x, pbat(p)[d].1.len() as int).fmul(den_inv(x, psize(p), p.num_rows as int, pbat(p)[d].0)) }
pub proof fn l_batch_q<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, d: int) -> (q: spec_fn(F) -> F)
    requires comp_ok(p, wit), 0 <= d < pbat(p).len(), bat_of(pbat(p), c_sound(p, wit)), pbat(p)[d].1.len() > 0, pdeg(p) >= 1 ensures is_pf(q, comp_d(p)), batch_is(p, wit, cc, d, q)
{
    let n = psize(p); let m = pdeg(p); let rows = p.num_rows as int; let om = dgen::<F>(lg2(n)); let b = pbat(p)[d].1; let dn = pbat(p)[d].0; let o = flat(pbat(p), d); let len = b.len() as int; let dd = comp_d(p); let cs = c_sound(p, wit);
    assert forall|j: int| 0 <= j < len implies cs(#[trigger] b[j]) && b[j].density == dn by { assert(cs(pbat(p)[d].1[j])); }
    assert(cs(b[0])); let t = dn->Dense_0; let a = t.start_at as int; let e = rows - t.span;
    assert forall|j: int| 0 <= j < len implies c_pol::<F>(wit.len() as int, m)(#[trigger] b[j]) by { assert(cs(b[j])); }
    let f = |x: F| bsum(b, wasg(wit, x), m, cc, o, x, len); l_pf_bsum(wit, n, b, m, cc, o, len);
    assert((n - 1) * m + 1 >= n) by (nonlinear_arith) requires n >= 2, m >= 1;
    assert forall|i: int, j: int| a <= i < j < e implies fpow(om, #[trigger] (i as nat)) != fpow(om, #[trigger] (j as nat)) by { l_dist_dgen::<F>(n, i, j); }
    assert forall|r: int| a <= r < e implies f(fpow(om, #[trigger] (r as nat))) == F::f0() by {
        let x = fpow(om, r as nat); assert forall|j: int| 0 <= j < len implies cval(#[trigger] b[j], wasg(wit, x)) == F::f0() by { assert(cs(b[j])); assert(covers(b[j].density, r, rows)); } l_bsum_zero(wit, b, m, cc, o, len, x); }
    let q0 = l_pf_vdiv(f, dd, om, a, e); let k = l_xn1::<F>(n); l_inv_nonzero(k); F::ax_inv(k); l_pf_scale(k.finv(), q0, dd - (e - a)); let q = |x: F| k.finv().fmul(q0(x)); l_pf_mono(q, dd - (e - a), dd);
    assert forall|x: F| fpow(x, n as nat) != F::f1() implies #[trigger] q(x) == f(x).fmul(den_inv(x, n, rows, dn)) by {
        let v0 = vanish(x, om, 0, a); let v1 = vanish(x, om, a, e); let v2 = vanish(x, om, e, n); let y = fsub(fpow(x, n as nat), F::f1()); let i = y.finv();
        l_vanish_split(x, om, 0, a, e); l_vanish_split(x, om, 0, e, n); assert(y == v0.fmul(v1).fmul(v2).fmul(k)); if y == F::f0() { l_sub_eq_zero(fpow(x, n as nat), F::f1()); } l_inv_nonzero(y);
        F::ax_mul_assoc(k, k.finv(), q0(x)); l_one_l(q0(x)); assert(k.fmul(q(x)) == q0(x)); assert(f(x) == v1.fmul(q0(x))); ring_vq(i, v0, v1, v2, k, q(x)); l_one_l(q(x)); }
    q
}
pub open spec fn csum_is<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, d: int, q: spec_fn(F) -> F) -> bool {
    forall|x: F| (d > 0 ==> fpow(x, psize(p) as nat) != F::f1()) ==> #[trigger] q(x) == csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, d) }
pub proof fn l_csum_q<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, d: int) -> (q: spec_fn(F) -> F)
    requires comp_ok(p, wit), 0 <= d <= pbat(p).len(), bat_of(pbat(p), c_sound(p, wit)), forall|e: int| 0 <= e < pbat(p).len() ==> (#[trigger] pbat(p)[e]).1.len() > 0, pdeg(p) >= 1 ensures is_pf(q, comp_d(p)), csum_is(p, wit, cc, d, q) decreases d
{
    let dd = comp_d(p); assert(dd >= 1) by (nonlinear_arith) requires dd == (psize(p) - 1) * pdeg(p) + 1, psize(p) >= 2, pdeg(p) >= 1;
    if d == 0 { let q = |x: F| F::f0(); l_pf_const(F::f0()); l_pf_mono(q, 1, dd); q }
    else { let a = l_csum_q(p, wit, cc, d - 1); assert(pbat(p)[d - 1].1.len() > 0); let b = l_batch_q(p, wit, cc, d - 1); l_pf_add(a, b, dd); let q = |x: F| a(x).fadd(b(x));
        assert forall|x: F| fpow(x, psize(p) as nat) != F::f1() implies #[trigger] q(x) == csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, d) by { let u = a(x); let v = b(x); } q }
}
pub open spec fn bterm_is<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, bc: Seq<(F, F)>, k: int, q: spec_fn(F) -> F) -> bool {
    forall|x: F| x != bnd_pt(p, k) ==> #[trigger] q(x) == bterm(p.boundary_constraints@[k], wasg(wit, x), pdeg(p), psize(p), bc[k], x) }
pub proof fn l_bterm_q<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, bc: Seq<(F, F)>, k: int) -> (q: spec_fn(F) -> F)
    requires comp_ok(p, wit), 0 <= k < p.boundary_constraints@.len(), pdeg(p) >= 1 ensures is_pf(q, comp_d(p)), bterm_is(p, wit, bc, k, q)
{
    let n = psize(p); let m = pdeg(p); let b = p.boundary_constraints@[k]; let v = b.value->Some_0; let pt = bnd_pt(p, k); let dd = comp_d(p); assert(b_sound(p, wit, k));
    let g = |x: F| wasg(wit, x)(b.register, one_mask::<F>()); l_pf_reg(wit, n, b.register, one_mask::<F>()); let c = |x: F| v.fneg(); l_pf_const(v.fneg()); l_pf_mono(c, 1, n); l_pf_add(g, c, n); let f = |x: F| g(x).fadd(c(x)); l_sub_self(v);
    assert(f(pt) == fsub(v, v)); let q0 = l_pf_root(f, n, pt); let a = |x: F| adj(m - 1, bc[k], x); l_pf_adj(m - 1, bc[k]); l_pf_mul(q0, a, n - 1, m); let q = |x: F| q0(x).fmul(a(x));
    assert(n - 1 + m - 1 <= dd) by (nonlinear_arith) requires dd == (n - 1) * m + 1, n >= 2, m >= 1; l_pf_mono(q, n - 1 + m - 1, dd);
    assert forall|x: F| x != pt implies #[trigger] q(x) == bterm(b, wasg(wit, x), m, n, bc[k], x) by {
        let u = fsub(x, pt); if u == F::f0() { l_sub_eq_zero(x, pt); } l_inv_nonzero(u); assert(f(x) == u.fmul(q0(x))); assert(f(x) == fsub(wasg(wit, x)(b.register, one_mask::<F>()), v)); ring_bq(u, q0(x), a(x), u.finv()); l_one_l(q(x)); }
    q
}
pub open spec fn gsum_is<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, k: int, q: spec_fn(F) -> F) -> bool {
    forall|x: F| gdef(p, x) ==> #[trigger] q(x) == bndsum(csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, pbat(p).len() as int), p.boundary_constraints@, wasg(wit, x), pdeg(p), psize(p), bc, x, k) }
pub proof fn l_gsum_q<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, k: int) -> (q: spec_fn(F) -> F)
    requires comp_ok(p, wit), 0 <= k <= p.boundary_constraints@.len(), bat_of(pbat(p), c_sound(p, wit)), forall|e: int| 0 <= e < pbat(p).len() ==> (#[trigger] pbat(p)[e]).1.len() > 0, pdeg(p) >= 1, pbat(p).len() > 0 ==> p.constraints@.len() > 0 ensures is_pf(q, comp_d(p)), gsum_is(p, wit, cc, bc, k, q) decreases k
{
    let dd = comp_d(p);
    if k == 0 { let q = l_csum_q(p, wit, cc, pbat(p).len() as int); assert forall|x: F| gdef(p, x) implies #[trigger] q(x) == bndsum(csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, pbat(p).len() as int), p.boundary_constraints@, wasg(wit, x), pdeg(p), psize(p), bc, x, k) by {} q }
    else { let a = l_gsum_q(p, wit, cc, bc, k - 1); let b = l_bterm_q(p, wit, bc, k - 1); l_pf_add(a, b, dd); let q = |x: F| a(x).fadd(b(x));
        assert forall|x: F| gdef(p, x) implies #[trigger] q(x) == bndsum(csum(pbat(p), wasg(wit, x), pdeg(p), psize(p), p.num_rows as int, cc, x, pbat(p).len() as int), p.boundary_constraints@, wasg(wit, x), pdeg(p), psize(p), bc, x, k) by { let u = a(x); let v = b(x); assert(x != bnd_pt(p, k - 1)); } q }
}
// the polynomial interpolated over the coset takes, wherever the composition is defined, the value the verifier computes
pub proof fn thm_g<F: PrimeField>(p: InstanceProperties<F>, wit: Seq<Polynomial<F, Coefficients>>, g: Seq<F>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, z: F)
    requires inst_m(p), comp_ok(p, wit), g.len() == pgsize(p), pgsize(p) <= pow2(F::S as nat), gdef(p, z),
        forall|i: int| 0 <= i < pgsize(p) ==> peval(g, #[trigger] cpt::<F>(pgsize(p), i)) == gcomp(p, wasg(wit, cpt::<F>(pgsize(p), i)), cc, bc, cpt::<F>(pgsize(p), i))
    ensures peval(g, z) == gcomp(p, wasg(wit, z), cc, bc, z)
{
    let n = psize(p); let gn = pgsize(p); let m = pdeg(p); let cs = p.constraints@; let nb = p.boundary_constraints@.len() as int; l_deg_range(cs, cs.len() as int); lemma_np2(p.num_rows as int); lemma_np2(m); l_np2_scale(n, m); lemma_np2(gn); l_np2_p2(gn);
    assert(comp_d(p) <= gn) by (nonlinear_arith) requires comp_d(p) == (n - 1) * m + 1, gn == np2(m) * n, np2(m) >= m, n >= 2, m >= 1;
    l_pbat(p); l_bat_all(cs, cs.len() as int, c_sound(p, wit)); let q = l_gsum_q(p, wit, cc, bc, nb); l_pf_mono(q, comp_d(p), gn); let f = |x: F| peval(g, x); l_pf_coef(g); let pt = |i: int| cpt::<F>(gn, i);
    assert(n <= gn) by (nonlinear_arith) requires gn == np2(m) * n, np2(m) >= m, n >= 2, m >= 1; assert(is_p2(gn)); F::ax_gen();
    assert forall|i: int, j: int| 0 <= i < j < gn implies #[trigger] pt(i) != #[trigger] pt(j) by { let w = dgen::<F>(lg2(gn)); l_dist_dgen::<F>(gn, i, j); if pt(i) == pt(j) { l_mul_cancel(F::sgen(), fpow(w, i as nat), fpow(w, j as nat)); } }
    assert forall|i: int| 0 <= i < gn implies f(#[trigger] pt(i)) == q(pt(i)) by { let x = cpt::<F>(gn, i); l_cpt_out::<F>(gn, n, i); assert forall|k: int| 0 <= k < nb implies x != #[trigger] bnd_pt(p, k) by { l_cpt_ne::<F>(gn, n, i, p.boundary_constraints@[k].at_row as nat); } assert(gdef(p, x)); let u = q(x); }
    l_pf_same(f, q, gn, pt, z); let u = q(z);
}
// ---- satisfaction of the instance gives all of it ----
pub proof fn l_us_wf<F: PrimeField>(a: Seq<UnivariateTerm<F>>, b: Seq<UnivariateTerm<F>>, om: F, n: int) requires us_masked(a, b, om, a.len() as int), 0 <= n <= a.len() ensures udeg(a, n) == udeg(b, n) decreases n { if n > 0 { l_us_wf(a, b, om, n - 1); assert(u_masked(a[n - 1], b[n - 1], om)); } }
pub proof fn l_t_wf<F: PrimeField>(a: ConstraintTerm<F>, b: ConstraintTerm<F>, om: F) requires t_masked(a, b, om), t_wf(a) ensures t_wf(b), tdeg(a) == tdeg(b)
{ match a { ConstraintTerm::Univariate(u) => { let v = b->Univariate_0; assert(u_masked(u, v, om)); } ConstraintTerm::Polyvariate(p) => { let q = b->Polyvariate_0; l_us_wf(p.terms@, q.terms@, om, p.terms@.len() as int); } } }
pub proof fn l_ts_wf<F: PrimeField>(a: Seq<ConstraintTerm<F>>, b: Seq<ConstraintTerm<F>>, om: F, n: int) requires ts_masked(a, b, om, a.len() as int), 0 <= n <= a.len(), forall|i: int| 0 <= i < a.len() ==> t_wf(#[trigger] a[i]) ensures maxdeg(a, n) == maxdeg(b, n) decreases n { if n > 0 { l_ts_wf(a, b, om, n - 1); assert(t_masked(a[n - 1], b[n - 1], om)); l_t_wf(a[n - 1], b[n - 1], om); } }
pub proof fn l_c_wf<F: PrimeField>(a: Constraint<F>, b: Constraint<F>, om: F) requires c_masked(a, b, om), c_wf(a) ensures c_wf(b)
{ l_ts_wf(a.terms@, b.terms@, om, a.terms@.len() as int); assert forall|i: int| 0 <= i < b.terms@.len() implies t_wf(#[trigger] b.terms@[i]) by { assert(t_masked(a.terms@[i], b.terms@[i], om)); l_t_wf(a.terms@[i], b.terms@[i], om); } }
// the trace satisfies the instance, and the polynomials interpolate the trace
pub open spec fn honest_wit<F: PrimeField>(p0: InstanceProperties<F>, p: InstanceProperties<F>, w: Wit<F>, wit: Seq<Polynomial<F, Coefficients>>) -> bool {
    &&& satisfied(p0, w) && inst_ok(p0) && p_masked(p0, p) && inst_m(p) && p.num_rows >= 2 && p.num_registers >= 1 && wit.len() == w.len()
    &&& forall|i: int| 0 <= i < wit.len() ==> interpolates(#[trigger] wit[i], w[i]@)
    &&& forall|i: int| 0 <= i < p0.constraints@.len() ==> c_wf(#[trigger] p0.constraints@[i])
}
pub proof fn thm_sound<F: PrimeField>(p0: InstanceProperties<F>, p: InstanceProperties<F>, w: Wit<F>, wit: Seq<Polynomial<F, Coefficients>>) requires honest_wit(p0, p, w, wit) ensures comp_ok(p, wit)
{
    let n = psize(p); let rows = p.num_rows as int; let om = dgen::<F>(lg2(n)); lemma_np2(rows); lemma_is_p2(n);
    assert(w[0]@.len() == rows); assert(rect(w)); assert forall|i: int| 0 <= i < wit.len() implies (#[trigger] wit[i]).coeffs@.len() == n by { assert(interpolates(wit[i], w[i]@)); assert(w[i]@.len() == rows); }
    assert(wit[0].wf()); l_wf_np2(wit[0]); let cs = p.constraints@; let rd = reads_ok::<F>(wit.len() as int);
    assert forall|i: int| 0 <= i < cs.len() implies c_sound(p, wit)(#[trigger] cs[i]) by {
        let a = p0.constraints@[i]; let b = cs[i]; assert(c_masked(a, b, om)); l_c_wf(a, b, om); l_max_deg(cs, cs.len() as int, i); assert(c_sat(a, w, rows)); assert(c_ok(a, w.len() as int));
        assert forall|row: int| #[trigger] covers(b.density, row, rows) && row >= 0 implies cval(b, wasg(wit, fpow(om, row as nat))) == F::f0() by {
            assert(covers(a.density, row, rows)); assert(c_holds(a, w, row, rows)); thm_masked_value(a, b, w, wit, rows, row); let x = fpow(om, row as nat); assert(agree(mask_asg(wit, x), wasg(wit, x), rd)); l_cval_agree(b, mask_asg(wit, x), wasg(wit, x), rd); } }
    assert forall|k: int| 0 <= k < p.boundary_constraints@.len() implies #[trigger] b_sound(p, wit, k) by {
        let b = p.boundary_constraints@[k]; assert(bnd_ok(b, p.num_registers as int)); assert(b_holds(p0.boundary_constraints@[k], w, rows)); let r = reg_of(b.register); assert(interpolates(wit[r], w[r]@)); assert(w[r]@.len() == rows);
        lemma_pow2_inj(wit[r].exp as nat, lg2(n)); thm_witness_value(wit[r], w[r]@, b.at_row as int); l_one_l(bnd_pt(p, k)); }
}
