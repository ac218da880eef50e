// ---- polynomial functions: agreeing everywhere with a polynomial of at most d coefficients ----
//@@ ring ring_hor c x r p q s : (c + x * p) - (c + r * q) == x * (p - q) + (x - r) * q
//@@ ring ring_sd x r s q : x * ((x - r) * s) + (x - r) * q == (x - r) * (q + x * s)
//@@ ring ring_pm c x p g : (c + x * p) * g == c * g + x * (p * g)
//@@ ring ring_dm v a q : v * (a * q) == (v * a) * q
pub open spec fn ag<F: FieldSpec>(c: Seq<F>, f: spec_fn(F) -> F) -> bool { forall|x: F| peval(c, x) == #[trigger] f(x) }
pub open spec fn is_pf<F: FieldSpec>(f: spec_fn(F) -> F, d: int) -> bool { exists|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f) }
pub open spec fn cf<F: FieldSpec>(c: Seq<F>, i: int) -> F { if 0 <= i < c.len() { c[i] } else { F::f0() } }
pub open spec fn lenmax(a: int, b: int) -> int { if a < b { b } else { a } }
pub proof fn l_pf_in<F: FieldSpec>(c: Seq<F>, f: spec_fn(F) -> F, d: int) requires c.len() <= d, forall|x: F| peval(c, x) == #[trigger] f(x) ensures is_pf(f, d) { assert(ag(c, f)); }
pub proof fn l_pf_mono<F: FieldSpec>(f: spec_fn(F) -> F, d: int, e: int) requires is_pf(f, d), d <= e ensures is_pf(f, e) { let c = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); assert(ag(c, f)); }
pub proof fn l_pf_ext<F: FieldSpec>(f: spec_fn(F) -> F, g: spec_fn(F) -> F, d: int) requires is_pf(f, d), forall|x: F| f(x) == #[trigger] g(x) ensures is_pf(g, d) { let c = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); assert forall|x: F| peval(c, x) == #[trigger] g(x) by { assert(peval(c, x) == f(x)); } assert(ag(c, g)); }
pub proof fn l_pe_empty<F: FieldSpec>(x: F) ensures peval(Seq::<F>::empty(), x) == F::f0() { }
pub proof fn l_pe_drop<F: FieldSpec>(c: Seq<F>, x: F) requires c.len() >= 1 ensures peval(c, x) == c[0].fadd(x.fmul(peval(c.drop_first(), x)))
{
    let t = term(c, x); let n = c.len() - 1; let d = c.drop_first(); l_sum_split(t, 1, n); let u = |i: int| t(1 + i); let v = |i: int| x.fmul(term(d, x)(i));
    assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == v(i) by { assert(d[i] == c[1 + i]); l_pow_step(x, i as nat); l_mul3x(c[1 + i], x, fpow(x, i as nat)); }
    l_sum_ext(u, v, n); l_sum_scale(x, term(d, x), n); reveal_with_fuel(fsum, 2); F::ax_one(c[0]); l_zero_l(c[0]); l_pow0(x);
}
pub proof fn l_mul3x<F: FieldSpec>(a: F, b: F, c: F) ensures a.fmul(b.fmul(c)) == b.fmul(a.fmul(c)) { F::ax_mul_assoc(a, b, c); F::ax_mul_assoc(b, a, c); F::ax_mul_comm(a, b); }
pub proof fn l_pe_cons<F: FieldSpec>(k: F, c: Seq<F>, x: F) ensures peval(seq![k] + c, x) == k.fadd(x.fmul(peval(c, x))) { let s = seq![k] + c; l_pe_drop(s, x); assert(s.drop_first() =~= c); }
pub proof fn l_pe_cf<F: FieldSpec>(c: Seq<F>, x: F, n: int) requires n >= c.len() ensures fsum(|i: int| cf(c, i).fmul(fpow(x, i as nat)), n) == peval(c, x)
{
    let t = |i: int| cf(c, i).fmul(fpow(x, i as nat)); let u = term(c, x);
    assert forall|i: int| c.len() <= i < n implies #[trigger] t(i) == F::f0() by { l_mul_zero(fpow(x, i as nat)); }
    l_sum_tail(t, c.len() as int, n); assert forall|i: int| 0 <= i < c.len() implies #[trigger] t(i) == u(i) by {} l_sum_ext(t, u, c.len() as int);
}
pub open spec fn cadd<F: FieldSpec>(a: Seq<F>, b: Seq<F>) -> Seq<F> { Seq::new(lenmax(a.len() as int, b.len() as int) as nat, |i: int| cf(a, i).fadd(cf(b, i))) }
pub proof fn l_pe_add<F: FieldSpec>(a: Seq<F>, b: Seq<F>, x: F) ensures peval(cadd(a, b), x) == peval(a, x).fadd(peval(b, x))
{
    let s = cadd(a, b); let n = s.len() as int; let p = |i: int| cf(a, i).fmul(fpow(x, i as nat)); let q = |i: int| cf(b, i).fmul(fpow(x, i as nat)); let r = |i: int| p(i).fadd(q(i));
    l_pe_cf(a, x, n); l_pe_cf(b, x, n); l_sum_add(p, q, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] term(s, x)(i) == r(i) by { l_distr_r(cf(a, i), cf(b, i), fpow(x, i as nat)); }
    l_sum_ext(term(s, x), r, n);
}
pub open spec fn cscale<F: FieldSpec>(k: F, a: Seq<F>) -> Seq<F> { Seq::new(a.len(), |i: int| k.fmul(a[i])) }
pub proof fn l_pe_scale<F: FieldSpec>(k: F, a: Seq<F>, x: F) ensures peval(cscale(k, a), x) == k.fmul(peval(a, x))
{
    let s = cscale(k, a); let n = a.len() as int; let r = |i: int| k.fmul(term(a, x)(i)); l_sum_scale(k, term(a, x), n);
    assert forall|i: int| 0 <= i < n implies #[trigger] term(s, x)(i) == r(i) by { F::ax_mul_assoc(k, a[i], fpow(x, i as nat)); }
    l_sum_ext(term(s, x), r, n);
}
pub open spec fn cmul<F: FieldSpec>(a: Seq<F>, b: Seq<F>) -> Seq<F> decreases a.len() { if a.len() == 0 { Seq::empty() } else { cadd(cscale(a[0], b), seq![F::f0()] + cmul(a.drop_first(), b)) } }
pub proof fn l_pe_mul<F: FieldSpec>(a: Seq<F>, b: Seq<F>, x: F) ensures peval(cmul(a, b), x) == peval(a, x).fmul(peval(b, x)), b.len() >= 1 && a.len() >= 1 ==> cmul(a, b).len() <= a.len() + b.len(), decreases a.len()
{
    if a.len() == 0 { l_mul_zero(peval(b, x)); } else {
        let d = a.drop_first(); let m = cmul(d, b); l_pe_mul(d, b, x); l_pe_add(cscale(a[0], b), seq![F::f0()] + m, x); l_pe_scale(a[0], b, x); l_pe_cons(F::f0(), m, x); l_zero_l(x.fmul(peval(m, x))); l_pe_drop(a, x);
        ring_pm(a[0], x, peval(d, x), peval(b, x));
    }
}
pub proof fn l_cmul_len<F: FieldSpec>(a: Seq<F>, b: Seq<F>) ensures a.len() == 0 ==> cmul(a, b).len() == 0, a.len() >= 1 ==> cmul(a, b).len() <= lenmax(a.len() as int, a.len() + b.len() - 1) decreases a.len() { if a.len() > 0 { l_cmul_len(a.drop_first(), b); } }
// closure properties
pub proof fn l_pf_const<F: FieldSpec>(k: F) ensures is_pf(|x: F| k, 1) { let f = |x: F| k; assert forall|x: F| peval(seq![k], x) == #[trigger] f(x) by { let e = Seq::<F>::empty(); assert(seq![k] + e =~= seq![k]); l_pe_cons(k, e, x); l_mul_zero(x); F::ax_zero(k); } l_pf_in(seq![k], f, 1); }
pub proof fn l_pf_coef<F: FieldSpec>(c: Seq<F>) ensures is_pf(|x: F| peval(c, x), c.len() as int) { l_pf_in(c, |x: F| peval(c, x), c.len() as int); }
pub proof fn l_pf_add<F: FieldSpec>(f: spec_fn(F) -> F, g: spec_fn(F) -> F, d: int) requires is_pf(f, d), is_pf(g, d) ensures is_pf(|x: F| f(x).fadd(g(x)), d)
{
    let a = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); let b = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, g); let h = |x: F| f(x).fadd(g(x));
    assert forall|x: F| peval(cadd(a, b), x) == #[trigger] h(x) by { l_pe_add(a, b, x); assert(peval(a, x) == f(x) && peval(b, x) == g(x)); } l_pf_in(cadd(a, b), h, d);
}
pub proof fn l_pf_scale<F: FieldSpec>(k: F, f: spec_fn(F) -> F, d: int) requires is_pf(f, d) ensures is_pf(|x: F| k.fmul(f(x)), d), is_pf(|x: F| f(x).fmul(k), d)
{
    let a = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); let h = |x: F| k.fmul(f(x)); let g = |x: F| f(x).fmul(k);
    assert forall|x: F| peval(cscale(k, a), x) == #[trigger] h(x) by { l_pe_scale(k, a, x); assert(peval(a, x) == f(x)); } l_pf_in(cscale(k, a), h, d);
    assert forall|x: F| h(x) == #[trigger] g(x) by { F::ax_mul_comm(k, f(x)); } l_pf_ext(h, g, d);
}
pub proof fn l_pf_mul<F: FieldSpec>(f: spec_fn(F) -> F, g: spec_fn(F) -> F, d: int, e: int) requires is_pf(f, d), is_pf(g, e), d >= 1, e >= 1 ensures is_pf(|x: F| f(x).fmul(g(x)), d + e - 1)
{
    let a = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); let b = choose|c: Seq<F>| c.len() <= e && #[trigger] ag(c, g); let h = |x: F| f(x).fmul(g(x));
    assert forall|x: F| peval(cmul(a, b), x) == #[trigger] h(x) by { l_pe_mul(a, b, x); assert(peval(a, x) == f(x) && peval(b, x) == g(x)); } l_cmul_len(a, b); l_pf_in(cmul(a, b), h, d + e - 1);
}
pub proof fn l_pf_pow<F: FieldSpec>(f: spec_fn(F) -> F, d: int, e: nat) requires is_pf(f, d + 1), d >= 0 ensures is_pf(|x: F| fpow(f(x), e), d * e + 1) decreases e
{
    let h = |x: F| fpow(f(x), e);
    if e == 0 { l_pf_const(F::f1()); assert(d * e == 0) by (nonlinear_arith) requires e == 0; l_pf_ext(|x: F| F::f1(), h, 1); }
    else { let m = (e - 1) as nat; l_pf_pow(f, d, m); assert(d * m >= 0) by (nonlinear_arith) requires d >= 0; assert(d * e == d * m + d) by (nonlinear_arith) requires e == m + 1; let g = |x: F| fpow(f(x), m); l_pf_mul(f, g, d + 1, d * m + 1); let q = |x: F| f(x).fmul(g(x)); assert forall|x: F| q(x) == #[trigger] h(x) by {} l_pf_ext(q, h, d * e + 1); }
}
pub proof fn l_pf_x<F: FieldSpec>() ensures is_pf(|x: F| x, 2) { let f = |x: F| x; let s = seq![F::f0(), F::f1()]; assert forall|x: F| peval(s, x) == #[trigger] f(x) by { assert(seq![F::f0()] + seq![F::f1()] =~= s); l_pe_cons(F::f0(), seq![F::f1()], x); let e = Seq::<F>::empty(); assert(seq![F::f1()] + e =~= seq![F::f1()]); l_pe_cons(F::f1(), e, x); l_mul_zero(x); F::ax_zero(F::f1()); F::ax_one(x); l_zero_l(x); } l_pf_in(s, f, 2); }
// synthetic division
pub open spec fn sdiv<F: FieldSpec>(c: Seq<F>, r: F) -> Seq<F> decreases c.len() { if c.len() <= 1 { Seq::empty() } else { seq![peval(c.drop_first(), r)] + sdiv(c.drop_first(), r) } }
pub proof fn l_sdiv<F: FieldSpec>(c: Seq<F>, r: F, x: F) ensures fsub(peval(c, x), peval(c, r)) == fsub(x, r).fmul(peval(sdiv(c, r), x)), c.len() >= 1 ==> sdiv(c, r).len() == c.len() - 1, c.len() == 0 ==> sdiv(c, r).len() == 0 decreases c.len()
{
    if c.len() <= 1 { l_mul_zero(fsub(x, r)); if c.len() == 0 { l_sub_self(F::f0()); } else { let e = Seq::<F>::empty(); assert(c.drop_first() =~= e); l_pe_drop(c, x); l_pe_drop(c, r); l_mul_zero(x); l_mul_zero(r); l_sub_self(peval(c, x)); } }
    else { let d = c.drop_first(); let s = sdiv(d, r); l_sdiv(d, r, x); l_pe_drop(c, x); l_pe_drop(c, r); l_pe_cons(peval(d, r), s, x);
        ring_hor(c[0], x, r, peval(d, x), peval(d, r), F::f0()); ring_sd(x, r, peval(s, x), peval(d, r)); }
}
pub open spec fn pdivides<F: FieldSpec>(f: spec_fn(F) -> F, q: spec_fn(F) -> F, r: F) -> bool { forall|x: F| #[trigger] f(x) == fsub(x, r).fmul(q(x)) }
pub proof fn l_pf_root<F: FieldSpec>(f: spec_fn(F) -> F, d: int, r: F) -> (q: spec_fn(F) -> F) requires is_pf(f, d), d >= 1, f(r) == F::f0() ensures is_pf(q, d - 1), pdivides(f, q, r)
{
    let c = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); let s = sdiv(c, r); let q = |x: F| peval(s, x); l_sdiv(c, r, r); l_pf_in(s, q, d - 1);
    assert forall|x: F| #[trigger] f(x) == fsub(x, r).fmul(q(x)) by { l_sdiv(c, r, x); assert(peval(c, x) == f(x)); assert(peval(c, r) == f(r)); l_sub_zero(f(x)); }
    q
}
pub open spec fn dist_pts<F: FieldSpec>(p: spec_fn(int) -> F, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p(i) != #[trigger] p(j) }
// a polynomial of fewer coefficients than it has distinct roots is zero
pub proof fn l_pf_zero<F: FieldSpec>(f: spec_fn(F) -> F, d: int, p: spec_fn(int) -> F, x: F) requires is_pf(f, d), d >= 0, dist_pts(p, d), forall|i: int| 0 <= i < d ==> f(#[trigger] p(i)) == F::f0() ensures f(x) == F::f0() decreases d
{
    if d == 0 { let c = choose|c: Seq<F>| c.len() <= d && #[trigger] ag(c, f); assert(peval(c, x) == f(x)); }
    else {
        let r = p(d - 1); let q = l_pf_root(f, d, r);
        assert forall|i: int| 0 <= i < d - 1 implies q(#[trigger] p(i)) == F::f0() by { let y = p(i); assert(y != p(d - 1)); assert(f(y) == fsub(y, r).fmul(q(y))); if fsub(y, r) == F::f0() { l_sub_eq_zero(y, r); } if q(y) != F::f0() { l_mul_nonzero(fsub(y, r), q(y)); } }
        l_pf_zero(q, d - 1, p, x); assert(f(x) == fsub(x, r).fmul(q(x))); l_mul_zero(fsub(x, r));
    }
}
// two polynomials agreeing on as many points as they have coefficients are equal
pub proof fn l_pf_same<F: FieldSpec>(f: spec_fn(F) -> F, g: spec_fn(F) -> F, d: int, p: spec_fn(int) -> F, x: F) requires is_pf(f, d), is_pf(g, d), d >= 0, dist_pts(p, d), forall|i: int| 0 <= i < d ==> f(#[trigger] p(i)) == g(p(i)) ensures f(x) == g(x)
{
    l_pf_scale(F::f1().fneg(), g, d); let m = |y: F| F::f1().fneg().fmul(g(y)); l_pf_add(f, m, d); let h = |y: F| f(y).fadd(m(y));
    assert forall|i: int| 0 <= i < d implies h(#[trigger] p(i)) == F::f0() by { l_neg_one_mul(g(p(i))); l_sub_self(f(p(i))); }
    l_pf_zero(h, d, p, x); l_neg_one_mul(g(x)); l_sub_eq_zero(f(x), g(x));
}
pub open spec fn vdivides<F: PrimeField>(f: spec_fn(F) -> F, q: spec_fn(F) -> F, om: F, a: int, b: int) -> bool { forall|x: F| #[trigger] f(x) == vanish(x, om, a, b).fmul(q(x)) }
pub open spec fn dist_pow<F: PrimeField>(om: F, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> fpow(om, #[trigger] (i as nat)) != fpow(om, #[trigger] (j as nat)) }
pub proof fn l_vanish_nz<F: PrimeField>(x: F, om: F, a: int, b: int) requires 0 <= a, forall|t: int| a <= t < b ==> x != fpow(om, #[trigger] (t as nat)) ensures vanish(x, om, a, b) != F::f0() decreases b - a
{ if b <= a { F::ax_one_ne_zero(); } else { l_vanish_nz(x, om, a, b - 1); let y = fpow(om, ((b - 1) as nat)); assert(x != y) by { let t = b - 1; assert(x != fpow(om, t as nat)); } if fsub(x, y) == F::f0() { l_sub_eq_zero(x, y); } l_mul_nonzero(vanish(x, om, a, b - 1), fsub(x, y)); } }
pub proof fn l_vanish_split<F: PrimeField>(x: F, om: F, a: int, b: int, c: int) requires a <= b <= c ensures vanish(x, om, a, c) == vanish(x, om, a, b).fmul(vanish(x, om, b, c)) decreases c - b
{ if b == c { F::ax_one(vanish(x, om, a, b)); } else { l_vanish_split(x, om, a, b, c - 1); F::ax_mul_assoc(vanish(x, om, a, b), vanish(x, om, b, c - 1), fsub(x, fpow(om, (c - 1) as nat))); } }
pub proof fn l_pf_vdiv<F: PrimeField>(f: spec_fn(F) -> F, d: int, om: F, a: int, b: int) -> (q: spec_fn(F) -> F)
    requires is_pf(f, d), 0 <= a <= b, b - a <= d, forall|i: int, j: int| a <= i < j < b ==> fpow(om, #[trigger] (i as nat)) != fpow(om, #[trigger] (j as nat)), forall|t: int| a <= t < b ==> f(fpow(om, #[trigger] (t as nat))) == F::f0()
    ensures is_pf(q, d - (b - a)), vdivides(f, q, om, a, b) decreases b - a
{
    if b == a { assert forall|x: F| #[trigger] f(x) == vanish(x, om, a, b).fmul(f(x)) by { l_one_l(f(x)); } f }
    else {
        let s = l_pf_vdiv(f, d, om, a, b - 1); let r = fpow(om, ((b - 1) as nat)); let bb = b - 1;
        assert(f(r) == F::f0()) by { assert(f(fpow(om, bb as nat)) == F::f0()); }
        assert forall|t: int| a <= t < b - 1 implies r != fpow(om, #[trigger] (t as nat)) by { assert(fpow(om, t as nat) != fpow(om, bb as nat)); }
        l_vanish_nz(r, om, a, b - 1); assert(f(r) == vanish(r, om, a, b - 1).fmul(s(r))); if s(r) != F::f0() { l_mul_nonzero(vanish(r, om, a, b - 1), s(r)); }
        let q = l_pf_root(s, d - (b - 1 - a), r);
        assert forall|x: F| #[trigger] f(x) == vanish(x, om, a, b).fmul(q(x)) by { assert(f(x) == vanish(x, om, a, b - 1).fmul(s(x))); assert(s(x) == fsub(x, r).fmul(q(x))); ring_dm(vanish(x, om, a, b - 1), fsub(x, r), q(x)); }
        q
    }
}
