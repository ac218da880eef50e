// ---- Lagrange interpolation ----
pub open spec fn distinct_x<F: FieldSpec>(p: Seq<(F, F)>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0 }
// the abscissas below position n other than the k-th
pub open spec fn oth<F: FieldSpec>(p: Seq<(F, F)>, k: int, n: int) -> Seq<F> decreases n { if n <= 0 { seq![] } else if n - 1 == k { oth(p, k, n - 1) } else { oth(p, k, n - 1).push(p[n - 1].0) } }
pub open spec fn othn(k: int, n: int) -> int { if n <= k { n } else { n - 1 } }
pub proof fn l_oth<F: FieldSpec>(p: Seq<(F, F)>, k: int, n: int) requires 0 <= n <= p.len(), 0 <= k < p.len()
    ensures oth(p, k, n).len() == othn(k, n), forall|i: int| 0 <= i < othn(k, n) ==> #[trigger] oth(p, k, n)[i] == p[if i < k { i } else { i + 1 }].0 decreases n
{ if n > 0 { l_oth(p, k, n - 1); } }
pub proof fn l_vprod_nz<F: FieldSpec>(s: Seq<F>, x: F, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] != x ensures vprod(s, x, n) != F::f0() decreases n {
    if n > 0 { l_vprod_nz(s, x, n - 1); let r = s[n - 1]; if x.fadd(r.fneg()) == F::f0() { l_sub_eq_zero(x, r); } l_mul_nonzero(vprod(s, x, n - 1), x.fadd(r.fneg())); } else { F::ax_one_ne_zero(); }
}
pub proof fn l_vprod_z<F: FieldSpec>(s: Seq<F>, x: F, n: int, i: int) requires 0 <= i < n <= s.len(), s[i] == x ensures vprod(s, x, n) == F::f0() decreases n {
    if i == n - 1 { l_sub_self(x); l_mul_zero(vprod(s, x, n - 1)); } else { l_vprod_z(s, x, n - 1, i); l_mul_zero(x.fadd(s[n - 1].fneg())); }
}
pub open spec fn axpy<F: FieldSpec>(a: Seq<F>, b: Seq<F>, d: F, y: F) -> Seq<F> { Seq::new(a.len(), |i: int| a[i].fadd(b[i].fmul(d).fmul(y))) }
pub proof fn l_axpy<F: FieldSpec>(a: Seq<F>, b: Seq<F>, d: F, y: F, x: F) requires a.len() == b.len() ensures peval(axpy(a, b, d, y), x) == peval(a, x).fadd(peval(b, x).fmul(d).fmul(y)) {
    let n = a.len() as int; let dy = d.fmul(y); let tb = term(b, x);
    let f = term(a, x); let g = |i: int| dy.fmul(tb(i)); let h = term(axpy(a, b, d, y), x);
    assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == f(i).fadd(g(i)) by { r_axpy(a[i], b[i], d, y, fpow(x, i as nat)); }
    l_sum_ext(h, |i: int| f(i).fadd(g(i)), n); l_sum_add(f, g, n); l_sum_scale(dy, tb, n);
    F::ax_mul_comm(dy, peval(b, x)); F::ax_mul_assoc(peval(b, x), d, y);
}
//@@ ring r_axpy a b d y p : (a + (b*d)*y)*p == a*p + (d*y)*(b*p)
pub proof fn l_zero_eval<F: FieldSpec>(a: Seq<F>, x: F) requires forall|i: int| 0 <= i < a.len() ==> a[i] == F::f0() ensures peval(a, x) == F::f0() {
    let f = term(a, x); assert forall|i: int| 0 <= i < a.len() implies #[trigger] f(i) == F::f0() by { l_mul_zero(fpow(x, i as nat)); } l_sum_zero(f, a.len() as int); }
// the two ways the code multiplies its running product by (X - x_j)
pub proof fn l_contrib_first<F: FieldSpec>(c: Seq<F>, z: Seq<F>, s: Seq<F>, n: int)
    requires n >= 2, s.len() == 1, z.len() == n, c.len() == n, forall|i: int| 0 <= i < n ==> z[i] == F::f0(), c == z.update(0, F::f0().fadd(s[0].fneg())).update(1, F::f0().fadd(F::f1()))
    ensures c == padded(rcoef(s, 1), n)
{ l_rcoef_one(s); l_zero_l(s[0].fneg()); l_zero_l(F::f1()); assert(c =~= padded(rcoef(s, 1), n)); }
pub proof fn l_contrib_next<F: FieldSpec>(c: Seq<F>, c2: Seq<F>, rc: Seq<F>, x: F, n: int)
    requires 1 <= rc.len() < n, c == padded(rc, n), c2.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] c2[i] == prevc(c, i).fadd(c[i].fmul(x).fneg())
    ensures c2 == padded(mulx(rc, x), n)
{
    let t = padded(mulx(rc, x), n); l_mul_zero(x); l_neg_zero::<F>(); F::ax_zero(F::f0());
    assert forall|i: int| 0 <= i < n implies c2[i] == t[i] by { if i == rc.len() { F::ax_zero(rc[i - 1]); } }
    assert(c2 =~= t);
}
//@@ fn src/utils/poly.rs interpolate ret=r attr="#[verifier::rlimit(60)]"
requires points@.len() >= 2, points@.len() < 0x1_0000_0000, distinct_x(points@)
ensures r is Some, r->Some_0@.len() == points@.len(), forall|l: int| 0 <= l < points@.len() ==> peval(r->Some_0@, (#[trigger] points@[l]).0) == points@[l].1
//@@ iterkind external_iter=ref
//@@ subst "points . clone () . into_iter ()" => "points"
//@@ subst "points . clone ()" => "points"
//@@ subst "contribution . get_mut (0) . unwrap ()" => "contribution [0]"
//@@ subst "contribution . get_mut (1) . unwrap ()" => "contribution [1]"
//@@ subst "mul_by_minus_x_j . get (i) . unwrap ()" => "& mul_by_minus_x_j [i]"
//@@ subst "coeffs . get_mut (i) . unwrap ()" => "& mut coeffs [i]"
//@@ subst "let mut max_contribution_degree = 0" => "let mut max_contribution_degree : usize = 0"
//@@ begin
  let ghost p = points@; let ghost n = points@.len() as int;
//@@ loop 1 before
  proof { assert forall|l: int| 0 <= l < n implies peval(coeffs@, (#[trigger] p[l]).0) == F::f0() by { l_zero_eval(coeffs@, p[l].0); } }
//@@ loop 1
  invariant p == points@, external_iter@ == p, internal@ == p, n == p.len(), n >= 2, n < 0x1_0000_0000, distinct_x(p), max_degree_plus_one == n, vx_n1 == n, vx_k1 <= vx_n1, coeffs@.len() == n,
    forall|l: int| 0 <= l < n ==> peval(coeffs@, (#[trigger] p[l]).0) == if l < vx_k1 { p[l].1 } else { F::f0() },
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost kx = vx_i1 as int; let ghost cpre = coeffs@;
//@@ stmt "let mut contribution" after
  let ghost z = contribution@;
//@@ loop 2
  invariant p == points@, internal@ == p, n == p.len(), n >= 2, n < 0x1_0000_0000, max_degree_plus_one == n, vx_n2 == n, vx_k2 <= vx_n2, k == kx, 0 <= kx < n, *x_k == p[kx].0, contribution@.len() == n,
    demoninator == vprod(oth(p, kx, vx_k2 as int), p[kx].0, othn(kx, vx_k2 as int)),
    max_contribution_degree == 0 <==> othn(kx, vx_k2 as int) == 0, z.len() == n, forall|i: int| 0 <= i < n ==> z[i] == F::f0(),
    othn(kx, vx_k2 as int) == 0 ==> contribution@ == z,
    othn(kx, vx_k2 as int) > 0 ==> contribution@ == padded(rcoef(oth(p, kx, vx_k2 as int), othn(kx, vx_k2 as int)), n),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost so = oth(p, kx, vx_i2 as int); let ghost sn = oth(p, kx, vx_k2 as int); let ghost m = othn(kx, vx_i2 as int); let ghost c0 = contribution@;
  proof { l_oth(p, kx, vx_i2 as int); l_oth(p, kx, vx_k2 as int); if vx_i2 != kx { assert(sn == so.push(p[vx_i2 as int].0)); l_vprod_ext(so, sn, p[kx].0, m); l_rcoef_ext(so, sn, m); l_rcoef_len(so, m); } }
//@@ stmt "contribution . get_mut (1)" after
  proof { l_contrib_first(contribution@, z, sn, n); }
//@@ loop 3
  invariant contribution@ == c0, c0.len() == n, vx_n3 == n, vx_k3 <= vx_n3, vx_out3@.len() == vx_k3, *x_j == xj,
    forall|i: int| 0 <= i < vx_k3 ==> #[trigger] vx_out3@[i] == c0[i].fmul(xj).fneg(),
  decreases vx_n3 - vx_k3
//@@ loop 3 before
  let ghost xj = *x_j;
//@@ loop 4 before
  let ghost sh = contribution@; proof { assert forall|i: int| 0 <= i < n implies #[trigger] sh[i] == prevc(c0, i) by {} }
//@@ loop 4
  invariant contribution@.len() == n, sh.len() == n, vx_n4 == n, vx_k4 <= vx_n4, mul_by_minus_x_j@.len() == n,
    forall|i: int| 0 <= i < vx_k4 ==> #[trigger] contribution@[i] == sh[i].fadd(mul_by_minus_x_j@[i]),
    forall|i: int| vx_k4 <= i < n ==> #[trigger] contribution@[i] == sh[i],
  decreases vx_n4 - vx_k4
//@@ loop 4 after
  proof { assert forall|i: int| 0 <= i < n implies #[trigger] contribution@[i] == prevc(c0, i).fadd(c0[i].fmul(p[vx_i2 as int].0).fneg()) by { assert(sh[i] == prevc(c0, i)); } l_contrib_next(c0, contribution@, rcoef(so, m), p[vx_i2 as int].0, n); }
//@@ stmt "demoninator = demoninator . inverse" before
  let ghost s = oth(p, kx, n); let ghost den = demoninator; let ghost cc = contribution@; let ghost yk = *y_k;
  proof { l_oth(p, kx, n); l_vprod_nz(s, p[kx].0, n - 1); }
//@@ loop 5
  invariant contribution@ == cc, cc.len() == n, coeffs@.len() == n, cpre.len() == n, vx_n5 == n, vx_k5 <= vx_n5, demoninator == den.finv(), *y_k == yk,
    forall|i: int| 0 <= i < vx_k5 ==> #[trigger] coeffs@[i] == cpre[i].fadd(cc[i].fmul(den.finv()).fmul(yk)),
    forall|i: int| vx_k5 <= i < n ==> #[trigger] coeffs@[i] == cpre[i],
  decreases vx_n5 - vx_k5
//@@ loop 5 after
  proof { let di = den.finv(); assert(coeffs@ =~= axpy(cpre, cc, di, yk));
    assert forall|l: int| 0 <= l < n implies peval(coeffs@, (#[trigger] p[l]).0) == if l <= kx { p[l].1 } else { F::f0() } by {
      let x = p[l].0; l_axpy(cpre, cc, di, yk, x); l_rcoef_len(s, n - 1); l_padded_eval(rcoef(s, n - 1), n, x); l_rcoef_eval(s, n - 1, x);
      let e = vprod(s, x, n - 1);
      if l == kx { F::ax_inv(den); l_one_l(yk); l_zero_l(yk); }
      else { let ix = if l < kx { l } else { l - 1 }; assert(s[ix] == x); l_vprod_z(s, x, n - 1, ix); l_mul_zero(di); l_mul_zero(yk); F::ax_zero(peval(cpre, x)); } } }
//@@ endfn
