// ---- inversion of the transform ----
pub proof fn l_ratio<F: PrimeField>(w: F, k: nat, i: int, j: int)
    requires prim(w, k), 0 <= i < pow2(k), 0 <= j < pow2(k)
    ensures ({ let r = fpow(w, i as nat).fmul(fpow(w.finv(), j as nat)); fpow(r, pow2(k)) == F::f1() && (i == j ==> r == F::f1()) && (i != j ==> r != F::f1()) })
{
    let n = pow2(k); let wi = w.finv(); let r = fpow(w, i as nat).fmul(fpow(wi, j as nat));
    l_prim_nonzero(w, k);
    l_pow_inv(w, j as nat); l_pow_inv(w, i as nat); l_pow_inv(w, n);
    l_pow_mulbase(fpow(w, i as nat), fpow(wi, j as nat), n);
    l_pow_mul(w, i as nat, n); l_pow_mul(w, n, i as nat); l_pow_one::<F>(i as nat);
    l_pow_mul(wi, j as nat, n); l_pow_mul(wi, n, j as nat); l_pow_one::<F>(j as nat);
    assert(i * n == n * i && j * n == n * j) by (nonlinear_arith);
    assert(fpow(wi, n) == F::f1()) by { l_one_l(fpow(wi, n)); }
    F::ax_one(F::f1());
    if i > j {
        let d = (i - j) as nat;
        l_pow_add(w, d, j as nat); assert(d + j as nat == i as nat);
        F::ax_mul_assoc(fpow(w, d), fpow(w, j as nat), fpow(wi, j as nat)); F::ax_one(fpow(w, d));
        assert(r == fpow(w, d));
        l_prim_order(w, k, d);
    }
    if i < j {
        let d = (j - i) as nat;
        l_pow_add(wi, i as nat, d); assert(i as nat + d == j as nat);
        F::ax_mul_assoc(fpow(w, i as nat), fpow(wi, i as nat), fpow(wi, d)); l_one_l(fpow(wi, d));
        assert(r == fpow(wi, d));
        l_prim_order(w, k, d); l_pow_inv(w, d);
        if r == F::f1() { F::ax_one(fpow(w, d)); }
    }
}
pub proof fn l_orth<F: PrimeField>(w: F, k: nat, i: int, j: int)
    requires prim(w, k), 0 <= i < pow2(k), 0 <= j < pow2(k)
    ensures fsum(|t: int| fpow(fpow(w, i as nat).fmul(fpow(w.finv(), j as nat)), t as nat), pow2(k) as int) == if i == j { fnat::<F>(pow2(k)) } else { F::f0() }
{
    let n = pow2(k); let r = fpow(w, i as nat).fmul(fpow(w.finv(), j as nat));
    let g = |t: int| fpow(r, t as nat);
    l_ratio(w, k, i, j);
    if i == j {
        assert forall|t: int| 0 <= t < n implies #[trigger] g(t) == F::f1() by { l_pow_one::<F>(t as nat); }
        l_sum_ext(g, |t: int| F::f1(), n as int); l_sum_ones::<F>(n);
    } else {
        l_geom(r, n); l_sub_self(F::f1());
        let s = fsum(g, n as int);
        if s != F::f0() {
            if fsub(r, F::f1()) == F::f0() { l_sub_eq_zero(r, F::f1()); }
            l_mul_nonzero(fsub(r, F::f1()), s);
        }
    }
}
// the polynomial whose k-th coefficient is c * (value of v at winv^k) takes the values c*n*v[i] at w^i
pub proof fn l_inverse_dft<F: PrimeField>(v: Seq<F>, y: Seq<F>, c: F, w: F, k: nat)
    requires prim(w, k), v.len() == pow2(k), y.len() == pow2(k), c.fmul(fnat::<F>(pow2(k))) == F::f1(),
        forall|i: int| 0 <= i < pow2(k) ==> #[trigger] y[i] == peval(v, fpow(w.finv(), i as nat)).fmul(c)
    ensures is_dft(v, y, w)
{
    let n = pow2(k) as int; let wi = w.finv();
    assert forall|i: int| 0 <= i < n implies #[trigger] v[i] == peval(y, fpow(w, i as nat)) by {
        let z = fpow(w, i as nat);
        let f2 = |t: int, j: int| c.fmul(v[j]).fmul(fpow(z.fmul(fpow(wi, j as nat)), t as nat));
        let ty = term(y, z);
        let row = |t: int| fsum(|j: int| f2(t, j), n);
        assert forall|t: int| 0 <= t < n implies #[trigger] ty(t) == row(t) by {
            // y[t] z^t == (sum_j v_j wi^(t j)) c z^t
            let zt = fpow(z, t as nat); let q = fpow(wi, t as nat);
            let tv = term(v, q); let cz = c.fmul(zt);
            let a = |j: int| cz.fmul(tv(j)); let b = |j: int| f2(t, j);
            assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by {
                let p = fpow(wi, j as nat);
                l_pow_mulbase(z, p, t as nat);
                l_pow_mul(wi, j as nat, t as nat); l_pow_mul(wi, t as nat, j as nat); assert(j * t == t * j) by (nonlinear_arith);
                let m = fpow(q, j as nat);
                assert(b(j) == c.fmul(v[j]).fmul(zt.fmul(m)));
                l_mul4(c, v[j], zt, m);
            }
            l_sum_ext(a, b, n);
            l_sum_scale(cz, tv, n);
            let s = fsum(tv, n);
            assert(y[t] == s.fmul(c));
            F::ax_mul_assoc(s, c, zt); F::ax_mul_comm(s, cz);
        }
        l_sum_ext(ty, row, n);
        l_sum_swap(f2, n, n);
        let col = |j: int| fsum(|t: int| f2(t, j), n);
        assert forall|j: int| 0 <= j < n implies #[trigger] col(j) == (if j == i { v[i] } else { F::f0() }) by {
            let r = z.fmul(fpow(wi, j as nat)); let g = |t: int| fpow(r, t as nat); let cv = c.fmul(v[j]);
            l_sum_scale(cv, g, n);
            l_sum_ext(|t: int| f2(t, j), |t: int| cv.fmul(g(t)), n);
            l_orth(w, k, i, j);
            assert(fsum(g, n) == if i == j { fnat::<F>(n as nat) } else { F::f0() });
            if i == j { let nn = fnat::<F>(n as nat); F::ax_mul_comm(c, v[j]); F::ax_mul_assoc(v[j], c, nn); F::ax_one(v[j]); }
            else { l_mul_zero(cv); }
        }
        l_sum_single(col, i, n);
    }
}
// a polynomial of n coefficients is determined by its n values on the subgroup
pub proof fn thm_dft_unique<F: PrimeField>(v: Seq<F>, x: Seq<F>, w: F, k: nat, i: int)
    requires prim(w, k), is_dft(v, x, w), x.len() == pow2(k), 0 <= i < pow2(k)
    ensures x[i] == peval(v, fpow(w.finv(), i as nat)).fmul(fnat::<F>(pow2(k)).finv())
{
    let n = pow2(k) as int; let wi = w.finv(); let nn = fnat::<F>(n as nat);
    l_nat_pow2_nonzero::<F>(k); F::ax_inv(nn); l_prim_nonzero(w, k);
    let z = fpow(wi, i as nat);
    let tv = term(v, z);
    let f2 = |t: int, j: int| x[j].fmul(fpow(fpow(w, j as nat).fmul(z), t as nat));
    let row = |t: int| fsum(|j: int| f2(t, j), n);
    assert forall|t: int| 0 <= t < n implies #[trigger] tv(t) == row(t) by {
        let q = fpow(w, t as nat); let zt = fpow(z, t as nat); let tx = term(x, q);
        let a = |j: int| zt.fmul(tx(j)); let b = |j: int| f2(t, j);
        assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by {
            let p = fpow(w, j as nat);
            l_pow_mulbase(p, z, t as nat);
            l_pow_mul(w, j as nat, t as nat); l_pow_mul(w, t as nat, j as nat); assert(j * t == t * j) by (nonlinear_arith);
            let m = fpow(q, j as nat);
            F::ax_mul_assoc(x[j], m, zt); F::ax_mul_comm(x[j].fmul(m), zt);
        }
        l_sum_ext(a, b, n); l_sum_scale(zt, tx, n); F::ax_mul_comm(v[t], zt);
        assert(v[t] == peval(x, q));
    }
    l_sum_ext(tv, row, n);
    l_sum_swap(f2, n, n);
    let col = |j: int| fsum(|t: int| f2(t, j), n);
    assert forall|j: int| 0 <= j < n implies #[trigger] col(j) == (if j == i { x[i].fmul(nn) } else { F::f0() }) by {
        let r = fpow(w, j as nat).fmul(z); let g = |t: int| fpow(r, t as nat);
        l_sum_scale(x[j], g, n);
        l_sum_ext(|t: int| f2(t, j), |t: int| x[j].fmul(g(t)), n);
        l_orth(w, k, j, i);
        l_mul_zero(x[j]);
    }
    l_sum_single(col, i, n);
    F::ax_mul_assoc(x[i], nn, nn.finv()); F::ax_one(x[i]);
}
// round trip: two coefficient vectors with the same values are the same
pub proof fn thm_roundtrip<F: PrimeField>(v: Seq<F>, x: Seq<F>, y: Seq<F>, w: F, k: nat)
    requires prim(w, k), is_dft(v, x, w), is_dft(v, y, w), x.len() == pow2(k), y.len() == pow2(k)
    ensures x == y
{
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { thm_dft_unique(v, x, w, k, i); thm_dft_unique(v, y, w, k, i); }
    assert(x =~= y);
}
// values on the shifted subgroup g * <w>
pub open spec fn is_coset_dft<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F) -> bool {
    out.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] out[i] == peval(x, g.fmul(fpow(w, i as nat)))
}
pub proof fn l_peval_powered<F: FieldSpec>(x: Seq<F>, g: F, z: F) ensures peval(powered(x, g), z) == peval(x, g.fmul(z)) {
    let a = term(powered(x, g), z); let b = term(x, g.fmul(z));
    assert forall|t: int| 0 <= t < x.len() implies #[trigger] a(t) == b(t) by { l_pow_mulbase(g, z, t as nat); F::ax_mul_assoc(x[t], fpow(g, t as nat), fpow(z, t as nat)); }
    l_sum_ext(a, b, x.len() as int);
}
pub proof fn l_coset_dft<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F) ensures is_dft(out, powered(x, g), w) <==> is_coset_dft(out, x, g, w) {
    assert forall|i: int| 0 <= i < x.len() implies peval(powered(x, g), #[trigger] fpow(w, i as nat)) == peval(x, g.fmul(fpow(w, i as nat))) by { l_peval_powered(x, g, fpow(w, i as nat)); }
    if is_coset_dft(out, x, g, w) { assert forall|i: int| 0 <= i < powered(x, g).len() implies #[trigger] out[i] == peval(powered(x, g), fpow(w, i as nat)) by { } }
    if is_dft(out, powered(x, g), w) { assert forall|i: int| 0 <= i < x.len() implies #[trigger] out[i] == peval(x, g.fmul(fpow(w, i as nat))) by { let u = fpow(w, i as nat); } }
}
pub proof fn l_powered_inv<F: FieldSpec>(x: Seq<F>, g: F, gi: F) requires g.fmul(gi) == F::f1() ensures powered(powered(x, gi), g) == x {
    assert forall|t: int| 0 <= t < x.len() implies powered(powered(x, gi), g)[t] == x[t] by {
        let a = fpow(gi, t as nat); let b = fpow(g, t as nat);
        l_pow_mulbase(g, gi, t as nat); l_pow_one::<F>(t as nat); F::ax_mul_comm(a, b); F::ax_mul_assoc(x[t], a, b); F::ax_one(x[t]); }
    assert(powered(powered(x, gi), g) =~= x);
}
pub proof fn l_prim_inv<F: FieldSpec>(w: F, k: nat) requires prim(w, k) ensures prim(w.finv(), k) {
    l_prim_nonzero(w, k); l_pow_inv(w, pow2(k)); l_one_l(fpow(w.finv(), pow2(k)));
    if k >= 1 { let h = pow2((k - 1) as nat); l_pow_inv(w, h); let p = fpow(w.finv(), h);
        l_mul_neg(F::f1(), p); l_one_l(p); assert(p.fneg() == F::f1()); l_neg_neg(p); }
}
