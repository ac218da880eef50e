// ======================================================================
// Mathematics of the radix-2 transform
// ======================================================================
pub open spec fn rev(k: int, l: nat) -> int decreases l { if l == 0 { 0 } else { (k % 2) * pow2((l - 1) as nat) + rev(k / 2, (l - 1) as nat) } }
pub proof fn l_rev_bound(k: int, l: nat) requires k >= 0 ensures 0 <= rev(k, l) < pow2(l) decreases l {
    lemma2_to64();
    if l > 0 { l_rev_bound(k / 2, (l - 1) as nat); lemma_pow2_step((l - 1) as nat);
        let p = pow2((l - 1) as nat) as int; let b = k % 2;
        assert(b == 0 || b == 1); assert(0 * p == 0 && 1 * p == p); }
}
pub proof fn l_rev_high(b: int, m: int, l: nat) requires 0 <= b <= 1, 0 <= m < pow2(l)
    ensures rev(b * pow2(l) + m, l + 1) == 2 * rev(m, l) + b decreases l
{
    lemma2_to64();
    assert(0 * pow2(l) == 0 && 1 * pow2(l) == pow2(l));
    if l == 0 {
        assert(rev(b + m, 1) == ((b + m) % 2) * pow2(0) + rev((b + m) / 2, 0));
    } else {
        lemma_pow2_step((l - 1) as nat);
        let h = pow2((l - 1) as nat) as int;
        assert(0 * h == 0 && 1 * h == h);
        let k = b * pow2(l) + m;
        assert(k % 2 == m % 2); assert(k / 2 == b * h + m / 2);
        l_rev_high(b, m / 2, (l - 1) as nat);
        assert(rev(k, l + 1) == (k % 2) * pow2(l) + rev(k / 2, l));
        assert((m % 2) * pow2(l) == 2 * ((m % 2) * h)) by (nonlinear_arith) requires pow2(l) == 2 * h;
    }
}
pub proof fn l_rev_inv(k: int, l: nat) requires 0 <= k < pow2(l) ensures rev(rev(k, l), l) == k decreases l {
    lemma2_to64();
    if l > 0 {
        lemma_pow2_step((l - 1) as nat);
        l_rev_bound(k / 2, (l - 1) as nat);
        l_rev_inv(k / 2, (l - 1) as nat);
        l_rev_high(k % 2, rev(k / 2, (l - 1) as nat), (l - 1) as nat);
    }
}
pub open spec fn esm<F: FieldSpec>(x: Seq<F>, c: int, st: int, z: F) -> spec_fn(int) -> F { |t: int| x[c + t * st].fmul(fpow(z, t as nat)) }
pub open spec fn esum<F: FieldSpec>(x: Seq<F>, c: int, st: int, m: int, z: F) -> F { fsum(esm(x, c, st, z), m) }
pub proof fn l_esum_split<F: FieldSpec>(x: Seq<F>, c: int, st: int, m: int, z: F) requires m >= 0
    ensures esum(x, c, st, 2 * m, z) == esum(x, c, 2 * st, m, z.fmul(z)).fadd(esum(x, c + st, 2 * st, m, z.fmul(z)).fmul(z))
{
    let f = esm(x, c, st, z); let z2 = z.fmul(z);
    l_sum_even_odd(f, m);
    let fe = |t: int| f(2 * t); let fo = |t: int| f(2 * t + 1);
    let e = esm(x, c, 2 * st, z2); let o = esm(x, c + st, 2 * st, z2);
    l_pow2(z);
    assert forall|t: int| 0 <= t < m implies #[trigger] fe(t) == e(t) by {
        l_pow_mul(z, 2, t as nat);
        assert(c + (2 * t) * st == c + t * (2 * st)) by (nonlinear_arith);
    }
    l_sum_ext(fe, e, m);
    let so = |t: int| z.fmul(o(t));
    assert forall|t: int| 0 <= t < m implies #[trigger] fo(t) == so(t) by {
        l_pow_mul(z, 2, t as nat); l_pow_step(z, (2 * t) as nat);
        assert(c + (2 * t + 1) * st == (c + st) + t * (2 * st)) by (nonlinear_arith);
        let xv = x[(c + st) + t * (2 * st)]; let p = fpow(z2, t as nat);
        assert(fo(t) == xv.fmul(fpow(z, (2 * t + 1) as nat)));
        F::ax_mul_assoc(xv, z, p); F::ax_mul_comm(xv, z); F::ax_mul_assoc(z, xv, p);
    }
    l_sum_ext(fo, so, m);
    l_sum_scale(z, o, m);
    F::ax_mul_comm(z, fsum(o, m));
}
// what position b*2^s + j holds after s rounds
pub open spec fn fv<F: FieldSpec>(x: Seq<F>, w: F, l: nat, s: nat, b: int, j: int) -> F {
    esum(x, rev(b, (l - s) as nat), pow2((l - s) as nat) as int, pow2(s) as int, fpow(fpow(w, pow2((l - s) as nat)), j as nat))
}
pub proof fn l_bfly<F: FieldSpec>(x: Seq<F>, w: F, l: nat, s: nat, b: int, j: int)
    requires s < l, prim(w, l), 0 <= j < pow2(s), b >= 0
    ensures ({ let z = fpow(fpow(w, pow2((l - s - 1) as nat)), j as nat); let t = fv(x, w, l, s, 2 * b + 1, j).fmul(z); let e = fv(x, w, l, s, 2 * b, j);
        fv(x, w, l, (s + 1) as nat, b, j) == e.fadd(t) && fv(x, w, l, (s + 1) as nat, b, j + pow2(s)) == e.fadd(t.fneg()) })
{
    let l1 = (l - s - 1) as nat; let wm = fpow(w, pow2(l1)); let m = pow2(s);
    let z = fpow(wm, j as nat); let zn = fpow(wm, (j + m) as nat);
    lemma_pow2_step(l1); lemma_pow2_step(s);
    let ww = fpow(w, pow2((l - s) as nat));
    assert(wm.fmul(wm) == ww) by { l_pow2(wm); l_pow_mul(w, pow2(l1), 2); assert(pow2(l1) * 2 == pow2((l - s) as nat)); }
    assert(z.fmul(z) == fpow(ww, j as nat)) by { l_pow_mulbase(wm, wm, j as nat); }
    assert(zn == z.fneg()) by {
        l_pow_add(wm, j as nat, m); l_pow_mul(w, pow2(l1), m); lemma_pow2_mul(l1, s);
        assert((l1 + s) as nat == (l - 1) as nat); l_neg_one_mul(z);
    }
    assert(zn.fmul(zn) == z.fmul(z)) by { l_mul_neg(z, zn); l_mul_neg(z, z); l_neg_neg(z.fmul(z)); }
    let c = rev(b, l1);
    assert(rev(2 * b, (l - s) as nat) == c) by { assert((2 * b) % 2 == 0 && (2 * b) / 2 == b); assert(0 * pow2(l1) == 0); }
    assert(rev(2 * b + 1, (l - s) as nat) == c + pow2(l1)) by { assert((2 * b + 1) % 2 == 1 && (2 * b + 1) / 2 == b); assert(1 * pow2(l1) == pow2(l1)); }
    l_esum_split(x, c, pow2(l1) as int, m as int, z);
    l_esum_split(x, c, pow2(l1) as int, m as int, zn);
    assert((l - (s + 1)) as nat == l1);
    l_mul_neg(fv(x, w, l, s, 2 * b + 1, j), z);
}
pub proof fn l_fv_first<F: FieldSpec>(x: Seq<F>, w: F, l: nat, b: int) requires 0 <= b < pow2(l), x.len() == pow2(l) ensures fv(x, w, l, 0, b, 0) == x[rev(b, l)] {
    lemma2_to64();
    let z = fpow(fpow(w, pow2(l)), 0);
    let f = esm(x, rev(b, l), pow2(l) as int, z);
    assert(0 * pow2(l) == 0);
    reveal_with_fuel(fsum, 2);
    assert(f(0) == x[rev(b, l)].fmul(F::f1()));
    F::ax_one(x[rev(b, l)]); l_zero_l(x[rev(b, l)]);
}
pub proof fn l_fv_last<F: FieldSpec>(x: Seq<F>, w: F, l: nat, j: int) requires 0 <= j < pow2(l), x.len() == pow2(l) ensures fv(x, w, l, l, 0, j) == peval(x, fpow(w, j as nat)) {
    lemma2_to64(); l_pow1(w);
    let z = fpow(w, j as nat);
    assert(rev(0, 0) == 0);
    let f = esm(x, 0, 1, z); let g = term(x, z);
    assert forall|t: int| 0 <= t < x.len() implies #[trigger] f(t) == g(t) by { assert(0 + t * 1 == t); }
    l_sum_ext(f, g, x.len() as int);
}
pub open spec fn is_dft<F: FieldSpec>(out: Seq<F>, x: Seq<F>, w: F) -> bool {
    out.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] out[i] == peval(x, fpow(w, i as nat))
}
// ---- splitting a transform of size n = c * n1 into c transforms of size n1 ----
// entry i of the j-th sub-vector
pub open spec fn subx<F: FieldSpec>(x: Seq<F>, w: F, j: int, i: int, n1: int) -> spec_fn(int) -> F { |s: int| x[i + s * n1].fmul(fpow(w, (j * (i + s * n1)) as nat)) }
pub open spec fn subv<F: FieldSpec>(x: Seq<F>, w: F, j: int, c: int, n1: int) -> Seq<F> { Seq::new(n1 as nat, |i: int| fsum(subx(x, w, j, i, n1), c)) }
pub proof fn l_subfft<F: FieldSpec>(x: Seq<F>, w: F, c: int, n1: int, j: int, k: int)
    requires c > 0, n1 > 0, 0 <= j < c, 0 <= k < n1, x.len() == c * n1, fpow(w, (c * n1) as nat) == F::f1()
    ensures peval(subv(x, w, j, c, n1), fpow(fpow(w, c as nat), k as nat)) == peval(x, fpow(w, (c * k + j) as nat))
{
    let wc = fpow(w, c as nat); let zk = fpow(wc, k as nat); let z = fpow(w, (c * k + j) as nat);
    assert(c * k >= 0) by (nonlinear_arith) requires c > 0, k >= 0;
    let full = term(x, z);
    l_sum_blocks(full, n1, c);
    assert(n1 * c == c * n1) by (nonlinear_arith);
    let f2 = |s: int, i: int| full(s * n1 + i);
    let lhs = |b: int| fsum(|i: int| full(b * n1 + i), n1);
    let lhs2 = |b: int| fsum(|i: int| f2(b, i), n1);
    assert forall|b: int| 0 <= b < c implies #[trigger] lhs(b) == lhs2(b) by { l_sum_ext(|i: int| full(b * n1 + i), |i: int| f2(b, i), n1); }
    l_sum_ext(lhs, lhs2, c);
    l_sum_swap(f2, c, n1);
    let rhs = |i: int| fsum(|s: int| f2(s, i), c);
    let sv = subv(x, w, j, c, n1);
    let tm = term(sv, zk);
    assert forall|i: int| 0 <= i < n1 implies #[trigger] rhs(i) == tm(i) by {
        let p = fpow(zk, i as nat);
        let sx = subx(x, w, j, i, n1);
        let a = |s: int| f2(s, i); let b = |s: int| p.fmul(sx(s));
        assert forall|s: int| 0 <= s < c implies #[trigger] a(s) == b(s) by {
            let q = s * n1 + i;
            assert(q >= 0) by (nonlinear_arith) requires q == s * n1 + i, s >= 0, n1 > 0, i >= 0;
            assert(i + s * n1 == q);
            l_subpow(w, c, n1, j, k, s, i);
            let xv = x[q]; let e = fpow(w, (j * q) as nat);
            assert(full(q) == xv.fmul(fpow(z, q as nat)));
            // xv * (p*e) == p * (xv*e)
            F::ax_mul_assoc(xv, p, e); F::ax_mul_comm(xv, p); F::ax_mul_assoc(p, xv, e);
        }
        l_sum_ext(a, b, c);
        l_sum_scale(p, sx, c);
        F::ax_mul_comm(p, fsum(sx, c));
        assert(sv[i] == fsum(sx, c));
    }
    l_sum_ext(rhs, tm, n1);
}
// z^q == (w^c)^(k i) * w^(j q)   for q = s n1 + i, z = w^(c k + j)
pub proof fn l_subpow<F: FieldSpec>(w: F, c: int, n1: int, j: int, k: int, s: int, i: int)
    requires c > 0, n1 > 0, 0 <= j, 0 <= k, 0 <= s, 0 <= i, fpow(w, (c * n1) as nat) == F::f1()
    ensures ({ let q = s * n1 + i; fpow(fpow(w, (c * k + j) as nat), q as nat) == fpow(fpow(fpow(w, c as nat), k as nat), i as nat).fmul(fpow(w, (j * q) as nat)) })
{
    let q = s * n1 + i; let n = c * n1;
    assert(c * k >= 0 && s * n1 >= 0 && k * s >= 0 && c * k * i >= 0) by (nonlinear_arith) requires c > 0, k >= 0, s >= 0, n1 > 0, i >= 0;
    assert(j * q >= 0) by (nonlinear_arith) requires j >= 0, q >= 0;
    assert(n > 0) by (nonlinear_arith) requires n == c * n1, c > 0, n1 > 0;
    l_pow_mul(w, (c * k + j) as nat, q as nat);
    assert(((c * k + j) * q) == n * (k * s) + (c * k * i + j * q)) by (nonlinear_arith) requires q == s * n1 + i, n == c * n1;
    assert(n * (k * s) >= 0) by (nonlinear_arith) requires n > 0, k * s >= 0;
    l_pow_add(w, (n * (k * s)) as nat, (c * k * i + j * q) as nat);
    l_pow_mul(w, n as nat, (k * s) as nat); l_pow_one::<F>((k * s) as nat);
    l_one_l(fpow(w, (c * k * i + j * q) as nat));
    l_pow_add(w, (c * k * i) as nat, (j * q) as nat);
    l_pow_mul(w, c as nat, k as nat); l_pow_mul(w, (c * k) as nat, i as nat);
}
