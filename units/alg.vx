// ======================================================================
// Field algebra and finite sums: lemmas (all proved from the FieldSpec laws)
// ======================================================================
pub proof fn l_zero_l<F: FieldSpec>(a: F) ensures F::f0().fadd(a) == a { F::ax_add_comm(F::f0(), a); F::ax_zero(a); }
pub proof fn l_one_l<F: FieldSpec>(a: F) ensures F::f1().fmul(a) == a { F::ax_mul_comm(F::f1(), a); F::ax_one(a); }
pub proof fn l_neg_l<F: FieldSpec>(a: F) ensures a.fneg().fadd(a) == F::f0() { F::ax_add_comm(a, a.fneg()); F::ax_neg(a); }
pub proof fn l_add_cancel<F: FieldSpec>(a: F, b: F, c: F) requires a.fadd(b) == a.fadd(c) ensures b == c {
    l_neg_l(a); F::ax_add_assoc(a.fneg(), a, b); F::ax_add_assoc(a.fneg(), a, c); l_zero_l(b); l_zero_l(c);
}
pub proof fn l_mul_zero<F: FieldSpec>(a: F) ensures a.fmul(F::f0()) == F::f0(), F::f0().fmul(a) == F::f0() {
    let z = a.fmul(F::f0());
    F::ax_zero(F::f0()); F::ax_distr(a, F::f0(), F::f0());
    F::ax_zero(z);
    l_add_cancel(z, z, F::f0());
    F::ax_mul_comm(a, F::f0());
}
pub proof fn l_neg_unique<F: FieldSpec>(a: F, b: F) requires a.fadd(b) == F::f0() ensures b == a.fneg() {
    F::ax_neg(a); l_add_cancel(a, b, a.fneg());
}
pub proof fn l_neg_neg<F: FieldSpec>(a: F) ensures a.fneg().fneg() == a { l_neg_l(a); l_neg_unique(a.fneg(), a); }
pub proof fn l_neg_zero<F: FieldSpec>() ensures F::f0().fneg() == F::f0() { F::ax_zero(F::f0()); l_neg_unique(F::f0(), F::f0()); }
pub proof fn l_mul_neg<F: FieldSpec>(a: F, b: F) ensures a.fmul(b.fneg()) == a.fmul(b).fneg(), a.fneg().fmul(b) == a.fmul(b).fneg() {
    F::ax_distr(a, b, b.fneg()); F::ax_neg(b); l_mul_zero(a); l_neg_unique(a.fmul(b), a.fmul(b.fneg()));
    F::ax_mul_comm(a.fneg(), b); F::ax_mul_comm(a, b);
    F::ax_distr(b, a, a.fneg()); F::ax_neg(a); l_mul_zero(b); l_neg_unique(b.fmul(a), b.fmul(a.fneg()));
}
pub proof fn l_neg_add<F: FieldSpec>(a: F, b: F) ensures a.fadd(b).fneg() == a.fneg().fadd(b.fneg()) {
    // (a+b) + (-a + -b) = 0
    l_add4(a, b, a.fneg(), b.fneg()); F::ax_neg(a); F::ax_neg(b); F::ax_zero(F::f0());
    l_neg_unique(a.fadd(b), a.fneg().fadd(b.fneg()));
}
pub proof fn l_neg_one_mul<F: FieldSpec>(a: F) ensures F::f1().fneg().fmul(a) == a.fneg(), a.fmul(F::f1().fneg()) == a.fneg() {
    l_mul_neg(F::f1(), a); l_one_l(a); l_mul_neg(a, F::f1()); F::ax_one(a);
}
pub proof fn l_distr_r<F: FieldSpec>(a: F, b: F, c: F) ensures a.fadd(b).fmul(c) == a.fmul(c).fadd(b.fmul(c)) {
    F::ax_mul_comm(a.fadd(b), c); F::ax_distr(c, a, b); F::ax_mul_comm(c, a); F::ax_mul_comm(c, b);
}
// (a+b)+(c+d) == (a+c)+(b+d)
pub proof fn l_add4<F: FieldSpec>(a: F, b: F, c: F, d: F) ensures a.fadd(b).fadd(c.fadd(d)) == a.fadd(c).fadd(b.fadd(d)) {
    F::ax_add_assoc(a, b, c.fadd(d)); F::ax_add_assoc(b, c, d); F::ax_add_comm(b, c); F::ax_add_assoc(c, b, d);
    F::ax_add_assoc(a, c, b.fadd(d));
}
// (a*b)*(c*d) == (a*c)*(b*d)
pub proof fn l_mul4<F: FieldSpec>(a: F, b: F, c: F, d: F) ensures a.fmul(b).fmul(c.fmul(d)) == a.fmul(c).fmul(b.fmul(d)) {
    F::ax_mul_assoc(a, b, c.fmul(d)); F::ax_mul_assoc(b, c, d); F::ax_mul_comm(b, c); F::ax_mul_assoc(c, b, d);
    F::ax_mul_assoc(a, c, b.fmul(d));
}
pub proof fn l_mul_cancel<F: FieldSpec>(a: F, b: F, c: F) requires a != F::f0(), a.fmul(b) == a.fmul(c) ensures b == c {
    F::ax_inv(a); F::ax_mul_comm(a, a.finv());
    F::ax_mul_assoc(a.finv(), a, b); F::ax_mul_assoc(a.finv(), a, c); l_one_l(b); l_one_l(c);
}
pub proof fn l_mul_nonzero<F: FieldSpec>(a: F, b: F) requires a != F::f0(), b != F::f0() ensures a.fmul(b) != F::f0() {
    if a.fmul(b) == F::f0() { l_mul_zero(a); l_mul_cancel(a, b, F::f0()); }
}
pub proof fn l_inv_unique<F: FieldSpec>(a: F, b: F) requires a.fmul(b) == F::f1() ensures a != F::f0(), b == a.finv() {
    F::ax_one_ne_zero();
    l_mul_zero(b);
    F::ax_inv(a); l_mul_cancel(a, b, a.finv());
}
pub proof fn l_inv_nonzero<F: FieldSpec>(a: F) requires a != F::f0() ensures a.finv() != F::f0(), a.finv().fmul(a) == F::f1() {
    F::ax_inv(a); F::ax_one_ne_zero(); l_mul_zero(a); F::ax_mul_comm(a, a.finv());
}
pub proof fn l_sub_self<F: FieldSpec>(a: F) ensures fsub(a, a) == F::f0() { F::ax_neg(a); }
pub proof fn l_sub_zero<F: FieldSpec>(a: F) ensures fsub(a, F::f0()) == a { l_neg_zero::<F>(); F::ax_zero(a); }
pub proof fn l_sub_eq_zero<F: FieldSpec>(a: F, b: F) requires fsub(a, b) == F::f0() ensures a == b {
    l_neg_neg(b);
    F::ax_add_comm(a, b.fneg());
    l_neg_unique(b.fneg(), a);
}

// ---- powers ----
pub proof fn l_pow0<F: FieldSpec>(a: F) ensures fpow(a, 0) == F::f1() {}
pub proof fn l_pow1<F: FieldSpec>(a: F) ensures fpow(a, 1) == a { reveal_with_fuel(fpow, 2); F::ax_one(a); }
pub proof fn l_pow_step<F: FieldSpec>(a: F, n: nat) ensures fpow(a, n + 1) == a.fmul(fpow(a, n)), fpow(a, n + 1) == fpow(a, n).fmul(a) { F::ax_mul_comm(a, fpow(a, n)); }
pub proof fn l_pow2<F: FieldSpec>(a: F) ensures fpow(a, 2) == a.fmul(a) { reveal_with_fuel(fpow, 3); F::ax_one(a); }
pub proof fn l_pow_add<F: FieldSpec>(a: F, m: nat, n: nat) ensures fpow(a, m + n) == fpow(a, m).fmul(fpow(a, n)) decreases m {
    if m == 0 { l_one_l(fpow(a, n)); }
    else { l_pow_add(a, (m - 1) as nat, n); F::ax_mul_assoc(a, fpow(a, (m - 1) as nat), fpow(a, n)); assert((m + n - 1) as nat == (m - 1) as nat + n); }
}
pub proof fn l_pow_mul<F: FieldSpec>(a: F, m: nat, n: nat) ensures fpow(fpow(a, m), n) == fpow(a, m * n) decreases n {
    if n == 0 { assert(m * 0 == 0); }
    else {
        l_pow_mul(a, m, (n - 1) as nat);
        assert(m * n == m + m * ((n - 1) as nat)) by (nonlinear_arith) requires n > 0;
        l_pow_add(a, m, m * ((n - 1) as nat));
    }
}
pub proof fn l_pow_one<F: FieldSpec>(n: nat) ensures fpow(F::f1(), n) == F::f1() decreases n { if n > 0 { l_pow_one::<F>((n - 1) as nat); F::ax_one(F::f1()); } }
pub proof fn l_pow_mulbase<F: FieldSpec>(a: F, b: F, n: nat) ensures fpow(a.fmul(b), n) == fpow(a, n).fmul(fpow(b, n)) decreases n {
    if n == 0 { F::ax_one(F::f1()); } else { l_pow_mulbase(a, b, (n - 1) as nat); l_mul4(a, b, fpow(a, (n - 1) as nat), fpow(b, (n - 1) as nat)); }
}
pub proof fn l_pow_nonzero<F: FieldSpec>(a: F, n: nat) requires a != F::f0() ensures fpow(a, n) != F::f0() decreases n {
    F::ax_one_ne_zero();
    if n > 0 { l_pow_nonzero(a, (n - 1) as nat); l_mul_nonzero(a, fpow(a, (n - 1) as nat)); }
}
pub proof fn l_pow_inv<F: FieldSpec>(a: F, n: nat) requires a != F::f0() ensures fpow(a.finv(), n) == fpow(a, n).finv(), fpow(a, n).fmul(fpow(a.finv(), n)) == F::f1() {
    l_pow_mulbase(a, a.finv(), n); F::ax_inv(a); l_pow_one::<F>(n);
    l_inv_unique(fpow(a, n), fpow(a.finv(), n));
}
// w^n == 1  ==>  w^(k mod n) == w^k
pub proof fn l_pow_mod<F: FieldSpec>(w: F, n: nat, k: nat) requires n > 0, fpow(w, n) == F::f1() ensures fpow(w, k) == fpow(w, (k % n) as nat) {
    lemma_fundamental_div_mod(k as int, n as int);
    let q = (k / n) as nat; let r = (k % n) as nat;
    l_pow_add(w, n * q, r); l_pow_mul(w, n, q); l_pow_one::<F>(q); l_one_l(fpow(w, r));
}

// ---- sums ----
pub open spec fn fsum<F: FieldSpec>(f: spec_fn(int) -> F, n: int) -> F decreases n {
    if n <= 0 { F::f0() } else { fsum(f, n - 1).fadd(f(n - 1)) }
}
pub proof fn l_sum_ext<F: FieldSpec>(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures fsum(f, n) == fsum(g, n) decreases n
{ if n > 0 { l_sum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn l_sum_zero<F: FieldSpec>(f: spec_fn(int) -> F, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == F::f0() ensures fsum(f, n) == F::f0() decreases n
{ if n > 0 { l_sum_zero(f, n - 1); F::ax_zero(F::f0()); } }
pub proof fn l_sum_add<F: FieldSpec>(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: int)
    ensures fsum(|i: int| f(i).fadd(g(i)), n) == fsum(f, n).fadd(fsum(g, n)) decreases n
{
    let h = |i: int| f(i).fadd(g(i));
    if n <= 0 { F::ax_zero(F::f0()); } else { l_sum_add(f, g, n - 1); l_add4(fsum(f, n - 1), fsum(g, n - 1), f(n - 1), g(n - 1)); }
}
pub proof fn l_sum_scale<F: FieldSpec>(c: F, f: spec_fn(int) -> F, n: int)
    ensures fsum(|i: int| c.fmul(f(i)), n) == c.fmul(fsum(f, n)) decreases n
{ if n <= 0 { l_mul_zero(c); } else { l_sum_scale(c, f, n - 1); F::ax_distr(c, fsum(f, n - 1), f(n - 1)); } }
pub proof fn l_sum_split<F: FieldSpec>(f: spec_fn(int) -> F, m: int, n: int)
    requires 0 <= m, 0 <= n ensures fsum(f, m + n) == fsum(f, m).fadd(fsum(|i: int| f(m + i), n)) decreases n
{
    let g = |i: int| f(m + i);
    if n <= 0 { F::ax_zero(fsum(f, m)); }
    else { l_sum_split(f, m, n - 1); F::ax_add_assoc(fsum(f, m), fsum(g, n - 1), f(m + n - 1)); assert(g(n - 1) == f(m + n - 1)); }
}
pub proof fn l_sum_even_odd<F: FieldSpec>(f: spec_fn(int) -> F, m: int)
    requires 0 <= m ensures fsum(f, 2 * m) == fsum(|t: int| f(2 * t), m).fadd(fsum(|t: int| f(2 * t + 1), m)) decreases m
{
    let e = |t: int| f(2 * t); let o = |t: int| f(2 * t + 1);
    if m == 0 { F::ax_zero(F::f0()); }
    else {
        l_sum_even_odd(f, m - 1);
        let a = fsum(e, m - 1); let b = fsum(o, m - 1);
        assert(fsum(f, 2 * m) == fsum(f, 2 * m - 1).fadd(f(2 * m - 1)));
        assert(fsum(f, 2 * m - 1) == fsum(f, 2 * m - 2).fadd(f(2 * m - 2)));
        F::ax_add_assoc(a.fadd(b), f(2 * m - 2), f(2 * m - 1));
        l_add4(a, b, f(2 * m - 2), f(2 * m - 1));
        assert(e(m - 1) == f(2 * m - 2)); assert(o(m - 1) == f(2 * m - 1));
    }
}
// sum over m*n terms, grouped by blocks: index = b*m + i
pub proof fn l_sum_blocks<F: FieldSpec>(f: spec_fn(int) -> F, m: int, n: int)
    requires 0 <= m, 0 <= n ensures fsum(f, m * n) == fsum(|b: int| fsum(|i: int| f(b * m + i), m), n) decreases n
{
    let g = |b: int| fsum(|i: int| f(b * m + i), m);
    if n == 0 { assert(m * 0 == 0); }
    else {
        l_sum_blocks(f, m, n - 1);
        assert(m * n == m * (n - 1) + m) by (nonlinear_arith);
        assert(m * (n - 1) >= 0) by (nonlinear_arith) requires m >= 0, n >= 1;
        l_sum_split(f, m * (n - 1), m);
        let h1 = |i: int| f(m * (n - 1) + i); let h2 = |i: int| f((n - 1) * m + i);
        assert(m * (n - 1) == (n - 1) * m) by (nonlinear_arith);
        l_sum_ext(h1, h2, m);
        assert(g(n - 1) == fsum(h2, m));
    }
}
// exchange of a double sum
pub proof fn l_sum_swap<F: FieldSpec>(f: spec_fn(int, int) -> F, m: int, n: int)
    requires 0 <= m, 0 <= n
    ensures fsum(|i: int| fsum(|j: int| f(i, j), n), m) == fsum(|j: int| fsum(|i: int| f(i, j), m), n) decreases m
{
    let a = |i: int| fsum(|j: int| f(i, j), n);
    let b = |j: int| fsum(|i: int| f(i, j), m);
    if m == 0 { 
        assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == F::f0() by {}
        l_sum_zero(b, n);
    } else {
        l_sum_swap(f, m - 1, n);
        let b1 = |j: int| fsum(|i: int| f(i, j), m - 1);
        let c = |j: int| f(m - 1, j);
        l_sum_add(b1, c, n);
        let d = |j: int| b1(j).fadd(c(j));
        assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == d(j) by {
            let q = |i: int| f(i, j);
            assert(fsum(q, m) == fsum(q, m - 1).fadd(q(m - 1)));
        }
        l_sum_ext(b, d, n);
        assert(a(m - 1) == fsum(c, n));
    }
}
pub proof fn l_sum_single<F: FieldSpec>(f: spec_fn(int) -> F, k: int, n: int)
    requires 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == F::f0()
    ensures fsum(f, n) == f(k) decreases n
{
    if n - 1 == k { l_sum_zero(f, n - 1); l_zero_l(f(k)); }
    else { l_sum_single(f, k, n - 1); F::ax_zero(f(k)); assert(f(n - 1) == F::f0()); }
}
// zero tail
pub proof fn l_sum_tail<F: FieldSpec>(f: spec_fn(int) -> F, m: int, n: int)
    requires 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] f(i) == F::f0()
    ensures fsum(f, n) == fsum(f, m) decreases n
{ if n > m { l_sum_tail(f, m, n - 1); assert(f(n - 1) == F::f0()); F::ax_zero(fsum(f, n - 1)); } }

// value of the polynomial with coefficients s at x
pub open spec fn term<F: FieldSpec>(s: Seq<F>, x: F) -> spec_fn(int) -> F { |i: int| s[i].fmul(fpow(x, i as nat)) }
pub open spec fn peval<F: FieldSpec>(s: Seq<F>, x: F) -> F { fsum(term(s, x), s.len() as int) }

// geometric sum: (r-1) * sum r^i == r^n - 1
pub proof fn l_geom<F: FieldSpec>(r: F, n: nat)
    ensures fsub(r, F::f1()).fmul(fsum(|i: int| fpow(r, i as nat), n as int)) == fsub(fpow(r, n), F::f1()) decreases n
{
    let g = |i: int| fpow(r, i as nat);
    let d = fsub(r, F::f1());
    if n == 0 { l_mul_zero(d); F::ax_neg(F::f1()); }
    else {
        l_geom(r, (n - 1) as nat);
        let p = fpow(r, (n - 1) as nat);
        F::ax_distr(d, fsum(g, n - 1), p);
        // d*p = r*p - p
        l_distr_r(r, F::f1().fneg(), p);
        l_neg_one_mul(p);
        // (p - 1) + (rp - p) = rp - 1
        let rp = r.fmul(p);
        F::ax_add_comm(rp, p.fneg());
        F::ax_add_comm(p, F::f1().fneg());
        F::ax_add_assoc(F::f1().fneg(), p, p.fneg().fadd(rp));
        F::ax_add_assoc(p, p.fneg(), rp);
        F::ax_neg(p); l_zero_l(rp);
        F::ax_add_comm(F::f1().fneg(), rp);
    }
}
// sum of n ones
pub proof fn l_sum_ones<F: FieldSpec>(n: nat) ensures fsum(|i: int| F::f1(), n as int) == fnat::<F>(n) decreases n {
    if n > 0 { l_sum_ones::<F>((n - 1) as nat); F::ax_add_comm(fnat((n - 1) as nat), F::f1()); }
}
pub proof fn l_nat_add<F: FieldSpec>(m: nat, n: nat) ensures fnat::<F>(m + n) == fnat::<F>(m).fadd(fnat(n)) decreases m {
    if m == 0 { l_zero_l(fnat::<F>(n)); } else { l_nat_add::<F>((m - 1) as nat, n); F::ax_add_assoc(F::f1(), fnat((m - 1) as nat), fnat(n)); assert((m + n - 1) as nat == (m - 1) as nat + n); }
}
pub proof fn l_nat_pow2_nonzero<F: PrimeField>(k: nat) ensures fnat::<F>(pow2(k)) != F::f0() decreases k {
    lemma_pow2_pos(k);
    if k == 0 { lemma2_to64(); F::ax_one_ne_zero(); F::ax_zero(F::f1()); reveal_with_fuel(fnat, 2); }
    else {
        l_nat_pow2_nonzero::<F>((k - 1) as nat); lemma_pow2_unfold(k);
        let h = fnat::<F>(pow2((k - 1) as nat));
        l_nat_add::<F>(pow2((k - 1) as nat), pow2((k - 1) as nat));
        // h + h = h * (1+1)
        F::ax_distr(h, F::f1(), F::f1()); F::ax_one(h); F::ax_two();
        l_mul_nonzero(h, F::f1().fadd(F::f1()));
    }
}
pub proof fn l_cl0<F: FieldSpec>() ensures forall|a: F, b: F| #[trigger] cloned(a, b) ==> a == b {
    assert forall|a: F, b: F| #[trigger] cloned(a, b) implies a == b by { F::ax_clone(a, b); }
}
