// ---- shared by both FRI provers ----
pub open spec fn ivl<F: PrimeField>(leaf: Seq<F>, iv: Seq<Polynomial<F, Values>>, r: int) -> Seq<F> { if r <= 0 { leaf } else { iv[r - 1].coeffs@ } }
pub open spec fn ici<F: PrimeField>(l0: TrivialBlake2sIOP<F>, ic: Seq<TrivialBlake2sIOP<F>>, r: int) -> TrivialBlake2sIOP<F> { if r <= 0 { l0 } else { ic[r - 1] } }
pub proof fn l_dgen_pw<F: PrimeField>(k: nat, d: nat) requires k + d <= F::S ensures fpow(dgen::<F>(k + d), pow2(d)) == dgen::<F>(k) {
    lemma_pow2_mul((F::S - (k + d)) as nat, d); l_pow_mul(F::sroot(), pow2((F::S - (k + d)) as nat), pow2(d)); assert(((F::S - (k + d)) + d) as nat == (F::S - k) as nat);
}
pub proof fn lemma_shr1(x: usize) ensures x >> 1usize == x / 2, x >> 1i32 == x / 2 { assert(x >> 1usize == x / 2) by (bit_vector); assert(x >> 1i32 == x / 2) by (bit_vector); }
pub proof fn l_fold_omega<F: PrimeField>(k: nat, r: nat, j: nat) requires r <= k, k <= F::S, dgen::<F>(k) != F::f0()
    ensures fpow(dgen::<F>(k).finv(), j * pow2(r)) == fpow(dgen::<F>((k - r) as nat).finv(), j)
{
    let w = dgen::<F>(k); l_dgen_pw::<F>((k - r) as nat, r); l_pow_inv(w, pow2(r)); assert(j * pow2(r) == pow2(r) * j) by (nonlinear_arith); l_pow_mul(w.finv(), pow2(r), j);
}
pub proof fn l_idx_bound(idx: int, r: nat, a: nat) requires 0 <= idx < pow2(a) ensures 0 <= idx * pow2(r) < pow2(a + r), pow2(a + r) == pow2(a) * pow2(r) {
    lemma_pow2_adds(a, r); lemma_pow2_pos(r); assert(idx * pow2(r) < pow2(a) * pow2(r)) by (nonlinear_arith) requires 0 <= idx < pow2(a), pow2(r) > 0; assert(idx * pow2(r) >= 0) by (nonlinear_arith) requires 0 <= idx, pow2(r) > 0;
}
pub proof fn l_fri_sizes(n: int, k: nat, lf: int, out: int)
    requires n == pow2(k), k < 64, is_p2(lf), is_p2(out), 2 <= lf * out <= n, lf >= 1, out >= 1
    ensures lg2(lf) + lg2(out) <= k, lg2(lf) + lg2(out) >= 1, n / lf == pow2((k - lg2(lf)) as nat), n / lf * lf == n, (n / lf) / out == pow2((k - lg2(lf) - lg2(out)) as nat), (n / lf) / out >= 1, n / lf == out * pow2((k - lg2(lf) - lg2(out)) as nat),
      lg2((n / lf) / out) == k - lg2(lf) - lg2(out)
{
    lemma_is_p2(lf); lemma_is_p2(out); let a = lg2(lf); let b = lg2(out); lemma_pow2_adds(a, b); lemma2_to64();
    if a + b > k { lemma_pow2_step(k); lemma_pow2_le(k + 1, a + b); lemma_pow2_pos(k); }
    let d = (k - a) as nat; lemma_pow2_adds(a, d); assert(n == pow2(d) * lf && n == lf * pow2(d)) by (nonlinear_arith) requires n == pow2(a) * pow2(d), lf == pow2(a); lemma_fundamental_div_mod_converse(n, lf, pow2(d) as int, 0);
    let e = (d - b) as nat; lemma_pow2_adds(b, e); assert(pow2(d) == pow2(e) * out) by (nonlinear_arith) requires pow2(d) == pow2(b) * pow2(e), out == pow2(b);
    lemma_fundamental_div_mod_converse(pow2(d) as int, out, pow2(e) as int, 0); lemma_pow2_pos(e); lemma_lg2_pow2(e);
    if a == 0 && b == 0 { assert(lf * out == 1); }
}
// ---- what a folding step does to the polynomial: even(X) + c * odd(X) ----
pub open spec fn eo<F: FieldSpec>(c: Seq<F>, ch: F) -> Seq<F> { Seq::new((c.len() / 2) as nat, |i: int| c[2 * i].fadd(ch.fmul(c[2 * i + 1]))) }
// a holds the values of the polynomial c on the domain of 2^k elements
pub open spec fn evals<F: PrimeField>(a: Seq<F>, c: Seq<F>, k: nat) -> bool {
    a.len() == pow2(k) && forall|j: int| 0 <= j < pow2(k) ==> #[trigger] a[j] == peval(c, fpow(dgen::<F>(k), j as nat))
}
//@@ ring r_foldstep e x o u c t : (((e+x*o)-(e-x*o))*u*c+((e+x*o)+(e-x*o)))*t == (e+(x*u)*(c*o))*t+(e+(x*u)*(c*o))*t
//@@ ring r_twice y t : y*t+y*t == y*(t+t)
pub open spec fn evp<F: FieldSpec>(c: Seq<F>) -> Seq<F> { Seq::new((c.len() / 2) as nat, |i: int| c[2 * i]) }
pub open spec fn odp<F: FieldSpec>(c: Seq<F>) -> Seq<F> { Seq::new((c.len() / 2) as nat, |i: int| c[2 * i + 1]) }
pub proof fn l_even_odd<F: FieldSpec>(c: Seq<F>, x: F) requires c.len() % 2 == 0
    ensures peval(c, x) == peval(evp(c), x.fmul(x)).fadd(x.fmul(peval(odp(c), x.fmul(x))))
{
    let m = c.len() as int / 2; let f = term(c, x); let y = x.fmul(x);
    l_sum_even_odd(f, m);
    let e = |t: int| f(2 * t); let o = |t: int| f(2 * t + 1); let te = term(evp(c), y); let to = term(odp(c), y);
    assert forall|t: int| 0 <= t < m implies #[trigger] e(t) == te(t) by { l_pow2(x); l_pow_mul(x, 2, t as nat); }
    l_sum_ext(e, te, m);
    let xo = |t: int| x.fmul(to(t));
    assert forall|t: int| 0 <= t < m implies #[trigger] o(t) == xo(t) by {
        l_pow2(x); l_pow_mul(x, 2, t as nat); l_pow_step(x, (2 * t) as nat); assert((2 * t + 1) as nat == (2 * t) as nat + 1);
        l_mul3(c[2 * t + 1], x, fpow(x, (2 * t) as nat));
    }
    l_sum_ext(o, xo, m); l_sum_scale(x, to, m);
}
pub proof fn l_eo_eval<F: FieldSpec>(c: Seq<F>, ch: F, y: F) ensures peval(eo(c, ch), y) == peval(evp(c), y).fadd(ch.fmul(peval(odp(c), y))) {
    let m = (c.len() / 2) as int; let te = term(evp(c), y); let to = term(odp(c), y); let t = term(eo(c, ch), y); let co = |i: int| ch.fmul(to(i)); let s = |i: int| te(i).fadd(co(i));
    assert forall|i: int| 0 <= i < m implies #[trigger] t(i) == s(i) by { let p = fpow(y, i as nat); l_distr_r(c[2 * i], ch.fmul(c[2 * i + 1]), p); F::ax_mul_assoc(ch, c[2 * i + 1], p); }
    l_sum_ext(t, s, m); l_sum_add(te, co, m); l_sum_scale(ch, to, m);
}
// one folding step, at one pair of points
pub proof fn l_fold_point<F: PrimeField>(c: Seq<F>, ch: F, x: F) requires c.len() % 2 == 0, x != F::f0()
    ensures ffold(peval(c, x), peval(c, x.fneg()), ch, x.finv()) == peval(eo(c, ch), x.fmul(x))
{
    let y = x.fmul(x); let e = peval(evp(c), y); let o = peval(odp(c), y); let t = ftwo::<F>().finv(); let u = x.finv();
    F::ax_two(); l_even_odd(c, x); l_even_odd(c, x.fneg()); l_mul_neg(x, x); l_mul_neg(x.fneg(), x); l_neg_neg(y); assert(x.fneg().fmul(x.fneg()) == y);
    l_mul_neg(x, o); l_eo_eval(c, ch, y);
    r_foldstep(e, x, o, u, ch, t); F::ax_inv(x); l_one_l(ch.fmul(o)); let v = e.fadd(ch.fmul(o)); r_twice(v, t);
    F::ax_inv(ftwo::<F>()); l_distr_r(F::f1(), F::f1(), t); l_one_l(t); F::ax_one(v);
}
pub proof fn l_fold_evals<F: PrimeField>(a: Seq<F>, b: Seq<F>, c: Seq<F>, ch: F, k: nat)
    requires 1 <= k <= F::S, c.len() % 2 == 0, evals(a, c, k), b.len() == pow2((k - 1) as nat), layer_folds(a, b, ch, k)
    ensures evals(b, eo(c, ch), (k - 1) as nat)
{
    let w = dgen::<F>(k); let h = pow2((k - 1) as nat) as int; lemma_pow2_step((k - 1) as nat); l_dgen_prim::<F>(k); l_prim_nonzero(w, k); l_dgen_sq::<F>(k);
    assert forall|j: int| 0 <= j < h implies #[trigger] b[j] == peval(eo(c, ch), fpow(dgen::<F>((k - 1) as nat), j as nat)) by {
        let x = fpow(w, j as nat); l_pow_nonzero(w, j as nat); l_pow_inv(w, j as nat);
        l_pow_add(w, j as nat, h as nat); l_neg_one_mul(x); assert(fpow(w, (j + h) as nat) == x.fneg());
        assert(a[j] == peval(c, x)); assert(a[j + h] == peval(c, x.fneg()));
        l_fold_point(c, ch, x); l_pow_mulbase(w, w, j as nat);
    }
}
// the polynomial of round r
pub open spec fn rpoly<F: FieldSpec>(c: Seq<F>, ch: Seq<F>, r: int) -> Seq<F> decreases r { if r <= 0 { c } else { eo(rpoly(c, ch, r - 1), ch[r - 1]) } }
pub proof fn l_rpoly_len<F: FieldSpec>(c: Seq<F>, ch: Seq<F>, out: nat, s: nat, r: nat) requires c.len() == out * pow2(s), r <= s ensures rpoly(c, ch, r as int).len() == out * pow2((s - r) as nat) decreases r {
    if r > 0 { l_rpoly_len(c, ch, out, s, (r - 1) as nat); lemma_pow2_step((s - r) as nat); let h = pow2((s - r) as nat); assert(out * (2 * h) == 2 * (out * h)) by (nonlinear_arith); }
}
pub proof fn l_layers_are_polys<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>, out: nat, r: nat)
    requires pl_committed(p, leaf), pl_folded(p, leaf), c.len() == out * pow2(p.intermediate_values@.len()), evals(leaf, c, lg2(p.initial_degree_plus_one * p.lde_factor)), r <= p.intermediate_values@.len()
    ensures evals(pl_layer(p, leaf, r as int), rpoly(c, p.challenges@, r as int), (lg2(p.initial_degree_plus_one * p.lde_factor) - r) as nat), rpoly(c, p.challenges@, r as int).len() == out * pow2((p.intermediate_values@.len() - r) as nat)
    decreases r
{
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len();
    l_rpoly_len(c, p.challenges@, out, s, r);
    if r > 0 {
        l_layers_are_polys(p, leaf, c, out, (r - 1) as nat);
        let q = rpoly(c, p.challenges@, r - 1); lemma_pow2_step((s - r) as nat); let h = pow2((s - r) as nat); assert(out * (2 * h) == 2 * (out * h)) by (nonlinear_arith);
        assert(layer_folds(pl_layer(p, leaf, r - 1), pl_layer(p, leaf, r - 1 + 1), p.challenges@[r - 1], (k - (r - 1)) as nat));
        assert(pl_layer(p, leaf, r as int).len() == pow2((k - r) as nat));
        l_fold_evals(pl_layer(p, leaf, r - 1), pl_layer(p, leaf, r as int), q, p.challenges@[r - 1], (k - (r - 1)) as nat);
    }
}
// values on a domain determine the polynomial
pub proof fn l_evals_unique<F: PrimeField>(a: Seq<F>, x: Seq<F>, c: Seq<F>, k: nat) requires k <= F::S, c.len() <= pow2(k), is_dft(a, x, dgen::<F>(k)), evals(a, c, k)
    ensures x == padded(c, pow2(k) as int)
{
    let w = dgen::<F>(k); let n = pow2(k) as int; let y = padded(c, n); l_dgen_prim::<F>(k);
    assert forall|i: int| 0 <= i < n implies #[trigger] a[i] == peval(y, fpow(w, i as nat)) by { l_padded_ev(c, n, fpow(w, i as nat)); }
    assert forall|i: int| 0 <= i < n implies x[i] == y[i] by { thm_dft_unique(a, x, w, k, i); thm_dft_unique(a, y, w, k, i); }
    assert(x =~= y);
}
pub proof fn l_padded_ev<F: FieldSpec>(x: Seq<F>, n: int, z: F) requires n >= x.len() ensures peval(padded(x, n), z) == peval(x, z) {
    let a = term(padded(x, n), z); let b = term(x, z);
    assert forall|i: int| x.len() <= i < n implies #[trigger] a(i) == F::f0() by { l_mul_zero(fpow(z, i as nat)); }
    l_sum_tail(a, x.len() as int, n); l_sum_ext(a, b, x.len() as int);
}
// what "the FRI prototype of the polynomial c" means, whichever way it was computed
pub open spec fn pl_of<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>) -> bool {
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len() as int;
    &&& pl_committed(p, leaf)
    &&& forall|r: int| 0 <= r <= s ==> evals(#[trigger] pl_layer(p, leaf, r), rpoly(c, p.challenges@, r), (k - r) as nat)
    &&& p.final_coefficients@ == rpoly(c, p.challenges@, s)
    &&& p.final_root@ == nd(pl_layer(p, leaf, s), 1)
    &&& p.initial_degree_plus_one == c.len() && c.len() == p.output_coeffs_at_degree_plus_one * pow2(s as nat)
}
// the by-values prototype of a low-degree evaluation is the prototype of its polynomial
pub proof fn thm_by_values<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>, x: Seq<F>)
    requires pl_committed(p, leaf), pl_folded(p, leaf), evals(leaf, c, lg2(p.initial_degree_plus_one * p.lde_factor)), c.len() == p.initial_degree_plus_one,
      p.initial_degree_plus_one == p.output_coeffs_at_degree_plus_one * pow2(p.intermediate_values@.len()), p.lde_factor >= 1,
      p.final_root@ == nd(pl_layer(p, leaf, p.intermediate_values@.len() as int), 1),
      x.len() >= p.output_coeffs_at_degree_plus_one, p.final_coefficients@ == x.subrange(0, p.output_coeffs_at_degree_plus_one as int),
      is_dft(pl_layer(p, leaf, p.intermediate_values@.len() as int), x, dgen::<F>((lg2(p.initial_degree_plus_one * p.lde_factor) - p.intermediate_values@.len()) as nat))
    ensures pl_of(p, leaf, c), pl_honest(p, leaf)
{
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len(); let out = p.output_coeffs_at_degree_plus_one as nat; let chs = p.challenges@; let last = pl_layer(p, leaf, s as int);
    l_layers_are_polys(p, leaf, c, out, s); lemma2_to64(); let q = rpoly(c, chs, s as int); assert(q.len() == out * 1);
    assert(evals(last, q, (k - s) as nat));
    l_out_le((p.initial_degree_plus_one * p.lde_factor) as int, out as int, p.lde_factor as int, s, k);
    l_evals_unique(last, x, q, (k - s) as nat);
    assert(p.final_coefficients@ =~= q);
    assert forall|r: int| 0 <= r <= s implies evals(#[trigger] pl_layer(p, leaf, r), rpoly(c, chs, r), (k - r) as nat) by { l_layers_are_polys(p, leaf, c, out, r as nat); }
    assert(pl_of(p, leaf, c));
    l_of_honest(p, leaf, c);
}
pub proof fn l_out_le(n: int, out: int, lf: int, s: nat, k: nat) requires is_p2(n), k == lg2(n), s <= k, n == out * pow2(s) * lf, lf >= 1, out >= 0 ensures out <= pow2((k - s) as nat) {
    lemma_is_p2(n); let m = pow2((k - s) as nat) as int; lemma_pow2_adds((k - s) as nat, s); lemma_pow2_pos(s); let ps = pow2(s) as int;
    assert(out <= m) by (nonlinear_arith) requires out * ps * lf == m * ps, lf >= 1, ps >= 1, out >= 0;
}
pub proof fn l_of_honest<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>) requires pl_of(p, leaf, c), pl_folded(p, leaf) ensures pl_honest(p, leaf) {
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len() as int;
    let out = p.output_coeffs_at_degree_plus_one as nat; l_rpoly_len(c, p.challenges@, out, s as nat, s as nat); lemma2_to64(); assert(out * 1 == out);
    assert(evals(pl_layer(p, leaf, s), rpoly(c, p.challenges@, s), (k - s) as nat));
}
// there is only one prototype of a polynomial: layers, challenges, final coefficients and roots agree
pub proof fn thm_prototype_unique<F: PrimeField>(p: FRIProofPrototype<F>, q: FRIProofPrototype<F>, leaf: Seq<F>, c: Seq<F>, r: int)
    requires pl_of(p, leaf, c), pl_of(q, leaf, c), p.lde_factor == q.lde_factor, p.output_coeffs_at_degree_plus_one == q.output_coeffs_at_degree_plus_one, 0 <= r <= p.intermediate_values@.len(), p.output_coeffs_at_degree_plus_one >= 1
    ensures p.intermediate_values@.len() == q.intermediate_values@.len(), rpoly(c, p.challenges@, r) == rpoly(c, q.challenges@, r), pl_layer(p, leaf, r) == pl_layer(q, leaf, r),
      r < p.intermediate_values@.len() ==> p.challenges@[r] == q.challenges@[r],
      r == p.intermediate_values@.len() ==> p.final_coefficients@ == q.final_coefficients@ && p.final_root@ == q.final_root@
    decreases r
{
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len(); let t = q.intermediate_values@.len(); let out = p.output_coeffs_at_degree_plus_one as int;
    lemma_pow2_pos(s); lemma_pow2_pos(t);
    assert(pow2(s) == pow2(t)) by (nonlinear_arith) requires out * pow2(s) == out * pow2(t), out >= 1;
    lemma_lg2_pow2(s); lemma_lg2_pow2(t);
    if r > 0 {
        thm_prototype_unique(p, q, leaf, c, r - 1);
        assert(evals(pl_layer(p, leaf, r), rpoly(c, p.challenges@, r), (k - r) as nat)); assert(evals(pl_layer(q, leaf, r), rpoly(c, q.challenges@, r), (k - r) as nat));
        assert forall|j: int| 0 <= j < pow2((k - r) as nat) implies pl_layer(p, leaf, r)[j] == pl_layer(q, leaf, r)[j] by { assert(pl_layer(p, leaf, r)[j] == peval(rpoly(c, p.challenges@, r), fpow(dgen::<F>((k - r) as nat), j as nat))); assert(pl_layer(q, leaf, r)[j] == peval(rpoly(c, p.challenges@, r), fpow(dgen::<F>((k - r) as nat), j as nat))); }
        assert(pl_layer(p, leaf, r) =~= pl_layer(q, leaf, r));
    }
}
// a and b hold consecutive round polynomials, so b is the fold of a
pub proof fn l_evals_fold<F: PrimeField>(a: Seq<F>, b: Seq<F>, c: Seq<F>, ch: F, k: nat)
    requires 1 <= k <= F::S, c.len() % 2 == 0, evals(a, c, k), evals(b, eo(c, ch), (k - 1) as nat)
    ensures layer_folds(a, b, ch, k)
{
    let w = dgen::<F>(k); let h = pow2((k - 1) as nat) as int; lemma_pow2_step((k - 1) as nat); l_dgen_prim::<F>(k); l_prim_nonzero(w, k); l_dgen_sq::<F>(k);
    assert forall|j: int| 0 <= j < h implies #[trigger] b[j] == ffold(a[j], a[j + h], ch, fpow(w.finv(), j as nat)) by {
        let x = fpow(w, j as nat); l_pow_nonzero(w, j as nat); l_pow_inv(w, j as nat);
        l_pow_add(w, j as nat, h as nat); l_neg_one_mul(x); assert(fpow(w, (j + h) as nat) == x.fneg());
        assert(a[j] == peval(c, x)); assert(a[j + h] == peval(c, x.fneg()));
        l_fold_point(c, ch, x); l_pow_mulbase(w, w, j as nat);
        assert(b[j] == peval(eo(c, ch), fpow(dgen::<F>((k - 1) as nat), j as nat)));
    }
}
