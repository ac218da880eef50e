#!/usr/bin/env python3
"""Writes units/polylde.vx: the five low-degree-extension routines share one set of invariants."""
HEAD = r"""// ---- low-degree extension of polynomial objects: real code ----  (written by tools/genpolylde.py)
// out holds the values of x at g * w^i for i < n
pub open spec fn is_ext<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] out[i] == peval(x, g.fmul(fpow(w, i as nat)))
}
pub open spec fn lde_able<F: PrimeField>(p: Polynomial<F, Coefficients>, worker: &Worker, factor: usize) -> bool {
    fft_able(p, worker) && is_p2(factor as int) && p.exp + lg2(factor as int) < 32
}
pub open spec fn lde_fits<F: PrimeField>(p: Polynomial<F, Coefficients>, factor: usize) -> bool { p.exp + lg2(factor as int) <= F::S }
pub open spec fn lde_res<F: PrimeField>(r: Result<Polynomial<F, Values>, SynthesisError>, p: Polynomial<F, Coefficients>, factor: usize, g: F) -> bool {
    &&& r is Ok <==> lde_fits(p, factor)
    &&& r is Ok ==> r->Ok_0.wf() && r->Ok_0.exp == p.exp + lg2(factor as int) && is_ext(r->Ok_0.coeffs@, p.coeffs@, g, r->Ok_0.omega, p.coeffs@.len() * factor)
}
impl<F: PrimeField, P: PolynomialForm> Clone for Polynomial<F, P> {
    #[verifier::external_body] // derived Clone over Copy elements
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn erow<F: FieldSpec>(row: Seq<F>, x: Seq<F>, g: F, w: F, f: int, n0: int, c: int) -> bool {
    row.len() == n0 && forall|e: int| 0 <= e < n0 ==> #[trigger] row[e] == peval(x, g.fmul(fpow(w, (f * e + c) as nat)))
}
// known finding C05-multi-coset-chunk-start: when a worker gets more than one coset (ch > 1), the cosets of its chunk are
// started at the chunk's number instead of its first coset; every other deviation is refuted
pub open spec fn kix(c: int, ch: int) -> int { c / ch + c % ch }
pub open spec fn krow<F: FieldSpec>(row: Seq<F>, x: Seq<F>, g: F, w: F, f: int, n0: int, c: int, ch: int) -> bool {
    erow(row, x, g, w, f, n0, c) || (ch > 1 && erow(row, x, g, w, f, n0, kix(c, ch)))
}
pub open spec fn kcell<F: FieldSpec>(v: F, x: Seq<F>, g: F, w: F, f: int, i: int, ch: int) -> bool {
    v == peval(x, g.fmul(fpow(w, i as nat))) || (ch > 1 && v == peval(x, g.fmul(fpow(w, (i - i % f + kix(i % f, ch)) as nat))))
}
pub open spec fn is_extk<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F, n: int, f: int, ch: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> kcell(#[trigger] out[i], x, g, w, f, i, ch)
}
pub open spec fn lde_resk<F: PrimeField>(r: Result<Polynomial<F, Values>, SynthesisError>, p: Polynomial<F, Coefficients>, factor: usize, g: F, ch: int) -> bool {
    &&& r is Ok <==> lde_fits(p, factor)
    &&& r is Ok ==> r->Ok_0.wf() && r->Ok_0.exp == p.exp + lg2(factor as int) && is_extk(r->Ok_0.coeffs@, p.coeffs@, g, r->Ok_0.omega, p.coeffs@.len() * factor, factor as int, ch)
    &&& ch == 1 ==> lde_res(r, p, factor, g)
}
pub proof fn l_off_div(i: int, ch: int, f: int, k: int) requires 0 <= i < num_chunks(f, ch), ch > 0, f > 0, 0 <= k, off(i, ch, f) + k < off(i + 1, ch, f)
    ensures off(i, ch, f) == i * ch, (off(i, ch, f) + k) / ch == i, (off(i, ch, f) + k) % ch == k
{
    lemma_chunk_step(i, ch, f); assert((i + 1) * ch == i * ch + ch) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(i * ch + k, ch, i, k);
}
pub proof fn l_erow<F: FieldSpec>(row: Seq<F>, x: Seq<F>, g: F, w: F, om: F, f: int, n0: int, c: int, cg: F)
    requires f > 0, c >= 0, cg == g.fmul(fpow(w, c as nat)), om == fpow(w, f as nat), is_coset_dft(row, x, cg, om), x.len() == n0
    ensures erow(row, x, g, w, f, n0, c)
{
    assert forall|e: int| 0 <= e < n0 implies #[trigger] row[e] == peval(x, g.fmul(fpow(w, (f * e + c) as nat))) by {
        assert(f * e >= 0) by (nonlinear_arith) requires f > 0, e >= 0;
        l_pow_mul(w, f as nat, e as nat); l_pow_add(w, c as nat, (f * e) as nat); assert((f * e + c) as nat == c as nat + (f * e) as nat);
        F::ax_mul_assoc(g, fpow(w, c as nat), fpow(w, (f * e) as nat));
        assert(row[e] == peval(x, cg.fmul(fpow(om, e as nat))));
    }
}
pub proof fn l_dft_coset1<F: FieldSpec>(row: Seq<F>, x: Seq<F>, om: F) requires is_dft(row, x, om) ensures is_coset_dft(row, x, F::f1(), om) {
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] row[i] == peval(x, F::f1().fmul(fpow(om, i as nat))) by { l_one_l(fpow(om, i as nat)); }
}
pub proof fn l_cg_step<F: FieldSpec>(g: F, w: F, c: nat) ensures g.fmul(fpow(w, c)).fmul(w) == g.fmul(fpow(w, c + 1)) { F::ax_mul_assoc(g, fpow(w, c), w); l_pow_step(w, c); }
pub proof fn l_eidx(i: int, f: int, n0: int) requires 0 <= i < f * n0, f > 0 ensures 0 <= i % f < f, 0 <= i / f < n0, f * (i / f) + i % f == i {
    lemma_fundamental_div_mod(i, f); lemma_mod_bound(i, f); lemma_div_pos_is_pos(i, f);
    assert(i / f < n0) by (nonlinear_arith) requires i == f * (i / f) + i % f, i < f * n0, i % f >= 0, f > 0;
}
// generators of nested domains
pub proof fn l_dgen_pow<F: PrimeField>(k: nat, d: nat) requires k + d <= F::S ensures fpow(dgen::<F>(k + d), pow2(d)) == dgen::<F>(k) {
    lemma_pow2_mul((F::S - (k + d)) as nat, d); l_pow_mul(F::sroot(), pow2((F::S - (k + d)) as nat), pow2(d)); assert(((F::S - (k + d)) + d) as nat == (F::S - k) as nat);
}
pub proof fn l_padded_eval<F: FieldSpec>(x: Seq<F>, n: int, z: F) requires n >= x.len() ensures peval(padded(x, n), z) == peval(x, z) {
    let a = term(padded(x, n), z); let b = term(x, z);
    assert forall|i: int| x.len() <= i < n implies #[trigger] a(i) == F::f0() by { l_mul_zero(fpow(z, i as nat)); }
    l_sum_tail(a, x.len() as int, n); l_sum_ext(a, b, x.len() as int);
}
pub proof fn l_dft_padded<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F, n: int) requires n >= x.len(), is_dft(out, padded(powered(x, g), n), w) ensures is_ext(out, x, g, w, n) {
    assert forall|i: int| 0 <= i < n implies #[trigger] out[i] == peval(x, g.fmul(fpow(w, i as nat))) by { l_padded_eval(powered(x, g), n, fpow(w, i as nat)); l_peval_powered(x, g, fpow(w, i as nat)); }
}
pub proof fn l_powered_one<F: FieldSpec>(x: Seq<F>) ensures powered(x, F::f1()) == x {
    assert forall|t: int| 0 <= t < x.len() implies powered(x, F::f1())[t] == x[t] by { l_pow_one::<F>(t as nat); F::ax_one(x[t]); }
    assert(powered(x, F::f1()) =~= x);
}
pub proof fn l_coset_ext<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F) requires is_coset_dft(out, x, g, w) ensures is_ext(out, x, g, w, x.len() as int) {}
pub proof fn l_kext<F: FieldSpec>(out: Seq<F>, x: Seq<F>, g: F, w: F, n: int, f: int, ch: int)
    ensures (is_ext(out, x, g, w, n) ==> is_extk(out, x, g, w, n, f, ch)), (is_extk(out, x, g, w, n, f, ch) && ch == 1 ==> is_ext(out, x, g, w, n))
{
    if is_extk(out, x, g, w, n, f, ch) && ch == 1 { assert forall|i: int| 0 <= i < n implies #[trigger] out[i] == peval(x, g.fmul(fpow(w, i as nat))) by { assert(kcell(out[i], x, g, w, f, i, ch)); } }
}
pub proof fn lemma_csz(worker: &Worker, n: int) requires worker.wf(), n >= 0 ensures worker.csz(n) > 0 {
    if n >= worker.cpus { let c = worker.cpus as int; assert(n / c >= 1) by (nonlinear_arith) requires n >= c, c > 0; }
}
// sizes and the enlarged domain
pub proof fn lemma_lde_size<F: PrimeField>(p: Polynomial<F, Coefficients>, worker: &Worker, factor: usize)
    requires lde_able(p, worker, factor)
    ensures ({ let n = p.coeffs@.len() * factor; &&& n == pow2((p.exp + lg2(factor as int)) as nat) &&& np2(n as int) == n &&& n < 0x1_0000_0000 &&& is_p2(n as int) &&& lg2(n as int) == p.exp + lg2(factor as int)
        &&& factor >= 1 &&& factor == pow2(lg2(factor as int)) &&& p.coeffs@.len() >= 1 &&& n >= factor &&& n >= p.coeffs@.len()
        &&& (n <= pow2(F::S as nat) <==> lde_fits(p, factor)) &&& (lde_fits(p, factor) ==> admissible::<F>(n as int)) &&& factor < 0x1_0000_0000 })
{
    let e = p.exp as nat; let lf = lg2(factor as int); let n = p.coeffs@.len() * factor;
    lemma_is_p2(factor as int); lemma_pow2_mul(e, lf); lemma_lg2_pow2(e + lf); lemma_np2(pow2(e + lf) as int); lemma_pow2_strictly_increases(e + lf, 32); lemma2_to64();
    lemma_pow2_pos(e); lemma_pow2_pos(lf);
    assert(n >= factor && n >= p.coeffs@.len()) by (nonlinear_arith) requires n == p.coeffs@.len() * factor, factor >= 1, p.coeffs@.len() >= 1;
    assert(pow2(e + lf) == n); assert(is_p2(n as int));
    if e + lf <= F::S { lemma_pow2_le(e + lf, F::S as nat); } else { lemma_pow2_strictly_increases(F::S as nat, e + lf); }
}
pub proof fn lemma_dom_pow<F: PrimeField>(d: Domain<F>, k: nat) requires d.wf(), d.size == pow2(k) ensures d.power_of_two == k, d.generator == dgen::<F>(k), prim(d.generator, k) { lemma_pow2_inj(d.power_of_two as nat, k); }
pub proof fn lemma_exp<F: PrimeField, P: PolynomialForm>(q: Polynomial<F, P>, k: nat) requires q.wf(), q.coeffs@.len() == pow2(k) ensures q.exp == k { lemma_pow2_inj(q.exp as nat, k); }
"""
GATHER = r"""//@@ loop {O} before
  proof {{ lemma_num_chunks(vx_l{C} as int, vx_c{C} as int); }}
//@@ loop {O}
  invariant f == factor, f > 0, n0 >= 1, vx_l{C} == f * n0, vx_c{C} == chunk, chunk > 0, vx_n{O} == num_chunks(vx_l{C} as int, vx_c{C} as int), vx_k{O} <= vx_n{O}, final_values@.len() == vx_l{C},
    results_ref@.len() == f, forall|c: int| 0 <= c < f ==> erow(#[trigger] results_ref@[c]@, x, g, w, f, n0, c),
    forall|i: int| 0 <= i < off(vx_k{O} as int, vx_c{C} as int, vx_l{C} as int) ==> #[trigger] final_values@[i] == peval(x, g.fmul(fpow(w, i as nat))),
  decreases vx_n{O} - vx_k{O}
//@@ loop {O} start
  let ghost o = off(vx_i{O} as int, vx_c{C} as int, vx_l{C} as int); let ghost o2 = off(vx_i{O} + 1, vx_c{C} as int, vx_l{C} as int); let ghost pre = final_values@;
  proof {{ lemma_chunk_step(vx_i{O} as int, vx_c{C} as int, vx_l{C} as int); }}
//@@ loop {I}
  invariant f == factor, f > 0, n0 >= 1, vx_l{C} == f * n0, vx_n{I} == o2 - o, v@.len() == vx_n{I}, vx_k{I} <= vx_n{I}, 0 <= o, o2 <= vx_l{C}, idx == o + vx_k{I},
    results_ref@.len() == f, forall|c: int| 0 <= c < f ==> erow(#[trigger] results_ref@[c]@, x, g, w, f, n0, c),
    forall|k: int| 0 <= k < vx_k{I} ==> #[trigger] v@[k] == peval(x, g.fmul(fpow(w, (o + k) as nat))),
  decreases vx_n{I} - vx_k{I}
//@@ loop {I} start
  proof {{ l_eidx(idx as int, f, n0); assert(erow(results_ref@[idx as int % f]@, x, g, w, f, n0, idx as int % f)); }}
//@@ loop {O} end
  proof {{ assert forall|i: int| 0 <= i < o2 implies #[trigger] final_values@[i] == peval(x, g.fmul(fpow(w, i as nat))) by {{
      if i < o {{ assert(final_values@[i] == pre[i]); }} else {{ assert(o + (i - o) == i); }} }} }}
//@@ loop {O} after
  proof {{ assert(padded(final_values@, f * n0) =~= final_values@); l_exp_all::<F>(kk); }}
"""
FILL = r"""//@@ stmt "let mut results" after
  proof { assert(domain.wf()); lemma_dom_pow(domain, kk); l_dgen_pow::<F>(self.exp as nat, lf); w = domain.generator; assert(self.exp as nat + lf == kk); l_cl0::<F>(); }
//@@ stmt "let log_n" after
  let ghost om = this_domain_omega; 
  proof { l_dgen_prim::<F>(log_n as nat); }
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant f == factor, f > 0, ch > 0, vx_l1 == f, vx_c1 == chunk, ch == chunk, chunk > 0, f < 0x1_0000_0000, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1, results@.len() == f, w == coset_omega, om == this_domain_omega, om == fpow(w, f as nat), prim(om, log_n as nat), log_n < 32,
    coeffs@ == x, x.len() == n0, n0 == pow2(log_n as nat), worker.wf(), worker.cpus < 0x8000_0000_0000_0000, num_cpus_hint matches Some(h) ==> 1 <= h <= worker.cpus, forall|a: F, b: F| #[trigger] cloned(a, b) ==> a == b, GI
    forall|c: int| 0 <= c < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> krow(#[trigger] results@[c]@, x, g, w, f, n0, c, ch),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost fo = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); let ghost fo2 = off(vx_i1 + 1, vx_c1 as int, vx_l1 as int); let ghost rpre = results@;
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ stmt "let coeffs_for_coset" after
  proof { assert(coeffs_for_coset@ =~= x); }
//@@ loop 2 before
  proof { l_one_l(fpow(w, fo as nat)); F::ax_mul_comm(g, fpow(w, fo as nat)); l_one_l(fpow(w, vx_i1 as nat)); F::ax_mul_comm(g, fpow(w, vx_i1 as nat)); }
  let ghost st: int = if coset_generator == g.fmul(fpow(w, fo as nat)) { fo } else { vx_i1 as int };
  proof { if ch == 1 { assert((vx_i1 as int) * 1 == vx_i1 as int); assert(fo == vx_i1 as int); } }
//@@ loop 2
  invariant ch == 1 ==> st == fo, f == factor, f > 0, ch > 0, 0 <= vx_i1 < num_chunks(f, ch), fo == off(vx_i1 as int, ch, f), fo2 == off(vx_i1 + 1, ch, f), st == fo || (st == vx_i1), vx_n2 == fo2 - fo, r@.len() == vx_n2, vx_k2 <= vx_n2, 0 <= fo, fo2 <= f, coset_omega == w, om == this_domain_omega, om == fpow(w, f as nat), prim(om, log_n as nat), log_n < 32, coeffs_for_coset@ == x, x.len() == n0, n0 == pow2(log_n as nat),
    worker.wf(), worker.cpus < 0x8000_0000_0000_0000, num_cpus_hint matches Some(h) ==> 1 <= h <= worker.cpus, forall|a: F, b: F| #[trigger] cloned(a, b) ==> a == b,
    coset_generator == g.fmul(fpow(w, (st + vx_k2) as nat)),
    forall|k: int| 0 <= k < vx_k2 ==> krow(#[trigger] r@[k]@, x, g, w, f, n0, fo + k, ch),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost r0 = r@; let ghost cg = coset_generator;
  proof { l_cg_step(g, w, (st + vx_i2) as nat); l_off_div(vx_i1 as int, ch, f, vx_i2 as int); }
//@@ stmt "let mut c =" after
  proof { assert(c@ =~= x); }
//@@ stmt "best_fft (" after
  proof { l_coset_dft(c@, x, cg, om); l_erow(c@, x, g, w, om, f, n0, st + vx_i2, cg); if ch == 1 { assert(st == fo); } }
//@@ loop 1 end
  proof { assert forall|c: int| 0 <= c < fo2 implies krow(#[trigger] results@[c]@, x, g, w, f, n0, c, ch) by {
      if c < fo { assert(results@[c] == rpre[c]); } else { assert(fo + (c - fo) == c); } } }
"""
BEGIN = r"""//@@ begin
  let ghost x = self.coeffs@; let ghost g: F = GG; let ghost ee = self.exp as nat; let ghost lf = lg2(factor as int); let ghost kk = (self.exp + lf) as nat; let ghost f = factor as int; let ghost n0 = self.coeffs@.len() as int; let ghost mut w: F = F::f1();
  proof { lemma_lde_size(self, worker, factor); l_powered_one(x); assert(n0 * f == f * n0) by (nonlinear_arith); lemma_pow2_le(self.exp as nat, kk); lemma2_to64(); F::ax_gen();
    assert forall|o: Seq<F>, om: F| #[trigger] is_dft(o, x, om) implies is_coset_dft(o, x, F::f1(), om) by { l_dft_coset1(o, x, om); }
    if factor == 1 { assert(lf == 0); assert(n0 * 1 == n0); }
    if worker.cpus > factor { lemma_basic_div(factor as int, worker.cpus as int); lemma_small_mod(factor as nat, worker.cpus as nat); } }
"""
NFILL = r"""//@@ stmt "let mut results" after
  proof { assert(domain.wf()); lemma_dom_pow(domain, kk); l_dgen_pow::<F>(self.exp as nat, lf); w = domain.generator; assert(self.exp as nat + lf == kk); F::ax_one(F::f1()); F::ax_one(g); }
//@@ loop 1
  invariant f == factor, f > 0, vx_n1 == f, vx_k1 <= f, results@.len() == vx_k1, w == domain.generator, self.omega == fpow(w, f as nat), self.coeffs@ == x, x.len() == n0, fft_able(self, worker), ONE
    forall|o: Seq<F>, om: F| #[trigger] is_dft(o, x, om) ==> is_coset_dft(o, x, F::f1(), om),
    coset_generator == g.fmul(fpow(w, vx_k1 as nat)),
    forall|c: int| 0 <= c < vx_k1 ==> erow(#[trigger] results@[c]@, x, g, w, f, n0, c),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost cg = coset_generator; let ghost rpre = results@;
  proof { l_cg_step(g, w, vx_i1 as nat); }
//@@ stmt "results . push" before
  let ghost row = lde.coeffs@;
  proof { assert(is_coset_dft(row, x, cg, self.omega)); l_erow(row, x, g, w, self.omega, f, n0, vx_i1 as int, cg); }
//@@ loop 1 end
  proof { assert forall|c: int| 0 <= c < vx_k1 implies erow(#[trigger] results@[c]@, x, g, w, f, n0, c) by { if c < vx_i1 { assert(results@[c] == rpre[c]); } } }
"""
SPEC = "requires lde_able(self, worker, factor)\nensures lde_res(r, self, factor, GG)\n"
out = HEAD + r"""pub proof fn l_exp_all<F: PrimeField>(k: nat) ensures forall|q: Polynomial<F, Values>| #[trigger] q.wf() && q.coeffs@.len() == pow2(k) ==> q.exp == k {
    assert forall|q: Polynomial<F, Values>| #[trigger] q.wf() && q.coeffs@.len() == pow2(k) implies q.exp == k by { lemma_exp(q, k); }
}
"""
def kg(t):
    return (t.replace("erow(#[trigger] results_ref@[c]@, x, g, w, f, n0, c)", "krow(#[trigger] results_ref@[c]@, x, g, w, f, n0, c, ch)").replace("f > 0, n0 >= 1", "f > 0, ch > 0, n0 >= 1")
        .replace("#[trigger] final_values@[i] == peval(x, g.fmul(fpow(w, i as nat)))", "kcell(#[trigger] final_values@[i], x, g, w, f, i, ch)")
        .replace("#[trigger] v@[k] == peval(x, g.fmul(fpow(w, (o + k) as nat)))", "kcell(#[trigger] v@[k], x, g, w, f, o + k, ch)")
        .replace("assert(erow(results_ref@[idx as int % f]@, x, g, w, f, n0, idx as int % f));", "assert(krow(results_ref@[idx as int % f]@, x, g, w, f, n0, idx as int % f, ch)); assert(idx - idx as int % f == f * (idx as int / f));")
        .replace("l_exp_all::<F>(kk); }", "l_exp_all::<F>(kk); l_kext(final_values@, x, g, w, f * n0, f, ch); }"))
KSPEC = "requires lde_able(self, worker, factor)\nensures lde_resk(r, self, factor, GG, worker.csz(factor as int))\n"
KBEGIN = BEGIN.replace("let ghost mut w", "let ghost ch = worker.csz(factor as int); let ghost mut w").replace("if factor == 1 {", "lemma_csz(worker, factor as int); if factor == 1 { assert forall|o: Seq<F>, om: F| #[trigger] is_coset_dft(o, x, g, om) implies is_extk(o, x, g, om, n0, 1, ch) by { l_kext(o, x, g, om, n0, 1, ch); }")
for name, g in (("lde_using_multiple_cosets", "F::f1()"), ("coset_lde_using_multiple_cosets", "F::sgen()")):
    out += "//@@ fn src/polynomials/mod.rs Polynomial::%s ret=r\n" % name + KSPEC.replace("GG", g) + KBEGIN.replace("GG", g) + FILL.replace("GI", "g == %s," % g) + kg(GATHER.format(O=3, I=4, C=2)) + "//@@ endfn\n"
for name, g in (("lde_using_multiple_cosets_naive", "F::f1()"), ("coset_lde_using_multiple_cosets_naive", "F::sgen()")):
    one = "one == F::f1()," if g == "F::f1()" else ""
    sub = '//@@ subst "coset_generator == one" => "coset_generator . eq_ (& one)"\n' if one else ""
    out += "//@@ fn src/polynomials/mod.rs Polynomial::%s ret=r\n" % name + SPEC.replace("GG", g) + sub + '//@@ subst "let mut results = Vec :: new ()" => "let mut results : Vec < Vec < F >> = Vec :: new ()"\n' + BEGIN.replace("GG", g) + NFILL.replace("ONE", one) + GATHER.format(O=2, I=3, C=1) + "//@@ endfn\n"
FILT = r"""//@@ stmt "lde . resize" after
  proof { lemma_dom_pow(domain, kk); l_cl0::<F>(); assert((kk - lf) as nat == ee); assert(lde@ =~= padded(powered(x, g), f * n0)); }
//@@ stmt "best_lde (" after
  proof { l_dft_padded(lde@, x, g, domain.generator, f * n0); assert(padded(lde@, f * n0) =~= lde@); l_exp_all::<F>(kk); }
//@@ endfn
"""
for name, g in (("filtering_lde", "F::f1()"), ("coset_filtering_lde", "F::sgen()")):
    out += "//@@ fn src/polynomials/mod.rs Polynomial::%s ret=r\n" % name + SPEC.replace("GG", g) + (BEGIN.replace("self", "vx_self") if name[0] == "c" else BEGIN).replace("GG", g) + FILT
for name, g in (("lde", "F::f1()"), ("coset_lde", "F::sgen()")):
    out += "//@@ fn src/polynomials/mod.rs Polynomial::%s ret=r\n" % name + KSPEC.replace("GG", g) + "//@@ endfn\n"
DEG1 = r"""requires self.coeffs@.len() == 2, worker.wf()
ensures r is Ok <==> np2(domain_size as int) <= pow2(F::S as nat) && np2(domain_size as int) < 0x1_0000_0000_0000_0000,
  r is Ok ==> r->Ok_0.wf() && is_ext(r->Ok_0.coeffs@, self.coeffs@, GG, r->Ok_0.omega, np2(domain_size as int))
//@@ begin
  let ghost g0: F = GG; let ghost x = self.coeffs@;
  proof { lemma_np2_big(domain_size as int); lemma_np2(domain_size as int); }
//@@ stmt "let g =" after
  let ghost w = g; let ghost n = np2(domain_size as int);
  proof { l_dom_ok(domain); lemma_np2(n); lemma_np2_big(n); lemma_lg2_pow2(domain.power_of_two as nat); }
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == n, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1, w == g, result@.len() == n, x.len() == 2, c == x[0], alpha == x[1], GI
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] result@[i] == peval(x, g0.fmul(fpow(w, i as nat))),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = result@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); let ghost o2 = off(vx_i1 + 1, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2 before
  proof { F::ax_mul_comm(g0, fpow(w, o as nat)); F::ax_one(fpow(w, o as nat)); }
//@@ loop 2
  invariant vx_n2 == o2 - o, v@.len() == vx_n2, vx_k2 <= vx_n2, o >= 0, w == g, x.len() == 2, c == x[0], alpha == x[1], u == g0.fmul(fpow(w, (o + vx_k2) as nat)),
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == peval(x, g0.fmul(fpow(w, (o + i) as nat))),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_cg_step(g0, w, (o + vx_i2) as nat); l_deg1(x, u); }
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < o2 implies #[trigger] result@[i] == peval(x, g0.fmul(fpow(w, i as nat))) by {
      if i < o { assert(result@[i] == pre[i]); } else { assert(o + (i - o) == i); } } }
//@@ loop 1 after
  proof { lemma_is_p2(n); assert(padded(result@, np2(n)) =~= result@); assert forall|q: Polynomial<F, Values>| #[trigger] q.wf() && q.coeffs@.len() == n implies q.omega == w by { lemma_pow2_inj(q.exp as nat, domain.power_of_two as nat); } }
//@@ endfn
"""
out += """pub proof fn l_deg1<F: FieldSpec>(x: Seq<F>, u: F) requires x.len() == 2 ensures peval(x, u) == x[1].fmul(u).fadd(x[0]) {
    reveal_with_fuel(fsum, 3); let t = term(x, u); l_pow1(u); F::ax_one(x[0]); l_zero_l(t(0)); F::ax_add_comm(t(0), t(1));
}
"""
for name, g in (("evaluate_at_domain_for_degree_one", "F::f1()"), ("coset_evaluate_at_domain_for_degree_one", "F::sgen()")):
    out += "//@@ fn src/polynomials/mod.rs Polynomial::%s ret=r\n" % name + DEG1.replace("GG", g).replace("GI", "g0 == %s," % g)
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../units/polylde.vx', 'w').write(out)
