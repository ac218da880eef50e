// ---- transforms of polynomial objects: real code ----
pub open spec fn fft_able<F: PrimeField, P: PolynomialForm>(p: Polynomial<F, P>, worker: &Worker) -> bool { p.wf() && p.exp < 32 && worker.wf() && worker.cpus < 0x8000_0000_0000_0000 }
// the same domain constants, whatever the form
pub open spec fn dom_eq<F: PrimeField, P: PolynomialForm, Q: PolynomialForm>(p: Polynomial<F, P>, q: Polynomial<F, Q>) -> bool {
    p.exp == q.exp && p.omega == q.omega && p.omegainv == q.omegainv && p.geninv == q.geninv && p.minv == q.minv && p.coeffs@.len() == q.coeffs@.len() }
//@@ fn src/polynomials/mod.rs Polynomial::fft ret=r impl="Coefficients"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), is_dft(r.coeffs@, self.coeffs@, self.omega)
//@@ begin
  proof { l_dgen_prim::<F>(self.exp as nat); }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::coset_fft_for_generator ret=r impl="Coefficients"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), is_coset_dft(r.coeffs@, self.coeffs@, gen, self.omega)
//@@ begin
  let ghost c0 = self.coeffs@;
  proof { assert forall|o: Seq<F>, w: F| is_dft(o, powered(c0, gen), w) implies #[trigger] is_coset_dft(o, c0, gen, w) by { l_coset_dft(o, c0, gen, w); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::coset_fft ret=r impl="Coefficients"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), is_coset_dft(r.coeffs@, self.coeffs@, F::sgen(), self.omega)
//@@ begin
  let ghost c0 = self.coeffs@;
  proof { assert forall|o: Seq<F>, w: F| is_dft(o, powered(c0, F::sgen()), w) implies #[trigger] is_coset_dft(o, c0, F::sgen(), w) by { l_coset_dft(o, c0, F::sgen(), w); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::ifft ret=r impl="Values"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), is_dft(self.coeffs@, r.coeffs@, self.omega)
//@@ begin
  let ghost s0 = self; let ghost k = self.exp as nat; let ghost wi = self.omega.finv();
  proof { l_dgen_prim::<F>(k); l_prim_inv(self.omega, k); }
//@@ loop 1 before
  let ghost y = vx_self.coeffs@;
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == y.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    vx_self.coeffs@.len() == vx_l1, dom_eq(vx_self, s0), minv == s0.minv,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] vx_self.coeffs@[i] == y[i].fmul(minv),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] vx_self.coeffs@[i] == y[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = vx_self.coeffs@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
//@@ loop 2 before
  let ghost v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == v0[i].fmul(minv),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] vx_self.coeffs@[i] == y[i].fmul(minv) by {
      if i >= o { assert(pre[i] == y[i]); assert(pre.subrange(o, o2)[i - o] == pre[i]); } else { assert(vx_self.coeffs@[i] == pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l1 implies #[trigger] vx_self.coeffs@[i] == y[i] by { assert(vx_self.coeffs@[i] == pre[i]); } }
//@@ loop 1 after
  proof { let n = pow2(k); let nn = fnat::<F>(n); l_nat_pow2_nonzero::<F>(k); l_inv_nonzero(nn);
    assert forall|i: int| 0 <= i < n implies #[trigger] vx_self.coeffs@[i] == peval(s0.coeffs@, fpow(wi, i as nat)).fmul(nn.finv()) by { assert(y[i] == peval(s0.coeffs@, fpow(wi, i as nat))); }
    l_inverse_dft(s0.coeffs@, vx_self.coeffs@, nn.finv(), s0.omega, k); }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::icoset_fft_for_generator ret=r impl="Values"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), forall|g: F| g.fmul(geninv) == F::f1() ==> #[trigger] is_coset_dft(self.coeffs@, r.coeffs@, g, self.omega)
//@@ begin
  let ghost v0 = self.coeffs@;
  proof { assert forall|c: Seq<F>, w: F, g: F| g.fmul(geninv) == F::f1() && is_dft(v0, c, w) implies #[trigger] is_coset_dft(v0, powered(c, geninv), g, w) by {
      l_coset_dft(v0, powered(c, geninv), g, w); l_powered_inv(c, g, geninv); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::icoset_fft ret=r impl="Values"
requires fft_able(self, worker)
ensures r.wf(), dom_eq(r, self), is_coset_dft(self.coeffs@, r.coeffs@, F::sgen(), self.omega)
//@@ begin
  let ghost v0 = self.coeffs@; let ghost gi = self.geninv;
  proof { F::ax_gen(); F::ax_inv(F::sgen()); assert forall|c: Seq<F>, w: F| is_dft(v0, c, w) implies #[trigger] is_coset_dft(v0, powered(c, gi), F::sgen(), w) by {
      l_coset_dft(v0, powered(c, gi), F::sgen(), w); l_powered_inv(c, F::sgen(), gi); } }
//@@ endfn
// coset round trip
pub proof fn thm_coset_roundtrip<F: PrimeField>(v: Seq<F>, x: Seq<F>, y: Seq<F>, g: F, w: F, k: nat)
    requires prim(w, k), g != F::f0(), is_coset_dft(v, x, g, w), is_coset_dft(v, y, g, w), x.len() == pow2(k), y.len() == pow2(k)
    ensures x == y
{
    l_coset_dft(v, x, g, w); l_coset_dft(v, y, g, w);
    thm_roundtrip(v, powered(x, g), powered(y, g), w, k);
    l_inv_nonzero(g);
    l_powered_inv(x, g.finv(), g); l_powered_inv(y, g.finv(), g);
}
