// ---- sums over chunks ----
pub open spec fn sh<F: FieldSpec>(f: spec_fn(int) -> F, o: int) -> spec_fn(int) -> F { |i: int| f(o + i) }
pub proof fn l_sum_sh<F: FieldSpec>(f: spec_fn(int) -> F, m: int, n: int) requires 0 <= m, 0 <= n
    ensures fsum(f, m + n) == fsum(f, m).fadd(fsum(sh(f, m), n)) {
    l_sum_split(f, m, n);
    l_sum_ext(|i: int| f(m + i), sh(f, m), n);
}
// coefficient times power of the point, starting from first
pub open spec fn wterm<F: FieldSpec>(s: Seq<F>, first: F, base: F) -> spec_fn(int) -> F { |i: int| s[i].fmul(fpow(base, i as nat).fmul(first)) }
//@@ fn src/polynomials/mod.rs Polynomial::evaluate_at ret=r
requires worker.wf()
ensures r == peval(self.coeffs@, g)
//@@ begin
  let ghost cs = self.coeffs@; let ghost f = term(self.coeffs@, g); let ghost l = cs.len() as int; let ghost c = worker.csz(l);
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, 1); assert((vx_l2 + 1 - 1) / 1 == vx_l2); }
//@@ loop 1
  invariant f == term(cs, g), cs == self.coeffs@, c == vx_c1, l == vx_l1, vx_c1 > 0, vx_c1 == chunk, vx_l1 == cs.len(), vx_c2 == 1, vx_l2 == vx_n1, vx_nc2 == num_chunks(vx_l2 as int, 1), vx_nc2 == vx_n1, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    subvalues@.len() == vx_n1,
    forall|k: int| 0 <= k < vx_k1 ==> #[trigger] subvalues@[k] == fsum(sh(f, off(k, vx_c1 as int, vx_l1 as int)), off(k + 1, vx_c1 as int, vx_l1 as int) - off(k, vx_c1 as int, vx_l1 as int)),
    forall|k: int| vx_k1 <= k < vx_n1 ==> #[trigger] subvalues@[k] == F::f0(),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = subvalues@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); assert(vx_pre[vx_i1 as int] == F::f0()); }
//@@ loop 2
  invariant f == term(cs, g), 0 <= o, vx_n2 == a@.len(), vx_k2 <= vx_n2, s@.len() == 1, a@ == cs.subrange(o, o + vx_n2), o + vx_n2 <= cs.len(),
    s@[0] == fsum(sh(f, o), vx_k2 as int), x == fpow(g, (o + vx_k2) as nat),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { let t = sh(f, o); assert(t(vx_i2 as int) == cs[o + vx_i2].fmul(x)); assert(a@[vx_i2 as int] == cs[o + vx_i2]);
    F::ax_mul_comm(x, cs[o + vx_i2]); l_pow_step(g, (o + vx_i2) as nat); }
//@@ loop 1 end
  proof { assert forall|k: int| 0 <= k < vx_n1 && k != vx_i1 implies subvalues@[k] == #[trigger] vx_pre[k] by {}
    assert forall|k: int| 0 <= k < vx_k1 implies #[trigger] subvalues@[k] == fsum(sh(f, off(k, vx_c1 as int, vx_l1 as int)), off(k + 1, vx_c1 as int, vx_l1 as int) - off(k, vx_c1 as int, vx_l1 as int)) by {
      if k < vx_i1 { assert(subvalues@[k] == vx_pre[k]); } }
    assert forall|k: int| vx_k1 <= k < vx_n1 implies #[trigger] subvalues@[k] == F::f0() by { assert(subvalues@[k] == vx_pre[k]); } }
//@@ loop 3
  invariant f == term(cs, g), c > 0, l == cs.len(), vx_n3 == num_chunks(l, c), vx_n3 == subvalues@.len(), vx_k3 <= vx_n3,
    forall|k: int| 0 <= k < vx_n3 ==> #[trigger] subvalues@[k] == fsum(sh(f, off(k, c, l)), off(k + 1, c, l) - off(k, c, l)),
    result == fsum(f, off(vx_k3 as int, c, l)),
  decreases vx_n3 - vx_k3
//@@ loop 3 before
  proof { lemma_num_chunks(l, c); }
//@@ loop 3 start
  proof { lemma_chunk_step(vx_i3 as int, c, l); l_sum_sh(f, off(vx_i3 as int, c, l), off(vx_i3 + 1, c, l) - off(vx_i3 as int, c, l)); }
//@@ loop 3 after
  proof { lemma_num_chunks(l, c); }
//@@ endfn
