// ---- batch inversion ----
pub open spec fn fprod<F: FieldSpec>(s: Seq<F>, n: int) -> F decreases n { if n <= 0 { F::f1() } else { fprod(s, n - 1).fmul(s[n - 1]) } }
pub open spec fn fprodx<F: FieldSpec>(s: Seq<F>, i: int, n: int) -> F decreases n {
    if n <= 0 { F::f1() } else if n - 1 == i { fprodx(s, i, n - 1) } else { fprodx(s, i, n - 1).fmul(s[n - 1]) }
}
pub open spec fn has_zero<F: FieldSpec>(s: Seq<F>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == F::f0() }
pub proof fn l_prod_zero<F: FieldSpec>(s: Seq<F>, n: int) requires 0 <= n <= s.len()
    ensures fprod(s, n) == F::f0() <==> (exists|i: int| 0 <= i < n && #[trigger] s[i] == F::f0()) decreases n
{
    F::ax_one_ne_zero();
    if n > 0 {
        l_prod_zero(s, n - 1);
        let p = fprod(s, n - 1);
        l_mul_zero(s[n - 1]); l_mul_zero(p);
        if p != F::f0() && s[n - 1] != F::f0() { l_mul_nonzero(p, s[n - 1]); }
        if fprod(s, n) == F::f0() { if p == F::f0() { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] s[i] == F::f0(); assert(s[i] == F::f0()); } else { assert(s[n - 1] == F::f0()); } }
        if exists|i: int| 0 <= i < n && #[trigger] s[i] == F::f0() { let i = choose|i: int| 0 <= i < n && #[trigger] s[i] == F::f0(); if i < n - 1 { assert(p == F::f0()); } }
    }
}
pub proof fn l_prodx<F: FieldSpec>(s: Seq<F>, i: int, n: int) requires 0 <= i, 0 <= n
    ensures n <= i ==> fprodx(s, i, n) == fprod(s, n), n > i ==> fprodx(s, i, n).fmul(s[i]) == fprod(s, n) decreases n
{
    if n > 0 { l_prodx(s, i, n - 1);
        if n - 1 > i { let p = fprodx(s, i, n - 1); let x = s[n - 1]; let y = s[i];
            F::ax_mul_assoc(p, x, y); F::ax_mul_comm(x, y); F::ax_mul_assoc(p, y, x); } }
}
pub proof fn l_prod_ext<F: FieldSpec>(s: Seq<F>, t: Seq<F>, n: int) requires forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures fprod(s, n) == fprod(t, n) decreases n { if n > 0 { l_prod_ext(s, t, n - 1); } }
// one step backwards through a chunk
pub proof fn l_inv_step<F: FieldSpec>(p: F, a: F, s: F) requires s.fmul(p.fmul(a)) == F::f1()
    ensures p.fmul(s) == a.finv(), s.fmul(a).fmul(p) == F::f1()
{
    F::ax_mul_comm(p, a); F::ax_mul_assoc(s, a, p);
    F::ax_mul_comm(s, p.fmul(a)); F::ax_mul_assoc(a, p, s);
    l_inv_unique(a, p.fmul(s));
}
pub open spec fn bi_chunk<F: FieldSpec>(cs: Seq<F>, k: int, c: int) -> Seq<F> { cs.subrange(off(k, c, cs.len() as int), off(k + 1, c, cs.len() as int)) }
pub proof fn l_bi_one<F: FieldSpec>(cs: Seq<F>, sub: Seq<F>, c: int, i: int)
    requires c > 0, sub.len() == num_chunks(cs.len() as int, c), 0 <= i < cs.len(), cs[i] == F::f0(),
      forall|k: int| 0 <= k < sub.len() ==> #[trigger] sub[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int)
    ensures fprod(sub, sub.len() as int) == F::f0()
{
    let l = cs.len() as int; let k = i / c;
    assert(0 <= k < num_chunks(l, c) && off(k, c, l) <= i < off(k + 1, c, l)) by { thm_chunks_partition(l, c, i); }
    lemma_chunk_step(k, c, l);
    let ch = bi_chunk(cs, k, c); let o = off(k, c, l);
    assert(ch.len() == off(k + 1, c, l) - o);
    assert(ch[i - o] == cs[i]);
    l_prod_zero(ch, ch.len() as int);
    assert(sub[k] == F::f0());
    l_prod_zero(sub, sub.len() as int);
}
pub proof fn l_bi_two<F: FieldSpec>(cs: Seq<F>, sub: Seq<F>, c: int, k: int)
    requires c > 0, sub.len() == num_chunks(cs.len() as int, c), 0 <= k < sub.len(), sub[k] == F::f0(),
      sub[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int)
    ensures has_zero(cs)
{
    let l = cs.len() as int;
    lemma_chunk_step(k, c, l);
    let ch = bi_chunk(cs, k, c); let o = off(k, c, l);
    assert(ch.len() == off(k + 1, c, l) - o);
    l_prod_zero(ch, ch.len() as int);
    let j = choose|j: int| 0 <= j < ch.len() && #[trigger] ch[j] == F::f0();
    assert(ch[j] == cs[o + j]);
}
pub proof fn l_bi_cover<F: FieldSpec>(cs: Seq<F>, sub: Seq<F>, c: int)
    requires c > 0, sub.len() == num_chunks(cs.len() as int, c),
      forall|k: int| 0 <= k < sub.len() ==> #[trigger] sub[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int)
    ensures fprod(sub, sub.len() as int) == F::f0() <==> has_zero(cs)
{
    if has_zero(cs) { let i = choose|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == F::f0(); l_bi_one(cs, sub, c, i); }
    if fprod(sub, sub.len() as int) == F::f0() {
        assert(exists|k: int| 0 <= k < sub.len() && #[trigger] sub[k] == F::f0()) by { l_prod_zero(sub, sub.len() as int); }
        let k = choose|k: int| 0 <= k < sub.len() && #[trigger] sub[k] == F::f0();
        l_bi_two(cs, sub, c, k);
    }
}
//@@ fn src/polynomials/mod.rs Polynomial::batch_inversion ret=r
requires worker.wf()
ensures
  final(self).same_domain(old(self)),
  r is Ok <==> !has_zero(old(self).coeffs@),
  r is Ok ==> forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].finv(),
  r is Err ==> *final(self) == *old(self)
//@@ begin
  let ghost cs = self.coeffs@; let ghost l = cs.len() as int; let ghost c = worker.csz(l); let ghost nc = num_chunks(l, c);
//@@ loop 1 before
  proof { lemma_num_chunks(l, c); lemma_num_chunks(vx_l3 as int, 1); assert((vx_l3 + 1 - 1) / 1 == vx_l3);
    assert forall|k: int| 0 <= k < nc implies #[trigger] bi_chunk(cs, k, c).len() == off(k + 1, c, l) - off(k, c, l) by { lemma_chunk_step(k, c, l); } }
//@@ loop 1
  invariant cs == self.coeffs@, *self == *old(self), l == cs.len(), c > 0, c == vx_c1, c == vx_c2, vx_c3 == 1, vx_l1 == l, vx_l2 == l, vx_l3 == nc, nc == num_chunks(l, c), vx_nc3 == nc, vx_n1 == nc, num_chunks(vx_l3 as int, 1) == nc, vx_k1 <= vx_n1,
    subproducts@.len() == nc, grand_products@.len() == l,
    forall|k: int| 0 <= k < vx_k1 ==> #[trigger] subproducts@[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int),
    forall|k: int| vx_k1 <= k < nc ==> #[trigger] subproducts@[k] == F::f1(),
    forall|k: int, j: int| 0 <= k < vx_k1 && 0 <= j < bi_chunk(cs, k, c).len() ==> #[trigger] bi_chunk(grand_products@, k, c)[j] == fprod(bi_chunk(cs, k, c), j + 1),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost sp0 = subproducts@; let ghost gp0 = grand_products@; let ghost ch = bi_chunk(cs, vx_i1 as int, c);
  proof { lemma_chunk_step(vx_i1 as int, c, l); lemma_chunk_step(vx_i1 as int, 1, nc); assert(sp0[vx_i1 as int] == F::f1()); }
//@@ loop 2
  invariant vx_n2 == a@.len(), g@.len() == vx_n2, a@ == ch, s@.len() == 1, vx_k2 <= vx_n2, s@[0] == fprod(ch, vx_k2 as int),
    forall|j: int| 0 <= j < vx_k2 ==> #[trigger] g@[j] == fprod(ch, j + 1),
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof {
    let gp = grand_products@;
    assert forall|k: int| 0 <= k < nc && k != vx_i1 implies subproducts@[k] == #[trigger] sp0[k] by {}
    assert forall|k: int| 0 <= k < vx_k1 implies #[trigger] subproducts@[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int) by { if k < vx_i1 { assert(subproducts@[k] == sp0[k]); } }
    assert forall|k: int| vx_k1 <= k < nc implies #[trigger] subproducts@[k] == F::f1() by { assert(subproducts@[k] == sp0[k]); }
    assert forall|k: int, j: int| 0 <= k < vx_k1 && 0 <= j < bi_chunk(cs, k, c).len() implies #[trigger] bi_chunk(gp, k, c)[j] == fprod(bi_chunk(cs, k, c), j + 1) by {
      lemma_chunk_step(k, c, l);
      if k < vx_i1 { lemma_off_mono(k + 1, vx_i1 as int, c, l); assert(bi_chunk(gp0, k, c)[j] == fprod(bi_chunk(cs, k, c), j + 1)); assert(gp[off(k, c, l) + j] == gp0[off(k, c, l) + j]); }
    }
  }
//@@ loop 3
  invariant vx_n3 == subproducts@.len(), vx_k3 <= vx_n3, full_grand_product == fprod(subproducts@, vx_k3 as int),
  decreases vx_n3 - vx_k3
//@@ stmt "let product_inverse" before
  proof { l_bi_cover(cs, subproducts@, c); F::ax_inv(full_grand_product); }
//@@ loop 4
  invariant vx_n4 == nc, nc == subproducts@.len(), subinverses@.len() == nc, vx_k4 <= vx_n4, product_inverse.fmul(fprod(subproducts@, nc)) == F::f1(),
    forall|k: int| 0 <= k < vx_k4 ==> (#[trigger] subinverses@[k]).fmul(subproducts@[k]) == F::f1(),
  decreases vx_n4 - vx_k4
//@@ loop 4 before
  proof { F::ax_mul_comm(full_grand_product, product_inverse); assert(vx_k4 == 0); }
//@@ loop 5
  invariant vx_n5 == subproducts@.len(), vx_k5 <= vx_n5, i == vx_i4, i < vx_n5, tmp == product_inverse.fmul(fprodx(subproducts@, i as int, vx_k5 as int)),
  decreases vx_n5 - vx_k5
//@@ loop 5 before
  proof { F::ax_one(product_inverse); }
//@@ loop 5 start
  proof { F::ax_mul_assoc(product_inverse, fprodx(subproducts@, i as int, vx_i5 as int), subproducts@[vx_i5 as int]); }
//@@ loop 5 after
  proof { l_prodx(subproducts@, i as int, nc); F::ax_mul_assoc(product_inverse, fprodx(subproducts@, i as int, nc), subproducts@[i as int]); }
//@@ loop 6 before
  let ghost si0 = subinverses@;
  proof { lemma_num_chunks(l, c); lemma_num_chunks(vx_l6 as int, 1); assert((vx_l6 + 1 - 1) / 1 == vx_l6); }
//@@ loop 6
  invariant cs == old(self).coeffs@, self.same_domain(old(self)), l == cs.len(), c > 0, c == vx_c4, c == vx_c5, vx_c6 == 1, vx_l4 == l, vx_l5 == l, vx_l6 == nc, nc == num_chunks(l, c), vx_nc6 == nc, num_chunks(vx_l6 as int, 1) == nc, vx_n6 == nc, vx_k6 <= vx_n6,
    subinverses@.len() == nc, subproducts@.len() == nc, si0.len() == nc, grand_products@.len() == l,
    forall|k: int| vx_k6 <= k < nc ==> #[trigger] subinverses@[k] == si0[k],
    forall|k: int| 0 <= k < nc ==> (#[trigger] si0[k]).fmul(subproducts@[k]) == F::f1(),
    forall|k: int| 0 <= k < nc ==> #[trigger] subproducts@[k] == fprod(bi_chunk(cs, k, c), bi_chunk(cs, k, c).len() as int),
    forall|k: int, j: int| 0 <= k < nc && 0 <= j < bi_chunk(cs, k, c).len() ==> #[trigger] bi_chunk(grand_products@, k, c)[j] == fprod(bi_chunk(cs, k, c), j + 1),
    forall|i: int| 0 <= i < off(vx_k6 as int, c, l) ==> #[trigger] self.coeffs@[i] == cs[i].finv(),
    forall|i: int| off(vx_k6 as int, c, l) <= i < l ==> #[trigger] self.coeffs@[i] == cs[i],
  decreases vx_n6 - vx_k6
//@@ loop 6 start
  let ghost p0 = self.coeffs@; let ghost ch = bi_chunk(cs, vx_i6 as int, c); let ghost o = off(vx_i6 as int, c, l); let ghost si1 = subinverses@; let ghost gg = bi_chunk(grand_products@, vx_i6 as int, c);
  proof { lemma_chunk_step(vx_i6 as int, c, l); lemma_chunk_step(vx_i6 as int, 1, nc); assert(si1[vx_i6 as int] == si0[vx_i6 as int]);
    assert(si0[vx_i6 as int].fmul(subproducts@[vx_i6 as int]) == F::f1());
    assert(p0.subrange(o, off(vx_i6 + 1, c, l)) =~= ch); }
//@@ loop 7
  invariant vx_n7 == ch.len(), a@.len() == vx_n7, g@ == gg, gg.len() == vx_n7, vx_n7 >= 1, s@.len() == 1, vx_k7 <= vx_n7, vx_once7 == F::f1(),
    forall|j: int| 0 <= j < vx_n7 ==> #[trigger] gg[j] == fprod(ch, j + 1),
    s@[0].fmul(fprod(ch, vx_n7 - vx_k7)) == F::f1(),
    forall|j: int| 0 <= j < vx_n7 - vx_k7 ==> #[trigger] a@[j] == ch[j],
    forall|j: int| vx_n7 - vx_k7 <= j < vx_n7 ==> #[trigger] a@[j] == ch[j].finv(),
  decreases vx_n7 - vx_k7
//@@ loop 7 start
  proof { let idx = vx_n7 - 1 - vx_i7; l_inv_step(fprod(ch, idx), ch[idx], s@[0]); if idx > 0 { assert(gg[idx - 1] == fprod(ch, idx)); } assert(a@[idx] == ch[idx]); }
//@@ loop 6 end
  proof { let o2 = off(vx_k6 as int, c, l);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] self.coeffs@[i] == cs[i].finv() by { if i < o { assert(self.coeffs@[i] == p0[i]); } else { assert(ch[i - o] == cs[i]); } }
    assert forall|i: int| o2 <= i < l implies #[trigger] self.coeffs@[i] == cs[i] by { assert(self.coeffs@[i] == p0[i]); }
    assert forall|k: int| vx_k6 <= k < nc implies #[trigger] subinverses@[k] == si0[k] by { assert(subinverses@[k] == si1[k]); } }
//@@ endfn
pub proof fn lemma_off_mono(a: int, b: int, c: int, l: int) requires 0 <= a <= b, c > 0 ensures off(a, c, l) <= off(b, c, l) {
    assert(a * c <= b * c) by (nonlinear_arith) requires a <= b, c > 0;
}
