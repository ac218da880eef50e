// ---- chunked pointwise operations (written by tools/genpointwise.py) ----
pub proof fn lemma_num_chunks_mono(a: int, b: int, c: int) requires 0 <= a <= b, c > 0 ensures num_chunks(a, c) <= num_chunks(b, c) {
    lemma_div_is_ordered(a + c - 1, b + c - 1, c);
}
//@@ fn src/polynomials/mod.rs Polynomial::scale ret=r
requires worker.wf()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fmul(g)
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(g),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == vx_v0[i].fmul(g),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(g) by {
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by { assert(self.coeffs@[i] == vx_pre[i]); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::negate ret=r
requires worker.wf()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fneg()
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fneg(),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == vx_v0[i].fneg(),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fneg() by {
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by { assert(self.coeffs@[i] == vx_pre[i]); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::square ret=r impl="Values"
requires worker.wf()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fmul(old(self).coeffs@[i])
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(old(self).coeffs@[i]),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == vx_v0[i].fmul(vx_v0[i]),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(old(self).coeffs@[i]) by {
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by { assert(self.coeffs@[i] == vx_pre[i]); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::pow ret=r impl="Values"
requires worker.wf()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == fpow(old(self).coeffs@[i], exp as nat)
//@@ begin
  proof { l_pow2_all::<F>(); }
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == fpow(old(self).coeffs@[i], exp as nat),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == fpow(vx_v0[i], exp as nat),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == fpow(old(self).coeffs@[i], exp as nat) by {
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by { assert(self.coeffs@[i] == vx_pre[i]); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::add_constant ret=r impl="Values"
requires worker.wf()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(*constant)
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(*constant),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 == a@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(*constant),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(*constant) by {
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by { assert(self.coeffs@[i] == vx_pre[i]); } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::add_assign ret=r impl="Coefficients"
requires worker.wf(), old(self).coeffs@.len() >= other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i]),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::sub_assign ret=r impl="Coefficients"
requires worker.wf(), old(self).coeffs@.len() >= other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i].fneg()),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::add_assign_scaled ret=r impl="Coefficients"
requires worker.wf(), old(self).coeffs@.len() >= other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i].fmul(*scaling)),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::add_assign ret=r impl="Values"
requires worker.wf(), old(self).coeffs@.len() == other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i]),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i]) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::sub_assign ret=r impl="Values"
requires worker.wf(), old(self).coeffs@.len() == other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i].fneg()),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fneg()) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::mul_assign ret=r impl="Values"
requires worker.wf(), old(self).coeffs@.len() == other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fmul(other.coeffs@[i]),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(other.coeffs@[i]),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fmul(b@[i]),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fmul(other.coeffs@[i]) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::add_assign_scaled ret=r impl="Values"
requires worker.wf(), old(self).coeffs@.len() == other.coeffs@.len()
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)),
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i].fmul(*scaling)),
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i].fadd(other.coeffs@[i].fmul(*scaling)) by {
      if i >= o { assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) { assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); } else { assert(self.coeffs@[i] == vx_pre[i]); } } }
//@@ endfn
pub proof fn l_pow2_all<F: FieldSpec>() ensures forall|a: F| #[trigger] fpow(a, 2) == a.fmul(a) { assert forall|a: F| #[trigger] fpow(a, 2) == a.fmul(a) by { l_pow2(a); } }
