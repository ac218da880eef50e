#!/usr/bin/env python3
"""Writes units/pointwise.vx: contracts of the chunked pointwise operations (same proof shape for each)."""
out=["// ---- chunked pointwise operations (written by tools/genpointwise.py) ----"]
F="src/polynomials/mod.rs"
def unary(fn, impl, var, expr, req=""):
    # expr(x) is the new value at every position
    E=lambda x: expr.replace("@", x)
    out.append(f'''//@@ fn {F} Polynomial::{fn} ret=r{' impl="%s"'%impl if impl else ''}
requires worker.wf(){req}
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == {E("old(self).coeffs@[i]")}
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == {E("old(self).coeffs@[i]")},
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof {{ lemma_num_chunks(vx_l1 as int, vx_c1 as int); }}
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = {var}@;
//@@ loop 2
  invariant vx_n2 == {var}@.len(), {var}@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] {var}@[i] == {E("vx_v0[i]")},
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] {var}@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof {{ assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) implies #[trigger] self.coeffs@[i] == {E("old(self).coeffs@[i]")} by {{
    let o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); if i >= o {{ assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); }} else {{ assert(self.coeffs@[i] == vx_pre[i]); }} }}
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {{ assert(self.coeffs@[i] == vx_pre[i]); }} }}
//@@ endfn''')
def binary(fn, impl, expr, le):
    E=lambda x,y: expr.replace("@1", x).replace("@2", y)
    req="old(self).coeffs@.len() >= other.coeffs@.len()" if le else "old(self).coeffs@.len() == other.coeffs@.len()"
    e=E("old(self).coeffs@[i]","other.coeffs@[i]")
    out.append(f'''//@@ fn {F} Polynomial::{fn} ret=r impl="{impl}"
requires worker.wf(), {req}
ensures final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < other.coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == {e},
  forall|i: int| other.coeffs@.len() <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == old(self).coeffs@[i]
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == old(self).coeffs@.len(), vx_l2 == other.coeffs@.len(), vx_l2 <= vx_l1,
    vx_nc1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == num_chunks(vx_l2 as int, vx_c2 as int), vx_n1 == vx_nc2, vx_nc2 <= vx_nc1, vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) ==> #[trigger] self.coeffs@[i] == {e},
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 ==> #[trigger] self.coeffs@[i] == old(self).coeffs@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 before
  proof {{ lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, vx_c1 as int); lemma_num_chunks_mono(vx_l2 as int, vx_l1 as int, vx_c1 as int); }}
//@@ loop 1 start
  let ghost vx_pre = self.coeffs@;
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 <= a@.len(), vx_n2 <= b@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == {E("vx_v0[i]","b@[i]")},
    forall|i: int| vx_k2 <= i < a@.len() ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof {{ let o = off(vx_i1 as int, vx_c1 as int, vx_l2 as int);
    assert forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l2 as int) implies #[trigger] self.coeffs@[i] == {e} by {{
      if i >= o {{ assert(vx_pre[i] == old(self).coeffs@[i]); assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); }} else {{ assert(self.coeffs@[i] == vx_pre[i]); }} }}
    assert forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l2 as int) <= i < vx_l1 implies #[trigger] self.coeffs@[i] == old(self).coeffs@[i] by {{
      if i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) {{ assert(vx_pre.subrange(o, off(vx_k1 as int, vx_c1 as int, vx_l1 as int))[i - o] == vx_pre[i]); assert(vx_pre[i] == old(self).coeffs@[i]); }} else {{ assert(self.coeffs@[i] == vx_pre[i]); }} }} }}
//@@ endfn''')
out.append('''pub proof fn lemma_num_chunks_mono(a: int, b: int, c: int) requires 0 <= a <= b, c > 0 ensures num_chunks(a, c) <= num_chunks(b, c) {
    lemma_div_is_ordered(a + c - 1, b + c - 1, c);
}''')
unary("scale","", "v", "@.fmul(g)")
unary("negate","", "v", "@.fneg()")
unary("square","Values", "v", "@.fmul(@)")
unary("pow","Values", "v", "fpow(@, exp as nat)")
unary("add_constant","Values", "a", "@.fadd(*constant)")
binary("add_assign","Coefficients","@1.fadd(@2)",True)
binary("sub_assign","Coefficients","@1.fadd(@2.fneg())",True)
binary("add_assign_scaled","Coefficients","@1.fadd(@2.fmul(*scaling))",True)
binary("add_assign","Values","@1.fadd(@2)",False)
binary("sub_assign","Values","@1.fadd(@2.fneg())",False)
binary("mul_assign","Values","@1.fmul(@2)",False)
binary("add_assign_scaled","Values","@1.fadd(@2.fmul(*scaling))",False)
txt="\n".join(out)
txt=txt.replace('''//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == fpow(''','''//@@ begin
  proof { l_pow2_all::<F>(); }
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == old(self).coeffs@.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    self.same_domain(old(self)),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] self.coeffs@[i] == fpow(''')
txt+='''
pub proof fn l_pow2_all<F: FieldSpec>() ensures forall|a: F| #[trigger] fpow(a, 2) == a.fmul(a) { assert forall|a: F| #[trigger] fpow(a, 2) == a.fmul(a) by { l_pow2(a); } }
'''
import os
open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+"/units/pointwise.vx","w").write(txt)
