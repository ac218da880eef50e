// ---- slice helpers of utils/poly.rs ----
//@@ fn src/utils/poly.rs mul_polynomial_by_scalar ret=r
ensures final(a)@ == Seq::new(old(a)@.len(), |i: int| old(a)@[i].fmul(b))
//@@ begin
  let ghost a0 = a@;
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_l1 == a0.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    a@.len() == vx_l1,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] a@[i] == a0[i].fmul(b),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] a@[i] == a0[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = a@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 == a@.len(), a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fmul(b),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] a@[i] == a0[i].fmul(b) by {
      if i >= o { assert(vx_pre[i] == a0[i]); assert(vx_pre.subrange(o, o2)[i - o] == vx_pre[i]); } else { assert(a@[i] == vx_pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l1 implies #[trigger] a@[i] == a0[i] by { assert(a@[i] == vx_pre[i]); } }
//@@ end
  proof { assert(a@ =~= Seq::new(a0.len(), |i: int| a0[i].fmul(b))); }
//@@ endfn
//@@ fn src/utils/poly.rs mul_add_polynomials ret=r
requires old(a)@.len() == b@.len()
ensures final(a)@ == Seq::new(old(a)@.len(), |i: int| old(a)@[i].fadd(b@[i].fmul(c)))
//@@ begin
  let ghost a0 = a@; let ghost b0 = b@;
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == vx_c1, vx_l1 == a0.len(), vx_l2 == vx_l1, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_nc2 == vx_n1, vx_k1 <= vx_n1,
    a@.len() == vx_l1, b@ == b0, b0.len() == a0.len(),
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] a@[i] == a0[i].fadd(b0[i].fmul(c)),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] a@[i] == a0[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = a@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
//@@ loop 2 before
  let ghost vx_v0 = a@;
//@@ loop 2
  invariant vx_n2 == a@.len(), b@.len() == vx_n2, a@.len() == vx_v0.len(), vx_k2 <= vx_n2,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] a@[i] == vx_v0[i].fadd(b@[i].fmul(c)),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] a@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] a@[i] == a0[i].fadd(b0[i].fmul(c)) by {
      if i >= o { assert(vx_pre[i] == a0[i]); assert(vx_pre.subrange(o, o2)[i - o] == vx_pre[i]); assert(b0.subrange(o, o2)[i - o] == b0[i]); } else { assert(a@[i] == vx_pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l1 implies #[trigger] a@[i] == a0[i] by { assert(a@[i] == vx_pre[i]); } }
//@@ end
  proof { assert(a@ =~= Seq::new(a0.len(), |i: int| a0[i].fadd(b0[i].fmul(c)))); }
//@@ endfn
// the channel between the tasks and the collector is a bag: values come out in any order
#[verifier::external_body]
fn vx_any_order<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@.to_multiset() == v@.to_multiset() { v }
// sum of a sequence of field elements, and its independence of the order
pub open spec fn ssum<F: FieldSpec>(s: Seq<F>) -> F { fsum(|i: int| s[i], s.len() as int) }
pub proof fn l_ssum_push<F: FieldSpec>(s: Seq<F>, x: F) ensures ssum(s.push(x)) == ssum(s).fadd(x) {
    l_sum_ext(|i: int| s.push(x)[i], |i: int| s[i], s.len() as int);
}
pub proof fn l_ssum_remove<F: FieldSpec>(s: Seq<F>, k: int) requires 0 <= k < s.len() ensures ssum(s) == ssum(s.remove(k)).fadd(s[k]) decreases s.len() {
    let n = s.len() - 1;
    let d = s.drop_last();
    assert(s =~= d.push(s[n]));
    l_ssum_push(d, s[n]);
    if k == n { assert(s.remove(k) =~= d); }
    else {
        l_ssum_remove(d, k);
        assert(s.remove(k) =~= d.remove(k).push(s[n]));
        l_ssum_push(d.remove(k), s[n]);
        F::ax_add_assoc(ssum(d.remove(k)), s[k], s[n]); F::ax_add_assoc(ssum(d.remove(k)), s[n], s[k]); F::ax_add_comm(s[k], s[n]);
    }
}
pub proof fn l_ssum_perm<F: FieldSpec>(s: Seq<F>, t: Seq<F>) requires s.to_multiset() == t.to_multiset() ensures ssum(s) == ssum(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert(s.len() == t.len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.to_multiset().count(x) > 0) by { assert(s[s.len() - 1] == x); assert(s.contains(x)); }
        assert(t.contains(x));
        let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
        let j = s.len() - 1;
        l_ssum_remove(s, j); l_ssum_remove(t, k);
        vstd::seq_lib::to_multiset_remove(s, j); vstd::seq_lib::to_multiset_remove(t, k);
        l_ssum_perm(s.remove(j), t.remove(k));
    }
}
//@@ fn src/utils/poly.rs evaluate_at_consequitive_powers ret=res
ensures res == fsum(wterm(coeffs@, first_power, base), coeffs@.len() as int)
//@@ subst "let (s , r) = unbounded () ;" => "let mut s : Vec<F> = Vec::new();"
//@@ subst "let s = s . clone () ;" => ""
//@@ subst "s . send (acc) . unwrap () ;" => "s.push(acc);"
//@@ subst "drop (s) ;" => "let mut r = vx_any_order(s);"
//@@ subst "r . is_empty ()" => "r.len() == 0"
//@@ subst "r . recv () . unwrap ()" => "r.pop().unwrap()"
//@@ begin
  let ghost cs = coeffs@; let ghost f = wterm(coeffs@, first_power, base);
  let ghost mut bag: Seq<F> = seq![];
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant f == wterm(cs, first_power, base), cs == coeffs@, vx_c1 > 0, vx_c1 == chunk, vx_l1 == cs.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    ssum(s@) == fsum(f, off(vx_k1 as int, vx_c1 as int, vx_l1 as int)),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost s0 = s@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int); let ghost o2 = off(vx_i1 + 1, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2
  invariant f == wterm(cs, first_power, base), 0 <= o, vx_n2 == coeffs@.len(), vx_k2 <= vx_n2, coeffs@ == cs.subrange(o, o + vx_n2), o + vx_n2 <= cs.len(),
    acc == fsum(sh(f, o), vx_k2 as int), current_power == fpow(base, (o + vx_k2) as nat).fmul(first_power),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { let t = sh(f, o); assert(t(vx_i2 as int) == cs[o + vx_i2].fmul(current_power)); assert(coeffs@[vx_i2 as int] == cs[o + vx_i2]);
    l_pow_step(base, (o + vx_i2) as nat); let p = fpow(base, (o + vx_i2) as nat); F::ax_mul_assoc(base, p, first_power); F::ax_mul_comm(p.fmul(first_power), base); }
//@@ loop 2 after
  proof { l_sum_sh(f, o, o2 - o); l_ssum_push(s0, acc); }
//@@ loop 3 before
  let ghost full = r@;
  proof { l_ssum_perm(s@, r@); l_zero_l(ssum(full)); lemma_num_chunks(coeffs@.len() as int, worker.csz(coeffs@.len() as int)); }
//@@ loop 3
  invariant result.fadd(ssum(r@)) == ssum(full),
  ensures r@.len() == 0, result.fadd(ssum(r@)) == ssum(full),
  decreases r@.len()
//@@ loop 3 start
  let ghost r0 = r@;
  proof { if r0.len() > 0 { assert(r0 =~= r0.drop_last().push(r0.last())); l_ssum_push(r0.drop_last(), r0.last());
    F::ax_add_comm(ssum(r0.drop_last()), r0.last()); F::ax_add_assoc(result, r0.last(), ssum(r0.drop_last())); } }
//@@ loop 3 after
  proof { F::ax_zero(result); }
//@@ endfn
