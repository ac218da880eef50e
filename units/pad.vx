// ---- padding and trimming ----
//@@ fn src/polynomials/mod.rs Polynomial::pad_by_factor ret=r
requires old(self).wf()
ensures
  r is Ok <==> factor == 1 || (is_p2(factor as int) && old(self).coeffs@.len() * factor <= 0x8000_0000_0000_0000 && old(self).coeffs@.len() * factor <= pow2(F::S as nat)),
  r is Ok ==> final(self).wf() && final(self).coeffs@ == padded(old(self).coeffs@, old(self).coeffs@.len() * factor),
  r is Err ==> *final(self) == *old(self)
//@@ begin
  let ghost c0 = self.coeffs@; let ghost l0 = self.coeffs@.len() as int;
  proof { l_pad(l0, self.exp as nat, factor as int); l_cl0::<F>(); assert(c0 =~= padded(c0, l0 * 1)); assert(l0 <= pow2(F::S as nat)) by { lemma_pow2_le(self.exp as nat, F::S as nat); }
    lemma2_to64_rest(); lemma_pow2_le(self.exp as nat, 63); }
//@@ stmt "let domain" before
  proof { lemma_np2(new_size as int); lemma_np2_big(new_size as int); }
//@@ stmt "self.coeffs.resize" before
  proof { l_dom_ok(domain); }
//@@ stmt "self.exp" before
  proof { assert(self.coeffs@ =~= padded(c0, l0 * factor)); }
//@@ endfn
pub proof fn l_pad(l: int, e: nat, f: int) requires l == pow2(e), f >= 0
  ensures l >= 1, is_p2(f) ==> is_p2(l * f) && l * f >= l && f >= 1, !is_p2(f) ==> f != 1, l * f >= 0, l * 1 == l, f >= 1 ==> l * f >= l {
    lemma_pow2_pos(e); lemma2_to64();
    if is_p2(f) { lemma_is_p2(f); lemma_pow2_mul(e, lg2(f)); assert(l * f >= l) by (nonlinear_arith) requires f >= 1, l >= 1; }
    assert(is_p2(1)) by { assert(1 == pow2(0)); }
    assert(l * f >= 0) by (nonlinear_arith) requires f >= 0, l >= 1;
    if f >= 1 { assert(l * f >= l) by (nonlinear_arith) requires f >= 1, l >= 1; }
}
//@@ fn src/polynomials/mod.rs Polynomial::pad_to_size ret=r
requires old(self).wf()
ensures
  r is Ok <==> is_p2(new_size as int) && new_size >= old(self).coeffs@.len() && new_size <= pow2(F::S as nat),
  r is Ok ==> final(self).wf() && final(self).coeffs@ == padded(old(self).coeffs@, new_size as int),
  r is Err ==> *final(self) == *old(self)
//@@ begin
  let ghost c0 = self.coeffs@; let ghost l0 = self.coeffs@.len() as int;
  proof { l_cl0::<F>(); lemma_np2(new_size as int); lemma_np2_big(new_size as int); l_p2_64(new_size as int); }
//@@ stmt "self.coeffs.resize" before
  proof { l_dom_ok(domain); }
//@@ stmt "self.exp" before
  proof { assert(self.coeffs@ =~= padded(c0, new_size as int)); }
//@@ endfn
pub proof fn l_p2_64(n: int) requires 0 <= n <= u64::MAX ensures is_p2(n) ==> n <= 0x8000_0000_0000_0000 && np2(n) == n {
    lemma2_to64_rest();
    if is_p2(n) { lemma_np2(n); lemma_is_p2(n); if lg2(n) >= 64 { lemma_pow2_le(64, lg2(n)); lemma_pow2_step(63); } else { lemma_pow2_le(lg2(n), 63); } }
}
//@@ fn src/polynomials/mod.rs Polynomial::trim_to_degree ret=r
ensures
  r is Ok, final(self).same_domain(old(self)),
  forall|i: int| 0 <= i < old(self).coeffs@.len() ==> #[trigger] final(self).coeffs@[i] == (if i <= degree { old(self).coeffs@[i] } else { F::f0() })
//@@ begin
  proof { l_cl0::<F>(); }
//@@ stmt "self.coeffs.truncate" before
  let ghost c0 = self.coeffs@;
//@@ stmt "self.coeffs.truncate" after
  let ghost c1 = self.coeffs@;
//@@ stmt "self.coeffs.resize" after
  proof { assert(c1 =~= c0.subrange(0, degree + 1));
    assert(forall|i: int| 0 <= i < c1.len() ==> self.coeffs@[i] == c1[i]);
    assert forall|i: int| 0 <= i < c1.len() implies self.coeffs@[i] == c0[i] by { assert(c1[i] == c0.subrange(0, degree + 1)[i]); }
    assert(c1.len() == degree + 1);
    assert(forall|i: int| c1.len() <= i < c0.len() ==> self.coeffs@[i] == F::f0());
    assert(self.coeffs@ =~= Seq::new(c0.len(), |i: int| if i <= degree { c0[i] } else { F::f0() })); }
//@@ endfn
