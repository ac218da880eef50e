// ---- constraint algebra: what terms and constraints denote, and the operators ----
// an assignment gives every register a value at every step offset
pub type Asg<F> = spec_fn(Register, StepDifference<F>) -> F;
pub open spec fn uval<F: PrimeField>(t: UnivariateTerm<F>, a: Asg<F>) -> F { t.coeff.fmul(fpow(a(t.register, t.steps_difference), t.power as nat)) }
pub open spec fn uprod<F: PrimeField>(s: Seq<UnivariateTerm<F>>, a: Asg<F>, n: int) -> F decreases n { if n <= 0 { F::f1() } else { uprod(s, a, n - 1).fmul(uval(s[n - 1], a)) } }
pub open spec fn udeg<F: PrimeField>(s: Seq<UnivariateTerm<F>>, n: int) -> int decreases n { if n <= 0 { 0 } else { udeg(s, n - 1) + s[n - 1].power } }
pub open spec fn pval<F: PrimeField>(t: PolyvariateTerm<F>, a: Asg<F>) -> F { t.coeff.fmul(uprod(t.terms@, a, t.terms@.len() as int)) }
pub open spec fn tval<F: PrimeField>(t: ConstraintTerm<F>, a: Asg<F>) -> F { match t { ConstraintTerm::Univariate(u) => uval(u, a), ConstraintTerm::Polyvariate(p) => pval(p, a) } }
pub open spec fn tdeg<F: PrimeField>(t: ConstraintTerm<F>) -> int { match t { ConstraintTerm::Univariate(u) => u.power as int, ConstraintTerm::Polyvariate(p) => p.total_degree as int } }
pub open spec fn tsum<F: PrimeField>(s: Seq<ConstraintTerm<F>>, a: Asg<F>, n: int) -> F decreases n { if n <= 0 { F::f0() } else { tsum(s, a, n - 1).fadd(tval(s[n - 1], a)) } }
pub open spec fn cval<F: PrimeField>(c: Constraint<F>, a: Asg<F>) -> F { c.constant_term.fadd(tsum(c.terms@, a, c.terms@.len() as int)) }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn maxdeg<F: PrimeField>(s: Seq<ConstraintTerm<F>>, n: int) -> int decreases n { if n <= 0 { 0 } else { imax(maxdeg(s, n - 1), tdeg(s[n - 1])) } }
// the degrees recorded are the degrees there are
pub open spec fn p_wf<F: PrimeField>(t: PolyvariateTerm<F>) -> bool { t.total_degree == udeg(t.terms@, t.terms@.len() as int) }
pub open spec fn t_wf<F: PrimeField>(t: ConstraintTerm<F>) -> bool { t matches ConstraintTerm::Polyvariate(p) ==> p_wf(p) }
pub open spec fn c_wf<F: PrimeField>(c: Constraint<F>) -> bool { c.degree == maxdeg(c.terms@, c.terms@.len() as int) && forall|i: int| 0 <= i < c.terms@.len() ==> t_wf(#[trigger] c.terms@[i]) }
pub proof fn l_uprod_ext<F: PrimeField>(s: Seq<UnivariateTerm<F>>, t: Seq<UnivariateTerm<F>>, a: Asg<F>, n: int) requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures uprod(s, a, n) == uprod(t, a, n), udeg(s, n) == udeg(t, n) decreases n { if n > 0 { l_uprod_ext(s, t, a, n - 1); } }
pub proof fn l_tsum_ext<F: PrimeField>(s: Seq<ConstraintTerm<F>>, t: Seq<ConstraintTerm<F>>, a: Asg<F>, n: int) requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures tsum(s, a, n) == tsum(t, a, n), maxdeg(s, n) == maxdeg(t, n) decreases n { if n > 0 { l_tsum_ext(s, t, a, n - 1); } }
pub proof fn l_uprod_cat<F: PrimeField>(s: Seq<UnivariateTerm<F>>, t: Seq<UnivariateTerm<F>>, a: Asg<F>, n: int) requires 0 <= n <= t.len()
    ensures uprod(s + t, a, s.len() + n) == uprod(s, a, s.len() as int).fmul(uprod(t, a, n)), udeg(s + t, s.len() + n) == udeg(s, s.len() as int) + udeg(t, n) decreases n
{
    if n == 0 { l_uprod_ext(s + t, s, a, s.len() as int); F::ax_one(uprod(s, a, s.len() as int)); }
    else { l_uprod_cat(s, t, a, n - 1); assert((s + t)[s.len() + n - 1] == t[n - 1]); F::ax_mul_assoc(uprod(s, a, s.len() as int), uprod(t, a, n - 1), uval(t[n - 1], a)); }
}
pub proof fn l_cpush<F: PrimeField>(c0: Constraint<F>, c1: Constraint<F>, t: ConstraintTerm<F>)
    requires c1.constant_term == c0.constant_term, c1.terms@ == c0.terms@.push(t), c1.density == c0.density
    ensures forall|a: Asg<F>| #[trigger] cval(c1, a) == cval(c0, a).fadd(tval(t, a)), maxdeg(c1.terms@, c1.terms@.len() as int) == imax(maxdeg(c0.terms@, c0.terms@.len() as int), tdeg(t)),
        c_wf(c0) && t_wf(t) && c1.degree == imax(c0.degree as int, tdeg(t)) ==> c_wf(c1)
{
    let n = c0.terms@.len() as int;
    assert forall|a: Asg<F>| #[trigger] cval(c1, a) == cval(c0, a).fadd(tval(t, a)) by { l_tsum_ext(c0.terms@, c1.terms@, a, n); F::ax_add_assoc(c0.constant_term, tsum(c0.terms@, a, n), tval(t, a)); }
    l_tsum_ext(c0.terms@, c1.terms@, arbitrary(), n);
    assert forall|i: int| c_wf(c0) && t_wf(t) && 0 <= i < c1.terms@.len() implies t_wf(#[trigger] c1.terms@[i]) by { if i < n { assert(c1.terms@[i] == c0.terms@[i]); } }
}
// which registers, how many steps ahead, a term or constraint reads
pub type Rd<F> = spec_fn(Register, StepDifference<F>) -> bool;
pub open spec fn us_reads<F: PrimeField>(s: Seq<UnivariateTerm<F>>, p: Rd<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> p((#[trigger] s[i]).register, s[i].steps_difference) }
pub open spec fn t_reads<F: PrimeField>(t: ConstraintTerm<F>, p: Rd<F>) -> bool { match t { ConstraintTerm::Univariate(u) => p(u.register, u.steps_difference), ConstraintTerm::Polyvariate(q) => us_reads(q.terms@, p) } }
pub open spec fn c_reads<F: PrimeField>(c: Constraint<F>, p: Rd<F>) -> bool { forall|i: int| 0 <= i < c.terms@.len() ==> t_reads(#[trigger] c.terms@[i], p) }
pub open spec fn c_reads_more<F: PrimeField>(c0: Constraint<F>, c1: Constraint<F>, t: ConstraintTerm<F>) -> bool { forall|p: Rd<F>| c_reads(c0, p) && t_reads(t, p) ==> #[trigger] c_reads(c1, p) }
pub proof fn l_reads_push<F: PrimeField>(c0: Constraint<F>, c1: Constraint<F>, t: ConstraintTerm<F>, u: ConstraintTerm<F>)
    requires c1.terms@ == c0.terms@.push(u), forall|p: Rd<F>| #[trigger] t_reads(t, p) ==> t_reads(u, p) ensures c_reads_more(c0, c1, t)
{ assert forall|p: Rd<F>| c_reads(c0, p) && t_reads(t, p) implies #[trigger] c_reads(c1, p) by { assert forall|i: int| 0 <= i < c1.terms@.len() implies t_reads(#[trigger] c1.terms@[i], p) by { if i < c0.terms@.len() { assert(c1.terms@[i] == c0.terms@[i]); } } } }
pub proof fn l_cneg<F: PrimeField>(s: F, v: F, d: F) requires d == v.fneg() ensures s.fadd(d) == fsub(s, v) {}
//@@ ring r_cadd c s k : (c + k) + s == (c + s) + k
//@@ ring r_pt c d k p : c*(d*p)*k == (c*d)*(k*p)
//@@ ring r_pp c d u v : (c*d)*(u*v) == (c*u)*(d*v)
//@@ ring r_one3 c d p : (c*d)*(1*(1*p)) == c*(d*p)
//@@ ring r_scal c p k : (c*k)*p == (c*p)*k
//@@ ring r_push c d u p : (c*d)*(u*(1*p)) == (c*u)*(d*p)
//@@ ring r_neg c p : (0-c)*p == 0-c*p
//@@ fn src/air/constraint.rs UnivariateTerm::from ret=r
ensures r.register == register, r.steps_difference == StepDifference::<F>::Steps(0), r.power == 1, r.coeff == F::f1(), forall|a: Asg<F>| #[trigger] uval(r, a) == a(register, StepDifference::<F>::Steps(0))
//@@ end tail
  proof { assert forall|a: Asg<F>| #[trigger] uval(vx_ret, a) == a(register, StepDifference::<F>::Steps(0)) by { let v = a(register, StepDifference::<F>::Steps(0)); l_pow1(v); l_one_l(v); } }
//@@ endfn
//@@ fn src/air/constraint.rs UnivariateTerm::mul_assign impl="MulAssign < & F >" rename=mul_assign_ref
ensures forall|a: Asg<F>| #[trigger] uval(*final(self), a) == uval(*old(self), a).fmul(*rhs), final(self).register == old(self).register, final(self).steps_difference == old(self).steps_difference, final(self).power == old(self).power
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] uval(*self, a) == uval(*old(self), a).fmul(*rhs) by { r_scal(old(self).coeff, fpow(a(self.register, self.steps_difference), self.power as nat), *rhs); } }
//@@ endfn
//@@ fn src/air/constraint.rs UnivariateTerm::mul_assign impl="MulAssign < F >"
ensures forall|a: Asg<F>| #[trigger] uval(*final(self), a) == uval(*old(self), a).fmul(rhs), final(self).register == old(self).register, final(self).steps_difference == old(self).steps_difference, final(self).power == old(self).power
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] uval(*self, a) == uval(*old(self), a).fmul(rhs) by { r_scal(old(self).coeff, fpow(a(self.register, self.steps_difference), self.power as nat), rhs); } }
//@@ endfn
//@@ fn src/air/constraint.rs UnivariateTerm::set_step_difference
ensures final(self).coeff == old(self).coeff, final(self).register == old(self).register, final(self).power == old(self).power, final(self).steps_difference == StepDifference::<F>::Steps(steps)
//@@ endfn
//@@ fn src/air/constraint.rs UnivariateTerm::pow ret=r
//@@ subst "self . clone ()" => "* self"
requires self.power * power <= 0xffff_ffff_ffff_ffff
ensures r.register == self.register, r.steps_difference == self.steps_difference, r.power == self.power * power, forall|a: Asg<F>| #[trigger] uval(r, a) == fpow(uval(*self, a), power as nat)
//@@ end tail
  proof { assert forall|a: Asg<F>| #[trigger] uval(vx_ret, a) == fpow(uval(*self, a), power as nat) by { let v = a(self.register, self.steps_difference); l_pow_mul(v, self.power as nat, power as nat); l_pow_mulbase(self.coeff, fpow(v, self.power as nat), power as nat); } }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::from ret=r
ensures forall|p: Rd<F>| p(w.1.register, w.1.steps_difference) ==> #[trigger] us_reads(r.terms@, p), p_wf(r), r.total_degree == w.1.power, forall|a: Asg<F>| #[trigger] pval(r, a) == w.0.fmul(uval(w.1, a))
//@@ end tail
  proof { assert forall|a: Asg<F>| #[trigger] pval(vx_ret, a) == w.0.fmul(uval(w.1, a)) by { reveal_with_fuel(uprod, 2); r_one3(w.0, w.1.coeff, fpow(a(w.1.register, w.1.steps_difference), w.1.power as nat)); } reveal_with_fuel(udeg, 2); }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::default ret=r
ensures forall|p: Rd<F>| #[trigger] us_reads(r.terms@, p), p_wf(r), r.total_degree == 0, forall|a: Asg<F>| #[trigger] pval(r, a) == F::f1()
//@@ end tail
  proof { F::ax_one(F::f1()); }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::mul_assign impl="MulAssign < UnivariateTerm" rename=mul_assign_term
requires old(self).total_degree + rhs.power <= 0xffff_ffff_ffff_ffff
ensures forall|p: Rd<F>| us_reads(old(self).terms@, p) && p(rhs.register, rhs.steps_difference) ==> #[trigger] us_reads(final(self).terms@, p), p_wf(*old(self)) ==> p_wf(*final(self)), final(self).total_degree == old(self).total_degree + rhs.power, forall|a: Asg<F>| #[trigger] pval(*final(self), a) == pval(*old(self), a).fmul(uval(rhs, a))
//@@ end
  proof { let n = old(self).terms@.len() as int; let s0 = old(self).terms@; let s1 = self.terms@; l_uprod_ext(s0, s1, arbitrary(), n);
    assert forall|a: Asg<F>| #[trigger] pval(*self, a) == pval(*old(self), a).fmul(uval(rhs, a)) by { l_uprod_ext(s0, s1, a, n); r_push(old(self).coeff, rhs.coeff, uprod(s0, a, n), fpow(a(rhs.register, rhs.steps_difference), rhs.power as nat)); } }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::mul_assign impl="MulAssign < F >"
ensures final(self).terms@ == old(self).terms@, p_wf(*old(self)) ==> p_wf(*final(self)), final(self).total_degree == old(self).total_degree, forall|a: Asg<F>| #[trigger] pval(*final(self), a) == pval(*old(self), a).fmul(other)
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] pval(*self, a) == pval(*old(self), a).fmul(other) by { r_scal(old(self).coeff, uprod(self.terms@, a, self.terms@.len() as int), other); } }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::mul_assign impl="MulAssign < & F >" rename=mul_assign_ref
ensures final(self).terms@ == old(self).terms@, p_wf(*old(self)) ==> p_wf(*final(self)), final(self).total_degree == old(self).total_degree, forall|a: Asg<F>| #[trigger] pval(*final(self), a) == pval(*old(self), a).fmul(*other)
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] pval(*self, a) == pval(*old(self), a).fmul(*other) by { r_scal(old(self).coeff, uprod(self.terms@, a, self.terms@.len() as int), *other); } }
//@@ endfn
//@@ fn src/air/constraint.rs PolyvariateTerm::mul_assign impl="MulAssign < PolyvariateTerm" rename=mul_assign_poly
requires old(self).total_degree + rhs.total_degree <= 0xffff_ffff_ffff_ffff
ensures forall|p: Rd<F>| us_reads(old(self).terms@, p) && us_reads(rhs.terms@, p) ==> #[trigger] us_reads(final(self).terms@, p), p_wf(*old(self)) && p_wf(rhs) ==> p_wf(*final(self)), final(self).total_degree == old(self).total_degree + rhs.total_degree, forall|a: Asg<F>| #[trigger] pval(*final(self), a) == pval(*old(self), a).fmul(pval(rhs, a))
//@@ subst "self . terms . extend (rhs . terms . into_iter ())" => "{ let mut vx_t = rhs . terms ; self . terms . append (& mut vx_t) }"
//@@ end
  proof { let s = old(self).terms@; let t = rhs.terms@; assert(self.terms@ == s + t); l_uprod_cat(s, t, arbitrary(), t.len() as int);
    assert forall|a: Asg<F>| #[trigger] pval(*self, a) == pval(*old(self), a).fmul(pval(rhs, a)) by { l_uprod_cat(s, t, a, t.len() as int); r_pp(old(self).coeff, rhs.coeff, uprod(s, a, s.len() as int), uprod(t, a, t.len() as int)); } }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::default ret=r
ensures forall|p: Rd<F>| #[trigger] c_reads(r, p), r.constant_term == F::f0(), r.terms@.len() == 0, c_wf(r), r.degree == 0, forall|a: Asg<F>| #[trigger] cval(r, a) == F::f0()
//@@ end tail
  proof { F::ax_zero(F::f0()); }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::add_assign impl="AddAssign < PolyvariateTerm" rename=add_assign_poly
ensures c_reads_more(*old(self), *final(self), ConstraintTerm::Polyvariate(rhs)), c_wf(*old(self)) && p_wf(rhs) ==> c_wf(*final(self)), final(self).degree == imax(old(self).degree as int, rhs.total_degree as int), final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == cval(*old(self), a).fadd(pval(rhs, a))
//@@ end
  proof { l_reads_push(*old(self), *self, ConstraintTerm::Polyvariate(rhs), self.terms@.last()); l_cpush(*old(self), *self, ConstraintTerm::Polyvariate(rhs)); }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::sub_assign impl="SubAssign < PolyvariateTerm" rename=sub_assign_poly
ensures c_reads_more(*old(self), *final(self), ConstraintTerm::Polyvariate(rhs)), c_wf(*old(self)) && p_wf(rhs) ==> c_wf(*final(self)), final(self).degree == imax(old(self).degree as int, rhs.total_degree as int), final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == fsub(cval(*old(self), a), pval(rhs, a))
//@@ begin
  let ghost r0 = rhs;
//@@ end
  proof { l_reads_push(*old(self), *self, ConstraintTerm::Polyvariate(r0), self.terms@.last()); l_cpush(*old(self), *self, self.terms@.last()); assert forall|a: Asg<F>| #[trigger] cval(*self, a) == fsub(cval(*old(self), a), pval(r0, a)) by { l_mul_neg(r0.coeff, uprod(r0.terms@, a, r0.terms@.len() as int)); } }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::add_assign impl="AddAssign < UnivariateTerm" rename=add_assign_uni
ensures c_reads_more(*old(self), *final(self), ConstraintTerm::Univariate(rhs)), c_wf(*old(self)) ==> c_wf(*final(self)), final(self).degree == imax(old(self).degree as int, rhs.power as int), final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == cval(*old(self), a).fadd(uval(rhs, a))
//@@ end
  proof { l_reads_push(*old(self), *self, ConstraintTerm::Univariate(rhs), self.terms@.last()); l_cpush(*old(self), *self, ConstraintTerm::Univariate(rhs)); }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::sub_assign impl="SubAssign < UnivariateTerm" rename=sub_assign_uni
ensures c_reads_more(*old(self), *final(self), ConstraintTerm::Univariate(rhs)), c_wf(*old(self)) ==> c_wf(*final(self)), final(self).degree == imax(old(self).degree as int, rhs.power as int), final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == fsub(cval(*old(self), a), uval(rhs, a))
//@@ end
  proof { l_reads_push(*old(self), *self, ConstraintTerm::Univariate(rhs), self.terms@.last()); l_cpush(*old(self), *self, self.terms@.last()); assert forall|a: Asg<F>| #[trigger] cval(*self, a) == fsub(cval(*old(self), a), uval(rhs, a)) by { l_mul_neg(rhs.coeff, fpow(a(rhs.register, rhs.steps_difference), rhs.power as nat)); } }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::add_assign impl="AddAssign < & F >" rename=add_assign_ref
ensures final(self).terms@ == old(self).terms@, c_wf(*old(self)) ==> c_wf(*final(self)), final(self).degree == old(self).degree, final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == cval(*old(self), a).fadd(*rhs)
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] cval(*self, a) == cval(*old(self), a).fadd(*rhs) by { r_cadd(old(self).constant_term, tsum(self.terms@, a, self.terms@.len() as int), *rhs); } }
//@@ endfn
//@@ fn src/air/constraint.rs Constraint::sub_assign impl="SubAssign < & F >" rename=sub_assign_ref
ensures final(self).terms@ == old(self).terms@, c_wf(*old(self)) ==> c_wf(*final(self)), final(self).degree == old(self).degree, final(self).density == old(self).density, forall|a: Asg<F>| #[trigger] cval(*final(self), a) == fsub(cval(*old(self), a), *rhs)
//@@ end
  proof { assert forall|a: Asg<F>| #[trigger] cval(*self, a) == fsub(cval(*old(self), a), *rhs) by { r_cadd(old(self).constant_term, tsum(self.terms@, a, self.terms@.len() as int), rhs.fneg()); } }
//@@ endfn
