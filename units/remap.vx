// ---- step differences become masks: from "k rows ahead" to "at omega^k * x" ----
pub open spec fn u_masked<F: PrimeField>(a: UnivariateTerm<F>, b: UnivariateTerm<F>, om: F) -> bool {
    b.coeff == a.coeff && b.register == a.register && b.power == a.power && b.steps_difference == StepDifference::<F>::Mask(fpow(om, step_of(a) as nat)) }
pub open spec fn us_masked<F: PrimeField>(a: Seq<UnivariateTerm<F>>, b: Seq<UnivariateTerm<F>>, om: F, n: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < n ==> u_masked(a[i], #[trigger] b[i], om)) && (forall|i: int| n <= i < a.len() ==> a[i] == #[trigger] b[i]) }
pub open spec fn t_masked<F: PrimeField>(a: ConstraintTerm<F>, b: ConstraintTerm<F>, om: F) -> bool {
    match a { ConstraintTerm::Univariate(u) => b matches ConstraintTerm::Univariate(v) && u_masked(u, v, om),
        ConstraintTerm::Polyvariate(p) => b matches ConstraintTerm::Polyvariate(q) && p.coeff == q.coeff && p.total_degree == q.total_degree && us_masked(p.terms@, q.terms@, om, p.terms@.len() as int) } }
pub open spec fn ts_masked<F: PrimeField>(a: Seq<ConstraintTerm<F>>, b: Seq<ConstraintTerm<F>>, om: F, n: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < n ==> t_masked(a[i], #[trigger] b[i], om)) && (forall|i: int| n <= i < a.len() ==> a[i] == #[trigger] b[i]) }
pub open spec fn c_masked<F: PrimeField>(a: Constraint<F>, b: Constraint<F>, om: F) -> bool {
    a.constant_term == b.constant_term && a.degree == b.degree && a.density == b.density && ts_masked(a.terms@, b.terms@, om, a.terms@.len() as int) }
pub open spec fn t_steps<F: PrimeField>(t: ConstraintTerm<F>) -> bool { match t { ConstraintTerm::Univariate(u) => u.steps_difference is Steps, ConstraintTerm::Polyvariate(p) => us_steps(p.terms@) } }
pub open spec fn us_steps<F: PrimeField>(s: Seq<UnivariateTerm<F>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).steps_difference is Steps }
pub open spec fn c_steps<F: PrimeField>(c: Constraint<F>) -> bool { forall|i: int| 0 <= i < c.terms@.len() ==> t_steps(#[trigger] c.terms@[i]) }
//@@ fn src/arp/mappings.rs remap_univariate_term
requires old(term).steps_difference is Steps
ensures u_masked(*old(term), *final(term), column_domain.generator)
//@@ endfn
//@@ fn src/arp/mappings.rs remap_term
requires t_steps(*old(term))
ensures t_masked(*old(term), *final(term), column_domain.generator)
//@@ loop 1
invariant vx_n1 == poly_term.terms@.len(), vx_k1 <= vx_n1, us_steps(ts0), vx_n1 == ts0.len(), us_masked(ts0, poly_term.terms@, column_domain.generator, vx_k1 as int),
  poly_term.coeff == p0.coeff, poly_term.total_degree == p0.total_degree, *old(term) == ConstraintTerm::Polyvariate(p0), ts0 == p0.terms@,
decreases vx_n1 - vx_k1
//@@ loop 1 before
let ghost p0 = *poly_term; let ghost ts0 = p0.terms@;
//@@ loop 1 start
let ghost pre = poly_term.terms@; proof { assert(pre[vx_i1 as int] == ts0[vx_i1 as int]); }
//@@ loop 1 end
proof { assert forall|i: int| 0 <= i < vx_k1 implies u_masked(ts0[i], #[trigger] poly_term.terms@[i], column_domain.generator) by { if i < vx_i1 { assert(poly_term.terms@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < ts0.len() implies ts0[i] == #[trigger] poly_term.terms@[i] by { assert(poly_term.terms@[i] == pre[i]); } }
//@@ endfn
//@@ fn src/arp/mappings.rs remap_constraint
requires c_steps(*old(constraint))
ensures c_masked(*old(constraint), *final(constraint), column_domain.generator)
//@@ loop 1
invariant vx_n1 == constraint.terms@.len(), vx_k1 <= vx_n1, c_steps(c0), vx_n1 == ts0.len(), ts_masked(ts0, constraint.terms@, column_domain.generator, vx_k1 as int),
  constraint.constant_term == c0.constant_term, constraint.degree == c0.degree, constraint.density == c0.density, *old(constraint) == c0, ts0 == c0.terms@,
decreases vx_n1 - vx_k1
//@@ loop 1 before
let ghost c0 = *constraint; let ghost ts0 = c0.terms@;
//@@ loop 1 start
let ghost pre = constraint.terms@; proof { assert(pre[vx_i1 as int] == ts0[vx_i1 as int]); }
//@@ loop 1 end
proof { assert forall|i: int| 0 <= i < vx_k1 implies t_masked(ts0[i], #[trigger] constraint.terms@[i], column_domain.generator) by { if i < vx_i1 { assert(constraint.terms@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < ts0.len() implies ts0[i] == #[trigger] constraint.terms@[i] by { assert(constraint.terms@[i] == pre[i]); } }
//@@ endfn
pub open spec fn p_masked<F: PrimeField>(a: InstanceProperties<F>, b: InstanceProperties<F>) -> bool {
    a.num_rows == b.num_rows && a.num_registers == b.num_registers && a.boundary_constraints@ == b.boundary_constraints@ && a.constraints@.len() == b.constraints@.len()
    && forall|i: int| 0 <= i < a.constraints@.len() ==> c_masked(a.constraints@[i], #[trigger] b.constraints@[i], dgen::<F>(lg2(np2(a.num_rows as int)))) }
//@@ fn src/arp/per_register/mod.rs ARPInstance::route ret=r
requires forall|i: int| 0 <= i < old(self).properties.constraints@.len() ==> c_steps(#[trigger] old(self).properties.constraints@[i]), old(self).properties.num_rows <= 0x8000_0000_0000_0000
ensures r is Ok <==> admissible::<F>(old(self).properties.num_rows as int), r is Ok ==> p_masked(old(self).properties, final(self).properties)
//@@ begin
let ghost p0 = self.properties; let ghost cs0 = p0.constraints@; let ghost rows = p0.num_rows as int; proof { lemma_np2(rows); lemma_np2_big(rows); lemma_np2(np2(rows)); lemma2_to64(); lemma2_to64_rest(); }
//@@ loop 1 before
proof { lemma_lg2_pow2(column_domain.power_of_two as nat); }
//@@ loop 1
invariant vx_n1 == self.properties.constraints@.len(), vx_k1 <= vx_n1, vx_n1 == cs0.len(), cs0 == p0.constraints@, p0 == old(self).properties, column_domain.generator == dgen::<F>(lg2(np2(rows))), rows == p0.num_rows,
  self.properties.num_rows == p0.num_rows, self.properties.num_registers == p0.num_registers, self.properties.boundary_constraints@ == p0.boundary_constraints@, admissible::<F>(rows),
  forall|i: int| 0 <= i < cs0.len() ==> c_steps(#[trigger] cs0[i]),
  forall|i: int| 0 <= i < vx_k1 ==> c_masked(cs0[i], #[trigger] self.properties.constraints@[i], column_domain.generator),
  forall|i: int| vx_k1 <= i < cs0.len() ==> cs0[i] == #[trigger] self.properties.constraints@[i],
decreases vx_n1 - vx_k1
//@@ loop 1 start
let ghost pre = self.properties.constraints@; proof { assert(pre[vx_i1 as int] == cs0[vx_i1 as int]); }
//@@ loop 1 end
proof { assert forall|i: int| 0 <= i < vx_k1 implies c_masked(cs0[i], #[trigger] self.properties.constraints@[i], column_domain.generator) by { if i < vx_i1 { assert(self.properties.constraints@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < cs0.len() implies cs0[i] == #[trigger] self.properties.constraints@[i] by { assert(self.properties.constraints@[i] == pre[i]); } }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::from_instance ret=r
requires forall|i: int| 0 <= i < instance.constraints@.len() ==> c_steps(#[trigger] instance.constraints@[i]), instance.num_rows <= 0x8000_0000_0000_0000
ensures r is Ok <==> admissible::<F>(instance.num_rows as int), r matches Ok(a) ==> p_masked(instance, a.properties)
//@@ endfn
