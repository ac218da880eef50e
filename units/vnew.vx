// ---- building a verifier: real code ----
pub open spec fn raw_ok<F: PrimeField>(n: int) -> Rd<F> { |r: Register, s: StepDifference<F>| r is Register && reg_of(r) < n && s is Steps }
// an instance as the tracer and the remapping produce it: registers exist, steps are counts, densities are dense and lie in the trace
pub open spec fn inst_v<F: PrimeField>(p: InstanceProperties<F>) -> bool {
    &&& forall|i: int| 0 <= i < p.constraints@.len() ==> c_reads(#[trigger] p.constraints@[i], raw_ok::<F>(p.num_registers as int)) && dense_ok(p.constraints@[i].density, p.num_rows as int)
    &&& forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> bnd_ok(#[trigger] p.boundary_constraints@[i], p.num_registers as int)
}
pub proof fn l_steps<F: PrimeField>(c: Constraint<F>, n: int) requires c_reads(c, raw_ok::<F>(n)) ensures c_steps(c) {
    assert forall|i: int| 0 <= i < c.terms@.len() implies t_steps(#[trigger] c.terms@[i]) by { let t = c.terms@[i]; assert(t_reads(t, raw_ok::<F>(n)));
        match t { ConstraintTerm::Univariate(u) => {}, ConstraintTerm::Polyvariate(q) => { assert forall|j: int| 0 <= j < q.terms@.len() implies (#[trigger] q.terms@[j]).steps_difference is Steps by { assert(raw_ok::<F>(n)(q.terms@[j].register, q.terms@[j].steps_difference)); } } } }
}
pub proof fn l_mask_reads<F: PrimeField>(a: Constraint<F>, b: Constraint<F>, om: F, n: int) requires c_reads(a, raw_ok::<F>(n)), c_masked(a, b, om) ensures c_reads(b, reads_ok::<F>(n)) {
    assert forall|i: int| 0 <= i < b.terms@.len() implies t_reads(#[trigger] b.terms@[i], reads_ok::<F>(n)) by {
        let t = a.terms@[i]; let u = b.terms@[i]; assert(t_masked(t, u, om)); assert(t_reads(t, raw_ok::<F>(n)));
        match u { ConstraintTerm::Univariate(v) => {}, ConstraintTerm::Polyvariate(q) => { let q0 = t->Polyvariate_0; assert forall|j: int| 0 <= j < q.terms@.len() implies reads_ok::<F>(n)((#[trigger] q.terms@[j]).register, q.terms@[j].steps_difference) by { assert(u_masked(q0.terms@[j], q.terms@[j], om)); assert(raw_ok::<F>(n)(q0.terms@[j].register, q0.terms@[j].steps_difference)); } } } }
}
pub proof fn l_deg_same<F: PrimeField>(a: Seq<Constraint<F>>, b: Seq<Constraint<F>>, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).degree == a[i].degree ensures max_deg(a, n) == max_deg(b, n) decreases n { if n > 0 { l_deg_same(a, b, n - 1); } }
pub proof fn l_masked_inst<F: PrimeField>(a: InstanceProperties<F>, b: InstanceProperties<F>) requires inst_v(a), p_masked(a, b) ensures inst_m(b), pdeg(a) == pdeg(b) {
    l_deg_same(a.constraints@, b.constraints@, a.constraints@.len() as int); l_deg_range(b.constraints@, b.constraints@.len() as int);
    assert forall|i: int| 0 <= i < b.constraints@.len() implies c_reads(#[trigger] b.constraints@[i], reads_ok::<F>(b.num_registers as int)) && dense_ok(b.constraints@[i].density, b.num_rows as int) by {
        l_mask_reads(a.constraints@[i], b.constraints@[i], dgen::<F>(lg2(np2(a.num_rows as int))), a.num_registers as int); }
}
//@@ fn src/verifier/mod.rs Verifier::new ret=r attr="#[verifier::rlimit(60)]"
requires inst_v(instance), instance.num_rows <= 0x8000_0000_0000_0000, pdeg(instance) <= 0x8000_0000_0000_0000, np2(pdeg(instance)) * np2(instance.num_rows as int) <= 0x8000_0000_0000_0000
ensures r is Ok <==> admissible::<F>(instance.num_rows as int) && admissible::<F>(np2(pdeg(instance)) * np2(instance.num_rows as int)),
  r matches Ok(v) ==> v.wf() && p_masked(instance, v.instance) && v.lde_factor == lde_factor
//@@ begin
  let ghost p0 = instance; let ghost cs0 = p0.constraints@; let ghost rows = p0.num_rows as int; let ghost dg = pdeg(p0);
  proof { lemma_np2(rows); lemma_np2_big(rows); lemma_np2(np2(rows)); lemma2_to64(); lemma2_to64_rest(); lemma_np2(np2(dg) * np2(rows)); lemma_np2_big(np2(dg) * np2(rows)); lemma_np2(dg); l_deg_range(cs0, cs0.len() as int);
    assert forall|i: int| 0 <= i < cs0.len() implies c_steps(#[trigger] cs0[i]) by { l_steps(cs0[i], p0.num_registers as int); } }
//@@ loop 1 before
  proof { lemma_lg2_pow2(column_domain.power_of_two as nat); }
//@@ loop 1
  invariant vx_n1 == instance.constraints@.len(), vx_k1 <= vx_n1, vx_n1 == cs0.len(), cs0 == p0.constraints@, column_domain.generator == dgen::<F>(lg2(np2(rows))), rows == p0.num_rows,
    instance.num_rows == p0.num_rows, instance.num_registers == p0.num_registers, instance.boundary_constraints@ == p0.boundary_constraints@,
    forall|i: int| 0 <= i < cs0.len() ==> c_steps(#[trigger] cs0[i]),
    forall|i: int| 0 <= i < vx_k1 ==> c_masked(cs0[i], #[trigger] instance.constraints@[i], column_domain.generator),
    forall|i: int| vx_k1 <= i < cs0.len() ==> cs0[i] == #[trigger] instance.constraints@[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = instance.constraints@; proof { assert(pre[vx_i1 as int] == cs0[vx_i1 as int]); }
//@@ loop 1 end
  proof { assert forall|i: int| 0 <= i < vx_k1 implies c_masked(cs0[i], #[trigger] instance.constraints@[i], column_domain.generator) by { if i < vx_i1 { assert(instance.constraints@[i] == pre[i]); } }
    assert forall|i: int| vx_k1 <= i < cs0.len() implies cs0[i] == #[trigger] instance.constraints@[i] by { assert(instance.constraints@[i] == pre[i]); } }
//@@ loop 1 after
  proof { assert(p_masked(p0, instance)); l_masked_inst(p0, instance); }
//@@ loop 2
  invariant vx_n2 == instance.constraints@.len(), vx_k2 <= vx_n2, all_masks@ == m_cs(instance.constraints@, vx_k2 as int), max_constraint_power == max_deg(instance.constraints@, vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ stmt "let constraints_domain" before
  proof { assert(constraint_power == np2(dg)); }
//@@ loop 3
  invariant vx_n3 == instance.constraints@.len(), vx_k3 <= vx_n3, bview(constraints_batched_by_density@) == bat(instance.constraints@, vx_k3 as int),
  decreases vx_n3 - vx_k3
//@@ loop 3 before
  proof { assert(bview(constraints_batched_by_density@) =~= bat(instance.constraints@, 0)); }
//@@ loop 3 start
  let ghost bm = constraints_batched_by_density@; let ghost cj = instance.constraints@[vx_i3 as int];
  proof { constraints_batched_by_density.ax_map(); l_bat_steps(bm, cj); }
//@@ loop 4
  invariant vx_n4 == instance.boundary_constraints@.len(), vx_k4 <= vx_n4, all_masks@ == m_bs(m_cs(instance.constraints@, instance.constraints@.len() as int), instance.boundary_constraints@, vx_k4 as int),
  decreases vx_n4 - vx_k4
//@@ loop 4 after
  proof { l_pbat(instance); assert(bview(constraints_batched_by_density@) == pbat(instance)); }
//@@ loop 5
  invariant vx_n5 == constraints_batched_by_density@.len(), vx_k5 <= vx_n5, bview(constraints_batched_by_density@) == pbat(instance), bat_of(pbat(instance), c_fine(instance)), max_constraint_power == pdeg(instance),
  decreases vx_n5 - vx_k5
//@@ loop 5 bound
  proof { let d = vx_i5 as int; assert(pbat(instance)[d] == (constraints_batched_by_density@[d].0, constraints_batched_by_density@[d].1@)); }
//@@ loop 6
  invariant vx_n6 == batch@.len(), vx_k6 <= vx_n6, batch@ == pbat(instance)[vx_i5 as int].1, 0 <= vx_i5 < pbat(instance).len(), bat_of(pbat(instance), c_fine(instance)), max_constraint_power == pdeg(instance),
  decreases vx_n6 - vx_k6
//@@ loop 6 bound
  proof { assert(*c == pbat(instance)[vx_i5 as int].1[vx_i6 as int]); assert(c_fine(instance)(pbat(instance)[vx_i5 as int].1[vx_i6 as int])); }
//@@ endfn
