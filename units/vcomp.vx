// ---- the verifier's side of the composition: real code ----
//@@ subst "impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR: FriProof<F, I>, FRI: FriIop<F, IopType = I, ProofPrototype = P, Proof = PR>> Verifier<F, T, I, P, PR, FRI, PerRegisterARP>" => "impl<F: PrimeField> Verifier<F>"
//@@ subst "impl<F: PrimeField, T: Transcript<F>, I: IOP<F>, A: ARPType> InstanceProofScratchSpace<F, T, I, A>" => "impl<F: PrimeField> InstanceProofScratchSpace<F>"
//@@ subst "InstanceProofScratchSpace<F, T, I, PerRegisterARP>" => "InstanceProofScratchSpace<F>"
//@@ subst "InstanceProof<F, T, I, P, PR, FRI, PerRegisterARP>" => "InstanceProof<F>"
//@@ item src/verifier/mod.rs Verifier "F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR: FriProof<F, I>, FRI: FriIop<F, IopType = I, ProofPrototype = P, Proof = PR>, A: ARPType" => "F: PrimeField" "PhantomData<A>" => "PhantomData<()>" "PhantomData<I>" => "PhantomData<()>" "PhantomData<T>" => "PhantomData<()>" "PhantomData<P>" => "PhantomData<()>" "PhantomData<FRI>" => "PhantomData<()>"
//@@ fn src/verifier/mod.rs inverse_divisor_for_dense_constraint ret=r
requires column_domain.wf(), dense_constraint.start_at + dense_constraint.span <= num_rows <= column_domain.size
ensures r is Ok <==> fpow(x, column_domain.size as nat) != F::f1(), r is Ok ==> r->Ok_0.0 == dense_inv(x, column_domain.size as int, num_rows as int, dense_constraint) && r->Ok_0.1 == num_rows - dense_constraint.start_at - dense_constraint.span
//@@ begin
  proof { lemma_lg2_pow2(column_domain.power_of_two as nat); if fsub(fpow(x, column_domain.size as nat), F::f1()) == F::f0() { l_sub_eq_zero(fpow(x, column_domain.size as nat), F::f1()); } else { if fpow(x, column_domain.size as nat) == F::f1() { l_sub_self(F::f1()); } } }
  let ghost om = column_domain.generator; let ghost n = column_domain.size as int;
//@@ loop 1 before
  let ghost inv = inverse_divisor;
  proof { F::ax_one(inv); l_pow0(om); }
//@@ loop 1
  invariant vx_n1 == start_at, vx_k1 <= vx_n1, roots_generator == om, root == fpow(om, vx_k1 as nat), inverse_divisor == inv.fmul(vanish(x, om, 0, vx_k1 as int)),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { F::ax_mul_assoc(inv, vanish(x, om, 0, vx_i1 as int), fsub(x, root)); l_pow_step(om, vx_i1 as nat); }
//@@ loop 2 before
  let ghost inv2 = inverse_divisor;
  proof { F::ax_one(inv2); }
//@@ loop 2
  invariant vx_n2 == divisor_domain_size, last_step <= vx_k2 <= vx_n2, roots_generator == om, root == fpow(om, vx_k2 as nat), inverse_divisor == inv2.fmul(vanish(x, om, last_step as int, vx_k2 as int)),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { F::ax_mul_assoc(inv2, vanish(x, om, last_step as int, vx_i2 as int), fsub(x, root)); l_pow_step(om, vx_i2 as nat); }
//@@ endfn
// the values claimed at the masked points
pub open spec fn maps_rd<F: PrimeField>(w: Seq<IndexMap<StepDifference<F>, F>>) -> Rd<F> { |r: Register, s: StepDifference<F>| r is Register && reg_of(r) < w.len() && im_has(w[reg_of(r)]@, s) }
pub open spec fn maps_asg<F: PrimeField>(w: Seq<IndexMap<StepDifference<F>, F>>) -> Asg<F> { |r: Register, s: StepDifference<F>| im_val(w[reg_of(r)]@, s) }
//@@ fn src/verifier/mod.rs evaluate_univariate_term_on_f_at_z_m ret=r
requires maps_rd(witness@)(univariate_term.register, univariate_term.steps_difference)
ensures r == Ok::<F, SynthesisError>(uval(*univariate_term, maps_asg(witness@)))
//@@ end tail
  proof { F::ax_mul_comm(univariate_term.coeff, fpow(maps_asg(witness@)(univariate_term.register, univariate_term.steps_difference), univariate_term.power as nat)); }
//@@ endfn
//@@ fn src/verifier/mod.rs evaluate_term_on_f_at_z_m ret=r
requires t_reads(*term, maps_rd(witness@))
ensures r == Ok::<F, SynthesisError>(tval(*term, maps_asg(witness@)))
//@@ loop 1
  invariant vx_n1 == poly_term.terms@.len(), vx_k1 <= vx_n1, us_reads(poly_term.terms@, maps_rd(witness@)), result == uprod(poly_term.terms@, maps_asg(witness@), vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ loop 1 after
  proof { F::ax_mul_comm(result, poly_term.coeff); }
//@@ endfn
//@@ fn src/verifier/mod.rs evaluate_constraint_on_f_at_z_m ret=r
requires c_reads(*constraint, maps_rd(witness@))
ensures r == Ok::<F, SynthesisError>(cval(*constraint, maps_asg(witness@)))
//@@ begin
  proof { F::ax_zero(constraint.constant_term); }
//@@ loop 1
  invariant vx_n1 == constraint.terms@.len(), vx_k1 <= vx_n1, c_reads(*constraint, maps_rd(witness@)), value == constraint.constant_term.fadd(tsum(constraint.terms@, maps_asg(witness@), vx_k1 as int)),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { let a = maps_asg(witness@); let t = constraint.terms@; F::ax_add_assoc(constraint.constant_term, tsum(t, a, vx_i1 as int), tval(t[vx_i1 as int], a)); }
//@@ endfn
