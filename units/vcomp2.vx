// ---- the standalone verifier: real code, over the trees, transcript and FRI instantiations of this repository ----
//@@ item src/verifier/mod.rs InstanceProof "F: PrimeField, T: Transcript<F>, I: IOP<F>, P: FriProofPrototype<F, I>, PR: FriProof<F, I>, FRI: FriIop<F, IopType = I, ProofPrototype = P, Proof = PR>, A: ARPType" => "F: PrimeField" "PhantomData<A>" => "PhantomData<()>" "PhantomData<T>" => "PhantomData<()>" "PhantomData<P>" => "PhantomData<()>" "PhantomData<FRI>" => "PhantomData<()>" "< < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput >" => "<[u8; 32]>" "< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput" => "[u8; 32]" "I::Query" => "TrivialBlake2sIopQuery<F>" "PR" => "FRIProof<F>"
//@@ item src/verifier/mod.rs InstanceProofScratchSpace "F: PrimeField, T: Transcript<F>, I: IOP<F>, A: ARPType" => "F: PrimeField" "PhantomData<A>" => "PhantomData<()>" "PhantomData<I>" => "PhantomData<()>" "T" => "Blake2sTranscript<F>"
// slice::Iter, as far as it is used here
pub struct VxIter<'a, T> { pub s: &'a Vec<T>, pub k: usize }
fn vx_iter<'a, T>(s: &'a Vec<T>) -> (r: VxIter<'a, T>) ensures r.s@ == s@, r.k == 0 { VxIter { s: s, k: 0 } }
impl<'a, T> VxIter<'a, T> {
    fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).k <= old(self).s@.len()
        ensures final(self).s@ == old(self).s@, final(self).k <= final(self).s@.len(), old(self).k < old(self).s@.len() ==> r is Some && *r->Some_0 == old(self).s@[old(self).k as int] && final(self).k == old(self).k + 1,
            old(self).k >= old(self).s@.len() ==> r is None && final(self).k == old(self).k
    { if self.k < self.s.len() { let i = self.k; self.k = i + 1; Some(&self.s[i]) } else { None } }
}
impl<F: PrimeField> Verifier<F> {
    pub open spec fn wf(&self) -> bool {
        &&& inst_m(self.instance)
        &&& self.max_constraint_power == pdeg(self.instance)
        &&& self.column_domain.wf() && self.column_domain.size == psize(self.instance)
        &&& self.constraints_domain.wf() && self.constraints_domain.size == pgsize(self.instance)
        &&& self.all_masks@ == pmasks(self.instance)
        &&& bview(self.constraints_batched_by_density@) == pbat(self.instance)
        &&& self.instance.num_rows as int <= psize(self.instance)
    }
}
// the values claimed at the masked points, as an assignment
//@@ fn src/verifier/mod.rs Verifier::simulate_h1_from_f_at_z ret=r
requires self.wf(), mask_challenges@.len() == self.all_masks@.len(), f_at_z_m@.len() == self.all_masks@.len(), f_ldes_at_x@.len() == self.instance.num_registers, f_lde_domain.wf()
ensures ({ let x = fpow(f_lde_domain.generator, natural_x_index as nat); let m = self.all_masks@;
    (r is Ok <==> h1def(m, z, x)) && (r matches Ok(v) ==> v == h1v(m, f_ldes_at_x@, f_at_z_m@, mask_challenges@, z, x, m.len() as int)) })
//@@ begin
  let ghost m = self.all_masks@;
  proof { l_inst_masks(self.instance); }
//@@ loop 1
  invariant vx_n1 == m.len(), vx_k1 <= vx_n1, m == self.all_masks@, mask_challenges@.len() == m.len(), f_at_z_m@.len() == m.len(), f_ldes_at_x@.len() == self.instance.num_registers,
    ms_all(m, reads_ok::<F>(self.instance.num_registers as int)), h_at_x == h1v(m, f_ldes_at_x@, f_at_z_m@, mask_challenges@, z, x, vx_k1 as int),
    forall|i: int| 0 <= i < vx_k1 ==> x != mask_pt(#[trigger] m[i], z), x == fpow(f_lde_domain.generator, natural_x_index as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { assert(reads_ok::<F>(self.instance.num_registers as int)(m[vx_i1 as int].register, m[vx_i1 as int].steps_difference)); l_nz(x, mask_pt(m[vx_i1 as int], z)); }
//@@ endfn
//@@ fn src/verifier/mod.rs Verifier::simulate_h2_from_g_at_z ret=r
requires self.wf(), g_lde_domain.wf()
ensures ({ let x = fpow(g_lde_domain.generator, natural_x_index as nat); (r is Ok <==> x != z) && (r matches Ok(v) ==> v == h2v(g_lde_at_x, g_at_z, z, x)) })
//@@ begin
  proof { l_nz(fpow(g_lde_domain.generator, natural_x_index as nat), z); }
//@@ endfn
// the maps built from the claimed values agree with them
pub open spec fn maps_ok<F: PrimeField>(w: Seq<IndexMap<StepDifference<F>, F>>, m: Seq<MaskProperties<F>>, fz: Seq<F>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> map_has(w, #[trigger] m[i], fz[i]) }
pub open spec fn map_has<F: PrimeField>(w: Seq<IndexMap<StepDifference<F>, F>>, m: MaskProperties<F>, v: F) -> bool { let t = w[reg_of(m.register)]@; im_has(t, m.steps_difference) && im_val(t, m.steps_difference) == v }
pub proof fn l_maps_agree<F: PrimeField>(w: Seq<IndexMap<StepDifference<F>, F>>, m: Seq<MaskProperties<F>>, fz: Seq<F>)
    requires maps_ok(w, m, fz, m.len() as int), ms_all(m, reads_ok::<F>(w.len() as int))
    ensures agree(maps_asg(w), fz_asg(m, fz), ms_rd(m)), forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(m)(r, s) ==> maps_rd(w)(r, s)
{
    assert forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(m)(r, s) implies maps_asg(w)(r, s) == fz_asg(m, fz)(r, s) && maps_rd(w)(r, s) by {
        let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == mk(r, s);
        assert(is_in(m, mk(r, s))); assert(0 <= i < m.len() && m[i] == mk(r, s)); assert(map_has(w, m[i], fz[i]));
        assert(reads_ok::<F>(w.len() as int)(m[i].register, m[i].steps_difference));
    }
}
// constraint count
//@@ fn src/verifier/mod.rs Verifier::calculate_g_at_z_from_f_at_z ret=r attr="#[verifier::rlimit(60)]"
//@@ subst "scratch_space.constraint_challenges.iter()" => "vx_iter(&scratch_space.constraint_challenges)"
//@@ subst "scratch_space.boundary_constraint_challenges.iter()" => "vx_iter(&scratch_space.boundary_constraint_challenges)"
requires self.wf(), proof.f_at_z_m@.len() == self.all_masks@.len(), scratch_space.constraint_challenges@.len() == flat(pbat(self.instance), pbat(self.instance).len() as int), scratch_space.boundary_constraint_challenges@.len() == self.instance.boundary_constraints@.len()
ensures r is Ok <==> gdef(self.instance, z), r matches Ok(v) ==> v == gcomp(self.instance, fz_asg(self.all_masks@, proof.f_at_z_m@), scratch_space.constraint_challenges@, scratch_space.boundary_constraint_challenges@, z)
//@@ begin
  let ghost p = self.instance; let ghost m = self.all_masks@; let ghost fz = proof.f_at_z_m@; let ghost a = fz_asg(m, fz); let ghost b = pbat(p);
  let ghost cc = scratch_space.constraint_challenges@; let ghost bc = scratch_space.boundary_constraint_challenges@; let ghost dg = pdeg(p); let ghost n = psize(p); let ghost rows = p.num_rows as int;
  proof { l_inst_masks(p); l_pbat(p); lemma_lg2_pow2(self.column_domain.power_of_two as nat); }
//@@ loop 1
  invariant vx_n1 == m.len(), vx_k1 <= vx_n1, m == self.all_masks@, fz == proof.f_at_z_m@, fz.len() == m.len(), num_registers == p.num_registers, register_values_under_masks@.len() == num_registers, p == self.instance,
    ms_all(m, reads_ok::<F>(num_registers as int)), ms_dist(m), maps_ok(register_values_under_masks@, m, fz, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost w0 = register_values_under_masks@; let ghost mi = m[vx_i1 as int];
  proof { assert(reads_ok::<F>(num_registers as int)(mi.register, mi.steps_difference)); w0[reg_of(mi.register)].ax_map(); l_im_put(w0[reg_of(mi.register)]@, mi.steps_difference, fz[vx_i1 as int]); }
//@@ loop 1 end
  proof {
    let w = register_values_under_masks@;
    assert(w[reg_of(mi.register)]@ == im_put(w0[reg_of(mi.register)]@, mi.steps_difference, fz[vx_i1 as int]));
    assert forall|i: int| 0 <= i < vx_k1 implies map_has(w, #[trigger] m[i], fz[i]) by {
      if i < vx_i1 { assert(map_has(w0, m[i], fz[i])); assert(m[i] != mi); assert(reads_ok::<F>(num_registers as int)(m[i].register, m[i].steps_difference));
        if reg_of(m[i].register) == reg_of(mi.register) { assert(m[i].steps_difference != mi.steps_difference); } }
    }
  }
//@@ loop 1 after
  proof { l_maps_agree(register_values_under_masks@, m, fz); }
//@@ loop 2
  invariant vx_n2 == b.len(), vx_k2 <= vx_n2, self.wf(), p == self.instance, b == pbat(p), bview(self.constraints_batched_by_density@) == b, m == pmasks(p), n == psize(p), rows == p.num_rows, dg == pdeg(p), a == fz_asg(m, fz), n == self.column_domain.size, lg2(n) == self.column_domain.power_of_two,
    agree(maps_asg(register_values_under_masks@), a, ms_rd(m)), forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(m)(r, s) ==> maps_rd(register_values_under_masks@)(r, s), bat_of(b, c_fine(p)), forall|d: int| 0 <= d < b.len() ==> (#[trigger] b[d]).1.len() > 0 && dense_ok(b[d].0, rows),
    constraint_challenges_iter.s@ == cc, cc.len() == flat(b, b.len() as int), constraint_challenges_iter.k == flat(b, vx_k2 as int),
    p.constraints@.len() > 0 <==> b.len() > 0, vx_k2 > 0 ==> fpow(z, n as nat) != F::f1(),
    g_at_z == csum(b, a, dg, n, rows, cc, z, vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ loop 2 bound
  let ghost d = vx_i2 as int; let ghost g0 = g_at_z;
  proof { assert(b[d] == (self.constraints_batched_by_density@[d].0, self.constraints_batched_by_density@[d].1@)); assert(dense_ok(b[d].0, rows)); }
//@@ loop 3 before
  proof { F::ax_zero(g0); l_mul_zero(inverse_divisor); F::ax_mul_comm(inverse_divisor, F::f0()); l_flat_mono(b, d + 1, b.len() as int); }
//@@ loop 3
  invariant vx_n3 == batch@.len(), vx_k3 <= vx_n3, batch@ == b[d].1, 0 <= d < b.len(), self.wf(), p == self.instance, b == pbat(p), m == pmasks(p), dg == pdeg(p), bat_of(b, c_fine(p)),
    agree(maps_asg(register_values_under_masks@), a, ms_rd(m)), forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(m)(r, s) ==> maps_rd(register_values_under_masks@)(r, s),
    constraint_challenges_iter.s@ == cc, cc.len() == flat(b, b.len() as int), constraint_challenges_iter.k == flat(b, d) + vx_k3, flat(b, d + 1) == flat(b, d) + batch@.len(), flat(b, d + 1) <= cc.len(), flat(b, d) >= 0,
    g_at_z == g0.fadd(bsum(batch@, a, dg, cc, flat(b, d), z, vx_k3 as int).fmul(inverse_divisor)),
  decreases vx_n3 - vx_k3
//@@ loop 3 bound
  let ghost cj = batch@[vx_i3 as int];
  proof { assert(*c == b[d].1[vx_i3 as int]); assert(c_fine(p)(b[d].1[vx_i3 as int])); l_c_reads_mono(cj, ms_rd(m), maps_rd(register_values_under_masks@)); l_cval_agree(cj, maps_asg(register_values_under_masks@), a, ms_rd(m));
    let t = cval(cj, a).fmul(adj(dg - cj.degree, cc[flat(b, d) + vx_i3], z)); let s0 = bsum(batch@, a, dg, cc, flat(b, d), z, vx_i3 as int);
    F::ax_mul_comm(s0.fadd(t), inverse_divisor); F::ax_mul_comm(s0, inverse_divisor); F::ax_mul_comm(t, inverse_divisor); F::ax_distr(inverse_divisor, s0, t); F::ax_add_assoc(g0, s0.fmul(inverse_divisor), t.fmul(inverse_divisor)); }
//@@ loop 4
  invariant vx_n4 == p.boundary_constraints@.len(), vx_k4 <= vx_n4, self.wf(), p == self.instance, m == pmasks(p), dg == pdeg(p), n == psize(p), lg2(n) == self.column_domain.power_of_two, b == pbat(p),
    agree(maps_asg(register_values_under_masks@), a, ms_rd(m)), forall|r: Register, s: StepDifference<F>| #[trigger] ms_rd(m)(r, s) ==> maps_rd(register_values_under_masks@)(r, s), current_step == one_mask::<F>(), register_values_under_masks@.len() == p.num_registers,
    forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> is_in(m, mk((#[trigger] p.boundary_constraints@[i]).register, one_mask::<F>())),
    boundary_constraint_challenges_iter.s@ == bc, bc.len() == p.boundary_constraints@.len(), boundary_constraint_challenges_iter.k == vx_k4,
    forall|k: int| 0 <= k < vx_k4 ==> z != #[trigger] bnd_pt(p, k),
    p.constraints@.len() > 0 ==> fpow(z, n as nat) != F::f1(),
    g_at_z == bndsum(csum(b, a, dg, n, rows, cc, z, b.len() as int), p.boundary_constraints@, a, dg, n, bc, z, vx_k4 as int),
  decreases vx_n4 - vx_k4
//@@ loop 4 bound
  proof { let bb = p.boundary_constraints@[vx_i4 as int]; assert(bnd_ok(bb, p.num_registers as int)); assert(*b_c == bb); assert(ms_rd(m)(bb.register, one_mask::<F>())); l_nz(z, bnd_pt(p, vx_i4 as int)); }
//@@ endfn
