// ---- instances: what prover and verifier both derive from one ----
// a verifier built for an instance (register and step references already masked)
pub open spec fn inst_m<F: PrimeField>(p: InstanceProperties<F>) -> bool {
    &&& forall|i: int| 0 <= i < p.constraints@.len() ==> c_reads(#[trigger] p.constraints@[i], reads_ok::<F>(p.num_registers as int)) && dense_ok(p.constraints@[i].density, p.num_rows as int)
    &&& forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> bnd_ok(#[trigger] p.boundary_constraints@[i], p.num_registers as int)
    &&& p.boundary_constraints@.len() > 0 ==> max_deg(p.constraints@, p.constraints@.len() as int) >= 1
}
pub open spec fn pdeg<F: PrimeField>(p: InstanceProperties<F>) -> int { max_deg(p.constraints@, p.constraints@.len() as int) }
pub open spec fn pbat<F: PrimeField>(p: InstanceProperties<F>) -> Seq<Batch<F>> { bat(p.constraints@, p.constraints@.len() as int) }
pub open spec fn pmasks<F: PrimeField>(p: InstanceProperties<F>) -> Seq<MaskProperties<F>> { masks_of(p.constraints@, p.boundary_constraints@) }
pub open spec fn psize<F: PrimeField>(p: InstanceProperties<F>) -> int { np2(p.num_rows as int) }
pub open spec fn pgsize<F: PrimeField>(p: InstanceProperties<F>) -> int { np2(np2(pdeg(p)) * np2(p.num_rows as int)) }
pub open spec fn fz_asg<F: PrimeField>(m: Seq<MaskProperties<F>>, fz: Seq<F>) -> Asg<F> { |r: Register, s: StepDifference<F>| fz[choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == mk(r, s)] }
pub open spec fn mask_pt<F: PrimeField>(m: MaskProperties<F>, z: F) -> F { match m.steps_difference { StepDifference::Mask(w) => w.fmul(z), _ => z } }
// sum over the masks of (f(x) - f(mz)) / (x - mz) * challenge
pub open spec fn h1v<F: PrimeField>(m: Seq<MaskProperties<F>>, fx: Seq<F>, fz: Seq<F>, ch: Seq<F>, z: F, x: F, n: int) -> F decreases n {
    if n <= 0 { F::f0() } else { h1v(m, fx, fz, ch, z, x, n - 1).fadd(fsub(fx[reg_of(m[n - 1].register)], fz[n - 1]).fmul(fsub(x, mask_pt(m[n - 1], z)).finv()).fmul(ch[n - 1])) } }
pub open spec fn h1def<F: PrimeField>(m: Seq<MaskProperties<F>>, z: F, x: F) -> bool { forall|i: int| 0 <= i < m.len() ==> x != mask_pt(#[trigger] m[i], z) }
pub open spec fn h2v<F: PrimeField>(gx: F, gz: F, z: F, x: F) -> F { fsub(gx, gz).fmul(fsub(x, z).finv()) }
pub open spec fn gdef<F: PrimeField>(p: InstanceProperties<F>, z: F) -> bool {
    &&& p.constraints@.len() > 0 ==> fpow(z, psize(p) as nat) != F::f1()
    &&& forall|k: int| 0 <= k < p.boundary_constraints@.len() ==> z != #[trigger] bnd_pt(p, k)
}
pub open spec fn bnd_pt<F: PrimeField>(p: InstanceProperties<F>, k: int) -> F { fpow(dgen::<F>(lg2(psize(p))), p.boundary_constraints@[k].at_row as nat) }
pub proof fn l_nz<F: FieldSpec>(a: F, b: F) ensures fsub(a, b) == F::f0() <==> a == b { if fsub(a, b) == F::f0() { l_sub_eq_zero(a, b); } l_sub_self(a); }
pub proof fn l_inst_masks<F: PrimeField>(p: InstanceProperties<F>) requires inst_m(p)
    ensures ms_all(pmasks(p), reads_ok::<F>(p.num_registers as int)), ms_dist(pmasks(p)), forall|i: int| 0 <= i < p.constraints@.len() ==> c_reads(#[trigger] p.constraints@[i], ms_rd(pmasks(p))),
        forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> is_in(pmasks(p), mk((#[trigger] p.boundary_constraints@[i]).register, one_mask::<F>()))
{
    let q = reads_ok::<F>(p.num_registers as int); l_masks(p.constraints@, p.boundary_constraints@, q);
    assert forall|i: int| 0 <= i < p.boundary_constraints@.len() implies q((#[trigger] p.boundary_constraints@[i]).register, one_mask::<F>()) by { assert(bnd_ok(p.boundary_constraints@[i], p.num_registers as int)); }
}
pub proof fn l_flat_mono<F: PrimeField>(b: Seq<Batch<F>>, d: int, e: int) requires 0 <= d <= e <= b.len() ensures flat(b, d) <= flat(b, e), flat(b, d) >= 0 decreases e { if d < e { l_flat_mono(b, d, e - 1); } else if d > 0 { l_flat_mono(b, d - 1, d - 1); } }
pub proof fn l_max_deg<F: PrimeField>(cs: Seq<Constraint<F>>, n: int, i: int) requires 0 <= i < n <= cs.len() ensures cs[i].degree <= max_deg(cs, n) decreases n { if i < n - 1 { l_max_deg(cs, n - 1, i); } }
pub open spec fn c_fine<F: PrimeField>(p: InstanceProperties<F>) -> spec_fn(Constraint<F>) -> bool { |c: Constraint<F>| c_reads(c, ms_rd(pmasks(p))) && dense_ok(c.density, p.num_rows as int) && c.degree <= pdeg(p) }
pub proof fn l_pbat<F: PrimeField>(p: InstanceProperties<F>) requires inst_m(p)
    ensures bat_of(pbat(p), c_fine(p)), p.constraints@.len() > 0 <==> pbat(p).len() > 0, forall|d: int| 0 <= d < pbat(p).len() ==> (#[trigger] pbat(p)[d]).1.len() > 0 && dense_ok(pbat(p)[d].0, p.num_rows as int)
{
    let cs = p.constraints@; let n = cs.len() as int; l_inst_masks(p);
    assert forall|i: int| 0 <= i < n implies c_fine(p)(#[trigger] cs[i]) by { l_max_deg(cs, n, i); }
    l_bat_all(cs, n, c_fine(p)); let b = pbat(p);
    if n > 0 { let q = bat(cs, n - 1); if im_has(q, cs[n - 1].density) { assert(im_at(q, cs[n - 1].density, im_ix(q, cs[n - 1].density))); } }
    assert forall|d: int| 0 <= d < b.len() implies (#[trigger] b[d]).1.len() > 0 && dense_ok(b[d].0, p.num_rows as int) by { assert(c_fine(p)(b[d].1[0])); }
}
pub proof fn l_deg_range<F: PrimeField>(a: Seq<Constraint<F>>, n: int) requires 0 <= n <= a.len() ensures 1 <= max_deg(a, n) <= u64::MAX decreases n { if n > 0 { l_deg_range(a, n - 1); } }
pub proof fn l_bat_steps<F: PrimeField>(s: Seq<(ConstraintDensity, Vec<Constraint<F>>)>, c: Constraint<F>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures forall|v: Vec<Constraint<F>>| v@ == (if im_has(s, c.density) { im_val(s, c.density)@.push(c) } else { seq![c] }) ==> bview(#[trigger] im_put(s, c.density, v)) == bat_put(bview(s), c)
{ assert forall|v: Vec<Constraint<F>>| v@ == (if im_has(s, c.density) { im_val(s, c.density)@.push(c) } else { seq![c] }) implies bview(#[trigger] im_put(s, c.density, v)) == bat_put(bview(s), c) by { l_bat_step(s, c, v); } }
