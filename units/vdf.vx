// ---- the VDF experiments: traces, and what their constraints say ----
// compound assignment operators of the constraint algebra: dispatch to the contracts of the real implementations
pub trait VxOpAdd<R>: Sized { spec fn add_rel(a: Self, r: R, b: Self) -> bool; fn vx_op_add(&mut self, r: R) ensures Self::add_rel(*old(self), r, *final(self)); }
pub trait VxOpSub<R>: Sized { spec fn sub_rel(a: Self, r: R, b: Self) -> bool; fn vx_op_sub(&mut self, r: R) ensures Self::sub_rel(*old(self), r, *final(self)); }
pub trait VxOpMul<R>: Sized { spec fn mul_ok(a: Self, r: R) -> bool; spec fn mul_rel(a: Self, r: R, b: Self) -> bool; fn vx_op_mul(&mut self, r: R) requires Self::mul_ok(*old(self), r) ensures Self::mul_rel(*old(self), r, *final(self)); }
pub open spec fn c_rel<F: PrimeField>(a: Constraint<F>, b: Constraint<F>, t: ConstraintTerm<F>) -> bool { c_reads_more(a, b, t) && (c_wf(a) && t_wf(t) ==> c_wf(b)) && b.degree == imax(a.degree as int, tdeg(t)) && b.density == a.density }
impl<F: PrimeField> VxOpAdd<UnivariateTerm<F>> for Constraint<F> {
    open spec fn add_rel(a: Self, r: UnivariateTerm<F>, b: Self) -> bool { c_rel(a, b, ConstraintTerm::Univariate(r)) && (forall|x: Asg<F>| #[trigger] cval(b, x) == cval(a, x).fadd(uval(r, x))) }
    fn vx_op_add(&mut self, r: UnivariateTerm<F>) { self.add_assign_uni(r); }
}
impl<F: PrimeField> VxOpAdd<PolyvariateTerm<F>> for Constraint<F> {
    open spec fn add_rel(a: Self, r: PolyvariateTerm<F>, b: Self) -> bool { c_rel(a, b, ConstraintTerm::Polyvariate(r)) && (forall|x: Asg<F>| #[trigger] cval(b, x) == cval(a, x).fadd(pval(r, x))) }
    fn vx_op_add(&mut self, r: PolyvariateTerm<F>) { self.add_assign_poly(r); }
}
impl<F: PrimeField> VxOpSub<UnivariateTerm<F>> for Constraint<F> {
    open spec fn sub_rel(a: Self, r: UnivariateTerm<F>, b: Self) -> bool { c_rel(a, b, ConstraintTerm::Univariate(r)) && (forall|x: Asg<F>| #[trigger] cval(b, x) == fsub(cval(a, x), uval(r, x))) }
    fn vx_op_sub(&mut self, r: UnivariateTerm<F>) { self.sub_assign_uni(r); }
}
impl<F: PrimeField> VxOpSub<PolyvariateTerm<F>> for Constraint<F> {
    open spec fn sub_rel(a: Self, r: PolyvariateTerm<F>, b: Self) -> bool { c_rel(a, b, ConstraintTerm::Polyvariate(r)) && (forall|x: Asg<F>| #[trigger] cval(b, x) == fsub(cval(a, x), pval(r, x))) }
    fn vx_op_sub(&mut self, r: PolyvariateTerm<F>) { self.sub_assign_poly(r); }
}
impl<'a, F: PrimeField> VxOpAdd<&'a F> for Constraint<F> {
    open spec fn add_rel(a: Self, r: &'a F, b: Self) -> bool { b.terms@ == a.terms@ && (c_wf(a) ==> c_wf(b)) && b.degree == a.degree && b.density == a.density && (forall|x: Asg<F>| #[trigger] cval(b, x) == cval(a, x).fadd(*r)) }
    fn vx_op_add(&mut self, r: &'a F) { self.add_assign_ref(r); }
}
impl<'a, F: PrimeField> VxOpSub<&'a F> for Constraint<F> {
    open spec fn sub_rel(a: Self, r: &'a F, b: Self) -> bool { b.terms@ == a.terms@ && (c_wf(a) ==> c_wf(b)) && b.degree == a.degree && b.density == a.density && (forall|x: Asg<F>| #[trigger] cval(b, x) == fsub(cval(a, x), *r)) }
    fn vx_op_sub(&mut self, r: &'a F) { self.sub_assign_ref(r); }
}
impl<'a, F: PrimeField> VxOpMul<&'a F> for UnivariateTerm<F> {
    open spec fn mul_ok(a: Self, r: &'a F) -> bool { true }
    open spec fn mul_rel(a: Self, r: &'a F, b: Self) -> bool { (forall|x: Asg<F>| #[trigger] uval(b, x) == uval(a, x).fmul(*r)) && b.register == a.register && b.steps_difference == a.steps_difference && b.power == a.power }
    fn vx_op_mul(&mut self, r: &'a F) { self.mul_assign_ref(r); }
}
impl<'a, F: PrimeField> VxOpMul<&'a F> for PolyvariateTerm<F> {
    open spec fn mul_ok(a: Self, r: &'a F) -> bool { true }
    open spec fn mul_rel(a: Self, r: &'a F, b: Self) -> bool { b.terms@ == a.terms@ && (p_wf(a) ==> p_wf(b)) && b.total_degree == a.total_degree && (forall|x: Asg<F>| #[trigger] pval(b, x) == pval(a, x).fmul(*r)) }
    fn vx_op_mul(&mut self, r: &'a F) { self.mul_assign_ref(r); }
}
impl<F: PrimeField> VxOpMul<UnivariateTerm<F>> for PolyvariateTerm<F> {
    open spec fn mul_ok(a: Self, r: UnivariateTerm<F>) -> bool { a.total_degree + r.power <= 0xffff_ffff_ffff_ffff }
    open spec fn mul_rel(a: Self, r: UnivariateTerm<F>, b: Self) -> bool { (forall|p: Rd<F>| us_reads(a.terms@, p) && p(r.register, r.steps_difference) ==> #[trigger] us_reads(b.terms@, p)) && (p_wf(a) ==> p_wf(b)) && b.total_degree == a.total_degree + r.power && (forall|x: Asg<F>| #[trigger] pval(b, x) == pval(a, x).fmul(uval(r, x))) }
    fn vx_op_mul(&mut self, r: UnivariateTerm<F>) { self.mul_assign_term(r); }
}
//@@ fn src/air/mod.rs ConstraintDensity::default ret=r
ensures r == ConstraintDensity::Dense(DenseConstraint { start_at: 0, span: 1 })
//@@ endfn
fn vx_vec4<T>(a: T, b: T, c: T, d: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c, d] { let mut v = Vec::new(); v.push(a); v.push(b); v.push(c); v.push(d); proof { assert(v@ =~= seq![a, b, c, d]); } v }
// ---- the functions: pairs (x, y) stand for x + y*sqrt(r), with r = -1 ----
pub open spec fn vr<F: PrimeField>() -> F { F::f1().fneg() }
pub open spec fn vsq<F: PrimeField>(p: (F, F)) -> (F, F) { (p.0.fmul(p.0).fadd(vr::<F>().fmul(p.1.fmul(p.1))), p.0.fmul(p.1).fadd(p.0.fmul(p.1))) }
pub open spec fn vmul<F: PrimeField>(p: (F, F), q: (F, F)) -> (F, F) { (p.0.fmul(q.0).fadd(vr::<F>().fmul(p.1.fmul(q.1))), p.0.fmul(q.1).fadd(p.1.fmul(q.0))) }
pub open spec fn vdf_at<F: PrimeField>(p: (F, F), n: nat) -> (F, F) decreases n { if n == 0 { p } else { vsq(vdf_at(p, (n - 1) as nat)) } }
pub open spec fn cub_at<F: PrimeField>(p: (F, F), n: nat) -> (F, F) decreases n { if n == 0 { p } else { let q = cub_at(p, (n - 1) as nat); vmul(vsq(q), q) } }
pub open spec fn ra<F: PrimeField>(a: Asg<F>, k: usize, s: usize) -> F { a(Register::Register(k), StepDifference::<F>::Steps(s)) }
pub open spec fn has_bc<F: PrimeField>(p: InstanceProperties<F>, k: usize, row: int, v: F) -> bool { exists|i: int| 0 <= i < p.boundary_constraints@.len() && (#[trigger] p.boundary_constraints@[i]) == (BoundaryConstraint { register: Register::Register(k), at_row: row as usize, value: Some(v) }) }
pub open spec fn rd_ok<F: PrimeField>(regs: int) -> Rd<F> { |r: Register, s: StepDifference<F>| r is Register && reg_of(r) < regs && (match s { StepDifference::Steps(n) => n <= 1, _ => false }) }
pub open spec fn dflt(d: ConstraintDensity) -> bool { d == ConstraintDensity::Dense(DenseConstraint { start_at: 0, span: 1 }) }
pub open spec fn cs_shape<F: PrimeField>(p: InstanceProperties<F>) -> bool { forall|i: int| 0 <= i < p.constraints@.len() ==> c_reads(#[trigger] p.constraints@[i], rd_ok::<F>(p.num_registers as int)) && dflt(p.constraints@[i].density) && c_wf(p.constraints@[i]) && p.constraints@[i].degree == 2 }
pub open spec fn at2<F: PrimeField>(w: Wit<F>, i: int) -> (F, F) { (w[0]@[i], w[1]@[i]) }
pub open spec fn at2b<F: PrimeField>(w: Wit<F>, i: int) -> (F, F) { (w[2]@[i], w[3]@[i]) }
// a constraint with the default density, reading at most one step ahead, holds on every row but the last as soon as it vanishes there
pub proof fn l_csat<F: PrimeField>(c: Constraint<F>, w: Wit<F>, rows: int, regs: int)
    requires dflt(c.density), c_reads(c, rd_ok::<F>(regs))
    ensures c_ok(c, regs), c_sat(c, w, rows) <==> forall|row: int| 0 <= row < rows - 1 ==> #[trigger] cval(c, row_asg(w, row)) == F::f0()
{
    assert forall|i: int| 0 <= i < c.terms@.len() implies t_ok(#[trigger] c.terms@[i], regs) by {
        let t = c.terms@[i]; assert(t_reads(t, rd_ok::<F>(regs)));
        match t { ConstraintTerm::Univariate(u) => {} ConstraintTerm::Polyvariate(p) => { assert forall|j: int| 0 <= j < p.terms@.len() implies u_ok(#[trigger] p.terms@[j], regs) by { assert(rd_ok::<F>(regs)(p.terms@[j].register, p.terms@[j].steps_difference)); } } } }
    assert forall|row: int| 0 <= row < rows - 1 implies #[trigger] c_in(c, row, rows) by {
        assert forall|i: int| 0 <= i < c.terms@.len() implies t_in(#[trigger] c.terms@[i], row, rows) by {
            let t = c.terms@[i]; assert(t_reads(t, rd_ok::<F>(regs)));
            match t { ConstraintTerm::Univariate(u) => {} ConstraintTerm::Polyvariate(p) => { assert forall|j: int| 0 <= j < p.terms@.len() implies u_in(#[trigger] p.terms@[j], row, rows) by { assert(rd_ok::<F>(regs)(p.terms@[j].register, p.terms@[j].steps_difference)); } } } } }
    assert forall|row: int| #[trigger] covers(c.density, row, rows) <==> 0 <= row < rows - 1 by {}
    if c_sat(c, w, rows) { assert forall|row: int| 0 <= row < rows - 1 implies #[trigger] cval(c, row_asg(w, row)) == F::f0() by { assert(covers(c.density, row, rows)); assert(c_holds(c, w, row, rows)); } }
    if forall|row: int| 0 <= row < rows - 1 ==> #[trigger] cval(c, row_asg(w, row)) == F::f0() {
        assert forall|row: int| #[trigger] covers(c.density, row, rows) implies c_holds(c, w, row, rows) by { assert(c_in(c, row, rows)); assert(cval(c, row_asg(w, row)) == F::f0()); } }
}
pub proof fn l_uval1<F: PrimeField>(t: UnivariateTerm<F>, a: Asg<F>) ensures t.power == 1 ==> uval(t, a) == t.coeff.fmul(a(t.register, t.steps_difference)), t.power == 2 ==> uval(t, a) == t.coeff.fmul(a(t.register, t.steps_difference).fmul(a(t.register, t.steps_difference)))
{ let v = a(t.register, t.steps_difference); reveal_with_fuel(fpow, 3); F::ax_one(v); assert(fpow(v, 2) == v.fmul(fpow(v, 1))); }
//@@ ring r_vsq0 x y r : x*x+(y*y)*r == x*x+r*(y*y)
//@@ ring r_vk0 x y r n : (((0-x*x)-(y*y)*r)+n) == n-(x*x+r*(y*y))
//@@ ring r_vk1 x y n : ((0-((1*(1+1))*x)*y)+n) == n-(x*y+x*y)
//@@ ring r_back n v : (n-v)+v == n
pub open spec fn k_eq<F: PrimeField>(c: Constraint<F>, l: spec_fn(Asg<F>) -> F, r: spec_fn(Asg<F>) -> F) -> bool { forall|a: Asg<F>| #[trigger] cval(c, a) == fsub(l(a), r(a)) }
// what a constraint of the form l - r says on a row
pub proof fn l_krow<F: PrimeField>(c: Constraint<F>, l: spec_fn(Asg<F>) -> F, r: spec_fn(Asg<F>) -> F, a: Asg<F>) requires k_eq(c, l, r) ensures cval(c, a) == F::f0() <==> l(a) == r(a)
{ if cval(c, a) == F::f0() { l_sub_eq_zero(l(a), r(a)); } if l(a) == r(a) { l_sub_self(l(a)); } }
pub open spec fn now2<F: PrimeField>(a: Asg<F>) -> (F, F) { (ra(a, 0, 0), ra(a, 1, 0)) }
//@@ item src/experiments/vdf.rs VDF
//@@ fn src/experiments/vdf.rs VDF::into_arp::square ret=r rename=into_arp__square
requires *non_residue == vr::<F>()
ensures r == vsq(el)
//@@ end tail
  proof { r_vsq0(el.0, el.1, *non_residue); }
//@@ endfn
// the meaning of the produced system
pub open spec fn vdf_sys<F: PrimeField>(p: InstanceProperties<F>) -> bool { p.constraints@.len() == 2 && cs_shape(p)
    && k_eq(p.constraints@[0], |a: Asg<F>| ra(a, 0, 1), |a: Asg<F>| vsq(now2(a)).0) && k_eq(p.constraints@[1], |a: Asg<F>| ra(a, 1, 1), |a: Asg<F>| vsq(now2(a)).1) }
pub open spec fn vdf_post<F: PrimeField>(s: VDF<F>, w: Wit<F>, p: InstanceProperties<F>) -> bool {
    p.num_rows == s.num_operations + 1 && p.num_registers == 2 && vdf_sys(p) && wit_ok(p, w)
    && (forall|i: int| 0 <= i <= s.num_operations ==> #[trigger] at2(w, i) == vdf_at((s.start_c0, s.start_c1), i as nat))
    && has_bc(p, 0, 0, s.start_c0) && has_bc(p, 1, 0, s.start_c1)
    && has_bc(p, 0, s.num_operations as int, vdf_at((s.start_c0, s.start_c1), s.num_operations as nat).0) && has_bc(p, 1, s.num_operations as int, vdf_at((s.start_c0, s.start_c1), s.num_operations as nat).1) }
// the two constraints hold on every row but the last exactly when every row is followed by its square
pub proof fn l_vdf_sat<F: PrimeField>(p: InstanceProperties<F>, w: Wit<F>) requires vdf_sys(p), p.num_registers == 2
    ensures (c_sat(p.constraints@[0], w, p.num_rows as int) && c_sat(p.constraints@[1], w, p.num_rows as int)) <==> forall|i: int| 0 <= i < p.num_rows - 1 ==> #[trigger] at2(w, i + 1) == vsq(at2(w, i)),
      c_ok(p.constraints@[0], 2), c_ok(p.constraints@[1], 2)
{
    let c0 = p.constraints@[0]; let c1 = p.constraints@[1];
    l_csat(c0, w, p.num_rows as int, 2); l_csat(c1, w, p.num_rows as int, 2);
    assert forall|row: int| #![trigger cval(c0, row_asg(w, row))] #![trigger cval(c1, row_asg(w, row))] (cval(c0, row_asg(w, row)) == F::f0() <==> at2(w, row + 1).0 == vsq(at2(w, row)).0) && (cval(c1, row_asg(w, row)) == F::f0() <==> at2(w, row + 1).1 == vsq(at2(w, row)).1) by {
        let a = row_asg(w, row); l_krow(c0, |a: Asg<F>| ra(a, 0, 1), |a: Asg<F>| vsq(now2(a)).0, a); l_krow(c1, |a: Asg<F>| ra(a, 1, 1), |a: Asg<F>| vsq(now2(a)).1, a); assert(now2(a) == at2(w, row)); assert(ra(a, 0, 1) == at2(w, row + 1).0); assert(ra(a, 1, 1) == at2(w, row + 1).1); }
    if c_sat(c0, w, p.num_rows as int) && c_sat(c1, w, p.num_rows as int) { assert forall|i: int| 0 <= i < p.num_rows - 1 implies #[trigger] at2(w, i + 1) == vsq(at2(w, i)) by { assert(cval(c0, row_asg(w, i)) == F::f0()); assert(cval(c1, row_asg(w, i)) == F::f0()); } }
    if forall|i: int| 0 <= i < p.num_rows - 1 ==> #[trigger] at2(w, i + 1) == vsq(at2(w, i)) {
        assert forall|row: int| 0 <= row < p.num_rows - 1 implies #[trigger] cval(c0, row_asg(w, row)) == F::f0() by { assert(at2(w, row + 1) == vsq(at2(w, row))); }
        assert forall|row: int| 0 <= row < p.num_rows - 1 implies #[trigger] cval(c1, row_asg(w, row)) == F::f0() by { assert(at2(w, row + 1) == vsq(at2(w, row))); } }
}
pub proof fn l_vdf_rows<F: PrimeField>(s: VDF<F>, w: Wit<F>, p: InstanceProperties<F>) requires vdf_post(s, w, p)
    ensures c_sat(p.constraints@[0], w, p.num_rows as int), c_sat(p.constraints@[1], w, p.num_rows as int), c_ok(p.constraints@[0], 2), c_ok(p.constraints@[1], 2)
{
    assert forall|i: int| 0 <= i < p.num_rows - 1 implies #[trigger] at2(w, i + 1) == vsq(at2(w, i)) by { assert(at2(w, i) == vdf_at((s.start_c0, s.start_c1), i as nat)); assert(at2(w, i + 1) == vdf_at((s.start_c0, s.start_c1), (i + 1) as nat)); }
    l_vdf_sat(p, w);
}
pub proof fn l_bc<F: PrimeField>(p: InstanceProperties<F>, k: usize, row: int, v: F, x: Wit<F>) requires has_bc(p, k, row, v), satisfied(p, x), 0 <= row <= 0xffff_ffff ensures x[k as int]@[row] == v
{ let i = choose|i: int| 0 <= i < p.boundary_constraints@.len() && (#[trigger] p.boundary_constraints@[i]) == (BoundaryConstraint { register: Register::Register(k), at_row: row as usize, value: Some(v) }); assert(b_holds(p.boundary_constraints@[i], x, p.num_rows as int)); }
// whatever satisfies the system is the evaluation: n squarings of the start, ending in the claimed output
pub proof fn thm_vdf_sound<F: PrimeField>(s: VDF<F>, w: Wit<F>, p: InstanceProperties<F>, x: Wit<F>, i: int) requires vdf_post(s, w, p), satisfied(p, x), 0 <= i <= s.num_operations ensures at2(x, i) == vdf_at((s.start_c0, s.start_c1), i as nat) decreases i
{
    if i == 0 { l_bc(p, 0, 0, s.start_c0, x); l_bc(p, 1, 0, s.start_c1, x); }
    else { thm_vdf_sound(s, w, p, x, i - 1); l_vdf_sat(p, x); assert(c_sat(p.constraints@[0], x, p.num_rows as int)); assert(c_sat(p.constraints@[1], x, p.num_rows as int)); assert(at2(x, (i - 1) + 1) == vsq(at2(x, i - 1))); }
}
//@@ fn src/experiments/vdf.rs VDF::into_arp ret=r
//@@ opcalls
requires self.num_operations < 0x7fff_ffff
ensures r.0 is Some, vdf_post(self, r.0.unwrap()@, r.1), inst_ok(r.1), satisfied(r.1, r.0.unwrap()@)
//@@ loop 1
invariant vx_n1 == self.num_operations, vx_k1 <= vx_n1, c0_witness@.len() == vx_n1 + 1, c1_witness@.len() == vx_n1 + 1, vx_n1 < 0x7fff_ffff, non_residue == vr::<F>(),
  (v0, v1) == vdf_at((self.start_c0, self.start_c1), vx_k1 as nat),
  forall|i: int| 0 <= i <= vx_k1 ==> (#[trigger] c0_witness@[i], c1_witness@[i]) == vdf_at((self.start_c0, self.start_c1), i as nat),
decreases vx_n1 - vx_k1
//@@ end tail
  proof {
    let c0 = vx_ret.1.constraints@[0]; let c1 = vx_ret.1.constraints@[1]; let w = vx_ret.0.unwrap()@; let p = vx_ret.1;
    assert forall|a: Asg<F>| #[trigger] cval(c0, a) == fsub(ra(a, 0, 1), vsq(now2(a)).0) by {
      F::ax_zero(F::f0()); let x = ra(a, 0, 0); let y = ra(a, 1, 0); let n = ra(a, 0, 1); assert(uval(c0_value_now, a) == x); assert(uval(c1_value_now, a) == y); reveal_with_fuel(fpow, 3); F::ax_one(x); F::ax_one(y); l_uval1(c0_value_next_step, a); l_one_l(n); r_vk0(x, y, non_residue, n); }
    assert forall|a: Asg<F>| #[trigger] cval(c1, a) == fsub(ra(a, 1, 1), vsq(now2(a)).1) by {
      F::ax_zero(F::f0()); let x = ra(a, 0, 0); let y = ra(a, 1, 0); let n = ra(a, 1, 1); assert(uval(c0_value_now, a) == x); assert(uval(c1_value_now, a) == y); l_uval1(c1_value_next_step, a); l_one_l(n); r_vk1(x, y, n); }
    assert(c_reads(c0, rd_ok::<F>(2))); assert(c_reads(c1, rd_ok::<F>(2)));
    assert forall|i: int| 0 <= i <= self.num_operations implies #[trigger] at2(w, i) == vdf_at((self.start_c0, self.start_c1), i as nat) by { assert((c0_witness@[i], c1_witness@[i]) == vdf_at((self.start_c0, self.start_c1), i as nat)); }
    let _ = at2(w, 0); let _ = at2(w, self.num_operations as int);
    assert(p.boundary_constraints@[0].at_row == 0); assert(p.boundary_constraints@[1].at_row == 0); assert(p.boundary_constraints@[2].at_row == p.num_rows - 1); assert(p.boundary_constraints@[3].at_row == p.num_rows - 1);
    assert(vdf_sys(p)); assert(wit_ok(p, w));
    let b = p.boundary_constraints@; assert(b[0] == (BoundaryConstraint { register: Register::Register(0), at_row: 0, value: Some(self.start_c0) })); assert(b[1].value == Some(self.start_c1));
    assert(b[2].value == Some(at2(w, self.num_operations as int).0)); assert(b[3].value == Some(at2(w, self.num_operations as int).1));
    assert(has_bc(p, 0, 0, self.start_c0));
    l_vdf_rows(self, w, p);
  }
//@@ endfn
// ---- cubing: registers 2 and 3 hold the square of registers 0 and 1 ----
//@@ ring r_ck0 x y r n : (((0-1*(x*x))-r*(y*y))+1*n) == n-(x*x+r*(y*y))
//@@ ring r_ck1 x y n : ((0-(1+1)*((1*(1*x))*(1*y)))+1*n) == n-(x*y+x*y)
//@@ ring r_ck2 x y s t r n : (((0-1*((1*(1*x))*(1*s)))-r*((1*(1*y))*(1*t)))+1*n) == n-(s*x+r*(t*y))
//@@ ring r_ck3 x y s t n : (((0-1*((1*(1*x))*(1*t)))-1*((1*(1*y))*(1*s)))+1*n) == n-(s*y+t*x)
//@@ ring r_cm0 a b c d r : a*c+(b*d)*r == a*c+r*(b*d)
pub open spec fn inter<F: PrimeField>(a: Asg<F>) -> (F, F) { (ra(a, 2, 0), ra(a, 3, 0)) }
//@@ item src/experiments/cubic_vdf.rs CubicVDF
//@@ fn src/experiments/cubic_vdf.rs CubicVDF::into_arp::square ret=r rename=cubic__square
requires *non_residue == vr::<F>()
ensures r == vsq(el)
//@@ end tail
  proof { r_vsq0(el.0, el.1, *non_residue); }
//@@ endfn
//@@ fn src/experiments/cubic_vdf.rs CubicVDF::into_arp::mul ret=r rename=cubic__mul
requires *non_residue == vr::<F>()
ensures r == vmul(el, *by)
//@@ end tail
  proof { r_cm0(el.0, el.1, by.0, by.1, *non_residue); }
//@@ endfn
pub open spec fn cub_sys<F: PrimeField>(p: InstanceProperties<F>) -> bool { p.constraints@.len() == 4 && cs_shape(p)
    && k_eq(p.constraints@[0], |a: Asg<F>| ra(a, 2, 0), |a: Asg<F>| vsq(now2(a)).0) && k_eq(p.constraints@[1], |a: Asg<F>| ra(a, 3, 0), |a: Asg<F>| vsq(now2(a)).1)
    && k_eq(p.constraints@[2], |a: Asg<F>| ra(a, 0, 1), |a: Asg<F>| vmul(inter(a), now2(a)).0) && k_eq(p.constraints@[3], |a: Asg<F>| ra(a, 1, 1), |a: Asg<F>| vmul(inter(a), now2(a)).1) }
pub open spec fn cub_post<F: PrimeField>(s: CubicVDF<F>, w: Wit<F>, p: InstanceProperties<F>) -> bool {
    p.num_rows == s.num_operations + 1 && p.num_registers == 4 && cub_sys(p) && wit_ok(p, w)
    && (forall|i: int| 0 <= i <= s.num_operations ==> #[trigger] at2(w, i) == cub_at((s.start_c0, s.start_c1), i as nat) && at2b(w, i) == vsq(at2(w, i)))
    && has_bc(p, 0, 0, s.start_c0) && has_bc(p, 1, 0, s.start_c1)
    && has_bc(p, 0, s.num_operations as int, cub_at((s.start_c0, s.start_c1), s.num_operations as nat).0) && has_bc(p, 1, s.num_operations as int, cub_at((s.start_c0, s.start_c1), s.num_operations as nat).1) }
// the four constraints hold on every row but the last exactly when the square is there and every row is followed by its cube
pub open spec fn cub_row<F: PrimeField>(w: Wit<F>, i: int) -> bool { at2b(w, i) == vsq(at2(w, i)) && at2(w, i + 1) == vmul(at2b(w, i), at2(w, i)) }
pub open spec fn cs_sat<F: PrimeField>(p: InstanceProperties<F>, w: Wit<F>, n: int) -> bool { forall|i: int| 0 <= i < n ==> c_sat(#[trigger] p.constraints@[i], w, p.num_rows as int) }
pub proof fn l_cub_sat<F: PrimeField>(p: InstanceProperties<F>, w: Wit<F>) requires cub_sys(p), p.num_registers == 4
    ensures cs_sat(p, w, 4) <==> forall|i: int| 0 <= i < p.num_rows - 1 ==> #[trigger] cub_row(w, i), forall|i: int| 0 <= i < 4 ==> c_ok(#[trigger] p.constraints@[i], 4)
{
    let c0 = p.constraints@[0]; let c1 = p.constraints@[1]; let c2 = p.constraints@[2]; let c3 = p.constraints@[3]; let n = p.num_rows as int;
    l_csat(c0, w, n, 4); l_csat(c1, w, n, 4); l_csat(c2, w, n, 4); l_csat(c3, w, n, 4);
    assert forall|row: int| #![trigger cval(c0, row_asg(w, row))] #![trigger cval(c1, row_asg(w, row))] #![trigger cval(c2, row_asg(w, row))] #![trigger cval(c3, row_asg(w, row))] #![trigger cub_row(w, row)]
        cub_row(w, row) <==> (cval(c0, row_asg(w, row)) == F::f0() && cval(c1, row_asg(w, row)) == F::f0() && cval(c2, row_asg(w, row)) == F::f0() && cval(c3, row_asg(w, row)) == F::f0()) by {
        let a = row_asg(w, row); l_krow(c0, |a: Asg<F>| ra(a, 2, 0), |a: Asg<F>| vsq(now2(a)).0, a); l_krow(c1, |a: Asg<F>| ra(a, 3, 0), |a: Asg<F>| vsq(now2(a)).1, a);
        l_krow(c2, |a: Asg<F>| ra(a, 0, 1), |a: Asg<F>| vmul(inter(a), now2(a)).0, a); l_krow(c3, |a: Asg<F>| ra(a, 1, 1), |a: Asg<F>| vmul(inter(a), now2(a)).1, a);
        assert(now2(a) == at2(w, row)); assert(inter(a) == at2b(w, row)); assert(ra(a, 0, 1) == at2(w, row + 1).0); assert(ra(a, 1, 1) == at2(w, row + 1).1); }
    if cs_sat(p, w, 4) { assert(c_sat(p.constraints@[0], w, n)); assert(c_sat(p.constraints@[1], w, n)); assert(c_sat(p.constraints@[2], w, n)); assert(c_sat(p.constraints@[3], w, n));
        assert forall|i: int| 0 <= i < p.num_rows - 1 implies #[trigger] cub_row(w, i) by { assert(cval(c0, row_asg(w, i)) == F::f0()); assert(cval(c1, row_asg(w, i)) == F::f0()); assert(cval(c2, row_asg(w, i)) == F::f0()); assert(cval(c3, row_asg(w, i)) == F::f0()); } }
    if forall|i: int| 0 <= i < p.num_rows - 1 ==> #[trigger] cub_row(w, i) {
        assert forall|row: int| 0 <= row < n - 1 implies #[trigger] cval(c0, row_asg(w, row)) == F::f0() by { assert(cub_row(w, row)); }
        assert forall|row: int| 0 <= row < n - 1 implies #[trigger] cval(c1, row_asg(w, row)) == F::f0() by { assert(cub_row(w, row)); }
        assert forall|row: int| 0 <= row < n - 1 implies #[trigger] cval(c2, row_asg(w, row)) == F::f0() by { assert(cub_row(w, row)); }
        assert forall|row: int| 0 <= row < n - 1 implies #[trigger] cval(c3, row_asg(w, row)) == F::f0() by { assert(cub_row(w, row)); }
        assert(cs_sat(p, w, 4)); }
}
pub proof fn l_cub_rows<F: PrimeField>(s: CubicVDF<F>, w: Wit<F>, p: InstanceProperties<F>) requires cub_post(s, w, p)
    ensures cs_sat(p, w, 4), forall|i: int| 0 <= i < 4 ==> c_ok(#[trigger] p.constraints@[i], 4)
{
    assert forall|i: int| 0 <= i < p.num_rows - 1 implies #[trigger] cub_row(w, i) by { assert(at2(w, i) == cub_at((s.start_c0, s.start_c1), i as nat)); assert(at2(w, i + 1) == cub_at((s.start_c0, s.start_c1), (i + 1) as nat)); }
    l_cub_sat(p, w);
}
pub proof fn thm_cubic_vdf_sound<F: PrimeField>(s: CubicVDF<F>, w: Wit<F>, p: InstanceProperties<F>, x: Wit<F>, i: int) requires cub_post(s, w, p), satisfied(p, x), 0 <= i <= s.num_operations ensures at2(x, i) == cub_at((s.start_c0, s.start_c1), i as nat) decreases i
{
    if i == 0 { l_bc(p, 0, 0, s.start_c0, x); l_bc(p, 1, 0, s.start_c1, x); }
    else { thm_cubic_vdf_sound(s, w, p, x, i - 1); l_cub_sat(p, x); assert(cs_sat(p, x, 4)); assert(cub_row(x, i - 1)); }
}
//@@ fn src/experiments/cubic_vdf.rs CubicVDF::into_arp ret=r
//@@ opcalls
//@@ subst "into_arp__square" => "cubic__square"
//@@ subst "into_arp__mul" => "cubic__mul"
//@@ subst ". clone ()" => ""
requires self.num_operations < 0x7fff_ffff
ensures r.0 is Some, cub_post(self, r.0.unwrap()@, r.1), inst_ok(r.1), satisfied(r.1, r.0.unwrap()@)
//@@ loop 1
invariant vx_n1 == self.num_operations, vx_k1 <= vx_n1, c0_witness@.len() == vx_n1 + 1, c1_witness@.len() == vx_n1 + 1, c0_squaring_witness@.len() == vx_n1 + 1, c1_squaring_witness@.len() == vx_n1 + 1, vx_n1 < 0x7fff_ffff, non_residue == vr::<F>(),
  (v0, v1) == cub_at((self.start_c0, self.start_c1), vx_k1 as nat), (v0_squared, v1_squared) == vsq((v0, v1)),
  forall|i: int| 0 <= i <= vx_k1 ==> (#[trigger] c0_witness@[i], c1_witness@[i]) == cub_at((self.start_c0, self.start_c1), i as nat),
  forall|i: int| 0 <= i <= vx_k1 ==> (#[trigger] c0_squaring_witness@[i], c1_squaring_witness@[i]) == vsq((c0_witness@[i], c1_witness@[i])),
decreases vx_n1 - vx_k1
//@@ end tail
  proof {
    let w = vx_ret.0.unwrap()@; let p = vx_ret.1; let c0 = p.constraints@[0]; let c1 = p.constraints@[1]; let c2 = p.constraints@[2]; let c3 = p.constraints@[3];
    reveal_with_fuel(uprod, 3); reveal_with_fuel(udeg, 3); F::ax_zero(F::f0());
    assert forall|a: Asg<F>| #[trigger] cval(c0, a) == fsub(ra(a, 2, 0), vsq(now2(a)).0) by { l_uval1(c0_squared, a); l_uval1(c1_squared_by_r, a); l_uval1(squaring_step_intermediate_c0, a); r_ck0(ra(a, 0, 0), ra(a, 1, 0), non_residue, ra(a, 2, 0)); }
    assert forall|a: Asg<F>| #[trigger] cval(c1, a) == fsub(ra(a, 3, 0), vsq(now2(a)).1) by { l_uval1(c0_value_now, a); l_uval1(c1_value_now, a); l_uval1(squaring_step_intermediate_c1, a); r_ck1(ra(a, 0, 0), ra(a, 1, 0), ra(a, 3, 0)); }
    assert forall|a: Asg<F>| #[trigger] cval(c2, a) == fsub(ra(a, 0, 1), vmul(inter(a), now2(a)).0) by { l_uval1(c0_value_now, a); l_uval1(c1_value_now, a); l_uval1(squaring_step_intermediate_c0, a); l_uval1(squaring_step_intermediate_c1, a); l_uval1(c0_value_next_step, a); r_ck2(ra(a, 0, 0), ra(a, 1, 0), ra(a, 2, 0), ra(a, 3, 0), non_residue, ra(a, 0, 1)); }
    assert forall|a: Asg<F>| #[trigger] cval(c3, a) == fsub(ra(a, 1, 1), vmul(inter(a), now2(a)).1) by { l_uval1(c0_value_now, a); l_uval1(c1_value_now, a); l_uval1(squaring_step_intermediate_c0, a); l_uval1(squaring_step_intermediate_c1, a); l_uval1(c1_value_next_step, a); r_ck3(ra(a, 0, 0), ra(a, 1, 0), ra(a, 2, 0), ra(a, 3, 0), ra(a, 1, 1)); }
    assert(c_reads(c0, rd_ok::<F>(4))); assert(c_reads(c1, rd_ok::<F>(4))); assert(c_reads(c2, rd_ok::<F>(4))); assert(c_reads(c3, rd_ok::<F>(4)));
    assert forall|i: int| 0 <= i <= self.num_operations implies #[trigger] at2(w, i) == cub_at((self.start_c0, self.start_c1), i as nat) && at2b(w, i) == vsq(at2(w, i)) by { assert((c0_witness@[i], c1_witness@[i]) == cub_at((self.start_c0, self.start_c1), i as nat)); assert((c0_squaring_witness@[i], c1_squaring_witness@[i]) == vsq((c0_witness@[i], c1_witness@[i]))); }
    let _ = at2(w, 0); let _ = at2(w, self.num_operations as int);
    let b = p.boundary_constraints@; assert(b[0] == (BoundaryConstraint { register: Register::Register(0), at_row: 0, value: Some(self.start_c0) })); assert(b[1].value == Some(self.start_c1));
    assert(b[2].value == Some(at2(w, self.num_operations as int).0)); assert(b[3].value == Some(at2(w, self.num_operations as int).1));
    assert(cs_shape(p)); assert(cub_sys(p)); assert(wit_ok(p, w)); assert(has_bc(p, 0, 0, self.start_c0));
    l_cub_rows(self, w, p);
  }
//@@ endfn
