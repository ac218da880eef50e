// ---- a traced system becomes a register system ----
//@@ item src/air/test_trace_system.rs TestTraceSystem "Vec < Box < dyn FnOnce (Vec < (F , Register , usize) >) -> Result < Vec < (F , Register , usize) > , TracingError > > >" => "()" "Vec < Box < dyn Fn (& Self) -> Result < Vec < (F , Register , usize) > , TracingError > > >" => "()" "Vec < Box < dyn FnOnce (usize) -> Result < (F , bool) , TracingError > > >" => "()"
// the counts of program counter, plain and auxiliary registers decide where each register goes
pub struct Cnt { pub pc: int, pub rg: int, pub ax: int, pub ct: int }
pub open spec fn alloc(c: Cnt, r: Register) -> bool { match r { Register::ProgramCounter(i) => i < c.pc, Register::Register(i) => i < c.rg, Register::Aux(i) => i < c.ax, Register::Constant(i) => i < c.ct } }
pub open spec fn rmap(c: Cnt, r: Register) -> int { match r { Register::ProgramCounter(i) => i as int, Register::Register(i) => c.pc + i, Register::Aux(i) => c.pc + c.rg + i, Register::Constant(i) => c.pc + c.rg + c.ax + i } }
pub open spec fn total(c: Cnt) -> int { c.pc + c.rg + c.ax + c.ct }
pub open spec fn c_nat(c: Cnt) -> bool { c.pc >= 0 && c.rg >= 0 && c.ax >= 0 && c.ct >= 0 && total(c) <= 0xffff_ffff_ffff_ffff }
// different registers stay different, and all of them are within the total
pub proof fn thm_rmap_injective(c: Cnt, a: Register, b: Register) requires c_nat(c), alloc(c, a), alloc(c, b) ensures 0 <= rmap(c, a) < total(c), rmap(c, a) == rmap(c, b) ==> a == b {}
pub open spec fn moved(c: Cnt, a: Register, b: Register) -> bool { b is Register && reg_of(b) == rmap(c, a) }
pub open spec fn u_moved<F: PrimeField>(c: Cnt, a: UnivariateTerm<F>, b: UnivariateTerm<F>) -> bool { b.coeff == a.coeff && b.steps_difference == a.steps_difference && b.power == a.power && moved(c, a.register, b.register) }
pub open spec fn us_moved<F: PrimeField>(c: Cnt, a: Seq<UnivariateTerm<F>>, b: Seq<UnivariateTerm<F>>, n: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < n ==> u_moved(c, a[i], #[trigger] b[i])) && (forall|i: int| n <= i < a.len() ==> a[i] == #[trigger] b[i]) }
pub open spec fn t_moved<F: PrimeField>(c: Cnt, a: ConstraintTerm<F>, b: ConstraintTerm<F>) -> bool {
    match a { ConstraintTerm::Univariate(u) => b matches ConstraintTerm::Univariate(v) && u_moved(c, u, v),
        ConstraintTerm::Polyvariate(p) => b matches ConstraintTerm::Polyvariate(q) && p.coeff == q.coeff && p.total_degree == q.total_degree && us_moved(c, p.terms@, q.terms@, p.terms@.len() as int) } }
pub open spec fn ts_moved<F: PrimeField>(c: Cnt, a: Seq<ConstraintTerm<F>>, b: Seq<ConstraintTerm<F>>, n: int) -> bool {
    a.len() == b.len() && (forall|i: int| 0 <= i < n ==> t_moved(c, a[i], #[trigger] b[i])) && (forall|i: int| n <= i < a.len() ==> a[i] == #[trigger] b[i]) }
pub open spec fn c_moved<F: PrimeField>(c: Cnt, a: Constraint<F>, b: Constraint<F>) -> bool {
    a.constant_term == b.constant_term && a.degree == b.degree && a.density == b.density && ts_moved(c, a.terms@, b.terms@, a.terms@.len() as int) }
pub open spec fn us_alloc<F: PrimeField>(c: Cnt, s: Seq<UnivariateTerm<F>>) -> bool { forall|i: int| 0 <= i < s.len() ==> alloc(c, (#[trigger] s[i]).register) }
pub open spec fn t_alloc<F: PrimeField>(c: Cnt, t: ConstraintTerm<F>) -> bool { match t { ConstraintTerm::Univariate(u) => alloc(c, u.register), ConstraintTerm::Polyvariate(p) => us_alloc(c, p.terms@) } }
pub open spec fn c_alloc<F: PrimeField>(c: Cnt, k: Constraint<F>) -> bool { forall|i: int| 0 <= i < k.terms@.len() ==> t_alloc(c, #[trigger] k.terms@[i]) }
pub open spec fn b_moved<F: PrimeField>(c: Cnt, a: BoundaryConstraint<F>, b: BoundaryConstraint<F>) -> bool { b.at_row == a.at_row && b.value == a.value && moved(c, a.register, b.register) }
pub open spec fn offs(c: Cnt, p: int, a: int, k: int) -> bool { c_nat(c) && p == c.pc && a == c.pc + c.rg && k == c.pc + c.rg + c.ax }
//@@ fn src/arp/mod.rs TestTraceSystem::into_arp::remap_register ret=r rename=remap_register attr="#[verifier::spinoff_prover]"
requires exists|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && alloc(c, register)
ensures forall|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) ==> moved(c, register, r)
//@@ endfn
//@@ fn src/arp/mod.rs TestTraceSystem::into_arp::remap_univariate_term rename=arp_remap_univariate_term
requires exists|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && alloc(c, old(term).register)
ensures forall|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) ==> u_moved(c, *old(term), *final(term))
//@@ endfn
//@@ fn src/arp/mod.rs TestTraceSystem::into_arp::remap_term rename=arp_remap_term
//@@ subst "remap_univariate_term" => "arp_remap_univariate_term"
requires exists|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && t_alloc(c, *old(term))
ensures forall|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) ==> t_moved(c, *old(term), *final(term))
//@@ begin
let ghost c = choose|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && t_alloc(c, *old(term));
//@@ loop 1 before
let ghost p0 = *poly_term; let ghost ts0 = p0.terms@;
//@@ loop 1
invariant vx_n1 == poly_term.terms@.len(), vx_k1 <= vx_n1, us_alloc(c, ts0), vx_n1 == ts0.len(), us_moved(c, ts0, poly_term.terms@, vx_k1 as int), offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int),
  poly_term.coeff == p0.coeff, poly_term.total_degree == p0.total_degree, *old(term) == ConstraintTerm::Polyvariate(p0), ts0 == p0.terms@,
decreases vx_n1 - vx_k1
//@@ loop 1 start
let ghost pre = poly_term.terms@; proof { assert(pre[vx_i1 as int] == ts0[vx_i1 as int]); assert(alloc(c, ts0[vx_i1 as int].register)); }
//@@ loop 1 end
proof { assert forall|i: int| 0 <= i < vx_k1 implies u_moved(c, ts0[i], #[trigger] poly_term.terms@[i]) by { if i < vx_i1 { assert(poly_term.terms@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < ts0.len() implies ts0[i] == #[trigger] poly_term.terms@[i] by { assert(poly_term.terms@[i] == pre[i]); } }
//@@ loop 1 after
proof { l_same_cnt(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int); }
//@@ endfn
// the remapping does not depend on the number of constant registers
pub proof fn l_same_cnt(c: Cnt, p: int, a: int, k: int) requires offs(c, p, a, k)
    ensures forall|d: Cnt, x: Register| #[trigger] offs(d, p, a, k) ==> #[trigger] rmap(d, x) == rmap(c, x) {}
//@@ fn src/arp/mod.rs TestTraceSystem::into_arp::remap_constraint rename=arp_remap_constraint
//@@ subst "remap_term" => "arp_remap_term"
requires exists|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && c_alloc(c, *old(constraint))
ensures forall|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) ==> c_moved(c, *old(constraint), *final(constraint))
//@@ begin
let ghost c = choose|c: Cnt| #[trigger] offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) && c_alloc(c, *old(constraint));
//@@ loop 1 before
let ghost k0 = *constraint; let ghost ts0 = k0.terms@;
//@@ loop 1
invariant vx_n1 == constraint.terms@.len(), vx_k1 <= vx_n1, c_alloc(c, k0), vx_n1 == ts0.len(), offs(c, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int),
  constraint.constant_term == k0.constant_term, constraint.degree == k0.degree, constraint.density == k0.density, *old(constraint) == k0, ts0 == k0.terms@,
  forall|d: Cnt| #[trigger] offs(d, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) ==> ts_moved(d, ts0, constraint.terms@, vx_k1 as int),
decreases vx_n1 - vx_k1
//@@ loop 1 start
let ghost pre = constraint.terms@; proof { assert(ts_moved(c, ts0, pre, vx_i1 as int)); assert(pre[vx_i1 as int] == ts0[vx_i1 as int]); assert(t_alloc(c, ts0[vx_i1 as int])); }
//@@ loop 1 end
proof { assert forall|d: Cnt| #[trigger] offs(d, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int) implies ts_moved(d, ts0, constraint.terms@, vx_k1 as int) by {
  assert(ts_moved(d, ts0, pre, vx_i1 as int));
  assert forall|i: int| 0 <= i < vx_k1 implies t_moved(d, ts0[i], #[trigger] constraint.terms@[i]) by { if i < vx_i1 { assert(constraint.terms@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < ts0.len() implies ts0[i] == #[trigger] constraint.terms@[i] by { assert(constraint.terms@[i] == pre[i]); } } }
//@@ endfn
pub open spec fn cnt<F: PrimeField>(t: TestTraceSystem<F>) -> Cnt { Cnt { pc: t.pc_registers@.len() as int, rg: t.registers@.len() as int, ax: t.aux_registers@.len() as int, ct: t.constant_registers@.len() as int } }
// one written column per allocated register; whatever columns follow are empty
pub open spec fn cols_ok<F>(w: Seq<Vec<F>>, n: int) -> bool { 0 <= n <= w.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] w[i])@.len() > 0) && (forall|i: int| n <= i < w.len() ==> (#[trigger] w[i])@.len() == 0) }
pub open spec fn upto(k: int, n: int) -> int { if k < n { k } else { n } }
pub open spec fn traced<F: PrimeField>(t: TestTraceSystem<F>) -> bool {
    let c = cnt(t);
    c_nat(c) && t.current_step < 0xffff_ffff_ffff_ffff
    && cols_ok(t.pc_registers_witness@, c.pc) && cols_ok(t.registers_witness@, c.rg) && cols_ok(t.aux_registers_witness@, c.ax) && cols_ok(t.constant_registers_witness@, c.ct)
    && (forall|i: int| 0 <= i < t.constraints@.len() ==> c_alloc(c, #[trigger] t.constraints@[i]))
    && (forall|i: int| 0 <= i < t.boundary_constraints@.len() ==> alloc(c, (#[trigger] t.boundary_constraints@[i]).register))
}
pub open spec fn column<F: PrimeField>(t: TestTraceSystem<F>, r: Register) -> Vec<F> { match r {
    Register::ProgramCounter(i) => t.pc_registers_witness@[i as int], Register::Register(i) => t.registers_witness@[i as int], Register::Aux(i) => t.aux_registers_witness@[i as int], Register::Constant(i) => t.constant_registers_witness@[i as int] } }
pub open spec fn all_cols<F: PrimeField>(t: TestTraceSystem<F>, c: Cnt) -> Seq<Vec<F>> { t.pc_registers_witness@.take(c.pc) + t.registers_witness@.take(c.rg) + t.aux_registers_witness@.take(c.ax) + t.constant_registers_witness@.take(c.ct) }
pub proof fn l_all_cols<F: PrimeField>(t: TestTraceSystem<F>, c: Cnt, r: Register) requires c == cnt(t), traced(t), alloc(c, r) ensures all_cols(t, c)[rmap(c, r)] == column(t, r), all_cols(t, c).len() == total(c) {}
//@@ fn src/arp/mod.rs TestTraceSystem::into_arp ret=r impl="IntoARP"
//@@ subst "let mut witness = Vec :: new ()" => "let mut witness : Vec < Vec < F >> = Vec :: new ()"
//@@ subst "into_arp__remap_constraint" => "arp_remap_constraint"
//@@ subst "into_arp__remap_register" => "remap_register"
requires traced(self)
ensures r.1.num_registers == total(cnt(self)), r.1.num_rows == self.current_step + 1,
  r.1.constraints@.len() == self.constraints@.len(), forall|i: int| 0 <= i < r.1.constraints@.len() ==> c_moved(cnt(self), self.constraints@[i], #[trigger] r.1.constraints@[i]),
  r.1.boundary_constraints@.len() == self.boundary_constraints@.len(), forall|i: int| 0 <= i < r.1.boundary_constraints@.len() ==> b_moved(cnt(self), self.boundary_constraints@[i], #[trigger] r.1.boundary_constraints@[i]),
  total(cnt(self)) == 0 ==> r.0 is None,
  total(cnt(self)) > 0 ==> r.0 is Some && r.0->Some_0@.len() == total(cnt(self)) && forall|x: Register| alloc(cnt(self), x) ==> r.0->Some_0@[rmap(cnt(self), x)] == #[trigger] column(self, x)
//@@ begin
let ghost c0 = cnt(self); let ghost s0 = self; let ghost k0 = self.constraints@; let ghost b0 = self.boundary_constraints@;
proof { assert(offs(c0, c0.pc, c0.pc + c0.rg, c0.pc + c0.rg + c0.ax)); }
//@@ loop 1
invariant vx_n1 == constraints@.len(), vx_k1 <= vx_n1, vx_n1 == k0.len(), offs(c0, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int),
  forall|i: int| 0 <= i < k0.len() ==> c_alloc(c0, #[trigger] k0[i]),
  forall|i: int| 0 <= i < vx_k1 ==> c_moved(c0, k0[i], #[trigger] constraints@[i]),
  forall|i: int| vx_k1 <= i < k0.len() ==> k0[i] == #[trigger] constraints@[i],
decreases vx_n1 - vx_k1
//@@ loop 1 start
let ghost pre = constraints@; proof { assert(pre[vx_i1 as int] == k0[vx_i1 as int]); }
//@@ loop 1 end
proof { assert forall|i: int| 0 <= i < vx_k1 implies c_moved(c0, k0[i], #[trigger] constraints@[i]) by { if i < vx_i1 { assert(constraints@[i] == pre[i]); } }
  assert forall|i: int| vx_k1 <= i < k0.len() implies k0[i] == #[trigger] constraints@[i] by { assert(constraints@[i] == pre[i]); } }
//@@ loop 2
invariant vx_n2 == boundary_constraints@.len(), vx_k2 <= vx_n2, vx_n2 == b0.len(), offs(c0, register_remap_constant as int, aux_register_remap_constant as int, constant_register_remap_constant as int),
  forall|i: int| 0 <= i < b0.len() ==> alloc(c0, (#[trigger] b0[i]).register),
  forall|i: int| 0 <= i < vx_k2 ==> b_moved(c0, b0[i], #[trigger] boundary_constraints@[i]),
  forall|i: int| vx_k2 <= i < b0.len() ==> b0[i] == #[trigger] boundary_constraints@[i],
decreases vx_n2 - vx_k2
//@@ loop 2 start
let ghost pre = boundary_constraints@; proof { assert(pre[vx_i2 as int] == b0[vx_i2 as int]); }
//@@ loop 2 end
proof { assert forall|i: int| 0 <= i < vx_k2 implies b_moved(c0, b0[i], #[trigger] boundary_constraints@[i]) by { if i < vx_i2 { assert(boundary_constraints@[i] == pre[i]); } }
  assert forall|i: int| vx_k2 <= i < b0.len() implies b0[i] == #[trigger] boundary_constraints@[i] by { assert(boundary_constraints@[i] == pre[i]); } }
//@@ loop 3 before
proof { assert(witness@ =~= s0.pc_registers_witness@.take(0)); }
//@@ loop 3
invariant vx_n3 == s0.pc_registers_witness@.len(), vx_k3 <= vx_n3, self.pc_registers_witness == s0.pc_registers_witness, cols_ok(s0.pc_registers_witness@, c0.pc),
  witness@ == s0.pc_registers_witness@.take(upto(vx_k3 as int, c0.pc)),
decreases vx_n3 - vx_k3
//@@ loop 3 end
proof { assert(witness@ =~= s0.pc_registers_witness@.take(upto(vx_k3 as int, c0.pc))); }
//@@ loop 4 before
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(0)); }
//@@ loop 4
invariant vx_n4 == s0.registers_witness@.len(), vx_k4 <= vx_n4, self.registers_witness == s0.registers_witness, cols_ok(s0.registers_witness@, c0.rg),
  witness@ == s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(upto(vx_k4 as int, c0.rg)),
decreases vx_n4 - vx_k4
//@@ loop 4 end
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(upto(vx_k4 as int, c0.rg))); }
//@@ loop 5 before
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(0)); }
//@@ loop 5
invariant vx_n5 == s0.aux_registers_witness@.len(), vx_k5 <= vx_n5, self.aux_registers_witness == s0.aux_registers_witness, cols_ok(s0.aux_registers_witness@, c0.ax),
  witness@ == s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(upto(vx_k5 as int, c0.ax)),
decreases vx_n5 - vx_k5
//@@ loop 5 end
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(upto(vx_k5 as int, c0.ax))); }
//@@ loop 6 before
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(c0.ax) + s0.constant_registers_witness@.take(0)); }
//@@ loop 6
invariant vx_n6 == s0.constant_registers_witness@.len(), vx_k6 <= vx_n6, self.constant_registers_witness == s0.constant_registers_witness, cols_ok(s0.constant_registers_witness@, c0.ct),
  witness@ == s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(c0.ax) + s0.constant_registers_witness@.take(upto(vx_k6 as int, c0.ct)),
decreases vx_n6 - vx_k6
//@@ loop 6 end
proof { assert(witness@ =~= s0.pc_registers_witness@.take(c0.pc) + s0.registers_witness@.take(c0.rg) + s0.aux_registers_witness@.take(c0.ax) + s0.constant_registers_witness@.take(upto(vx_k6 as int, c0.ct))); }
//@@ stmt "assert_eq !" before
proof { assert(witness@ =~= all_cols(s0, c0)); assert forall|x: Register| alloc(c0, x) implies all_cols(s0, c0)[rmap(c0, x)] == #[trigger] column(s0, x) by { l_all_cols(s0, c0, x); } }
//@@ endfn
// the remapped constraint says about the remapped registers what the traced one says about the traced registers
pub open spec fn asg_eq<F: PrimeField>(c: Cnt, a: Asg<F>, b: Asg<F>) -> bool { forall|r: Register, q: Register, s: StepDifference<F>| #![trigger a(r, s), b(q, s)] moved(c, r, q) && alloc(c, r) ==> b(q, s) == a(r, s) }
pub proof fn l_us_moved<F: PrimeField>(c: Cnt, x: Seq<UnivariateTerm<F>>, y: Seq<UnivariateTerm<F>>, a: Asg<F>, b: Asg<F>, n: int)
    requires us_moved(c, x, y, x.len() as int), us_alloc(c, x), asg_eq(c, a, b), 0 <= n <= x.len() ensures uprod(y, b, n) == uprod(x, a, n) decreases n
{ if n > 0 { l_us_moved(c, x, y, a, b, n - 1); assert(u_moved(c, x[n - 1], y[n - 1])); assert(alloc(c, x[n - 1].register)); assert(b(y[n - 1].register, y[n - 1].steps_difference) == a(x[n - 1].register, x[n - 1].steps_difference)); } }
pub proof fn l_ts_moved<F: PrimeField>(c: Cnt, x: Seq<ConstraintTerm<F>>, y: Seq<ConstraintTerm<F>>, a: Asg<F>, b: Asg<F>, n: int)
    requires ts_moved(c, x, y, x.len() as int), forall|i: int| 0 <= i < x.len() ==> t_alloc(c, #[trigger] x[i]), asg_eq(c, a, b), 0 <= n <= x.len() ensures tsum(y, b, n) == tsum(x, a, n) decreases n
{
    if n > 0 {
        l_ts_moved(c, x, y, a, b, n - 1); assert(t_moved(c, x[n - 1], y[n - 1])); assert(t_alloc(c, x[n - 1]));
        match x[n - 1] {
            ConstraintTerm::Univariate(u) => { let v = y[n - 1]->Univariate_0; assert(b(v.register, v.steps_difference) == a(u.register, u.steps_difference)); }
            ConstraintTerm::Polyvariate(p) => { l_us_moved(c, p.terms@, y[n - 1]->Polyvariate_0.terms@, a, b, p.terms@.len() as int); }
        }
    }
}
pub proof fn thm_moved_value<F: PrimeField>(c: Cnt, x: Constraint<F>, y: Constraint<F>, a: Asg<F>, b: Asg<F>) requires c_moved(c, x, y), c_alloc(c, x), asg_eq(c, a, b) ensures cval(y, b) == cval(x, a)
{ l_ts_moved(c, x.terms@, y.terms@, a, b, x.terms@.len() as int); }
