// ---- satisfaction of a register system by a trace ----
pub type Wit<F> = Seq<Vec<F>>;
pub open spec fn step_of<F: PrimeField>(t: UnivariateTerm<F>) -> int { match t.steps_difference { StepDifference::Steps(s) => s as int, _ => 0 } }
pub open spec fn reg_of(r: Register) -> int { match r { Register::Register(i) => i as int, _ => -1 } }
// the assignment a row of the trace gives to "register r, s steps ahead"
pub open spec fn row_asg<F: PrimeField>(w: Wit<F>, row: int) -> Asg<F> { |r: Register, s: StepDifference<F>| match s { StepDifference::Steps(k) => w[reg_of(r)]@[row + k], _ => F::f0() } }
// the instance is remapped to plain registers, all allocated, its step differences are counts (not yet masks), its densities are dense
pub open spec fn u_ok<F: PrimeField>(t: UnivariateTerm<F>, regs: int) -> bool { t.register is Register && 0 <= reg_of(t.register) < regs && t.steps_difference is Steps && step_of(t) <= 0x7fff_ffff_ffff_ffff }
pub open spec fn us_ok<F: PrimeField>(s: Seq<UnivariateTerm<F>>, regs: int) -> bool { forall|i: int| 0 <= i < s.len() ==> u_ok(#[trigger] s[i], regs) }
pub open spec fn t_ok<F: PrimeField>(t: ConstraintTerm<F>, regs: int) -> bool { match t { ConstraintTerm::Univariate(u) => u_ok(u, regs), ConstraintTerm::Polyvariate(p) => us_ok(p.terms@, regs) } }
pub open spec fn c_ok<F: PrimeField>(c: Constraint<F>, regs: int) -> bool { c.density is Dense && forall|i: int| 0 <= i < c.terms@.len() ==> t_ok(#[trigger] c.terms@[i], regs) }
pub open spec fn inst_ok<F: PrimeField>(p: InstanceProperties<F>) -> bool {
    p.num_rows <= 0x7fff_ffff_ffff_ffff
    && (forall|i: int| 0 <= i < p.constraints@.len() ==> c_ok(#[trigger] p.constraints@[i], p.num_registers as int))
    && (forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> (#[trigger] p.boundary_constraints@[i]).register is Register && reg_of(p.boundary_constraints@[i].register) < p.num_registers)
}
// the steps a term looks at lie inside the trace
pub open spec fn u_in<F: PrimeField>(t: UnivariateTerm<F>, row: int, rows: int) -> bool { row + step_of(t) < rows }
pub open spec fn us_in<F: PrimeField>(s: Seq<UnivariateTerm<F>>, row: int, rows: int) -> bool { forall|i: int| 0 <= i < s.len() ==> u_in(#[trigger] s[i], row, rows) }
pub open spec fn t_in<F: PrimeField>(t: ConstraintTerm<F>, row: int, rows: int) -> bool { match t { ConstraintTerm::Univariate(u) => u_in(u, row, rows), ConstraintTerm::Polyvariate(p) => us_in(p.terms@, row, rows) } }
pub open spec fn c_in<F: PrimeField>(c: Constraint<F>, row: int, rows: int) -> bool { forall|i: int| 0 <= i < c.terms@.len() ==> t_in(#[trigger] c.terms@[i], row, rows) }
// the rows a density covers: from start_at, as long as `span` further rows exist
pub open spec fn covers(d: ConstraintDensity, row: int, rows: int) -> bool { d matches ConstraintDensity::Dense(x) && x.start_at <= row && row + x.span < rows }
pub open spec fn wit_ok<F: PrimeField>(p: InstanceProperties<F>, w: Wit<F>) -> bool { w.len() == p.num_registers && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@.len() == p.num_rows }
pub open spec fn c_holds<F: PrimeField>(c: Constraint<F>, w: Wit<F>, row: int, rows: int) -> bool { c_in(c, row, rows) && cval(c, row_asg(w, row)) == F::f0() }
pub open spec fn c_sat<F: PrimeField>(c: Constraint<F>, w: Wit<F>, rows: int) -> bool { forall|row: int| #[trigger] covers(c.density, row, rows) ==> c_holds(c, w, row, rows) }
pub open spec fn b_holds<F: PrimeField>(b: BoundaryConstraint<F>, w: Wit<F>, rows: int) -> bool { b.at_row < rows && (b.value matches Some(v) ==> w[reg_of(b.register)]@[b.at_row as int] == v) }
pub open spec fn satisfied<F: PrimeField>(p: InstanceProperties<F>, w: Wit<F>) -> bool {
    wit_ok(p, w)
    && (forall|i: int| 0 <= i < p.constraints@.len() ==> c_sat(#[trigger] p.constraints@[i], w, p.num_rows as int))
    && (forall|i: int| 0 <= i < p.boundary_constraints@.len() ==> b_holds(#[trigger] p.boundary_constraints@[i], w, p.num_rows as int))
}
pub open spec fn rect<F>(w: Wit<F>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i])@.len() == w[0]@.len() }
pub open spec fn nrows<F>(w: Wit<F>) -> int { w[0]@.len() as int }
//@@ item src/arp/mod.rs PerRegisterARP
//@@ item src/arp/mod.rs InstanceProperties
//@@ item src/arp/mod.rs ARPInstance "T : ARPType" => "T"
//@@ item src/arp/density_query.rs DenseConstraintQuery
//@@ fn src/arp/density_query.rs DenseConstraintQuery::new ret=r
ensures r.current_row == dense.start_at, forall|row: int| 0 <= row ==> (r.current_row <= row < r.limit <==> #[trigger] covers(ConstraintDensity::Dense(*dense), row, num_rows as int)), r.limit <= num_rows
//@@ endfn
//@@ fn src/arp/density_query.rs DenseConstraintQuery::next_row ret=r
ensures final(self).limit == old(self).limit, old(self).current_row < old(self).limit ==> r == Some(old(self).current_row) && final(self).current_row == old(self).current_row + 1,
  old(self).current_row >= old(self).limit ==> r is None && final(self).current_row == old(self).current_row
//@@ endfn
//@@ assoc src/arp/density_query.rs DensityQuery Iterator Item => "usize"
//@@ fn src/arp/density_query.rs DensityQuery::next ret=r impl="Iterator for"
//@@ subst "DensityQuery" => "DenseConstraintQuery"
//@@ subst "Self :: Item" => "usize"
ensures final(self).limit == old(self).limit, old(self).current_row < old(self).limit ==> r == Some(old(self).current_row) && final(self).current_row == old(self).current_row + 1,
  old(self).current_row >= old(self).limit ==> r is None && final(self).current_row == old(self).current_row
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::verify_witness::evaluate_univariate_term_on_witness ret=r rename=evaluate_univariate_term_on_witness
requires u_ok(*univariate_term, witness@.len() as int), base_row <= 0x7fff_ffff_ffff_ffff
ensures match r { Ok(v) => u_in(*univariate_term, base_row as int, witness@[reg_of(univariate_term.register)]@.len() as int) && v == uval(*univariate_term, row_asg(witness@, base_row as int)), Err(_) => !u_in(*univariate_term, base_row as int, witness@[reg_of(univariate_term.register)]@.len() as int) }
//@@ end tail
  proof { F::ax_mul_comm(univariate_term.coeff, fpow(witness@[reg_num as int]@[row as int], univariate_term.power as nat)); }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::verify_witness::evaluate_term_on_witness ret=r rename=evaluate_term_on_witness
requires t_ok(*term, witness@.len() as int), base_row <= 0x7fff_ffff_ffff_ffff, rect(witness@)
ensures match r { Ok(v) => t_in(*term, base_row as int, nrows(witness@)) && v == tval(*term, row_asg(witness@, base_row as int)), Err(_) => !t_in(*term, base_row as int, nrows(witness@)) }
//@@ loop 1
invariant vx_n1 == poly_term.terms@.len(), vx_k1 <= vx_n1, us_ok(poly_term.terms@, witness@.len() as int), base_row <= 0x7fff_ffff_ffff_ffff, rect(witness@),
  *term == ConstraintTerm::Polyvariate(*poly_term),
  forall|i: int| 0 <= i < vx_k1 ==> u_in(#[trigger] poly_term.terms@[i], base_row as int, nrows(witness@)),
  result == uprod(poly_term.terms@, row_asg(witness@, base_row as int), vx_k1 as int),
decreases vx_n1 - vx_k1
//@@ loop 1 start
proof { assert(u_ok(poly_term.terms@[vx_i1 as int], witness@.len() as int)); }
//@@ loop 1 end
proof { }
//@@ loop 1 after
proof { F::ax_mul_comm(poly_term.coeff, result); }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::verify_witness::evaluate_constraint_on_witness ret=r rename=evaluate_constraint_on_witness
requires c_ok(*constraint, witness@.len() as int), base_row <= 0x7fff_ffff_ffff_ffff, rect(witness@)
ensures match r { Ok(v) => c_in(*constraint, base_row as int, nrows(witness@)) && v == cval(*constraint, row_asg(witness@, base_row as int)), Err(_) => !c_in(*constraint, base_row as int, nrows(witness@)) }
//@@ begin
proof { F::ax_zero(constraint.constant_term); }
//@@ loop 1
invariant vx_n1 == constraint.terms@.len(), vx_k1 <= vx_n1, c_ok(*constraint, witness@.len() as int), base_row <= 0x7fff_ffff_ffff_ffff, rect(witness@),
  forall|i: int| 0 <= i < vx_k1 ==> t_in(#[trigger] constraint.terms@[i], base_row as int, nrows(witness@)),
  value == constraint.constant_term.fadd(tsum(constraint.terms@, row_asg(witness@, base_row as int), vx_k1 as int)),
decreases vx_n1 - vx_k1
//@@ loop 1 start
proof { assert(t_ok(constraint.terms@[vx_i1 as int], witness@.len() as int)); }
//@@ loop 1 inner_end
proof { F::ax_add_assoc(constraint.constant_term, tsum(constraint.terms@, row_asg(witness@, base_row as int), vx_i1 as int), v); }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::verify_witness ret=r
//@@ iterkind density=next
//@@ subst "verify_witness__evaluate_constraint_on_witness" => "evaluate_constraint_on_witness"
//@@ subst "Box < dyn DensityQuery >" => "DenseConstraintQuery"
//@@ subst "Box :: from (dense_query)" => "dense_query"
requires inst_ok(*properties)
ensures r is Ok <==> satisfied(*properties, witness@)
//@@ begin
proof { ax_eq::<F>(); }
//@@ loop 1
invariant vx_n1 == witness@.len(), vx_k1 <= vx_n1, num_rows == properties.num_rows, witness@.len() == properties.num_registers,
  forall|i: int| 0 <= i < vx_k1 ==> (#[trigger] witness@[i])@.len() == num_rows,
decreases vx_n1 - vx_k1
//@@ loop 2
invariant vx_n2 == properties.constraints@.len(), vx_k2 <= vx_n2, num_rows == properties.num_rows, inst_ok(*properties), wit_ok(*properties, witness@),
  forall|i: int| 0 <= i < vx_k2 ==> c_sat(#[trigger] properties.constraints@[i], witness@, num_rows as int),
decreases vx_n2 - vx_k2
//@@ loop 2 bound
proof { assert(c_ok(properties.constraints@[vx_i2 as int], properties.num_registers as int)); assert(*c == properties.constraints@[vx_i2 as int]); }
//@@ loop 3
invariant num_rows == properties.num_rows, inst_ok(*properties), wit_ok(*properties, witness@), c_ok(*c, witness@.len() as int), 0 <= vx_i2 < properties.constraints@.len(), *c == properties.constraints@[vx_i2 as int],
  forall|row: int| 0 <= row ==> (vx_s3 <= row < vx_it3.limit <==> #[trigger] covers(c.density, row, num_rows as int)), vx_it3.limit <= num_rows,
  vx_s3 <= vx_it3.current_row, vx_s3 <= vx_it3.limit ==> vx_it3.current_row <= vx_it3.limit,
  forall|row: int| vx_s3 <= row < vx_it3.current_row && row < vx_it3.limit ==> c_holds(*c, witness@, row, num_rows as int),
ensures forall|row: int| vx_s3 <= row < vx_it3.limit ==> c_holds(*c, witness@, row, num_rows as int),
decreases vx_it3.limit - vx_it3.current_row
//@@ loop 3 before
let ghost vx_s3 = vx_it3.current_row;
//@@ loop 3 bound
proof { assert(covers(c.density, row as int, num_rows as int)); }
//@@ loop 3 after
proof { assert(c_sat(*c, witness@, num_rows as int)); }
//@@ loop 4
invariant vx_n4 == properties.boundary_constraints@.len(), vx_k4 <= vx_n4, num_rows == properties.num_rows, inst_ok(*properties), wit_ok(*properties, witness@),
  forall|i: int| 0 <= i < properties.constraints@.len() ==> c_sat(#[trigger] properties.constraints@[i], witness@, num_rows as int),
  forall|i: int| 0 <= i < vx_k4 ==> b_holds(#[trigger] properties.boundary_constraints@[i], witness@, num_rows as int),
decreases vx_n4 - vx_k4
//@@ loop 4 bound
proof { ax_eq::<F>(); assert(*bc == properties.boundary_constraints@[vx_i4 as int]); assert(bc.register is Register); }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::is_satisfied ret=r impl="ARP < F >"
requires inst_ok(*proprties)
ensures r is Ok <==> satisfied(*proprties, witness@)
//@@ endfn
