//! a random traced system with registers of all four kinds, its translation to plain registers and then to masks
use harness::*;
use hodor::air::*;
use hodor::arp::*;
use std::ops::{AddAssign, SubAssign, MulAssign};
type A<F> = ARPInstance<F, PerRegisterARP>;
fn col<'a, F: PrimeField>(t: &'a [Vec<Vec<F>>; 4], r: &Register) -> &'a Vec<F> { match r { Register::ProgramCounter(i) => &t[0][*i], Register::Register(i) => &t[1][*i], Register::Aux(i) => &t[2][*i], Register::Constant(i) => &t[3][*i] } }
fn ev<F: PrimeField>(c: &Constraint<F>, f: &dyn Fn(&UnivariateTerm<F>) -> F) -> F {
    let mut v = c.constant_term;
    for t in c.terms.iter() { let x = match t { ConstraintTerm::Univariate(u) => f(u), ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for u in p.terms.iter() { x = mul(x, f(u)); } x } }; v = add(v, x); }
    v
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let rows = c.u("n").max(1);
    let mut t = hodor::verif_hooks::trace_system::<F>();
    let mut cols: [Vec<Vec<F>>; 4] = [vec![], vec![], vec![], vec![]];
    let counts: Vec<usize> = (0..4).map(|_| r.below(4) as usize).collect();
    let mut regs: Vec<Register> = vec![];
    for k in 0..4 { for i in 0..counts[k] {
        let w = felts::<F>(&mut r, rows); cols[k].push(w.clone());
        let reg = match k {
            0 => { t.pc_registers.push(format!("pc{}", i)); t.pc_registers_witness.push(vec![]); Register::ProgramCounter(i) }
            1 => t.allocate_register(format!("r{}", i)).map_err(|_| "allocate")?,
            2 => t.allocate_aux_register().map_err(|_| "allocate aux")?,
            _ => t.allocate_constant_register(format!("c{}", i), |_| Err(TracingError::Error)).map_err(|_| "allocate constant")?,
        };
        let (x, y) = match reg { Register::ProgramCounter(i) => (0, i), Register::Register(i) => (1, i), Register::Aux(i) => (2, i), Register::Constant(i) => (3, i) };
        ensure!((x, y) == (k, i), "allocation {} of kind {} returned {:?}", i, k, reg);
        regs.push(reg);
        match k { 0 => t.pc_registers_witness[i] = w, 1 => t.registers_witness[i] = w, 2 => t.aux_registers_witness[i] = w, _ => t.constant_registers_witness[i] = w }
    } }
    let maxs = r.below(rows as u64) as usize;
    let mut cons: Vec<Constraint<F>> = vec![];
    if !regs.is_empty() { for _ in 0..r.below(4) {
        let mut k = Constraint::<F>::default(); let x: F = felt(&mut r); k += &x;
        let term = |r: &mut Rng| { let mut u: UnivariateTerm<F> = r.pick(&regs).clone().into(); u.set_step_difference(r.below(maxs as u64 + 1) as usize); u.power = r.below(4); let c: F = felt(r); u *= c; u };
        for _ in 0..r.below(3) { let u = term(&mut r); if r.below(2) == 0 { k += u } else { k -= u } }
        for _ in 0..r.below(3) { let mut p = PolyvariateTerm::<F>::default(); for _ in 0..r.below(4) { let u = term(&mut r); p *= u; } k += p; }
        k.density = ConstraintDensity::Dense(DenseConstraint::new(r.below(3) as usize, maxs + 1));
        cons.push(k);
    } }
    let mut bcs: Vec<BoundaryConstraint<F>> = vec![];
    if !regs.is_empty() { for _ in 0..r.below(4) { let b = BoundaryConstraint { register: *r.pick(&regs), at_row: r.below(rows as u64) as usize, value: if r.below(4) == 0 { None } else { Some(felt(&mut r)) } }; t.add_boundary_constraint("b".into(), b.register, b.at_row, b.value).map_err(|_| "boundary")?; bcs.push(b); } }
    t.constraints = cons.clone();
    if rows > 1 { t.step(rows - 1).map_err(|_| "step")?; }
    ensure!(t.get_step_number().ok() == Some(rows - 1), "step number");
    let total: usize = counts.iter().sum();
    let (w, props) = t.into_arp();
    ensure!(props.num_rows == rows, "{} rows became {}", rows, props.num_rows);
    ensure!(props.num_registers == total, "{:?} registers became {}", counts, props.num_registers);
    if total == 0 { ensure!(w.is_none(), "a witness without registers"); return Ok(false); }
    let w = match w { Some(w) => w, None => return Err("no witness".into()) };
    ensure!(w.len() == total, "{} columns for {} registers", w.len(), total);
    // where each register went
    let place = |q: &Register| -> usize { match q { Register::ProgramCounter(i) => *i, Register::Register(i) => counts[0] + *i, Register::Aux(i) => counts[0] + counts[1] + *i, Register::Constant(i) => counts[0] + counts[1] + counts[2] + *i } };
    for q in regs.iter() { ensure!(&w[place(q)] == col(&cols, q), "the column of {:?} is lost (counts {:?})", q, counts); }
    ensure!(props.constraints.len() == cons.len() && props.boundary_constraints.len() == bcs.len(), "number of constraints");
    for (a, b) in bcs.iter().zip(props.boundary_constraints.iter()) { ensure!(b.at_row == a.at_row && b.value == a.value && b.register == Register::Register(place(&a.register)), "boundary constraint {:?} became {:?}", a, b); }
    let steps = |u: &UnivariateTerm<F>| match u.steps_difference { StepDifference::Steps(s) => s, _ => usize::max_value() };
    let idx = |q: &Register| match q { Register::Register(i) => *i, _ => usize::max_value() };
    for (a, b) in cons.iter().zip(props.constraints.iter()) {
        ensure!(a.degree == b.degree && a.density == b.density && a.terms.len() == b.terms.len(), "shape of a constraint changed");
        for row in 0..rows - maxs { let x = ev(a, &|u| mul(u.coeff, pw(col(&cols, &u.register)[row + steps(u)], u.power as u128))); let y = ev(b, &|u| mul(u.coeff, pw(w[idx(&u.register)][row + steps(u)], u.power as u128))); ensure!(x == y, "at row {} the traced constraint is {}, the translated one {} (counts {:?})", row, x, y, counts); }
    }
    // masks
    let wk = worker(c.u("p").max(1));
    let size = rows.next_power_of_two(); let k = size.trailing_zeros();
    let arp = match A::<F>::from_instance(props.clone(), &wk) { Ok(a) => a, Err(_) => { ensure!(k > F::S, "instance of {} rows refused", rows); return Ok(false); } };
    let ps = arp.calculate_witness_polys(w.clone(), &wk).map_err(|e| format!("the witness of a traced system was refused: {}", e))?;
    ensure!(arp.properties.num_rows == rows && arp.properties.num_registers == total && arp.properties.boundary_constraints == props.boundary_constraints && arp.properties.constraints.len() == props.constraints.len(), "masking changed the instance");
    let g: F = root(k);
    for (a, b) in props.constraints.iter().zip(arp.properties.constraints.iter()) {
        ensure!(a.degree == b.degree && a.density == b.density && a.terms.len() == b.terms.len(), "shape of a constraint changed by masking");
        for row in 0..rows - maxs {
            let z = pw(g, row as u128);
            let x = ev(a, &|u| mul(u.coeff, pw(w[idx(&u.register)][row + steps(u)], u.power as u128)));
            let y = ev(b, &|u| { let m = match u.steps_difference { StepDifference::Mask(m) => m, _ => F::zero() }; mul(u.coeff, pw(peval(ps[idx(&u.register)].as_ref(), mul(m, z)), u.power as u128)) });
            ensure!(x == y, "at row {} the constraint is {}, the masked one over the witness polynomials {}", row, x, y);
        }
    }
    Ok(cons.len() > 0)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for n in 1..=16u32 { for s in 0..6 { fixed.push(format!("f=17,n={},p={},s={}", n, 1 + s % 3, s)); } }
    for n in &[1, 2, 3, 5, 8, 17, 33] { for f in &["257", "252", "97"] { fixed.push(format!("f={},n={},p=2", f, n)); } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); let m = *r.pick(&[3u64, 9, 20]); format!("f={},n={},p={},s={}", f, 1 + r.below(m), r.pick(&CPUS), r.below(1000000)) }, &run);
}
