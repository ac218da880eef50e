//! random register systems and traces; the oracle evaluates every constraint on every covered row by definition
use harness::*;
use hodor::air::*;
use hodor::arp::*;
use std::ops::{AddAssign, SubAssign, MulAssign};
type A<F> = ARPInstance<F, PerRegisterARP>;
fn term<F: PrimeField>(r: &mut Rng, regs: usize, maxs: usize) -> UnivariateTerm<F> {
    let mut t: UnivariateTerm<F> = Register::Register(r.below(regs as u64) as usize).into();
    t.power = *r.pick(&[0u64, 1, 1, 1, 2, 3]);
    t.set_step_difference(r.below(maxs as u64 + 1) as usize);
    let c: F = felt(r); t *= c; t
}
/// every row read by `c` at `row` exists in the trace, and the constraint is zero there
fn holds<F: PrimeField>(c: &Constraint<F>, w: &[Vec<F>], rows: usize, row: usize) -> bool {
    let ev = |t: &UnivariateTerm<F>| -> Option<F> {
        let s = match t.steps_difference { StepDifference::Steps(s) => s, _ => unreachable!() };
        let i = match t.register { Register::Register(i) => i, _ => unreachable!() };
        if row + s >= rows { return None; }
        Some(mul(t.coeff, pw(w[i][row + s], t.power as u128)))
    };
    let mut v = c.constant_term;
    for t in c.terms.iter() {
        let x = match t {
            ConstraintTerm::Univariate(u) => match ev(u) { Some(x) => x, None => return false },
            ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for u in p.terms.iter() { match ev(u) { Some(y) => { x = mul(x, y); } None => return false } } x }
        };
        v = add(v, x);
    }
    v.is_zero()
}
fn want<F: PrimeField>(p: &InstanceProperties<F>, w: &[Vec<F>]) -> bool {
    if w.len() != p.num_registers || w.iter().any(|c| c.len() != p.num_rows) { return false; }
    for c in p.constraints.iter() {
        let (st, sp) = match c.density { ConstraintDensity::Dense(ref d) => (d.start_at, d.span), _ => unreachable!() };
        for row in 0..p.num_rows { if row >= st && row + sp < p.num_rows && !holds(c, w, p.num_rows, row) { return false; } }
    }
    p.boundary_constraints.iter().all(|b| { let i = match b.register { Register::Register(i) => i, _ => unreachable!() }; b.at_row < p.num_rows && b.value.map(|v| w[i][b.at_row] == v).unwrap_or(true) })
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let regs = 1 + r.below(4) as usize; let rows = c.u("n");
    let maxs = 1 + r.below(3) as usize;
    // next-row recurrences: reg_i[t+s] = random expression in the rows t..t+s-1 of every register
    let mut w: Vec<Vec<F>> = (0..regs).map(|_| felts(&mut r, rows)).collect();
    let mut cons: Vec<Constraint<F>> = vec![];
    let ncons = r.below(regs as u64 + 1) as usize;
    let start = if r.below(3) == 0 { r.below(rows as u64 + 2) as usize } else { 0 };
    for i in 0..ncons {
        let s = maxs;
        let mut k = Constraint::<F>::default();
        k.density = ConstraintDensity::Dense(DenseConstraint::new(start, s));
        let x: F = felt(&mut r); k += &x;
        for _ in 0..r.below(3) { let mut t = term::<F>(&mut r, regs, s - 1); if r.below(2) == 0 { t.set_step_difference(0); } k += t; }
        if r.below(2) == 0 { let mut p = PolyvariateTerm::<F>::default(); for _ in 0..1 + r.below(3) { p *= term::<F>(&mut r, regs, s - 1); } k -= p; }
        let mut nx: UnivariateTerm<F> = Register::Register(i).into(); nx.set_step_difference(s); k -= nx;
        cons.push(k);
    }
    for t in start..rows {
        if t + maxs >= rows { break; }
        for (i, k) in cons.iter().enumerate() {
            // the constraint is  e(rows t..t+s-1) - reg_i[t+s]
            w[i][t + maxs] = F::zero();
            let mut v = k.constant_term;
            for q in k.terms.iter() { let ev = |u: &UnivariateTerm<F>| { let (s, j) = (match u.steps_difference { StepDifference::Steps(s) => s, _ => 0 }, match u.register { Register::Register(j) => j, _ => 0 }); mul(u.coeff, pw(w[j][t + s], u.power as u128)) };
                let x = match q { ConstraintTerm::Univariate(u) => ev(u), ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for u in p.terms.iter() { x = mul(x, ev(u)); } x } }; v = add(v, x); }
            w[i][t + maxs] = v;
        }
    }
    let mut bcs: Vec<BoundaryConstraint<F>> = vec![];
    if rows > 0 { for _ in 0..r.below(3) { let j = r.below(regs as u64) as usize; let at = r.below(rows as u64) as usize; bcs.push(BoundaryConstraint { register: Register::Register(j), at_row: at, value: if r.below(5) == 0 { None } else { Some(w[j][at]) } }); } }
    let mut props = InstanceProperties::<F> { num_rows: rows, num_registers: regs, constraints: cons, boundary_constraints: bcs };
    let wk = worker(1);
    let check = |props: &InstanceProperties<F>, w: &Vec<Vec<F>>, what: &str| -> Result<bool, String> {
        let g = A::<F>::is_satisfied(props, w, &wk).is_ok(); let e = want(props, w);
        ensure!(g == e, "{}: is_satisfied says {}, the definition says {} ({} rows, {} registers, {} constraints)", what, g, e, rows, regs, props.constraints.len());
        Ok(e)
    };
    let ok = check(&props, &w, "generated trace")?;
    ensure!(ok, "harness: the generated trace does not satisfy its system");
    // spoil one thing at a time
    let mut seen = 0;
    for _ in 0..6 {
        let mut w2 = w.clone(); let mut p2 = props.clone();
        match r.below(8) {
            0 | 1 | 2 => { if rows == 0 { continue; } let j = r.below(regs as u64) as usize; let t = if r.below(2) == 0 { rows - 1 - (r.below(rows.min(3) as u64) as usize) } else { r.below(rows as u64) as usize }; w2[j][t].add_assign(&F::one()); }
            3 => { let j = r.below(regs as u64) as usize; if r.below(2) == 0 { w2[j].pop(); } else { w2[j].push(F::zero()); } }
            4 => { if r.below(2) == 0 { w2.push(vec![F::zero(); rows]); } else if p2.constraints.len() + p2.boundary_constraints.len() == 0 || true { w2.pop(); } }
            5 => { if p2.boundary_constraints.is_empty() { continue; } let k = r.below(p2.boundary_constraints.len() as u64) as usize; match r.below(3) { 0 => { p2.boundary_constraints[k].at_row = rows + r.below(3) as usize; } 1 => { if let Some(ref mut v) = p2.boundary_constraints[k].value { v.add_assign(&F::one()); } } _ => { let l = p2.boundary_constraints.len() - 1; if let Some(ref mut v) = p2.boundary_constraints[l].value { v.double(); } } } }
            6 => { for k in p2.constraints.iter_mut() { if let ConstraintDensity::Dense(ref mut d) = k.density { match r.below(3) { 0 => { d.start_at = r.below(rows as u64 + 1) as usize; } 1 => { d.span = 1 + r.below(rows as u64 + 3) as usize; } _ => { d.start_at = 0; } } } } }
            _ => { for k in p2.constraints.iter_mut() { let x: F = felt(&mut r); if r.below(2) == 0 { k.constant_term.add_assign(&x); } } }
        }
        if !check(&p2, &w2, "spoiled trace")? { seen += 1; }
    }
    // unrelated random columns
    for v in w.iter_mut() { for x in v.iter_mut() { if r.below(2) == 0 { *x = felt(&mut r); } } }
    props.boundary_constraints.clear();
    check(&props, &w, "random trace")?;
    Ok(seen > 0 && !props.constraints.is_empty())
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for n in 0..=17u32 { for s in 0..12 { fixed.push(format!("f=17,n={},s={}", n, s)); } }
    for n in &[1, 2, 5, 8, 16, 33] { for f in &["252", "257", "97"] { fixed.push(format!("f={},n={}", f, n)); } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); let m = *r.pick(&[4u64, 12, 40]); format!("f={},n={},s={}", f, 1 + r.below(m), r.below(1000000)) }, &run);
}
