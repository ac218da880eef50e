//! the composition polynomial the prover computes against its definition (stark.rs), point by point over the coset
use harness::*; use harness::stark::*;
use hodor::ali::per_register::*; use hodor::arp::*; use hodor::polynomials::*; use hodor::transcript::*;
/// a random instance; e: 1 no constraints, 2 no boundary constraints, 3 neither, 4 constant constraints added, 5 several boundary constraints in the same row
pub fn instance<F: PrimeField>(c: &Case, r: &mut Rng) -> InstanceProperties<F> {
    let rows = c.u("n").max(2); let g = Gen { rows, regs: 1 + r.below(3) as usize, densities: 1 + r.below(3) as usize, maxdeg: c.n("d").max(1) };
    let (mut p, _) = system::<F>(&g, r); let regs = g.regs;
    match c.n("e") {
        1 => p.constraints.clear(), 2 => p.boundary_constraints.clear(), 3 => { p.constraints.clear(); p.boundary_constraints.clear(); }
        4 => { for _ in 0..1 + r.below(2) { let mut k = hodor::air::Constraint::<F>::default(); k.density = hodor::air::ConstraintDensity::Dense(hodor::air::DenseConstraint::new(r.below(rows as u64 - 1) as usize, 1)); let x: F = felt(r); k += &x; let i = r.below(p.constraints.len() as u64 + 1) as usize; p.constraints.insert(i, k); } }
        5 => { let at = r.below(rows as u64) as usize; for _ in 0..2 + r.below(3) { p.boundary_constraints.push(hodor::air::BoundaryConstraint { register: hodor::air::Register::Register(r.below(regs as u64) as usize), at_row: at, value: Some(felt(r)) }); } }
        _ => () }
    if c.n("e") == 6 { // the same densities again, in another order
        let l = p.constraints.len(); for i in 0..l { let k = p.constraints[l - 1 - i].clone(); p.constraints.push(k); } }
    p
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng(); let p = instance::<F>(c, &mut r); let o = Inst::new(p.clone()); let wk = worker(c.u("p").max(1));
    if o.gn > 1024 { return Ok(false); }
    let arp = match ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &wk) { Ok(a) => { ensure!(o.k <= F::S, "an instance without a domain was built"); a } Err(e) => { ensure!(o.k > F::S, "no ARP instance for {} rows: {}", p.num_rows, e); return Ok(false); } };
    let ali = match ALIInstance::from_arp(arp, &wk) { Ok(a) => { ensure!(o.gk <= F::S, "an ALI instance without a constraint domain was built"); a } Err(e) => { ensure!(o.gk > F::S || !o.coset_def(), "no ALI instance for {} rows, degree {}: {}", p.num_rows, o.deg, e); return Ok(false); } };
    ensure!(ali.max_constraint_power == o.deg, "largest degree {} of {}", ali.max_constraint_power, o.deg);
    let f: Vec<Vec<F>> = (0..p.num_registers).map(|_| match r.below(4) { 0 => { let mut v = vec![F::zero(); o.n]; v[0] = felt(&mut r); v } _ => felts(&mut r, o.n) }).collect();
    let polys: Vec<CPoly<F>> = f.iter().map(|x| CPoly::<F>::from_coeffs(x.clone()).expect("coefficients")).collect();
    let mut t = Tr::<F>::new(); t.commit_bytes(&rand_bytes(&mut r, 40)); let mut u = t.clone();
    let cc: Vec<(F, F)> = o.p.constraints.iter().map(|_| { let a = u.get_challenge(); (a, u.get_challenge()) }).collect();
    // challenges are drawn per constraint in the order of the groups
    let bc: Vec<(F, F)> = o.p.boundary_constraints.iter().map(|_| { let a = u.get_challenge(); (a, u.get_challenge()) }).collect();
    let g = match ali.calculate_g(&mut t, polys, &wk) { Ok(g) => g, Err(e) => return Err(format!("no composition polynomial for {} rows, degree {}: {}", p.num_rows, o.deg, e)) };
    ensure!(t.get_challenge_bytes() == u.get_challenge_bytes(), "the transcript is left in another state than after {} challenges", 2 * (cc.len() + bc.len()));
    ensure!(g.as_ref().len() == o.gn, "{} coefficients, {} expected", g.as_ref().len(), o.gn);
    consts_ok(&g, o.gk, "composition polynomial")?;
    let w = root::<F>(o.k); let wg = root::<F>(o.gk); let mut x = F::multiplicative_generator();
    for i in 0..o.gn {
        ensure!(o.gdef(x), "oracle: coset point {} in the domain", i);
        let a = |rg: usize, s: usize| peval(&f[rg], mul(x, pw(w, s as u128)));
        let want = o.gcomp(x, &a, &cc, &bc); let got = peval(g.as_ref(), x);
        ensure!(got == want, "composition polynomial of {} constraints of degree up to {} ({} groups) and {} boundary constraints over {} rows: {} at coset point {} of {}, {} expected", p.constraints.len(), o.deg, o.batches.len(), p.boundary_constraints.len(), p.num_rows, got, i, o.gn, want);
        x.mul_assign(&wg);
    }
    Ok(p.constraints.len() + p.boundary_constraints.len() > 0)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for e in 0..7 { for n in [2, 3, 4, 5, 8, 11].iter() { for d in 1..6 { for s in 0..2 { fixed.push(format!("f={},n={},d={},e={},p={},s={}", ["252", "b192", "257", "b128"][(e + n + d + s) as usize % 4], n, d, e, 1 + (n + d + s) % 5, s)); } } } }
    for n in [16, 17, 33, 64].iter() { for d in 1..5 { fixed.push(format!("f=252,n={},d={},e=0,p={},s=1", n, d, 1 + d)); } }
    main_loop(fixed, &|r| format!("f={},n={},d={},e={},p={},s={}", r.pick(&ALLF), 2 + r.below(20), 1 + r.below(6), r.below(8), 1 + r.below(9), r.next()), &run)
}
