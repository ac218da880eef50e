//! witness polynomials against the trace they come from
use harness::*;
use hodor::arp::*;
type A<F> = ARPInstance<F, PerRegisterARP>;
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let rows = c.u("n"); let regs = c.u("c").max(1);
    let w: Vec<Vec<F>> = (0..regs).map(|_| match r.below(5) { 0 => vec![felt(&mut r); rows], _ => felts(&mut r, rows) }).collect();
    let props = InstanceProperties::<F> { num_rows: rows, num_registers: regs, constraints: vec![], boundary_constraints: vec![] };
    let wk = worker(c.u("p").max(1));
    let size = rows.max(1).next_power_of_two(); let k = size.trailing_zeros();
    let arp = match A::<F>::from_instance(props, &wk) { Ok(a) => { ensure!(k <= F::S, "an instance of {} rows was built although no domain of size {} exists", rows, size); a } Err(_) => { ensure!(k > F::S, "an instance of {} rows was refused although a domain of size {} exists", rows, size); return Ok(false); } };
    let ps = match arp.calculate_witness_polys(w.clone(), &wk) { Ok(p) => p, Err(e) => return Err(format!("a trace of {} rows and {} registers was refused: {}", rows, regs, e)) };
    ensure!(ps.len() == regs, "{} polynomials for {} registers", ps.len(), regs);
    let g: F = root(k);
    for (i, p) in ps.iter().enumerate() {
        ensure!(p.as_ref().len() == size, "register {}: {} coefficients for {} rows", i, p.as_ref().len(), rows);
        consts_ok(p, k, "witness polynomial")?;
        let v = dft(p.as_ref(), g);
        for t in 0..size { let e = if t < rows { w[i][t] } else { F::zero() }; ensure!(v[t] == e, "register {} of {}, row {} of {}: the polynomial takes {} there, the trace has {} ({} workers)", i, regs, t, rows, v[t], e, c.u("p")); }
    }
    // the wrong shape is refused
    let mut w2 = w.clone(); w2.push(vec![F::zero(); rows]);
    ensure!(arp.calculate_witness_polys(w2, &wk).is_err(), "a trace with one register too many was accepted");
    let w3: Vec<Vec<F>> = w.iter().map(|x| { let mut x = x.clone(); x.push(F::one()); x }).collect();
    ensure!(arp.calculate_witness_polys(w3, &wk).is_err(), "a trace with one row too many was accepted");
    if rows > 0 { let w4: Vec<Vec<F>> = w.iter().map(|x| { let mut x = x.clone(); x.pop(); x }).collect(); ensure!(arp.calculate_witness_polys(w4, &wk).is_err(), "a trace with one row too few was accepted"); }
    Ok(rows > 1)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for n in 1..=17u32 { for cc in 1..=3 { for p in &[1, 2, 3, 8] { fixed.push(format!("f=17,n={},c={},p={}", n, cc, p)); } } }
    for n in &[1, 2, 3, 5, 8, 31, 32, 33, 64, 100] { for f in &["257", "252", "97"] { for p in &[1, 3, 16] { fixed.push(format!("f={},n={},c=2,p={}", f, n, p)); } } }
    for cc in &[4, 7, 16, 20] { for p in &CPUS { fixed.push(format!("f=257,n=12,c={},p={}", cc, p)); } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); let m = *r.pick(&[4u64, 20, 80]); format!("f={},n={},c={},p={},s={}", f, 1 + r.below(m), 1 + r.below(5), r.pick(&CPUS), r.below(1000000)) }, &run);
}
