//! the DEEP quotients the prover computes against their definition (stark.rs), at every point of the extended domain
use harness::*; use harness::stark::*;
use hodor::ali::per_register::*; use hodor::arp::*; use hodor::polynomials::*; use hodor::transcript::*;
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng(); let rows = c.u("n").max(2);
    let (mut p, _) = system::<F>(&Gen { rows, regs: 1 + r.below(4) as usize, densities: 1 + r.below(3) as usize, maxdeg: c.n("d").max(1) }, &mut r);
    match c.n("e") { 1 => p.constraints.clear(), 2 => p.boundary_constraints.clear(), 3 => { p.constraints.clear(); p.boundary_constraints.clear(); } _ => () }
    let o = Inst::new(p.clone()); let wk = worker(c.u("p").max(1));
    if o.gn > 1024 || o.gk > F::S || !o.coset_def() { return Ok(false); }
    let e = |e: hodor::SynthesisError| format!("instance: {}", e);
    let ali = ALIInstance::from_arp(ARPInstance::<F, PerRegisterARP>::from_instance(p.clone(), &wk).map_err(e)?, &wk).map_err(e)?;
    // any extension sizes, any committed values
    let kf = (o.k + r.below(4) as u32).min(F::S); let kg = (o.gk + r.below(3) as u32).min(F::S);
    if kf > 9 || kg > 10 { return Ok(false); }
    let f: Vec<Vec<F>> = (0..p.num_registers).map(|_| felts(&mut r, o.n)).collect(); let g: Vec<F> = felts(&mut r, o.gn);
    let fl: Vec<Vec<F>> = f.iter().map(|x| if r.below(2) == 0 { felts(&mut r, 1 << kf) } else { let mut y = x.clone(); y.resize(1 << kf, F::zero()); dft(&y, root::<F>(kf)) }).collect(); let gl: Vec<F> = felts(&mut r, 1 << kg);
    let cp = |v: &Vec<F>| CPoly::<F>::from_coeffs(v.clone()).expect("coefficients"); let vp = |v: &Vec<F>| VPoly::<F>::from_values(v.clone()).expect("values");
    let mut t = Tr::<F>::new(); t.commit_bytes(&rand_bytes(&mut r, 33)); 
    if c.n("z") == 1 { // look for a transcript whose first challenge hits a denominator (small fields)
        for _ in 0..400 { let mut u = t.clone(); let z: F = u.get_challenge(); let (wf, wg) = (root::<F>(kf), root::<F>(kg)); let mut hit = (0..1usize << kg).any(|i| pw(wg, i as u128) == z); let mut x = F::one(); for _ in 0..1usize << kf { hit |= !o.h1def(x, z); x.mul_assign(&wf); } if hit { break; } t.commit_bytes(&rand_bytes(&mut r, 3)); } }
    let mut u = t.clone(); let z: F = u.get_challenge(); let al: Vec<F> = o.masks.iter().map(|_| u.get_challenge()).collect();
    let (wf, wg) = (root::<F>(kf), root::<F>(kg)); let w = root::<F>(o.k);
    let mut def = true; { let mut x = F::one(); for _ in 0..1usize << kf { def &= o.h1def(x, z); x.mul_assign(&wf); } let mut x = F::one(); for _ in 0..1usize << kg { def &= x != z; x.mul_assign(&wg); } }
    let res = ali.calculate_deep(&f.iter().map(cp).collect(), &fl.iter().map(vp).collect(), &cp(&g), &vp(&gl), &mut t, &wk);
    let (h1, h2, fz, gz) = match res { Err(e) => { ensure!(!def, "no quotients although no denominator vanishes: {}", e); return Ok(true); } Ok(x) => x };
    ensure!(def, "quotients were computed although a denominator vanishes");
    ensure!(t.get_challenge_bytes() == u.get_challenge_bytes(), "the transcript is left in another state than after {} challenges", 1 + al.len());
    let wz: Vec<F> = o.masks.iter().map(|m| peval(&f[m.0], mul(z, pw(w, m.1 as u128)))).collect();
    same(&fz, &wz, "values at the masked out-of-domain points")?; ensure!(gz == peval(&g, z), "composition at the out-of-domain point: {} instead of {}", gz, peval(&g, z));
    consts_ok(&h1, kf, "H1")?; consts_ok(&h2, kg, "H2")?;
    let mut x = F::one(); let mut v1 = vec![]; for i in 0..1usize << kf { let fx: Vec<F> = fl.iter().map(|v| v[i]).collect(); v1.push(o.h1(x, z, &fx, &wz, &al)); x.mul_assign(&wf); }
    let mut x = F::one(); let mut v2 = vec![]; for i in 0..1usize << kg { v2.push(mul(sub(gl[i], gz), inv(sub(x, z)))); x.mul_assign(&wg); }
    same(h1.as_ref(), &v1, &format!("H1 over {} masks", o.masks.len()))?; same(h2.as_ref(), &v2, "H2")?;
    Ok(o.masks.len() > 0)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for e in 0..4 { for n in [2, 3, 4, 5, 8, 11].iter() { for d in 1..4 { for s in 0..3 { fixed.push(format!("f={},n={},d={},e={},p={},s={}", ["252", "b192", "b64", "b128"][(e + n + d + s) as usize % 4], n, d, e, 1 + (n + d + s) % 5, s)); } } } }
    for s in 0..120 { fixed.push(format!("f={},n={},d={},e=0,p=2,z={},s={}", ["257", "12289", "65537", "97"][s % 4], 2 + s % 4, 1 + s % 2, s % 2, s)); }
    main_loop(fixed, &|r| format!("f={},n={},d={},e={},p={},z={},s={}", r.pick(&ALLF), 2 + r.below(20), 1 + r.below(4), r.below(6), 1 + r.below(9), r.below(4) / 3, r.next()), &run)
}
