//! real prover to real verifier, and the prover's proof against the one computed in stark.rs
use harness::*; use harness::stark::*;
use hodor::iop::*;
fn show_q<F: PrimeField>(a: &<Iop<F> as IOP<F>>::Query, b: &<Iop<F> as IOP<F>>::Query) -> bool { a.natural_index() == b.natural_index() && a.value() == b.value() && a.path() == b.path() }
fn same_q<F: PrimeField>(a: &[<Iop<F> as IOP<F>>::Query], b: &[<Iop<F> as IOP<F>>::Query]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| show_q::<F>(x, y)) }
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng(); let lde = c.u("l").max(1); let out = 1usize << c.u("o"); let rows = c.u("n").max(2);
    let wk = worker(2); let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
    let (mut p, mut w) = system::<F>(&Gen { rows, regs: 1 + r.below(4) as usize, densities: 1 + r.below(3) as usize, maxdeg: c.n("d").max(1) }, &mut r);
    match c.n("e") { 1 => p.constraints.clear(), 2 => p.boundary_constraints.clear(), 3 => { p.constraints.clear(); p.boundary_constraints.clear(); } _ => () }
    let o = Inst::new(p.clone());
    if o.gn * lde > 1024 || o.gk + log2_ceil(lde) > F::S || !o.coset_def() || o.n < out || lde * out < 2 || lde > cpus { return Ok(false); }
    // a trace that does not satisfy the system
    let bad = c.n("b") == 1; if bad { let (i, j) = (r.below(w.len() as u64) as usize, r.below(rows as u64) as usize); w[i][j] = add(w[i][j], F::one()); if w[i].iter().all(|x| x.is_zero()) { return Ok(false); } }
    let pr = Prov::<F>::new(p.clone(), lde, out).map_err(|e| format!("no prover for {} rows, degree {}: {}", rows, o.deg, e))?;
    let v = Verif::<F>::new(p.clone(), lde).map_err(|e| format!("no verifier for {} rows, degree {}: {}", rows, o.deg, e))?;
    let pf = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.prove(w.clone()))).map_err(|_| format!("the prover panicked on {} rows, degree {}", rows, o.deg))?;
    let want = prove(&o, &w, &Opt { lde, out, cheat: 0 }, &mut r, &wk)?;
    let (pf, want) = match (pf, want) { (Ok(a), Some(b)) => (a, b), (Err(_), None) => return Ok(true), (Err(e), Some(_)) => return Err(format!("no proof for {} rows, degree {}: {}", rows, o.deg, e)), (Ok(_), None) => return Err("a proof was made although the drawn point hits a denominator".into()) };
    ensure!(pf.f_iop_roots == want.f_iop_roots, "roots of the trace oracles differ"); ensure!(pf.g_iop_root == want.g_iop_root, "root of the composition oracle differs");
    same(&pf.f_at_z_m, &want.f_at_z_m, "values at the masked out-of-domain points")?;
    ensure!(pf.h1_iop_roots == want.h1_iop_roots && pf.fri_proof_h1.roots == want.fri_proof_h1.roots, "H1's oracles differ"); ensure!(pf.h2_iop_roots == want.h2_iop_roots && pf.fri_proof_h2.roots == want.fri_proof_h2.roots, "H2's oracles differ");
    for (a, b, n) in [(&pf.fri_proof_h1, &want.fri_proof_h1, "H1"), (&pf.fri_proof_h2, &want.fri_proof_h2, "H2")].iter() {
        same(&a.final_coefficients, &b.final_coefficients, &format!("final coefficients of {}", n))?; ensure!(same_q::<F>(&a.queries, &b.queries), "FRI queries of {} differ", n);
        ensure!((a.initial_degree_plus_one, a.output_coeffs_at_degree_plus_one, a.lde_factor) == (b.initial_degree_plus_one, b.output_coeffs_at_degree_plus_one, b.lde_factor), "FRI parameters of {} differ", n); }
    ensure!(same_q::<F>(&pf.f_queries, &want.f_queries), "trace openings differ"); ensure!(show_q::<F>(&pf.g_query, &want.g_query), "composition opening differs");
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.verify(&pf))).map_err(|_| "the verifier panicked on the prover's proof".to_string())?;
    let acc = match &ok { Ok(b) => *b, Err(_) => false };
    ensure!(acc == accepts(&o, &pf, lde), "the verifier and its definition disagree on the prover's proof");
    if !bad { ensure!(acc, "the prover's proof for a satisfying trace of {} rows (degree {}, blow-up {}, {} final coefficients) is not accepted: {:?}", rows, o.deg, lde, out, ok.map_err(|e| e.to_string())); }
    Ok(true)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for e in 0..4 { for n in [2, 3, 4, 5, 6, 8, 9].iter() { for d in 1..5 { for l in [2, 4, 8].iter() { fixed.push(format!("f={},n={},d={},l={},o={},e={},b=0", ["252", "b192", "b128", "b64"][(e + n + d) as usize % 4], n, d, l, (n + l) % 3 / 2, e)); } } } }
    for s in 0..60 { fixed.push(format!("f={},n={},d={},l={},o={},e=0,b={},s={}", ["252", "b255", "257", "65537"][s % 4], 2 + s % 7, 1 + s % 3, [2, 4, 8][s % 3], s % 2, s % 5 / 4, s)); }
    main_loop(fixed, &|r| format!("f={},n={},d={},l={},o={},e={},b={},s={}", r.pick(&ALLF), 2 + r.below(15), 1 + r.below(5), r.pick(&[1, 2, 2, 4, 4, 8, 16]), r.below(3), r.below(6), r.below(5) / 4, r.next()), &run)
}
