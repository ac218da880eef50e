//! the stand-alone verifier against the one written in stark.rs: honest proofs, proofs of provers that cheat at one step, and proofs changed afterwards
use harness::*; use harness::stark::*;
use hodor::iop::*;
fn verdict<F: PrimeField>(v: &Verif<F>, o: &Inst<F>, q: &Proof<F>, lde: usize, what: &str) -> Result<bool, String> {
    let want = accepts(o, q, lde);
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.verify(q))) { Ok(r) => r, Err(_) => return Err(format!("{}: the verifier panicked", what)) };
    let ok = match &got { Ok(b) => *b, Err(_) => false };
    ensure!(ok == want, "{}: verify returned {:?}, {} expected", what, got.map_err(|e| e.to_string()), if want { "acceptance" } else { "no acceptance" });
    Ok(want)
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng(); let lde = c.u("l").max(1); let out = 1usize << c.u("o"); let rows = c.u("n").max(2);
    let g = Gen { rows, regs: 1 + r.below(3) as usize, densities: 1 + r.below(2) as usize, maxdeg: c.n("d").max(1) };
    let (mut p, w) = system::<F>(&g, &mut r);
    let cheat = c.n("c");
    if empty_instance(cheat) || c.n("e") == 1 { p.constraints.clear(); p.boundary_constraints.clear(); }
    let o = Inst::new(p.clone());
    if o.gn * lde > 512 || o.gk + log2_ceil(lde) > F::S { return Ok(false); }
    let v = Verif::<F>::new(p, lde).map_err(|e| format!("no verifier for {} rows, degree {}: {}", rows, o.deg, e))?;
    let wk = worker(1 + r.below(3) as usize);
    let pf = match prove(&o, &w, &Opt { lde: lde.next_power_of_two(), out, cheat }, &mut r, &wk)? { Some(p) => p, None => return Ok(false) };
    let a = verdict(&v, &o, &pf, lde, if cheat == 0 { "honest proof".to_string() } else { format!("prover cheating at step {}", cheat) }.as_str())?;
    if cheat == 0 && lde.is_power_of_two() { ensure!(a, "oracle: the honest proof is not accepted"); }
    for _ in 0..c.n("m") {
        let mut q = clone_proof(&pf); let mut what = String::new();
        for _ in 0..1 + r.below(2) { what.push_str(&tamper(&mut q, &mut r, o.n * lde)); }
        verdict(&v, &o, &q, lde, &what)?;
    }
    Ok(true)
}
fn flip<F: PrimeField>(v: &mut Vec<[u8; 32]>, r: &mut Rng) { let _ = F::zero(); let n = v.len() as u64; match r.below(5) {
    0 => { v.pop(); } 1 => { v.push([r.below(256) as u8; 32]); } 2 => { v.clear(); } 3 if n > 1 => { let i = r.below(n - 1) as usize; v.swap(i, i + 1); }
    _ if n > 0 => { let i = r.below(n) as usize; v[i][r.below(32) as usize] ^= 1 << r.below(8); } _ => () } }
fn vals<F: PrimeField>(v: &mut Vec<F>, r: &mut Rng) { let n = v.len() as u64; match r.below(5) { 0 => { v.pop(); } 1 => { v.push(felt(r)); } 2 => { v.clear(); } _ if n > 0 => { let i = r.below(n) as usize; v[i] = felt(r); } _ => () } }
type Q<F> = <Iop<F> as IOP<F>>::Query;
fn qs<F: PrimeField>(v: &mut Vec<Q<F>>, r: &mut Rng, n: usize) { let l = v.len() as u64; match r.below(6) { 0 => { v.pop(); } 1 if l > 0 => { let x = v[r.below(l) as usize].clone(); v.push(x); } 2 => { v.clear(); } 3 if l > 1 => { let i = r.below(l - 1) as usize; v.swap(i, i + 1); }
    _ if l > 0 => { let i = r.below(l) as usize; v[i] = other(&v[i], r, n); } _ => () } }
/// a query for another value, another index, or with a path of another length
fn other<F: PrimeField>(q: &Q<F>, r: &mut Rng, n: usize) -> Q<F> {
    let k = match r.below(4) { 0 => n * 2, 1 => (n / 2).max(2), 2 => 2, _ => n.max(2) }.next_power_of_two();
    let l: Vec<F> = felts(r, k); let i = if r.below(2) == 0 { q.natural_index() % k } else { r.below(k as u64) as usize };
    Iop::<F>::create(&l).query(i, &l)
}
fn fri<F: PrimeField>(p: &mut Fp<F>, r: &mut Rng, n: usize) -> &'static str {
    let big = [0, 1, 2, 3, n / 2, n, n * 2, n + 1, 1 << 40, 1 << 63, usize::max_value()];
    match r.below(6) {
        0 => { flip::<F>(&mut p.roots, r); "roots" } 1 => { qs(&mut p.queries, r, n); "queries" } 2 => { vals(&mut p.final_coefficients, r); "final coefficients" }
        3 => { p.initial_degree_plus_one = match r.below(3) { 0 => p.initial_degree_plus_one * 2, 1 => p.initial_degree_plus_one / 2, _ => *r.pick(&big) }; "degree" }
        4 => { p.lde_factor = match r.below(3) { 0 => p.lde_factor * 2, 1 => p.lde_factor / 2, _ => *r.pick(&big) }; "blow-up factor" }
        _ => { p.output_coeffs_at_degree_plus_one = *r.pick(&big); "number of output coefficients" }
    }
}
fn tamper<F: PrimeField>(q: &mut Proof<F>, r: &mut Rng, n: usize) -> String {
    match r.below(14) {
        0 => { vals(&mut q.f_at_z_m, r); "f(Mz) changed ".into() }
        1 => { flip::<F>(&mut q.f_iop_roots, r); "trace roots changed ".into() }
        2 => { q.g_iop_root[r.below(32) as usize] ^= 1 << r.below(8); "composition root changed ".into() }
        3 => { qs(&mut q.f_queries, r, n); "trace queries changed ".into() }
        4 => { let x = other(&q.g_query, r, n); q.g_query = x; "composition query changed ".into() }
        5 => { flip::<F>(&mut q.h1_iop_roots, r); "H1 roots changed ".into() }
        6 => { flip::<F>(&mut q.h2_iop_roots, r); "H2 roots changed ".into() }
        7 => { let i = r.below(q.h1_iop_roots.len().max(1) as u64) as usize; if i < q.h1_iop_roots.len() { q.h1_iop_roots[i][3] ^= 1; } "one H1 root changed ".into() }
        8 => { let i = r.below(q.h2_iop_roots.len().max(1) as u64) as usize; if i < q.h2_iop_roots.len() { q.h2_iop_roots[i][3] ^= 1; } "one H2 root changed ".into() }
        9 => { std::mem::swap(&mut q.fri_proof_h1, &mut q.fri_proof_h2); "FRI proofs swapped ".into() }
        10 | 11 => format!("H1's FRI proof: {} changed ", fri(&mut q.fri_proof_h1, r, n)),
        12 => format!("H2's FRI proof: {} changed ", fri(&mut q.fri_proof_h2, r, n)),
        _ => { let (a, b) = (q.fri_proof_h1.roots.pop(), q.h1_iop_roots.pop()); if r.below(2) == 0 { q.fri_proof_h1.roots.clear(); q.h1_iop_roots.clear(); } let _ = (a, b); "last H1 roots removed ".into() }
    }
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for c in 0..CHEATS { for n in [2, 3, 4, 6, 8].iter() { for d in 1..4 { for l in [2, 4].iter() { fixed.push(format!("f={},n={},d={},l={},o={},c={},m=2", ["252", "b192", "b128"][(c + n + d) as usize % 3], n, d, l, c % 2, c)); } } } }
    for s in 0..60 { fixed.push(format!("f={},n=4,d=2,l={},o={},c=0,m=30,s={}", ["252", "b127", "257", "65537"][s % 4], [2, 4, 8][s % 3], s % 2, s)); }
    for l in [1, 3, 5, 6].iter() { for s in 0..6 { fixed.push(format!("f=252,n=4,d=2,l={},o=1,c=0,m=10,s={}", l, s)); } }
    main_loop(fixed, &|r| format!("f={},n={},d={},l={},o={},c={},m={},e={},s={}", r.pick(&ALLF), 2 + r.below(9), 1 + r.below(4), r.pick(&[1, 2, 2, 4, 4, 8, 16, 3]), r.below(3), if r.below(2) == 0 { 0 } else { r.below(CHEATS) }, 1 + r.below(8), r.below(8), r.below(1 << 40)), &run);
}
