use harness::*;
use hodor::domains::Domain;
use hodor::precomputations::PrecomputedOmegas;
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32; let n = 1usize << k;
    let mut d = Domain::<F>::new_for_size(n as u64).map_err(|e| format!("domain: {}", e))?;
    d.generator = pw(root::<F>(k), (2 * c.n("e") + 1) as u128);
    let w = d.generator;
    let t = PrecomputedOmegas::new_for_domain(&d, &worker(c.u("p").max(1)));
    let powers = |s: F, w: F, n: usize| -> Vec<F> { let mut x = s; (0..n).map(|_| { let v = x; x.mul_assign(&w); v }).collect() };
    same(&t.omegas, &powers(F::one(), w, n), "omegas")?;
    same(&t.coset, &powers(F::multiplicative_generator(), w, n), "coset")?;
    same(&t.omegas_inv, &powers(F::one(), inv(w), n / 2), "omegas_inv")?;
    Ok(k > 1)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in &["17", "257", "252"] { for k in 0..=s_of(f).min(8) { for p in &[1, 2, 3, 5, 7, 8, 16] { fixed.push(format!("f={},k={},p={},e=0", f, k, p)); } } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); format!("f={},k={},p={},e={}", f, r.below(s_of(f).min(12) as u64 + 1), r.pick(&CPUS), r.below(50)) }, &run);
}
