use harness::*;
use hodor::polynomials::*;
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32; let lf = c.n("lf") as u32;
    let n = 1usize << k; let fac = 1usize << lf; let m = n << lf;
    let mut r = c.rng();
    let a = felts::<F>(&mut r, n);
    let wk = worker(c.u("p").max(1));
    let w = root::<F>(k + lf);
    let mg = F::multiplicative_generator();
    let alg = c.s("a");
    let start = if alg.starts_with("c") || alg == "d1c" { mg } else { F::one() };
    let mut x = start; let mut want = Vec::with_capacity(m);
    for _ in 0..m { want.push(peval(&a, x)); x.mul_assign(&w); }
    let p = CPoly::<F>::from_coeffs(a.clone()).expect("from_coeffs");
    let res = match alg {
        "lde" => p.lde(&wk, fac), "clde" => p.coset_lde(&wk, fac),
        "fil" => p.filtering_lde(&wk, fac), "cfil" => p.coset_filtering_lde(&wk, fac),
        "mc" => p.lde_using_multiple_cosets(&wk, fac), "cmc" => p.coset_lde_using_multiple_cosets(&wk, fac),
        "mcn" => p.lde_using_multiple_cosets_naive(&wk, fac), "cmcn" => p.coset_lde_using_multiple_cosets_naive(&wk, fac),
        "d1" | "d1c" => {
            // a degree-one polynomial evaluated on a domain of size m
            let p1 = CPoly::<F>::from_coeffs(felts::<F>(&mut r, 2)).expect("two coefficients");
            let cs = p1.as_ref().to_vec();
            let got = if alg == "d1" { p1.evaluate_at_domain_for_degree_one(&wk, m as u64) } else { p1.coset_evaluate_at_domain_for_degree_one(&wk, m as u64) };
            let got = got.map_err(|e| format!("refused: {}", e))?;
            consts_ok(&got, k + lf, alg)?;
            let mut x = start; let mut want = vec![]; for _ in 0..m { want.push(peval(&cs, x)); x.mul_assign(&w); }
            same(got.as_ref(), &want, alg)?;
            return Ok(true);
        }
        "s" | "par" | "best" => {
            let mut b = a.clone(); b.resize(m, F::zero());
            match alg { "s" => vh::serial_lde(&mut b, &w, k + lf, fac), "par" => vh::parallel_lde(&mut b, &wk, &w, k + lf, (c.n("l") as u32).min(k + lf), fac), _ => vh::best_lde(&mut b, &wk, &w, k + lf, fac) }
            same(&b, &want, alg)?;
            return Ok(k > 0 && lf > 0);
        }
        y => return Err(format!("unknown algorithm {}", y)),
    };
    let got = match res { Ok(g) => g, Err(e) => return Err(format!("{} refused a fitting blow-up: {}", alg, e)) };
    consts_ok(&got, k + lf, alg)?;
    let cpus = c.u("p").max(1);
    let ch = if fac < cpus { 1 } else { fac / cpus };
    if ch > 1 && got.as_ref() != &want[..] && ["lde", "mc"].contains(&alg) {
        // listed finding: the i-th worker's cosets are started at coset i instead of coset i*ch. Anything else is a new violation.
        let bad = |i: usize| { let c = i % fac; i - c + c / ch + c % ch };
        if (0..m).all(|i| got.as_ref()[i] == want[i] || got.as_ref()[i] == want[bad(i)]) {
            return Err(format!("KNOWN:C05-multi-coset-chunk-start:multi-coset LDE with factor {} on {} workers starts the cosets of worker i at coset i instead of i*{} ({})", fac, cpus, ch, alg));
        }
    }
    same(got.as_ref(), &want, alg)?;
    Ok(k > 0 && lf > 0)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
const ALGS: [&str; 13] = ["lde", "clde", "fil", "cfil", "mc", "cmc", "mcn", "cmcn", "d1", "d1c", "s", "par", "best"];
fn main() {
    let mut fixed = vec![];
    for f in &["257", "17"] { for a in &ALGS { for k in 0..=s_of(f).min(5) { for lf in 0..=(s_of(f) - k).min(5) { for p in &[1, 3, 8] {
        if (a == &"s" || a == &"par" || a == &"best") && *p == 3 { continue; }
        if a.starts_with("d1") && k + lf == 0 { continue; }
        fixed.push(format!("f={},a={},k={},lf={},p={}{}", f, a, k, lf, p, if a == &"par" { ",l=1" } else { "" })); } } } } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let s = s_of(f).min(if r.below(6) == 0 { 11 } else { 8 }) as u64;
        let k = r.below(s + 1).min(6); let lf = r.below(s - k + 1);
        let a = *r.pick(&ALGS);
        let (k, lf) = if a.starts_with("d1") && k + lf == 0 { (1, 0) } else { (k, lf) };
        format!("f={},a={},k={},lf={},p={},l={},s={}", f, a, k, lf, r.pick(&CPUS), r.below(4), r.below(100000))
    }, &run);
}
