use harness::*;
use hodor::polynomials::*;
fn coset_vals<F: PrimeField>(a: &[F], g: F, k: u32) -> Vec<F> {
    let w = root::<F>(k); let mut x = g;
    a.iter().map(|_| { let v = peval(a, x); x.mul_assign(&w); v }).collect()
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32;
    let n = 1usize << k;
    let mut r = c.rng();
    let a = felts::<F>(&mut r, n);
    let wk = worker(c.u("p").max(1));
    let mg = F::multiplicative_generator();
    let mut g = felt::<F>(&mut r);
    if g.is_zero() { g = mg; }
    if c.n("g") > 0 { g = fu::<F>(c.n("g")); if g.is_zero() { g = F::one(); } }
    let cp = || CPoly::<F>::from_coeffs(a.clone()).expect("from_coeffs");
    let vp = || VPoly::<F>::from_values(a.clone()).expect("from_values");
    match c.s("m") {
        "ev" => {
            let v = cp().fft(&wk); consts_ok(&v, k, "fft")?; same(v.as_ref(), &dft(&a, root::<F>(k)), "fft")?;
            let b = v.ifft(&wk); consts_ok(&b, k, "ifft")?; same(b.as_ref(), &a, "ifft(fft)")?;
        }
        "in" => {
            let p = vp().ifft(&wk); consts_ok(&p, k, "ifft")?; same(&dft(p.as_ref(), root::<F>(k)), &a, "values of ifft")?;
            let b = p.fft(&wk); consts_ok(&b, k, "fft")?; same(b.as_ref(), &a, "fft(ifft)")?;
        }
        "cev" => {
            let v = cp().coset_fft(&wk); consts_ok(&v, k, "coset_fft")?; same(v.as_ref(), &coset_vals(&a, mg, k), "coset_fft")?;
            let b = v.icoset_fft(&wk); consts_ok(&b, k, "icoset_fft")?; same(b.as_ref(), &a, "icoset_fft(coset_fft)")?;
        }
        "cin" => {
            let p = vp().icoset_fft(&wk); consts_ok(&p, k, "icoset_fft")?; same(&coset_vals(p.as_ref(), mg, k), &a, "values of icoset_fft")?;
            let b = p.coset_fft(&wk); consts_ok(&b, k, "coset_fft")?; same(b.as_ref(), &a, "coset_fft(icoset_fft)")?;
        }
        "gev" => {
            let v = cp().coset_fft_for_generator(&wk, g); consts_ok(&v, k, "coset_fft_for_generator")?; same(v.as_ref(), &coset_vals(&a, g, k), "coset_fft_for_generator")?;
            let b = v.icoset_fft_for_generator(&wk, inv(g)); consts_ok(&b, k, "icoset_fft_for_generator")?; same(b.as_ref(), &a, "icoset(coset)")?;
        }
        "gin" => {
            let p = vp().icoset_fft_for_generator(&wk, inv(g)); consts_ok(&p, k, "icoset_fft_for_generator")?; same(&coset_vals(p.as_ref(), g, k), &a, "values of icoset_fft_for_generator")?;
            let b = p.coset_fft_for_generator(&wk, g); consts_ok(&b, k, "coset_fft_for_generator")?; same(b.as_ref(), &a, "coset(icoset)")?;
        }
        "dp" => {
            let mut b = a.clone(); vh::distribute_powers(&mut b, &wk, g);
            let want: Vec<F> = a.iter().enumerate().map(|(i, x)| mul(*x, pw(g, i as u128))).collect();
            same(&b, &want, "distribute_powers")?;
            let mut q = cp(); q.distribute_powers(&wk, g); consts_ok(&q, k, "Polynomial::distribute_powers")?; same(q.as_ref(), &want, "Polynomial::distribute_powers")?;
        }
        x => return Err(format!("unknown mode {}", x)),
    }
    Ok(k > 0)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in &["257", "252", "17"] { for m in &["ev", "in", "cev", "cin", "gev", "gin", "dp"] { for k in 0..=s_of(f).min(6) { for p in &[1, 3, 4, 8] { fixed.push(format!("f={},m={},k={},p={}", f, m, k, p)); } } } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let s = s_of(f).min(if r.below(6) == 0 { 10 } else { 7 });
        format!("f={},m={},k={},p={},g={},s={}", f, r.pick(&["ev", "in", "cev", "cin", "gev", "gin", "dp"]), r.below(s as u64 + 1), r.pick(&CPUS), if r.below(3) == 0 { r.below(12) } else { 0 }, r.below(100000))
    }, &run);
}
