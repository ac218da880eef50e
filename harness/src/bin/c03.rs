use harness::*;
/// a primitive 2^k root: an odd power of the standard one
fn prim<F: PrimeField>(k: u32, e: u64) -> F { pw(root::<F>(k), (2 * e + 1) as u128) }
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32;
    let n = 1usize << k;
    let mut r = c.rng();
    let w = prim::<F>(k, c.n("e"));
    let mut a = felts::<F>(&mut r, n);
    let alg = c.s("a");
    let nz = if alg.starts_with("dit") { c.u("z").max(1).min(n) } else { n };
    for v in a.iter_mut().skip(nz) { *v = F::zero(); }
    let want = dft(&a, w);
    let p = c.u("p").max(1);
    let wk = worker(p);
    let lc = wk.log_num_cpus();
    let mut got = a.clone();
    match alg {
        "serial" => vh::serial_fft(&mut got, &w, k),
        "par" => vh::parallel_fft(&mut got, &wk, &w, k, (c.n("l") as u32).min(k)),
        "best" => vh::best_fft(&mut got, &wk, &w, k, if c.s("h") == "" { None } else { Some({ let mut h = c.u("h").max(1); while h > p { h /= 2; } h }) }),
        "r4s" => vh::radix4_serial_fft(&mut got, &w, k),
        "r4p" => vh::radix4_parallel_fft(&mut got, &wk, &w, k, c.n("l") as u32),
        "r4b" => vh::radix4_best_fft(&mut got, &wk, &w, k),
        "dits" => vh::dit_serial_fft(&mut got, &w, k, nz),
        "ditp" => vh::dit_parallel_fft(&mut got, &wk, &w, k, (c.n("l") as u32).min(k), nz),
        "ditb" => vh::dit_best_fft(&mut got, &wk, &w, k, nz),
        "poly" => {
            let pl = CPoly::<F>::from_coeffs(a.clone()).map_err(|e| format!("from_coeffs: {}", e))?;
            let v = pl.fft(&wk);
            consts_ok(&v, k, "fft")?;
            same(v.as_ref(), &dft(&a, root::<F>(k)), "Polynomial::fft")?;
            return Ok(k > 0);
        }
        x => return Err(format!("unknown algorithm {}", x)),
    }
    let _ = lc;
    same(&got, &want, alg)?;
    Ok(k > 0)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in &["257", "252"] { let s = s_of(f).min(8); for k in 0..=s {
        fixed.push(format!("f={},a=serial,k={}", f, k));
        for p in &[1usize, 2, 3, 4, 8] { for a in &["best", "poly", "ditb"] { fixed.push(format!("f={},a={},k={},p={}", f, a, k, p)); fixed.push(format!("f={},a={},k={},p={},e=1,z=3", f, a, k, p)); } }
        for l in 0..=k.min(3) { fixed.push(format!("f={},a=par,k={},p=2,l={}", f, k, l)); fixed.push(format!("f={},a=ditp,k={},p=2,l={},z={}", f, k, l, (1 << k) - 1)); }
        fixed.push(format!("f={},a=dits,k={},z={}", f, k, 1 << k));
        if k % 2 == 0 { fixed.push(format!("f={},a=r4s,k={}", f, k)); for p in &[1usize, 2, 3, 4, 8] { fixed.push(format!("f={},a=r4b,k={},p={},e=2", f, k, p)); }
            for l in &[0u32, 2] { if l <= &k { fixed.push(format!("f={},a=r4p,k={},p=4,l={}", f, k, l)); } } }
        for h in &[1usize, 2, 4, 8] { fixed.push(format!("f={},a=best,k={},p=4,h={}", f, k, h)); }
    } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let s = s_of(f).min(if r.below(6) == 0 { 11 } else { 7 });
        let mut k = r.below(s as u64 + 1);
        let a = *r.pick(&["serial", "par", "best", "r4s", "r4p", "r4b", "dits", "ditp", "ditb", "poly"]);
        let mut l = r.below(5).min(k);
        if a.starts_with("r4") { k &= !1; l = (l & !1).min(k); }
        let h = if r.below(2) == 0 { String::new() } else { format!(",h={}", 1 << r.below(5)) };
        format!("f={},a={},k={},p={},l={},e={},z={}{},s={}", f, a, k, r.pick(&CPUS), l, r.below(9), 1 + r.below(1 << k), h, r.below(100000))
    }, &run);
}
