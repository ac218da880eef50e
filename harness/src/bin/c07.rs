use harness::*;
use hodor::polynomials::*;
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32; let n = 1usize << k;
    let mut r = c.rng();
    let mut a: Vec<F> = (0..n).map(|_| { let mut v = felt::<F>(&mut r); while v.is_zero() { v = felt::<F>(&mut r); } v }).collect();
    let z = c.u("z");            // number of zeros
    if c.s("zp") != "" { a[c.u("zp") % n] = F::zero(); }
    for _ in 0..z { let i = r.below(n as u64) as usize; a[i] = F::zero(); }
    let has = a.iter().any(|x| x.is_zero());
    let wk = worker(c.u("p").max(1));
    let mut p = VPoly::<F>::from_values(a.clone()).expect("from_values");
    match p.batch_inversion(&wk) {
        Ok(()) => {
            ensure!(!has, "succeeded although a value is zero: {}", show(&a));
            consts_ok(&p, k, "batch_inversion")?;
            for i in 0..n { ensure!(mul(a[i], p.as_ref()[i]) == F::one(), "entry {} is {}, not the inverse of {} ({} workers)", i, p.as_ref()[i], a[i], c.s("p")); }
        }
        Err(_) => { ensure!(has, "failed although no value is zero: {}", show(&a)); consts_ok(&p, k, "failed batch_inversion")?; same(p.as_ref(), &a, "values after a failed batch inversion")?; }
    }
    Ok(n > 1)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for k in 0..=5u32 { for p in &[1, 2, 3, 5, 6, 7, 8] { fixed.push(format!("f=257,k={},p={}", k, p)); for zp in 0..(1u32 << k) { fixed.push(format!("f=257,k={},p={},zp={}", k, p, zp)); } } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let s = s_of(f).min(8) as u64; let k = r.below(s + 1);
        format!("f={},k={},p={},z={},s={}", f, k, r.pick(&CPUS), if r.below(2) == 0 { 0 } else { r.below(5) }, r.below(100000))
    }, &run);
}
