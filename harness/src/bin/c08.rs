use harness::*;
use hodor::polynomials::*;
use hodor::utils::poly::interpolate;
fn distinct<F: PrimeField>(r: &mut Rng, n: usize) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    let mut tries = 0;
    while v.len() < n && tries < 100000 { let x = felt::<F>(r); tries += 1; if !v.contains(&x) { v.push(x); } }
    v
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let n = c.u("n");
    let mut r = c.rng();
    if c.s("op") == "i" {
        let xs = distinct::<F>(&mut r, n);
        if xs.len() < 2 { return Ok(false); }
        let pts: Vec<(F, F)> = xs.iter().map(|x| (*x, felt::<F>(&mut r))).collect();
        let p = match interpolate(&pts[..]) { Some(p) => p, None => return Err(format!("interpolate returned None for {} points with distinct abscissas {}", pts.len(), show(&xs))) };
        ensure!(p.len() == pts.len(), "{} coefficients for {} points", p.len(), pts.len());
        for (x, y) in pts.iter() { ensure!(peval(&p, *x) == *y, "interpolant takes {} at {} instead of {} (abscissas {})", peval(&p, *x), x, y, show(&xs)); }
        return Ok(true);
    }
    let roots: Vec<F> = match c.s("d") {
        "0" => vec![F::zero(); n],
        "r" => { let x = felt::<F>(&mut r); vec![x; n] }
        _ => felts(&mut r, n),
    };
    let mut want = vec![F::one()];
    for x in roots.iter() { let mut nw = vec![F::zero(); want.len() + 1]; for (i, a) in want.iter().enumerate() { nw[i + 1].add_assign(a); nw[i].sub_assign(&mul(*a, *x)); } want = nw; }
    let size = (n + 1).next_power_of_two(); let k = size.trailing_zeros();
    match CPoly::<F>::from_roots(roots.clone(), &worker(c.u("p").max(1))) {
        Ok(p) => {
            ensure!(k <= F::S, "from_roots succeeded without a domain of size 2^{}", k);
            consts_ok(&p, k, "from_roots")?;
            want.resize(size, F::zero());
            same(p.as_ref(), &want, &format!("from_roots of {} roots {}", n, show(&roots)))?;
        }
        Err(_) => { ensure!(k > F::S, "from_roots of {} roots failed although a domain of size 2^{} exists", n, k); }
    }
    Ok(n > 1)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for n in 1..=40u32 { for p in &CPUS { fixed.push(format!("op=r,f=257,n={},p={}", n, p)); } }
    for n in 1..=18u32 { for p in &[1, 2, 8] { for d in &["0", "r", "x"] { fixed.push(format!("op=r,f=17,n={},p={},d={}", n, p, d)); } } }
    for n in 2..=17u32 { for f in &["17", "97", "252"] { fixed.push(format!("op=i,f={},n={}", f, n)); } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS);
        if r.below(2) == 0 { format!("op=i,f={},n={},s={}", f, 2 + r.below(20), r.below(100000)) }
        else { let m = *r.pick(&[10u64, 40, 140, 300]); format!("op=r,f={},n={},p={},d={},s={}", f, 1 + r.below(m), r.pick(&CPUS), r.pick(&["0", "r", "x", "x", "x"]), r.below(100000)) }
    }, &run);
}
