use harness::*;
use hodor::polynomials::*;
use hodor::utils::poly as up;
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32; let k2 = (c.n("k2") as u32).min(k);
    let (n, n2) = (1usize << k, 1usize << k2);
    let mut r = c.rng();
    let a = felts::<F>(&mut r, n); let b = felts::<F>(&mut r, n2); let s = felt::<F>(&mut r);
    let p = c.u("p").max(1);
    let wk = worker(p);
    let op = c.s("o");
    let at = |i: usize| if i < n2 { b[i] } else { F::zero() };
    let cpl = CPoly::<F>::from_coeffs(b.clone()).expect("from_coeffs");
    let mut cp = CPoly::<F>::from_coeffs(a.clone()).expect("from_coeffs");
    let mut vp = VPoly::<F>::from_values(a.clone()).expect("from_values");
    let vpl = VPoly::<F>::from_values(felts::<F>(&mut r, n)).expect("from_values");
    let q = vpl.as_ref().to_vec();
    let map = |f: &dyn Fn(usize) -> F| -> Vec<F> { (0..n).map(|i| f(i)).collect() };
    macro_rules! chk { ($p:expr, $want:expr) => {{ let w: Vec<F> = $want; consts_ok(&$p, k, op)?; same($p.as_ref(), &w, op)?; }} }
    match op {
        "cadd" => { cp.add_assign(&wk, &cpl); chk!(cp, map(&|i| add(a[i], at(i)))); consts_ok(&cpl, k2, "other")?; same(cpl.as_ref(), &b, "other operand")?; }
        "cadds" => { cp.add_assign_scaled(&wk, &cpl, &s); chk!(cp, map(&|i| add(a[i], mul(at(i), s)))); }
        "csub" => { cp.sub_assign(&wk, &cpl); chk!(cp, map(&|i| sub(a[i], at(i)))); }
        "cneg" => { cp.negate(&wk); chk!(cp, map(&|i| neg(a[i]))); }
        "cscale" => { cp.scale(&wk, s); chk!(cp, map(&|i| mul(a[i], s))); }
        "vneg" => { vp.negate(&wk); chk!(vp, map(&|i| neg(a[i]))); }
        "vscale" => { vp.scale(&wk, s); chk!(vp, map(&|i| mul(a[i], s))); }
        "vadd" => { vp.add_assign(&wk, &vpl); chk!(vp, map(&|i| add(a[i], q[i]))); }
        "vadds" => { vp.add_assign_scaled(&wk, &vpl, &s); chk!(vp, map(&|i| add(a[i], mul(q[i], s)))); }
        "vsub" => { vp.sub_assign(&wk, &vpl); chk!(vp, map(&|i| sub(a[i], q[i]))); }
        "vmul" => { vp.mul_assign(&wk, &vpl); chk!(vp, map(&|i| mul(a[i], q[i]))); }
        "vconst" => { vp.add_constant(&wk, &s); chk!(vp, map(&|i| add(a[i], s))); }
        "vsq" => { vp.square(&wk); chk!(vp, map(&|i| mul(a[i], a[i]))); }
        "vpow" => { let e = c.n("e"); vp.pow(&wk, e); chk!(vp, map(&|i| pw(a[i], e as u128))); }
        "ev" => { let got = cp.evaluate_at(&wk, s); ensure!(got == peval(&a, s), "evaluate_at gives {} instead of {}", got, peval(&a, s)); chk!(cp, a.clone()); }
        "dp" => { vp.distribute_powers(&wk, s); chk!(vp, map(&|i| mul(a[i], pw(s, i as u128)))); }
        "ums" | "uma" | "uev" => {
            // these build their own worker from the number of usable cpus; lengths need not be powers of two
            cpu_affinity(p.min(8));
            let len = c.u("n"); let x = felts::<F>(&mut r, len); let y = felts::<F>(&mut r, len); let t = felt::<F>(&mut r);
            match op {
                "ums" => { let mut g = x.clone(); up::mul_polynomial_by_scalar(&mut g, s); let w: Vec<F> = x.iter().map(|v| mul(*v, s)).collect(); same(&g, &w, op)?; }
                "uma" => { let mut g = x.clone(); up::mul_add_polynomials(&mut g, &y, s); let w: Vec<F> = x.iter().zip(y.iter()).map(|(v, u)| add(*v, mul(*u, s))).collect(); same(&g, &w, op)?; }
                _ => { let g = up::evaluate_at_consequitive_powers(&x, t, s); let w = mul(t, peval(&x, s)); ensure!(g == w, "evaluate_at_consequitive_powers gives {} instead of {}", g, w); }
            }
            return Ok(len > 1);
        }
        x => return Err(format!("unknown operation {}", x)),
    }
    Ok(true)
}
fn run(c: &Case) -> Res { by_field!(c, go) }
const OPS: [&str; 19] = ["cadd", "cadds", "csub", "cneg", "cscale", "vneg", "vscale", "vadd", "vadds", "vsub", "vmul", "vconst", "vsq", "vpow", "ev", "dp", "ums", "uma", "uev"];
fn main() {
    let mut fixed = vec![];
    for o in &OPS { for k in 0..=5 { for p in &[1, 2, 3, 5, 8] { fixed.push(format!("f=257,o={},k={},k2={},p={},e={},n={}", o, k, k, p, k * 7, k * 3 + 1)); if o.starts_with("c") { fixed.push(format!("f=257,o={},k={},k2={},p={}", o, k, k / 2, p)); } } } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let s = s_of(f).min(8) as u64; let k = r.below(s + 1);
        let u = r.below(12) == 0;
        let o = if u { *r.pick(&OPS[16..]) } else { *r.pick(&OPS[..16]) };
        format!("f={},o={},k={},k2={},p={},e={},n={},s={}", f, o, k, r.below(k + 1), r.pick(&CPUS), if r.below(3) == 0 { r.next() } else { r.below(20) }, r.below(70), r.below(100000))
    }, &run);
}
