use harness::*;
use hodor::polynomials::*;
fn np2(n: usize) -> Option<u32> { let mut k = 0; while k < 64 && (1u128 << k) < n as u128 { k += 1; } if k < 64 { Some(k) } else { None } }
fn snap<F: PrimeField, P: PolynomialForm>(p: &Polynomial<F, P>) -> (Vec<F>, u32, F, F, F, F) { (p.as_ref().to_vec(), p.exp, p.omega, p.omegainv, p.geninv, p.minv) }
fn form<F: PrimeField, P: PolynomialForm>(c: &Case, mk: &dyn Fn(Vec<F>) -> Result<Polynomial<F, P>, hodor::SynthesisError>, nw: &dyn Fn(usize) -> Result<Polynomial<F, P>, hodor::SynthesisError>) -> Res {
    let n = c.u("n");
    let mut r = c.rng();
    match c.s("o") {
        "new" => {
            let want = np2(n);
            let ok = want.map(|k| k <= F::S).unwrap_or(false);
            if ok && want.unwrap() > 20 { return Ok(false); }
            if !ok && n > (1 << 24) { return Ok(false); }
            match nw(n) { Ok(p) => { ensure!(ok, "size {} accepted", n); consts_ok(&p, want.unwrap(), "new_for_size")?; ensure!(p.as_ref().iter().all(|x| x.is_zero()), "not zero"); }, Err(_) => ensure!(!ok, "size {} refused", n) }
        }
        "from" => {
            let v: Vec<F> = (0..n).map(|_| felt(&mut r)).collect();
            let want = np2(n);
            let ok = want.map(|k| k <= F::S).unwrap_or(false);
            match mk(v.clone()) {
                Ok(p) => { ensure!(ok, "{} entries accepted", n); consts_ok(&p, want.unwrap(), "construction")?; let mut w = v.clone(); w.resize(1 << want.unwrap(), F::zero()); same(p.as_ref(), &w, "construction")?; same(&p.clone().into_coeffs(), &w, "into_coeffs")?; }
                Err(_) => ensure!(!ok, "{} entries refused", n),
            }
        }
        o => {
            let k = c.n("k") as u32; let size = 1usize << k;
            let v: Vec<F> = (0..size).map(|_| felt(&mut r)).collect();
            let mut p = mk(v.clone()).map_err(|e| format!("construction: {}", e))?;
            let mut m = p.as_mut(); let _ = &mut m;
            let t = c.u("t");
            let before = snap(&p);
            if o == "trim" {
                match p.trim_to_degree(t) { Ok(()) => {} Err(e) => return Err(format!("trim refused: {}", e)) }
                let w: Vec<F> = v.iter().enumerate().map(|(i, x)| if i <= t { *x } else { F::zero() }).collect();
                consts_ok(&p, k, "trim")?; same(p.as_ref(), &w, "trim")?;
            } else {
                let target: u128 = if o == "padf" { size as u128 * t as u128 } else { t as u128 };
                let adm = t != 0 && target.is_power_of_two() && (o == "padf" || target >= size as u128) && (F::S >= 100 || target <= (1u128 << F::S.min(100)));
                if adm && target > (1 << 22) { return Ok(false); }
                // padding to the size it already has is a no-op or a refusal, see below
                let got = if o == "padf" { p.pad_by_factor(t) } else { p.pad_to_size(t) };
                match got {
                    Ok(()) => { ensure!(adm, "{} {} accepted for size {}", o, t, size); let nk = target.trailing_zeros(); consts_ok(&p, nk, o)?; let mut w = v.clone(); w.resize(target as usize, F::zero()); same(p.as_ref(), &w, o)?; }
                    Err(_) => { ensure!(!adm, "{} {} refused for size {}", o, t, size); ensure!(snap(&p) == before, "a refused {} {} changed the polynomial", o, t); }
                }
            }
        }
    }
    Ok(true)
}
fn go<F: PrimeField>(c: &Case) -> Res {
    if c.s("v") == "1" { form::<F, Values>(c, &|v| VPoly::from_values(v), &|n| VPoly::<F>::new_for_size(n)) } else { form::<F, Coefficients>(c, &|v| CPoly::from_coeffs(v), &|n| CPoly::<F>::new_for_size(n)) }
}
fn run(c: &Case) -> Res { by_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for v in 0..2 { for f in &["17", "257"] {
        for n in 0..40 { fixed.push(format!("f={},v={},o=from,n={}", f, v, n)); fixed.push(format!("f={},v={},o=new,n={}", f, v, n)); }
        for n in &[255usize, 256, 257, 500, 600] { fixed.push(format!("f={},v={},o=from,n={}", f, v, n)); fixed.push(format!("f={},v={},o=new,n={}", f, v, n)); }
        for k in 0..5 { for t in (0..34u64).chain(vec![64, 128, 256, 512, 1 << 32, 1 << 60, 1 << 62, 1 << 63, !0, (1 << 63) + 1].into_iter()) { for o in &["trim", "padf", "pads"] { fixed.push(format!("f={},v={},o={},k={},t={}", f, v, o, k, t)); } } }
    } }
    main_loop(fixed, &|r| {
        let f = *r.pick(&FIELDS); let v = r.below(2);
        match r.below(5) {
            0 => format!("f={},v={},o=from,n={},s={}", f, v, r.below(1000), r.below(1000)),
            1 => { let sh = r.below(64); format!("f={},v={},o=new,n={}", f, v, if r.below(2) == 0 { r.below(2000) } else { r.next() >> sh }) }
            _ => { let s = s_of(f).min(7) as u64; let t = match r.below(4) { 0 => r.below(600), 1 => 1 << r.below(64), 2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1), _ => { let sh = r.below(64); r.next() >> sh } };
                format!("f={},v={},o={},k={},t={},s={}", f, v, r.pick(&["trim", "padf", "pads"]), r.below(s + 1), t, r.below(1000)) }
        }
    }, &run);
}
