use harness::*;
use hodor::domains::Domain;
fn one<F: PrimeField>(c: &Case) -> Res {
    let n = c.n("n");
    let want: Option<u128> = { let mut s = 1u128; let mut k = 0u32; while s < n as u128 { s <<= 1; k += 1; } if k <= F::S && k < 64 { Some(s) } else { None } };
    match (Domain::<F>::new_for_size(n), want) {
        (Err(_), None) => Ok(true),
        (Err(_), Some(s)) => Err(format!("size {} refused although the 2-adicity {} admits a domain of size {}", n, F::S, s)),
        (Ok(d), None) => Err(format!("size {} accepted (domain of size {}) beyond 2^{}", n, d.size, F::S)),
        (Ok(d), Some(s)) => {
            ensure!(d.size as u128 == s, "size {} instead of {} for request {}", d.size, s, n);
            ensure!(d.power_of_two < 64 && 1u128 << d.power_of_two == s, "exponent {} does not match size {}", d.power_of_two, s);
            ensure!(pw(d.generator, s) == F::one(), "generator^{} != 1", s);
            if s > 1 { ensure!(pw(d.generator, s / 2) == neg(F::one()), "generator has order smaller than {}", s); }
            ensure!(d.generator == root::<F>(d.power_of_two as u32), "generator is not the canonical power of the 2^S root");
            Ok(s > 1)
        }
    }
}
fn run(c: &Case) -> Res { by_field!(c, one) }
fn main() {
    let fs = ["17", "97", "257", "12289", "65537", "252"];
    let mut fixed = vec![];
    for f in &fs {
        for k in 0..64u32 { for d in &[-1i64, 0, 1] { let n = (1u64 << k).wrapping_add(*d as u64); fixed.push(format!("f={},n={}", f, n)); } }
        for n in 0..70u64 { fixed.push(format!("f={},n={}", f, n)); }
        fixed.push(format!("f={},n={}", f, u64::max_value()));
    }
    main_loop(fixed, &|r| { let k = r.below(64); let n = r.next() >> k; format!("f={},n={}", r.pick(&fs), n) }, &run);
}
