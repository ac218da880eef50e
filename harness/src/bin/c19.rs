//! query index derivation: range, exact formula, dependence on the last eight bytes only
use harness::*;
use hodor::fri::*; use hodor::iop::blake2s_trivial_iop::*; use hodor::transcript::*; use hodor::verifier::Verifier; use hodor::arp::PerRegisterARP;
type V<F> = Verifier<F, Blake2sTranscript<F>, TrivialBlake2sIOP<F>, FRIProofPrototype<F, TrivialBlake2sIOP<F>>, FRIProof<F, TrivialBlake2sIOP<F>>, NaiveFriIop<F, TrivialBlake2sIOP<F>>, PerRegisterARP>;
fn idx(b: &[u8], n: usize, f: usize) -> usize { V::<F257>::bytes_to_challenge_index(b, n, f) }
fn run(c: &Case) -> Res {
    let mut r = c.rng();
    let (n, f) = (c.u("n"), c.u("k"));
    let mut b = rand_bytes(&mut r, c.u("l").max(8));
    let l = b.len();
    if c.s("v") != "" { b[l - 8..].copy_from_slice(&c.n("v").to_be_bytes()); }
    let got = idx(&b, n, f);
    ensure!(got < n, "index {} is outside the domain of size {} (bytes {:?}, blow-up {})", got, n, b, f);
    if n % 2 == 0 { ensure!(got % 2 == 1, "index {} of an even domain {} is even (bytes {:?}, blow-up {})", got, n, b, f);
        if f % 2 == 0 { ensure!(got % f != 0, "index {} lies on the unblown domain (size {}, blow-up {})", got, n, f); } }
    let mut x: u128 = 0; for y in &b[l - 8..] { x = x * 256 + *y as u128; }
    let m = n as u128; let mut x = x % m;
    if x % f as u128 == 0 { x = (x + 1) % m; }
    if x % 2 == 0 { x = (x + 1) % m; }
    ensure!(got as u128 == x, "index {} instead of {} (bytes {:?}, size {}, blow-up {})", got, x, b, n, f);
    // no other byte matters
    let mut o = rand_bytes(&mut r, l); o[l - 8..].copy_from_slice(&b[l - 8..]);
    ensure!(idx(&o, n, f) == got && idx(&b[l - 8..], n, f) == got, "index depends on more than the last eight bytes");
    Ok(n > 1)
}
fn main() {
    let mut fixed = vec![];
    for k in [1usize, 2, 3, 4, 8, 16] { for n in [1usize, 2, 3, 4, 5, 8, 16, 64, 1000, 1 << 20, 1 << 32, 1 << 62, usize::MAX - 1] { for v in [0u64, 1, 2, 3, 7, 8, n as u64 - 1, n as u64, n as u64 + 1, u64::MAX, u64::MAX - 1, 1 << 63, (n as u64).wrapping_sub(2)] { fixed.push(format!("n={},k={},l=32,v={}", n, k, v)); } } }
    // every index of small domains
    for n in [2usize, 4, 8, 16, 32] { for k in [1usize, 2, 4, 8, 16] { for v in 0..n { fixed.push(format!("n={},k={},l=32,v={}", n, k, v)); } } }
    main_loop(fixed, &|r: &mut Rng| { let e = r.below(63); let n = if r.below(3) == 0 { 1 + r.below(1 << 40) } else { 1u64 << e }; format!("n={},k={},l={},i={}", n, 1u64 << r.below(7), 8 + r.below(60), r.next()) }, &run);
}
