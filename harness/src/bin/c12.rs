//! histories of absorptions and challenges; the oracle is relational (no knowledge of the hash is needed)
use harness::*;
use hodor::transcript::*;
fn be<F: PrimeField>(x: &F) -> Vec<u8> { let mut v = vec![]; for l in limbs(x).iter().rev() { v.extend_from_slice(&l.to_be_bytes()); } v }
#[derive(Clone)]
enum Op<F> { B(Vec<u8>), E(F), C, CF }
fn apply<F: PrimeField>(t: &mut Blake2sTranscript<F>, op: &Op<F>) -> Option<Vec<u64>> {
    match op {
        Op::B(b) => { t.commit_bytes(b); None }
        Op::E(x) => { t.commit_field_element(x); None }
        Op::C => Some(t.get_challenge_bytes().iter().map(|x| *x as u64).collect()),
        Op::CF => Some(limbs(&t.get_challenge())),
    }
}
/// a fresh transcript that absorbed exactly `s`, cut at arbitrary places
fn fresh<F: PrimeField>(s: &[u8], r: &mut Rng) -> Blake2sTranscript<F> {
    let mut t = Blake2sTranscript::<F>::new();
    let mut i = 0;
    while i < s.len() { let n = (1 + r.below(70) as usize).min(s.len() - i); t.commit_bytes(&s[i..i + n]); i += n; if r.below(4) == 0 { t.commit_bytes(&[]); } }
    t
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let n = c.u("n");
    let mut t = Blake2sTranscript::<F>::new();
    let mut sofar: Vec<u8> = vec![];
    let mut outs: Vec<Vec<u8>> = vec![];
    let mut chals = 0;
    for step in 0..n {
        let op: Op<F> = match r.below(6) { 0 => Op::B({ let l = r.below(80) as usize; rand_bytes(&mut r, l) }), 1 => Op::B({ let l = *r.pick(&[0, 1, 31, 32, 33, 63, 64, 65, 128]); rand_bytes(&mut r, l) }), 2 | 3 => Op::E(felt(&mut r)), 4 => Op::C, _ => Op::CF };
        // a clone must behave like the original and leave it alone
        let mut cl = t.clone();
        let before = t.clone().get_challenge_bytes();
        let _ = cl.get_challenge_bytes(); cl.commit_bytes(&[7]); let _ = cl.get_challenge();
        ensure!(t.clone().get_challenge_bytes() == before, "step {}: using a clone changed the original", step);
        // the challenge is a function of the bytes so far
        ensure!(fresh::<F>(&sofar, &mut r).get_challenge_bytes() == before, "step {}: the challenge is not the one of a transcript that absorbed the same {} bytes", step, sofar.len());
        // ... and of every one of them
        if !sofar.is_empty() {
            let mut o = sofar.clone(); let k = r.below(o.len() as u64) as usize; o[k] ^= 1 << r.below(8);
            ensure!(fresh::<F>(&o, &mut r).get_challenge_bytes() != before, "step {}: changing absorbed byte {} of {} does not change the challenge", step, k, sofar.len());
            let o = sofar[..sofar.len() - 1].to_vec();
            ensure!(fresh::<F>(&o, &mut r).get_challenge_bytes() != before, "step {}: dropping the last absorbed byte does not change the challenge", step);
            let o = sofar[1..].to_vec();
            ensure!(fresh::<F>(&o, &mut r).get_challenge_bytes() != before, "step {}: dropping the first absorbed byte does not change the challenge", step);
        }
        let mut o = sofar.clone(); o.push(0);
        ensure!(fresh::<F>(&o, &mut r).get_challenge_bytes() != before, "step {}: absorbing a zero byte does not change the challenge", step);
        let got = apply(&mut t, &op);
        match &op {
            Op::B(b) => sofar.extend_from_slice(b),
            Op::E(x) => sofar.extend_from_slice(&be(x)),
            Op::C => { ensure!(got == Some(before.iter().map(|x| *x as u64).collect()), "step {}: get_challenge_bytes of equal states differ", step); sofar.extend_from_slice(&before); chals += 1; outs.push(before); }
            Op::CF => { ensure!(got == Some(digest_limbs::<F>(&before)), "step {}: the field challenge is not the one the state's digest stands for", step); sofar.extend_from_slice(&before); chals += 1; outs.push(before); }
        }
    }
    let last = t.get_challenge_bytes();
    ensure!(fresh::<F>(&sofar, &mut r).get_challenge_bytes() == last, "the final challenge is not the one of a transcript that absorbed the same {} bytes", sofar.len());
    outs.push(last);
    for i in 0..outs.len() { for j in 0..i { ensure!(outs[i] != outs[j], "challenges {} and {} are equal", j, i); } }
    Ok(chals > 0)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in ALLF.iter() { for n in 0..14 { for s in 0..3 { fixed.push(format!("f={},n={},s={}", f, n, s)); } } }
    main_loop(fixed, &|r| format!("f={},n={},s={}", r.pick(&ALLF), 1 + r.below(24), r.below(1 << 40)), &run);
}
