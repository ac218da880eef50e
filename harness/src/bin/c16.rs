//! both FRI provers against folding done here; layers, commitments, challenges, roots and final coefficients
use harness::*;
use hodor::iop::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::fri::*;
type T<F> = TrivialBlake2sIOP<F>;
fn chal<F: PrimeField>(root: &[u8; 32]) -> F {
    let l = digest_limbs::<F>(root);
    let mut a = F::zero(); let mut base = F::one(); let mut two64 = F::one(); for _ in 0..64 { two64.double(); }
    for x in l.iter() { let mut v = fu::<F>(*x >> 32); for _ in 0..32 { v.double(); } v.add_assign(&fu::<F>(*x & 0xffff_ffff)); a.add_assign(&mul(v, base)); base.mul_assign(&two64); }
    a
}
fn idft<F: PrimeField>(v: &[F], k: u32) -> Vec<F> { let n = 1u64 << k; let x = dft(v, inv(root::<F>(k))); let m = inv(pw(fu::<F>(2), k as u128)); let _ = n; x.iter().map(|a| mul(*a, m)).collect() }
/// the coset a worker with `ch` cosets per chunk starts for coset c (listed finding: chunk number instead of first coset)
fn kix(c: usize, ch: usize) -> usize { c / ch + c % ch }
fn lde<F: PrimeField>(c: &[F], k: u32, f: usize, ch: usize) -> Vec<F> {
    let w = root::<F>(k);
    (0..1usize << k).map(|i| { let e = i - i % f + kix(i % f, ch); peval(c, pw(w, e as u128)) }).collect()
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.u("k") as u32; let lf = 1usize << c.u("l"); let out = 1usize << c.u("o"); let n = 1usize << k;
    if k > F::S || lf * out < 2 || lf * out > n { return Ok(false); }
    let mut r = c.rng();
    let deg = n / lf; let s = (0..).find(|i| out << i == deg).unwrap();
    let w = worker(c.u("w").max(1));
    let cf: Vec<F> = if c.s("d") == "any" { felts(&mut r, n) } else { felts(&mut r, deg) };
    let leaf = lde(&cf, k, 1, 1);
    let poly = VPoly::<F>::from_values(leaf.clone()).map_err(|e| format!("from_values: {}", e))?;
    let byc = c.s("m") == "c"; let mut known = false;
    let p = if byc { NaiveFriIop::<F, T<F>>::proof_from_lde_through_coefficients(poly.clone(), lf, out, &w) }
        else if c.s("m") == "t" { NaiveFriIop::<F, T<F>>::proof_from_lde(&poly, lf, out, &w) }
        else { NaiveFriIop::<F, T<F>>::proof_from_lde_by_values(&poly, lf, out, &w) }.map_err(|e| format!("prover: {}", e))?;
    ensure!(poly.as_ref() == &leaf[..], "the prover changed the values it was given");
    ensure!(p.initial_degree_plus_one == deg && p.lde_factor == lf && p.output_coeffs_at_degree_plus_one == out, "parameters recorded as {}/{}/{}", p.initial_degree_plus_one, p.lde_factor, p.output_coeffs_at_degree_plus_one);
    ensure!(p.intermediate_values.len() == s && p.intermediate_commitments.len() == s && p.challenges.len() == s, "{} layers, {} commitments, {} challenges instead of {}", p.intermediate_values.len(), p.intermediate_commitments.len(), p.challenges.len(), s);
    let mut cur = leaf.clone(); let mut pol: Vec<F> = cf.iter().take(deg).cloned().collect();
    let mut rt = T::<F>::create(&leaf).get_root();
    ensure!(p.l0_commitment.get_root() == rt, "l0 commitment is not the commitment to the values");
    for t in 0..s {
        let ch: F = chal(&rt);
        ensure!(p.challenges[t] == ch, "challenge {} is {} instead of {}", t, p.challenges[t], ch);
        let kk = k - t as u32 - 1; let h = 1usize << kk;
        let np: Vec<F> = pol.chunks(2).map(|q| add(q[0], mul(ch, *q.get(1).unwrap_or(&F::zero())))).collect();
        let next: Vec<F> = if byc { lde(&np, kk, 1, 1) } else {
            let wi = inv(root::<F>(kk + 1)); let ti = inv(fu::<F>(2));
            (0..h).map(|j| { let (a, b) = (cur[j], cur[j + h]); mul(add(add(a, b), mul(mul(sub(a, b), pw(wi, j as u128)), ch)), ti) }).collect() };
        if c.s("d") != "any" { ensure!(next == lde(&np, kk, 1, 1), "oracle: fold of values and of coefficients differ in round {}", t); }
        let got = p.intermediate_values[t].as_ref();
        consts_ok(&p.intermediate_values[t], kk, "layer")?;
        if got != &next[..] {
            let per = lf / c.u("w").max(1);
            if byc && per >= 2 && got == &lde(&np, kk, lf, per)[..] { known = true; } else { same(got, &next, &format!("layer {}", t + 1))?; }
        }
        cur = got.to_vec(); pol = np;
        let iop = T::<F>::create(got); rt = iop.get_root();
        ensure!(p.intermediate_commitments[t].get_root() == rt, "commitment {} is not the one of its layer", t);
        let ix = r.below(h as u64) as usize; if h >= 2 { let q = p.intermediate_commitments[t].query(ix, got); ensure!(T::<F>::verify_query(&q, &rt), "commitment {} does not open at {}", t, ix); }
    }
    ensure!(p.final_root == rt && p.get_final_root() == rt, "final root is not the root of the last layer");
    let fin: Vec<F> = if byc { pol } else { idft(&cur, k - s as u32)[..out].to_vec() };
    same(&p.final_coefficients, &fin, "final coefficients")?;
    ensure!(p.get_final_coefficients() == fin, "get_final_coefficients differs");
    let roots = p.get_roots();
    ensure!(roots.len() == s + 1 && roots[0] == p.l0_commitment.get_root(), "get_roots: {} roots", roots.len());
    for t in 0..s { ensure!(roots[t + 1] == p.intermediate_commitments[t].get_root(), "get_roots: root {}", t + 1); }
    if known { return Err("KNOWN:C16-multi-coset-layers:proof_from_lde_through_coefficients commits to layers that are not the folded polynomial's values when a worker gets more than one coset (same cause as C05-multi-coset-chunk-start)".into()); }
    Ok(s > 0)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in ["17", "97", "257", "12289", "65537", "252"].iter() { for k in 1..7 { for l in 0..4 { for o in 0..4 { for m in ["v", "c"].iter() {
        if l + o <= k && l + o >= 1 { fixed.push(format!("f={},k={},l={},o={},m={},w={},d=low", f, k, l, o, m, [1, 2, 8, 3, 16][(k + l + o) % 5])); } } } } } }
    for f in ["257", "252"].iter() { for m in ["v", "c", "t"].iter() { for w in CPUS.iter() { for d in ["low", "any"].iter() { fixed.push(format!("f={},k=6,l=2,o=1,m={},w={},d={}", f, m, w, d)); fixed.push(format!("f={},k=7,l=4,o=0,m={},w={},d={}", f, m, w, d)); } } } }
    main_loop(fixed, &|r| { let k = 1 + r.below(9); let l = r.below(6); let o = r.below(5); format!("f={},k={},l={},o={},m={},w={},d={},s={}", r.pick(&ALLF), k, l, o, r.pick(&["v", "v", "t", "c"]), r.pick(&CPUS), r.pick(&["low", "low", "any"]), r.below(1 << 40)) }, &run);
}
