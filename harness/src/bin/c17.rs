//! FRI proofs: honest ones verify, and any (tampered, forged, malformed) proof is accepted exactly when a verifier written here accepts it
use harness::*;
use hodor::iop::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::fri::*;
type T<F> = TrivialBlake2sIOP<F>;
type N<F> = NaiveFriIop<F, T<F>>;
type P<F> = FRIProof<F, T<F>>;
type PP<F> = FRIProofPrototype<F, T<F>>;
fn chal<F: PrimeField>(root: &[u8; 32]) -> F {
    let l = digest_limbs::<F>(root);
    let mut a = F::zero(); let mut base = F::one(); let mut two64 = F::one(); for _ in 0..64 { two64.double(); }
    for x in l.iter() { let mut v = fu::<F>(*x >> 32); for _ in 0..32 { v.double(); } v.add_assign(&fu::<F>(*x & 0xffff_ffff)); a.add_assign(&mul(v, base)); base.mul_assign(&two64); }
    a
}
fn ffold<F: PrimeField>(a: F, b: F, ch: F, x: F) -> F { mul(add(add(a, b), mul(mul(sub(a, b), inv(x)), ch)), inv(fu::<F>(2))) }
/// the verifier's acceptance condition
fn accepts<F: PrimeField>(p: &P<F>, idx: usize, v: F) -> bool {
    let n = p.initial_degree_plus_one as u128 * p.lde_factor as u128;
    if n > 1 << 62 { return false; }
    let mut k = 0; while (1u128 << k) < n { k += 1; }
    if k > F::S || idx as u128 >= 1u128 << k || idx % 2 == 0 { return false; }
    let rounds = p.roots.len();
    if rounds == 0 || rounds > k as usize || p.queries.len() != 2 * rounds { return false; }
    if p.final_coefficients.len() != p.output_coeffs_at_degree_plus_one || (p.output_coeffs_at_degree_plus_one as u128) << (rounds - 1) != p.initial_degree_plus_one as u128 { return false; }
    let mut want = v;
    for r in 0..rounds {
        let kk = k - r as u32; let m = 1usize << kk; let h = m / 2; let i = idx % m; let lo = i % h;
        let (a, b) = (&p.queries[2 * r], &p.queries[2 * r + 1]);
        if a.natural_index() != lo || b.natural_index() != lo + h || a.path().len() != kk as usize || b.path().len() != kk as usize { return false; }
        if !T::<F>::verify_query(a, &p.roots[r]) || !T::<F>::verify_query(b, &p.roots[r]) { return false; }
        let val = if i < h { a.value() } else { b.value() };
        if val != want { return false; }
        let w = root::<F>(kk);
        if r + 1 == rounds { return peval(&p.final_coefficients, pw(w, i as u128)) == val; }
        want = ffold(a.value(), b.value(), chal(&p.roots[r]), pw(w, lo as u128));
    }
    unreachable!()
}
fn same_verdict<F: PrimeField>(p: &P<F>, idx: usize, v: F, what: &str) -> Result<bool, String> {
    let want = accepts(p, idx, v);
    let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| N::<F>::verify_proof(p, idx, v))) { Ok(r) => r, Err(_) => return Err(format!("{}: the verifier panicked (index {})", what, idx)) };
    let ok = match &got { Ok(b) => *b, Err(_) => false };
    ensure!(ok == want, "{}: verify_proof returned {:?} for index {}, {} expected", what, got.map_err(|e| e.to_string()), idx, if want { "acceptance" } else { "no acceptance" });
    Ok(want)
}
/// commitments to arbitrary layers, with the queries and roots an (honest or not) prover would send
fn proof_of<F: PrimeField>(layers: &[Vec<F>], fin: &[F], idx: usize, deg: usize, out: usize, lf: usize) -> P<F> {
    let mut queries = vec![]; let mut roots = vec![]; let mut i = idx;
    for l in layers.iter() {
        let h = l.len() / 2; i %= l.len(); let iop = T::<F>::create(l);
        queries.push(iop.query(i % h, l)); queries.push(iop.query(i % h + h, l)); roots.push(iop.get_root());
    }
    FRIProof { queries, roots, final_coefficients: fin.to_vec(), initial_degree_plus_one: deg, output_coeffs_at_degree_plus_one: out, lde_factor: lf }
}
fn fold_layer<F: PrimeField>(l: &[F]) -> Vec<F> {
    let h = l.len() / 2; let k = l.len().trailing_zeros(); let w = root::<F>(k); let ch: F = chal(&T::<F>::create(l).get_root());
    (0..h).map(|j| ffold(l[j], l[j + h], ch, pw(w, j as u128))).collect()
}
fn idft<F: PrimeField>(v: &[F]) -> Vec<F> { let k = v.len().trailing_zeros(); let x = dft(v, inv(root::<F>(k))); let m = inv(pw(fu::<F>(2), k as u128)); x.iter().map(|a| mul(*a, m)).collect() }
fn clone_proof<F: PrimeField>(p: &P<F>) -> P<F> { FRIProof { queries: p.queries.clone(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(), initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor } }
/// prototype verifier's condition
fn pl_accepts<F: PrimeField>(p: &PP<F>, leaf: &[F], idx: usize) -> bool {
    if idx % 2 == 0 { return false; }
    let k = leaf.len().trailing_zeros(); let mut want: Option<F> = None; let mut kk = k;
    for r in 0..p.challenges.len() {
        let l = if r == 0 { leaf } else { p.intermediate_values[r - 1].as_ref() };
        kk = k - r as u32; let m = 1usize << kk; let h = m / 2; let i = idx % m;
        if let Some(v) = want { if l[i] != v { return false; } }
        want = Some(ffold(l[i % h], l[i % h + h], p.challenges[r], pw(root::<F>(kk), (i % h) as u128)));
    }
    kk -= 1;
    want == Some(peval(&p.final_coefficients, pw(root::<F>(kk), (idx % (1 << kk)) as u128)))
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.u("k") as u32; let lf = 1usize << c.u("l"); let out = 1usize << c.u("o"); let n = 1usize << k;
    if k > F::S || lf * out < 2 || lf * out > n { return Ok(false); }
    let mut r = c.rng();
    let deg = n / lf; let s = (0..).find(|i| out << i == deg).unwrap();
    let w = worker(1 + r.below(4) as usize);
    let cf: Vec<F> = felts(&mut r, deg); let leaf: Vec<F> = (0..n).map(|i| peval(&cf, pw(root::<F>(k), i as u128))).collect();
    let poly = VPoly::<F>::from_values(leaf.clone()).map_err(|e| format!("{}", e))?;
    let proto = || N::<F>::proof_from_lde(&poly, lf, out, &w).map_err(|e| format!("prover: {}", e));
    let idx = (r.below(n as u64 / 2) * 2 + 1) as usize;
    if c.s("t") == "proto" {
        if s == 0 { return Ok(false); }
        let mut p = proto()?;
        ensure!(N::<F>::verify_prototype(&p, &poly, idx).map_err(|e| e.to_string()) == Ok(true), "the honest prototype is not accepted at index {}", idx);
        let mut lv = leaf.clone();
        for _ in 0..1 + r.below(3) { match r.below(5) {
            0 => { let t = r.below(s as u64) as usize; p.challenges[t] = felt(&mut r); }
            1 => { let t = r.below(s as u64) as usize; let l = p.intermediate_values[t].as_mut(); let h = l.len() as u64; let j = if r.below(2) == 0 { idx % l.len() } else { r.below(h) as usize }; l[j] = felt(&mut r); }
            2 => { let t = r.below(p.final_coefficients.len() as u64) as usize; p.final_coefficients[t] = felt(&mut r); }
            3 => { let h = n / 2; lv[(idx + h * r.below(2) as usize) % n] = felt(&mut r); }
            _ => { p.final_coefficients.push(felt(&mut r)); } } }
        let lp = VPoly::<F>::from_values(lv.clone()).map_err(|e| format!("{}", e))?;
        for i in [idx, idx ^ 2 & (n - 1), (idx + 1) % n].iter() {
            let want = pl_accepts(&p, &lv, *i); let got = N::<F>::verify_prototype(&p, &lp, *i);
            let ok = match &got { Ok(b) => *b, _ => false };
            ensure!(ok == want, "verify_prototype returned {:?} for index {} of a changed prototype, {} expected", got.map_err(|e| e.to_string()), i, want);
        }
        return Ok(true);
    }
    if c.s("t") == "honest" {
        for i in 0..n + 3 {
            let p = proto()?; 
            if i < n && i % 2 == 1 {
                if s >= 1 { ensure!(N::<F>::verify_prototype(&p, &poly, i).map_err(|e| e.to_string()) == Ok(true), "the honest prototype is not accepted at index {}", i); }
                let q = N::<F>::prototype_into_proof(p, &poly, i).map_err(|e| format!("into proof: {}", e))?;
                ensure!(q.get_final_coefficients() == &q.final_coefficients[..], "get_final_coefficients differs");
                ensure!(N::<F>::verify_proof(&q, i, leaf[i]).map_err(|e| e.to_string()) == Ok(true), "the honest proof is not accepted at index {}", i);
                ensure!(accepts(&q, i, leaf[i]), "oracle: honest proof not accepted at index {}", i);
                same_verdict(&q, i, add(leaf[i], F::one()), "wrong expected value")?;
                same_verdict(&q, (i + 2) % n, leaf[(i + 2) % n], "other index")?;
                same_verdict(&q, i ^ 1, leaf[i ^ 1], "even index")?;
                same_verdict(&q, i + n, leaf[i], "index outside of the domain")?;
            } else if i < n { let q = N::<F>::prototype_into_proof(p, &poly, i).map_err(|e| format!("into proof: {}", e))?; same_verdict(&q, i, leaf[i], "even index")?; }
        }
        return Ok(true);
    }
    if c.s("t") == "forge" {
        // layers that fold correctly except at a few places, with an arbitrary number of them
        let rounds = 1 + r.below(k as u64) as usize;
        let mut layers = vec![if r.below(2) == 0 { leaf.clone() } else { felts(&mut r, n) }];
        for t in 1..rounds { let mut l = fold_layer(&layers[t - 1]); for _ in 0..r.below(3) { let j = if r.below(3) == 0 { idx % l.len() } else { r.below(l.len() as u64) as usize }; l[j] = felt(&mut r); } layers.push(l); }
        let last = layers.last().unwrap().clone(); let mut fin = idft(&last); 
        while fin.len() > 1 && *fin.last().unwrap() == F::zero() && r.below(4) != 0 { fin.pop(); }
        match r.below(5) { 0 => { let j = r.below(fin.len() as u64) as usize; fin[j] = felt(&mut r); } 1 => { fin.pop(); } 2 => { let x = last[idx % last.len()]; fin = vec![x]; } _ => () }
        let (d2, o2) = match r.below(4) { 0 => (deg, out), 1 => (fin.len() << (rounds - 1), fin.len()), 2 => (deg, fin.len()), _ => (n, fin.len()) };
        let l2 = if d2 > 0 && n % d2 == 0 { n / d2 } else { *r.pick(&[1, 2, lf]) };
        let q = proof_of(&layers, &fin, idx, d2, o2, l2);
        let a = same_verdict(&q, idx, layers[0][idx], "forged layers")?;
        same_verdict(&q, idx, leaf[idx], "forged layers, original value")?;
        return Ok(a || rounds > 1);
    }
    // tampering with an honest proof
    let mut q = N::<F>::prototype_into_proof(proto()?, &poly, idx).map_err(|e| format!("into proof: {}", e))?;
    let q0 = clone_proof(&q); let (mut i, mut v) = (idx, leaf[idx]); let mut what = String::new();
    for _ in 0..1 + r.below(2) {
        let m = r.below(16); what.push_str(&format!("mutation {} ", m));
        let nr = q.roots.len(); let nq = q.queries.len();
        match m {
            0 if nr > 0 => { let t = r.below(nr as u64) as usize; let b = r.below(32) as usize; q.roots[t][b] ^= 1 << r.below(8); }
            1 if nr > 0 => { let t = r.below(nr as u64) as usize; q.roots.remove(t); }
            2 if nr > 0 => { let t = r.below(nr as u64) as usize; let x = q.roots[t]; q.roots.insert(t, x); }
            3 if nq > 0 => { let t = r.below(nq as u64) as usize; q.queries.remove(t); }
            4 if nq > 1 => { let t = r.below(nq as u64 - 1) as usize; q.queries.swap(t, t + 1); }
            5 if nq > 1 => { let t = r.below(nq as u64 / 2) as usize; let x = q.queries[2 * t].clone(); if r.below(2) == 0 { q.queries[2 * t + 1] = x; } else { q.queries[2 * t] = q.queries[2 * t + 1].clone(); } }
            6 if nr > 0 && nq == 2 * nr => { q.queries.truncate(nq - 2); q.roots.truncate(nr - 1); }
            7 if nr > 0 && nq >= 2 => { let a = q.queries[nq - 2].clone(); let b = q.queries[nq - 1].clone(); q.queries.push(a); q.queries.push(b); let x = q.roots[nr - 1]; q.roots.push(x); }
            8 if !q.final_coefficients.is_empty() => { let t = r.below(q.final_coefficients.len() as u64) as usize; q.final_coefficients[t] = felt(&mut r); }
            9 => { if r.below(2) == 0 { q.final_coefficients.pop(); } else { q.final_coefficients.push(if r.below(2) == 0 { F::zero() } else { felt(&mut r) }); } }
            10 => { q.initial_degree_plus_one = *r.pick(&[0, 1, deg / 2, deg * 2, deg + 1, n, usize::max_value(), 1 << 63]); }
            11 => { q.lde_factor = *r.pick(&[0, 1, lf / 2, lf * 2, lf + 1, n, usize::max_value(), 1 << 40]); }
            12 => { q.output_coeffs_at_degree_plus_one = *r.pick(&[0, 1, out / 2, out * 2, out + 1, n, usize::max_value()]); }
            13 => { i = match r.below(5) { 0 => i + n, 1 => r.below(n as u64) as usize, 2 => usize::max_value(), 3 => i ^ 2, _ => (i + n / 2) % n }; }
            14 => { v = if r.below(2) == 0 { felt(&mut r) } else { leaf[(idx + n / 2) % n] }; }
            15 if nr > 0 && nq == 2 * nr && nr <= k as usize => {
                // a query for a changed value, or over a tree of another size
                let t = r.below(nr as u64) as usize; let m = 1usize << (k as usize - t); let h = m / 2; let lo = (idx % m) % h; let hi = r.below(2) as usize;
                let mut l: Vec<F> = if t == 0 { leaf.clone() } else { felts(&mut r, m) };
                if r.below(2) == 0 { l[lo + hi * h] = felt(&mut r); } else { let e = l.clone(); l.extend(e); }
                q.queries[2 * t + hi] = T::<F>::create(&l).query(lo + hi * h, &l);
                if r.below(2) == 0 { q.roots[t] = T::<F>::create(&l).get_root(); }
            }
            _ => ()
        }
    }
    same_verdict(&q, i, v, &what)?;
    same_verdict(&q0, idx, leaf[idx], "the proof before tampering")?;
    Ok(true)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in ["17", "97", "257", "12289", "65537", "252"].iter() { for k in 1..6 { for l in 0..4 { for o in 0..4 { if l + o <= k && l + o >= 1 {
        fixed.push(format!("f={},k={},l={},o={},t=honest", f, k, l, o));
        for t in ["tamper", "proto", "forge"].iter() { for s in 0..4 { fixed.push(format!("f={},k={},l={},o={},t={},s={}", f, k, l, o, t, s)); } }
    } } } } }
    main_loop(fixed, &|r| { let l = r.below(4); let o = r.below(4); let k = (l + o).max(1) + r.below(4); format!("f={},k={},l={},o={},t={},s={}", r.pick(&ALLF), k, l, o, r.pick(&["tamper", "tamper", "tamper", "forge", "forge", "proto", "honest"]), r.below(1 << 40)) }, &run);
}
