use harness::*;
use hodor::iop::*;
use hodor::iop::blake2s_trivial_iop::*;
use hodor::transcript::*;
fn check<F: PrimeField>(got: F, d: &[u8], what: &str) -> Result<(), String> {
    let want = digest_limbs::<F>(d);
    ensure!(limbs(&got) == want, "{}: digest {:?} became {:?}, its low {} bits are {:?}", what, d, limbs(&got), F::CAPACITY, want);
    Ok(())
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let mut d = [0u8; 32];
    match c.s("d") {
        "ones" => d = [0xff; 32],
        "zero" => {}
        "bit" => { let b = c.u("b") % 256; d[b / 8] = 1 << (b % 8); }
        "clear" => { d = [0xff; 32]; let b = c.u("b") % 256; d[b / 8] &= !(1 << (b % 8)); }
        _ => { d.copy_from_slice(&rand_bytes(&mut r, 32)); if r.below(2) == 0 { for x in d.iter_mut().take(r.below(32) as usize) { *x = 0xff; } } }
    }
    // root -> challenge, through every entry point
    check::<F>(<Blake2sLeafEncoder<F> as HashEncoder<F>>::interpret_hash(&d), &d, "interpret_hash")?;
    check::<F>(<Blake2sIopTree<F> as IopTree<F>>::encode_root_into_challenge(&d), &d, "IopTree::encode_root_into_challenge")?;
    check::<F>(<TrivialBlake2sIOP<F> as IOP<F>>::encode_root_into_challenge(&d), &d, "IOP::encode_root_into_challenge")?;
    // transcript output -> challenge: the bytes a clone would output, interpreted
    let mut t = Blake2sTranscript::<F>::new();
    t.commit_bytes(&d);
    for i in 0..3 {
        let mut u = t.clone();
        let b = u.get_challenge_bytes();
        ensure!(b.len() == 32, "challenge of {} bytes", b.len());
        check::<F>(t.get_challenge(), &b, &format!("transcript challenge {}", i))?;
    }
    // leaf encoding: distinct elements, distinct encodings
    let n = F::char().as_ref().len();
    let x = felt::<F>(&mut r);
    let ex = <Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&x);
    ensure!(<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&x) == ex, "encode_leaf({}) differs from itself", x);
    for _ in 0..6 {
        let mut raw = x.into_raw_repr();
        let b = r.below(64 * n as u64) as usize;
        raw.as_mut()[b / 64] ^= 1 << (b % 64);
        if let Ok(y) = F::from_raw_repr(raw) { ensure!(<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&y) != ex, "{} and {} have the same leaf encoding", x, y); }
        let mut can = x.into_repr();
        can.as_mut()[b / 64] ^= 1 << (b % 64);
        if let Ok(y) = F::from_repr(can) { ensure!(<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&y) != ex, "{} and {} have the same leaf encoding", x, y); }
    }
    let y = felt::<F>(&mut r);
    ensure!((x == y) == (<Blake2sLeafEncoder<F> as LeafEncoder<F>>::encode_leaf(&y) == ex), "leaf encodings of {} and {} are {}", x, y, if x == y { "different" } else { "equal" });
    // a tree's own challenge
    let leafs = felts::<F>(&mut r, 4);
    let iop = <TrivialBlake2sIOP<F> as IOP<F>>::create(&leafs);
    let root = iop.get_root();
    check::<F>(iop.get_challenge_scalar_from_root(), &root, "get_challenge_scalar_from_root")?;
    let tree = <Blake2sIopTree<F> as IopTree<F>>::create(&leafs);
    check::<F>(tree.get_challenge_scalar_from_root(), &tree.get_root(), "tree.get_challenge_scalar_from_root")?;
    Ok(true)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in ALLF.iter() {
        for d in &["ones", "zero"] { fixed.push(format!("f={},d={}", f, d)); }
        for b in 0..256 { fixed.push(format!("f={},d=bit,b={}", f, b)); if b % 4 == 0 { fixed.push(format!("f={},d=clear,b={}", f, b)); } }
    }
    main_loop(fixed, &|r| format!("f={},d=rnd,s={}", r.pick(&ALLF), r.below(1 << 40)), &run);
}
