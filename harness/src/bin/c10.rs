use harness::*;
use hodor::iop::*;
use hodor::iop::blake2s_trivial_iop::*;
type Q<F> = TrivialBlake2sIopQuery<F>;
fn root_of<F: PrimeField>(l: &[F]) -> [u8; 32] {
    let mut v: Vec<[u8; 32]> = l.iter().map(|x| <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(x)).collect();
    while v.len() > 1 { v = v.chunks(2).map(|p| <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(p, 0)).collect(); }
    v[0]
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let k = c.n("k") as u32; let n = 1usize << k;
    cpu_affinity(c.u("p").max(1));
    let mut r = c.rng();
    let l: Vec<F> = if c.s("d") == "same" { vec![felt(&mut r); n] } else { felts(&mut r, n) };
    let iop = <TrivialBlake2sIOP<F> as IOP<F>>::create(&l);
    let root = iop.get_root();
    ensure!(root == root_of(&l), "root of {} leaves is not the hash tree over them ({} workers)", n, c.s("p"));
    let tree = <Blake2sIopTree<F> as IopTree<F>>::create(&l);
    ensure!(tree.size() == n as u64 && tree.get_root() == root, "tree of {} leaves: size {} or root disagrees", n, tree.size());
    let idxs: Vec<usize> = if n <= 64 { (0..n).collect() } else { let mut v = vec![0, 1, n / 2 - 1, n / 2, n - 2, n - 1]; for _ in 0..24 { v.push(r.below(n as u64) as usize); } v };
    for &i in &idxs {
        let q: Q<F> = iop.query(i, &l);
        ensure!(q.natural_index() == i && q.tree_index() == i, "query {} carries index {}/{}", i, q.natural_index(), q.tree_index());
        ensure!(q.value() == l[i], "query {} of {} carries another value", i, n);
        ensure!(q.path().len() == k as usize, "query {} of {}: path of {} digests", i, n, q.path().len());
        ensure!(TrivialBlake2sIOP::<F>::verify_query(&q, &root), "query {} of {} does not verify ({} workers)", i, n, c.s("p"));
        ensure!(<Blake2sIopTree<F> as IopTree<F>>::verify(&root, &l[i], q.path(), i), "path {} of {} does not verify", i, n);
        ensure!(tree.get_path(i, &l) == q.path().to_vec(), "get_path and query disagree at {}", i);
        // binding: any other value, digest, order, index or root is refused
        let path = q.path().to_vec();
        let mut ch = vec![add(l[i], F::one()), sub(l[i], F::one()), neg(l[i]), l[i ^ 1], felt(&mut r)];
        { let mut raw = l[i].into_raw_repr(); let b = r.below(64 * raw.as_ref().len() as u64) as usize; raw.as_mut()[b / 64] ^= 1 << (b % 64); if let Ok(y) = F::from_raw_repr(raw) { ch.push(y); } }
        for y in ch { if y != l[i] { ensure!(!<Blake2sIopTree<F> as IopTree<F>>::verify(&root, &y, &path, i), "leaf {} of {} also opens to {} instead of {}", i, n, y, l[i]); } }
        for lev in 0..path.len() {
            let mut p = path.clone(); p[lev][r.below(32) as usize] ^= 1 << r.below(8);
            ensure!(!<Blake2sIopTree<F> as IopTree<F>>::verify(&root, &l[i], &p, i), "leaf {} of {} verifies with a changed digest at level {}", i, n, lev);
            let j = i ^ (1 << lev);
            if path_differs(&path, &l, i, lev) { ensure!(!<Blake2sIopTree<F> as IopTree<F>>::verify(&root, &l[i], &path, j), "leaf {} of {} verifies at index {}", i, n, j); }
        }
        let mut rt = root; rt[r.below(32) as usize] ^= 1 << r.below(8);
        ensure!(!TrivialBlake2sIOP::<F>::verify_query(&q, &rt), "query {} verifies against another root", i);
    }
    Ok(n > 1)
}
/// the node at this level differs from its sibling (otherwise swapping the two changes nothing)
fn path_differs<F: PrimeField>(path: &[[u8; 32]], l: &[F], i: usize, lev: usize) -> bool {
    let mut h = <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_leaf(&l[i]);
    for k in 0..lev { h = if (i >> k) & 1 == 0 { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[h, path[k]], 0) } else { <Blake2sTreeHasher<F> as IopTreeHasher<F>>::hash_node(&[path[k], h], 0) }; }
    h != path[lev]
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for k in 1..=7 { for p in 1..=8 { for f in &["257", "252", "b64", "b255"] { fixed.push(format!("f={},k={},p={}", f, k, p)); } fixed.push(format!("f=252,k={},p={},d=same", k, p)); } }
    main_loop(fixed, &|r| format!("f={},k={},p={},d={},s={}", r.pick(&ALLF), 1 + r.below(9), 1 + r.below(8), if r.below(6) == 0 { "same" } else { "" }, r.below(1 << 40)), &run);
}
