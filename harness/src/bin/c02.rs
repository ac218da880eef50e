use harness::*;
use hodor::domains::Domain;
use hodor::iop::trivial_coset_combiner::TrivialCombiner;
use hodor::iop::CosetCombiner;
fn run(c: &Case) -> Res {
    let (k, i) = (c.n("k") as u32, c.u("i"));
    let n = 1usize << k;
    let want = if i < n / 2 { vec![i, i + n / 2] } else { vec![i - n / 2, i] };
    let got = Domain::<F65537>::coset_for_natural_index_and_size(i, n);
    ensure!(got == want, "coset of {} in size {}: {:?} instead of {:?}", i, n, got, want);
    let got = TrivialCombiner::<F65537>::get_coset_for_natural_index(i, n);
    ensure!(got == want, "oracle coset of {} in size {}: {:?} instead of {:?}", i, n, got, want);
    let t = TrivialCombiner::<F65537>::get_coset_for_tree_index(i, n);
    ensure!(t == want, "oracle tree coset of {} in size {}: {:?} instead of {:?}", i, n, t, want);
    ensure!(TrivialCombiner::<F65537>::tree_index_into_natural_index(TrivialCombiner::<F65537>::natural_index_into_tree_index(i)) == i, "tree/natural index maps are not inverse at {}", i);
    for j in want.iter() {
        let (a, b) = Domain::<F65537>::index_and_size_for_next_domain(*j, n);
        ensure!(b == n / 2 && a == i % (n / 2), "next index of {} in size {}: ({}, {})", j, n, a, b);
    }
    if k <= 16 {
        let g = Domain::<F65537>::new_for_size(n as u64).map_err(|_| "domain refused".to_string())?.generator;
        ensure!(pw(g, want[1] as u128) == neg(pw(g, want[0] as u128)), "coset elements are not negatives");
        let g2 = if n > 2 { Domain::<F65537>::new_for_size(n as u64 / 2).map_err(|_| "domain refused".to_string())?.generator } else { F65537::one() };
        let x = pw(g, i as u128);
        ensure!(pw(g2, (i % (n / 2)) as u128) == mul(x, x), "next index is not the index of the square");
    }
    Ok(n > 2)
}
fn main() {
    let mut fixed = vec![];
    for k in 1..11u32 { for i in 0..(1u64 << k) { fixed.push(format!("k={},i={}", k, i)); } }
    for k in 11..64u32 { let n = 1u64 << k; for i in &[0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 1] { fixed.push(format!("k={},i={}", k, i)); } }
    main_loop(fixed, &|r| { let k = 1 + r.below(63); let i = r.below(1 << k); format!("k={},i={}", k, i) }, &run);
}
