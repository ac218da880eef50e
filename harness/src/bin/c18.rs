use harness::*;
fn run(c: &Case) -> Res {
    if c.s("m") == "log" {
        let n = c.n("n");
        let want = 63 - n.leading_zeros();
        let got = hodor::utils::log2_floor(n as usize);
        ensure!(got == want, "log2_floor({}) = {} instead of {}", n, got, want);
        if n <= 600 { let w = worker(n as usize); ensure!(w.log_num_cpus() == want, "log_num_cpus with {} workers = {}", n, w.log_num_cpus()); ensure!(w.num_cpus() as u64 == n, "num_cpus"); }
        return Ok(n > 1);
    }
    let (p, n) = (c.u("p"), c.u("n"));
    let w = worker(p);
    let ch = w.get_chunk_size(n);
    ensure!(ch > 0, "chunk size 0 for {} elements and {} workers", n, p);
    let tasks = if n == 0 { 0 } else { (n - 1) / ch + 1 };
    let got = w.get_num_spawned_threads(n);
    ensure!(got == tasks, "{} tasks reported for {} elements and {} workers, {} chunks of {}", got, n, p, tasks, ch);
    if n < p { ensure!(ch == 1, "chunk size {} with fewer elements ({}) than workers ({})", ch, n, p); }
    if n <= 4096 {
        let mut hit = vec![0u32; n];
        let seen = w.scope(n, |scope, chunk| { for v in hit.chunks_mut(chunk) { scope.spawn(move |_| { for x in v.iter_mut() { *x += 1; } }); } chunk });
        ensure!(seen == ch, "the scope was given chunk size {} instead of {}", seen, ch);
        ensure!(hit.iter().all(|x| *x == 1), "some element not covered exactly once ({} elements, {} workers)", n, p);
    }
    Ok(n > p)
}
fn main() {
    let mut fixed = vec![];
    for p in 1..=12u64 { for n in 0..=40u64 { fixed.push(format!("p={},n={}", p, n)); } }
    for k in 0..63u32 { for d in &[-1i64, 0, 1] { let n = ((1i64 << k) + d) as u64; if n > 0 && n < (1 << 63) { fixed.push(format!("m=log,n={}", n)); } } }
    for n in 1..300u64 { fixed.push(format!("m=log,n={}", n)); }
    for p in 1..=10u64 { for n in &[1u64 << 20, u64::max_value(), (1 << 63) + 7, 99999999999] { fixed.push(format!("p={},n={}", p, n)); } }
    main_loop(fixed, &|r| if r.below(3) == 0 { let s = 1 + r.below(63); let n = (r.next() >> s).max(1); format!("m=log,n={}", n) } else {
        let p = *r.pick(&[1u64, 2, 3, 4, 5, 7, 8, 13, 16, 31, 48]); let s = r.below(64); format!("p={},n={}", p, if r.below(3) == 0 { r.next() >> s } else { r.below(3000) }) }, &run);
}
