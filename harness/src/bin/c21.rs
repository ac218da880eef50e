//! VDF traces: the witness is the evaluation, the system accepts it and nothing else; the oracle evaluates constraints by definition
use harness::*;
use hodor::air::*;
use hodor::arp::*;
use hodor::verif_hooks::experiments::{VDF, CubicVDF};
fn holds<F: PrimeField>(c: &Constraint<F>, w: &[Vec<F>], rows: usize, row: usize) -> bool {
    let ev = |t: &UnivariateTerm<F>| -> Option<F> {
        let s = match t.steps_difference { StepDifference::Steps(s) => s, _ => return None };
        let i = match t.register { Register::Register(i) => i, _ => return None };
        if row + s >= rows || i >= w.len() { return None; }
        Some(mul(t.coeff, pw(w[i][row + s], t.power as u128)))
    };
    let mut v = c.constant_term;
    for t in c.terms.iter() {
        let x = match t {
            ConstraintTerm::Univariate(u) => match ev(u) { Some(x) => x, None => return false },
            ConstraintTerm::Polyvariate(p) => { let mut x = p.coeff; for u in p.terms.iter() { match ev(u) { Some(y) => { x = mul(x, y); } None => return false } } x }
        };
        v = add(v, x);
    }
    v.is_zero()
}
fn want<F: PrimeField>(p: &InstanceProperties<F>, w: &[Vec<F>]) -> bool {
    if w.len() != p.num_registers || w.iter().any(|c| c.len() != p.num_rows) { return false; }
    for c in p.constraints.iter() {
        let (st, sp) = match c.density { ConstraintDensity::Dense(ref d) => (d.start_at, d.span), _ => return false };
        for row in 0..p.num_rows { if row >= st && row + sp < p.num_rows && !holds(c, w, p.num_rows, row) { return false; } }
    }
    p.boundary_constraints.iter().all(|b| match b.register { Register::Register(i) => i < w.len() && b.at_row < p.num_rows && b.value.map(|v| w[i][b.at_row] == v).unwrap_or(true), _ => false })
}
fn vmul<F: PrimeField>(p: (F, F), q: (F, F)) -> (F, F) { (sub(mul(p.0, q.0), mul(p.1, q.1)), add(mul(p.0, q.1), mul(p.1, q.0))) }
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let n = c.u("n"); let cubic = c.s("op") == "c";
    let s: (F, F) = (felt(&mut r), felt(&mut r));
    let (w, p) = if cubic { CubicVDF::<F> { start_c0: s.0, start_c1: s.1, num_operations: n }.into_arp() } else { VDF::<F> { start_c0: s.0, start_c1: s.1, num_operations: n }.into_arp() };
    let w = match w { Some(w) => w, None => return Err("no witness".into()) };
    let regs = if cubic { 4 } else { 2 };
    ensure!(p.num_rows == n + 1 && p.num_registers == regs && w.len() == regs && w.iter().all(|c| c.len() == n + 1), "shape: {} rows, {} registers, {} columns", p.num_rows, p.num_registers, w.len());
    let mut v = s;
    for i in 0..n + 1 {
        ensure!((w[0][i], w[1][i]) == v, "row {} is not the result of {} operations", i, i);
        let q = vmul(v, v);
        if cubic { ensure!((w[2][i], w[3][i]) == q, "row {} does not hold the square", i); v = vmul(q, v); } else { v = q; }
    }
    for k in 0..2 { for row in [0, n] { ensure!(p.boundary_constraints.iter().any(|b| b.register == Register::Register(k) && b.at_row == row && b.value == Some(w[k][row])), "no boundary constraint for register {} at row {}", k, row); } }
    ensure!(want(&p, &w), "the system does not accept the trace");
    let wk = worker(1);
    ensure!(ARPInstance::<F, PerRegisterARP>::is_satisfied(&p, &w, &wk).is_ok(), "is_satisfied refuses the trace");
    for _ in 0..8 {
        let k = r.below(regs as u64) as usize; let i = r.below(n as u64 + 1) as usize;
        if k >= 2 && i == n { continue; }
        let mut x = w.clone(); let mut d: F = felt(&mut r); if d.is_zero() { d = F::one(); }
        x[k][i] = add(x[k][i], d);
        // the equations, by hand
        let mut ok = (x[0][0], x[1][0]) == s && (x[0][n], x[1][n]) == (w[0][n], w[1][n]);
        for i in 0..n { let a = (x[0][i], x[1][i]); let b = (x[0][i + 1], x[1][i + 1]); let q = vmul(a, a); if cubic { ok &= (x[2][i], x[3][i]) == q && b == vmul((x[2][i], x[3][i]), a); } else { ok &= b == q; } }
        ensure!(want(&p, &x) == ok, "register {} at row {} changed: the system says {}, the recurrence says {}", k, i, !ok, ok);
    }
    // another evaluation, from another start, must be refused
    if n > 0 {
        let t: (F, F) = (add(s.0, F::one()), s.1);
        let (x, _) = if cubic { CubicVDF::<F> { start_c0: t.0, start_c1: t.1, num_operations: n }.into_arp() } else { VDF::<F> { start_c0: t.0, start_c1: t.1, num_operations: n }.into_arp() };
        ensure!(!want(&p, &x.unwrap()), "the trace of another start is accepted");
    }
    Ok(n > 1)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for op in &["q", "c"] { for f in &["17", "97", "252", "257"] { for n in &[0u32, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 33, 100] { for s in 0..3 { fixed.push(format!("op={},f={},n={},s={}", op, f, n, s)); } } } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); let m = *r.pick(&[4u64, 12, 40, 200]); format!("op={},f={},n={},s={}", r.pick(&["q", "c"]), f, r.below(m), r.below(1000000)) }, &run);
}
