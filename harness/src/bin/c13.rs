//! random programs over the public operators of the constraint algebra; the oracle keeps, beside each object, its value on a few assignments
use harness::*;
use hodor::air::*;
use std::ops::{AddAssign, SubAssign, MulAssign};
const A: usize = 3;
fn asg<F: PrimeField>(k: usize, reg: Register, st: usize) -> F {
    let id = match reg { Register::Register(i) => i as u64, Register::Constant(i) => 1000 + i as u64, Register::Aux(i) => 2000 + i as u64, Register::ProgramCounter(i) => 3000 + i as u64 };
    if k == 0 { return fu::<F>((id + 3 * st as u64) % 2); }
    let mut r = Rng::new(id * 7919 + st as u64 * 104729 + k as u64); felt(&mut r)
}
fn uv<F: PrimeField>(t: &UnivariateTerm<F>, k: usize) -> F {
    let st = match t.steps_difference { StepDifference::Steps(s) => s, _ => panic!("mask appeared") };
    mul(t.coeff, pw(asg::<F>(k, t.register, st), t.power as u128))
}
fn pv<F: PrimeField>(t: &PolyvariateTerm<F>, k: usize) -> F { let mut v = t.coeff; for u in t.terms.iter() { v = mul(v, uv(u, k)); } v }
fn cv<F: PrimeField>(c: &Constraint<F>, k: usize) -> F {
    let mut v = c.constant_term;
    for t in c.terms.iter() { let x = match t { ConstraintTerm::Univariate(u) => uv(u, k), ConstraintTerm::Polyvariate(p) => pv(p, k) }; v = add(v, x); }
    v
}
/// a term, its values and its degree
struct U<F: PrimeField> { t: UnivariateTerm<F>, v: [F; A], d: u64 }
struct P<F: PrimeField> { t: PolyvariateTerm<F>, v: [F; A], d: u64 }
fn uni<F: PrimeField>(r: &mut Rng) -> U<F> {
    let reg = match r.below(4) { 0 => Register::Constant(r.below(3) as usize), 1 => Register::Aux(r.below(3) as usize), _ => Register::Register(r.below(4) as usize) };
    let mut t: UnivariateTerm<F> = reg.into();
    let mut st = 0; let mut c = F::one(); let mut e: u64 = 1;
    let mut v = [F::zero(); A];
    for _ in 0..r.below(5) {
        match r.below(4) {
            0 => { let x: F = felt(r); t *= x; c = mul(c, x); }
            1 => { let x: F = felt(r); t *= &x; c = mul(c, x); }
            2 => { st = r.below(6) as usize; t.set_step_difference(st); }
            _ => { let q = *r.pick(&[0u64, 1, 2, 3, 5, 64, 1000]); if e < 1 << 30 { t = t.pow(q); c = pw(c, q as u128); e *= q; } }
        }
    }
    for k in 0..A { v[k] = mul(c, pw(asg::<F>(k, reg, st), e as u128)); }
    U { t, v, d: e }
}
fn pol<F: PrimeField>(r: &mut Rng, depth: u64) -> P<F> {
    let mut p = if r.below(2) == 0 { P { t: PolyvariateTerm::default(), v: [F::one(); A], d: 0 } } else {
        let u = uni::<F>(r); let x: F = felt(r); let mut v = u.v; for k in 0..A { v[k].mul_assign(&x); }
        P { t: (x, u.t).into(), v, d: u.d } };
    for _ in 0..r.below(5) {
        match r.below(4) {
            0 => { let x: F = felt(r); p.t *= x; for k in 0..A { p.v[k].mul_assign(&x); } }
            1 => { let x: F = felt(r); p.t *= &x; for k in 0..A { p.v[k].mul_assign(&x); } }
            2 if depth > 0 => { let q = pol::<F>(r, depth - 1); for k in 0..A { p.v[k].mul_assign(&q.v[k]); } p.d += q.d; p.t *= q.t; }
            _ => { let u = uni::<F>(r); for k in 0..A { p.v[k].mul_assign(&u.v[k]); } p.d += u.d; p.t *= u.t; }
        }
    }
    p
}
fn go<F: PrimeField>(c: &Case) -> Res {
    let mut r = c.rng();
    let mut cons = Constraint::<F>::default();
    let mut want = [F::zero(); A]; let mut deg = 0u64;
    let den = cons.density.clone();
    for step in 0..c.u("n") {
        let op = r.below(6);
        match op {
            0 => { let x: F = felt(&mut r); cons += &x; for k in 0..A { want[k].add_assign(&x); } }
            1 => { let x: F = felt(&mut r); cons -= &x; for k in 0..A { want[k].sub_assign(&x); } }
            2 => { let u = uni::<F>(&mut r); for k in 0..A { ensure!(uv(&u.t, k) == u.v[k], "univariate term {} is {} on assignment {}, expected {}", u.t, uv(&u.t, k), k, u.v[k]); want[k].add_assign(&u.v[k]); } ensure!(u.t.power == u.d, "power"); deg = deg.max(u.d); cons += u.t; }
            3 => { let u = uni::<F>(&mut r); for k in 0..A { ensure!(uv(&u.t, k) == u.v[k], "univariate term {} is {} on assignment {}, expected {}", u.t, uv(&u.t, k), k, u.v[k]); want[k].sub_assign(&u.v[k]); } deg = deg.max(u.d); cons -= u.t; }
            4 => { let p = pol::<F>(&mut r, 2); ensure!(p.t.total_degree == p.d, "product term records degree {}, its factors add up to {}", p.t.total_degree, p.d); for k in 0..A { ensure!(pv(&p.t, k) == p.v[k], "product term is {} on assignment {}, expected {}", pv(&p.t, k), k, p.v[k]); want[k].add_assign(&p.v[k]); } deg = deg.max(p.d); cons += p.t; }
            _ => { let p = pol::<F>(&mut r, 2); for k in 0..A { want[k].sub_assign(&p.v[k]); } deg = deg.max(p.d); cons -= p.t; }
        }
        for k in 0..A { ensure!(cv(&cons, k) == want[k], "after operation {} (kind {}) the constraint is {} on assignment {}, expected {}", step, op, cv(&cons, k), k, want[k]); }
        ensure!(cons.degree == deg, "after operation {} (kind {}) the recorded degree is {}, the largest term degree is {}", step, op, cons.degree, deg);
        ensure!(cons.density == den, "operation {} changed the density", step);
    }
    Ok(c.u("n") > 2)
}
fn run(c: &Case) -> Res { by_any_field!(c, go) }
fn main() {
    let mut fixed = vec![];
    for f in &["17", "97", "252", "257"] { for n in 1..=12u32 { for s in 0..6 { fixed.push(format!("f={},n={},s={}", f, n, s)); } } }
    main_loop(fixed, &|r| { let f = *r.pick(&FIELDS); format!("f={},n={},s={}", f, 1 + r.below(14), r.below(1000000)) }, &run);
}
