//! quadratic extension of the experiments' field against schoolbook arithmetic modulo u^2 - 3
use harness::*;
use hodor::verif_hooks::experiments::fp2::Fq2;
use ff::SqrtField;
type Q = F252;
fn b3() -> Q { fu::<Q>(3) }
fn zm(a: Fq2, b: Fq2) -> Fq2 { Fq2 { c0: add(mul(a.c0, b.c0), mul(b3(), mul(a.c1, b.c1))), c1: add(mul(a.c0, b.c1), mul(a.c1, b.c0)) } }
fn el(r: &mut Rng, k: u64) -> Fq2 { match k { 0 => Fq2 { c0: Q::zero(), c1: felt(r) }, 1 => Fq2 { c0: felt(r), c1: Q::zero() }, 2 => { let x = felt::<Q>(r); Fq2 { c0: x, c1: x } }, 3 => { let x = felt::<Q>(r); Fq2 { c0: x, c1: neg(x) } }, 4 => Fq2 { c0: felt(r), c1: Q::one() }, _ => Fq2 { c0: felt(r), c1: felt(r) } } }
fn run(c: &Case) -> Res {
    let mut r = c.rng();
    let a = if c.s("z") == "1" { Fq2 { c0: Q::zero(), c1: Q::zero() } } else { el(&mut r, c.n("a")) };
    let b = el(&mut r, c.n("b"));
    let zero = Fq2 { c0: Q::zero(), c1: Q::zero() }; let one = Fq2 { c0: Q::one(), c1: Q::zero() };
    ensure!(Fq2::zero() == zero && Fq2::one() == one, "zero or one is wrong");
    ensure!(a.is_zero() == (a.c0.is_zero() && a.c1.is_zero()), "is_zero({})", a);
    let mut x = a; x.add_assign(&b); ensure!(x == Fq2 { c0: add(a.c0, b.c0), c1: add(a.c1, b.c1) }, "{} + {} gives {}", a, b, x);
    let mut x = a; x.sub_assign(&b); ensure!(x == Fq2 { c0: sub(a.c0, b.c0), c1: sub(a.c1, b.c1) }, "{} - {} gives {}", a, b, x);
    let mut x = a; x.negate(); ensure!(x == Fq2 { c0: neg(a.c0), c1: neg(a.c1) }, "-{} gives {}", a, x);
    let mut x = a; x.double(); ensure!(x == Fq2 { c0: add(a.c0, a.c0), c1: add(a.c1, a.c1) }, "double of {} gives {}", a, x);
    let mut x = a; x.mul_assign(&b); ensure!(x == zm(a, b), "{} * {} gives {} instead of {}", a, b, x, zm(a, b));
    let mut x = a; x.square(); ensure!(x == zm(a, a), "square of {} gives {} instead of {}", a, x, zm(a, a));
    let f = b.c0;
    let mut x = a; x.mul_by_0(&f); ensure!(x == zm(a, Fq2 { c0: f, c1: Q::zero() }), "mul_by_0({}, {}) gives {}", a, f, x);
    let mut x = a; x.mul_by_1(&f); ensure!(x == zm(a, Fq2 { c0: Q::zero(), c1: f }), "mul_by_1({}, {}) gives {}", a, f, x);
    let n = a.norm(); let cj = zm(a, Fq2 { c0: a.c0, c1: neg(a.c1) });
    ensure!(cj.c1.is_zero() && n == cj.c0, "norm of {} is {} instead of {}", a, n, cj.c0);
    match a.inverse() { None => ensure!(a == zero, "no inverse for {}", a), Some(i) => ensure!(a != zero && zm(a, i) == one, "inverse of {} is {}", a, i) }
    if c.s("z") != "1" && r.below(8) == 0 {
        let s = zm(a, a);
        ensure!(s == zero || s.legendre() == ff::LegendreSymbol::QuadraticResidue, "legendre symbol of the square {} is wrong", s);
        match s.sqrt() { Some(t) => ensure!(zm(t, t) == s, "sqrt of {} gives {}", s, t), None => {} }
    }
    Ok(a != zero && b != zero)
}
fn main() {
    let mut fixed = vec![];
    for a in 0..6 { for b in 0..6 { for i in 0..4 { fixed.push(format!("a={},b={},i={}", a, b, i)); } } }
    fixed.push("z=1,b=5".into()); fixed.push("z=1,b=0".into());
    main_loop(fixed, &|r: &mut Rng| format!("a={},b={},i={}", r.below(6), r.below(6), r.next()), &run);
}
