// ======================================================================
// Commutative-ring identities by normalisation.  E is the syntax of an expression over variables 0..; nrm computes a
// normal form, proved to denote the same element (l_nrm); two expressions with the same normal form are equal (l_ring).
// ======================================================================
pub enum E { V(nat), One, Zero, Add(Box<E>, Box<E>), Mul(Box<E>, Box<E>), Neg(Box<E>) }
pub open spec fn ev(i: nat) -> E { E::V(i) }
pub open spec fn ea(a: E, b: E) -> E { E::Add(Box::new(a), Box::new(b)) }
pub open spec fn em(a: E, b: E) -> E { E::Mul(Box::new(a), Box::new(b)) }
pub open spec fn en(a: E) -> E { E::Neg(Box::new(a)) }
pub open spec fn es(a: E, b: E) -> E { ea(a, en(b)) }
pub open spec fn eval<F: FieldSpec>(e: E, env: Seq<F>) -> F decreases e {
    match e {
        E::V(i) => env[i as int], E::One => F::f1(), E::Zero => F::f0(),
        E::Add(a, b) => eval(*a, env).fadd(eval(*b, env)),
        E::Mul(a, b) => eval(*a, env).fmul(eval(*b, env)),
        E::Neg(a) => eval(*a, env).fneg(),
    }
}
pub enum Mo { N, C(nat, Box<Mo>) }          // product of variables
pub enum Po { N, C(int, Mo, Box<Po>) }      // sum of coefficient * product
pub open spec fn fint<F: FieldSpec>(c: int) -> F { if c >= 0 { fnat::<F>(c as nat) } else { fnat::<F>((-c) as nat).fneg() } }
pub open spec fn emo<F: FieldSpec>(m: Mo, env: Seq<F>) -> F decreases m { match m { Mo::N => F::f1(), Mo::C(i, r) => env[i as int].fmul(emo(*r, env)) } }
pub open spec fn epo<F: FieldSpec>(p: Po, env: Seq<F>) -> F decreases p { match p { Po::N => F::f0(), Po::C(c, m, r) => fint::<F>(c).fmul(emo(m, env)).fadd(epo(*r, env)) } }
pub open spec fn mins(i: nat, m: Mo) -> Mo decreases m { match m { Mo::N => Mo::C(i, Box::new(Mo::N)), Mo::C(j, r) => if i <= j { Mo::C(i, Box::new(m)) } else { Mo::C(j, Box::new(mins(i, *r))) } } }
pub open spec fn mmul(a: Mo, b: Mo) -> Mo decreases a { match a { Mo::N => b, Mo::C(i, r) => mins(i, mmul(*r, b)) } }
// -1, 0, 1
pub open spec fn mcmp(a: Mo, b: Mo) -> int decreases a {
    match a { Mo::N => match b { Mo::N => 0, Mo::C(_, _) => -1 },
        Mo::C(i, r) => match b { Mo::N => 1, Mo::C(j, s) => if i < j { -1 } else if i > j { 1 } else { mcmp(*r, *s) } } }
}
pub open spec fn pins(c: int, m: Mo, p: Po) -> Po decreases p {
    match p {
        Po::N => if c == 0 { Po::N } else { Po::C(c, m, Box::new(Po::N)) },
        Po::C(d, n, r) => { let k = mcmp(m, n);
            if k == 0 { if c + d == 0 { *r } else { Po::C(c + d, n, r) } }
            else if k < 0 { if c == 0 { p } else { Po::C(c, m, Box::new(p)) } }
            else { Po::C(d, n, Box::new(pins(c, m, *r))) } }
    }
}
pub open spec fn padd(a: Po, b: Po) -> Po decreases a { match a { Po::N => b, Po::C(c, m, r) => pins(c, m, padd(*r, b)) } }
pub open spec fn pscale(c: int, m: Mo, b: Po) -> Po decreases b { match b { Po::N => Po::N, Po::C(d, n, r) => pins(c * d, mmul(m, n), pscale(c, m, *r)) } }
pub open spec fn pmul(a: Po, b: Po) -> Po decreases a { match a { Po::N => Po::N, Po::C(c, m, r) => padd(pscale(c, m, b), pmul(*r, b)) } }
pub open spec fn nrm(e: E) -> Po decreases e {
    match e {
        E::V(i) => Po::C(1, Mo::C(i, Box::new(Mo::N)), Box::new(Po::N)), E::One => Po::C(1, Mo::N, Box::new(Po::N)), E::Zero => Po::N,
        E::Add(a, b) => padd(nrm(*a), nrm(*b)), E::Mul(a, b) => pmul(nrm(*a), nrm(*b)), E::Neg(a) => pscale(-1, Mo::N, nrm(*a)),
    }
}
pub proof fn l_mcmp(a: Mo, b: Mo) requires mcmp(a, b) == 0 ensures a == b decreases a {
    match a { Mo::N => {}, Mo::C(i, r) => match b { Mo::N => {}, Mo::C(j, s) => { l_mcmp(*r, *s); } } }
}
pub proof fn l_mul3<F: FieldSpec>(a: F, b: F, c: F) ensures a.fmul(b.fmul(c)) == b.fmul(a.fmul(c)) {
    F::ax_mul_assoc(a, b, c); F::ax_mul_comm(a, b); F::ax_mul_assoc(b, a, c);
}
pub proof fn l_add3<F: FieldSpec>(a: F, b: F, c: F) ensures a.fadd(b.fadd(c)) == b.fadd(a.fadd(c)) {
    F::ax_add_assoc(a, b, c); F::ax_add_comm(a, b); F::ax_add_assoc(b, a, c);
}
pub proof fn l_mins<F: FieldSpec>(i: nat, m: Mo, env: Seq<F>) ensures emo(mins(i, m), env) == env[i as int].fmul(emo(m, env)) decreases m {
    match m { Mo::N => { assert(emo(Mo::C(i, Box::new(Mo::N)), env) == env[i as int].fmul(emo(Mo::N, env))); },
        Mo::C(j, r) => if i <= j { } else { l_mins(i, *r, env); l_mul3(env[i as int], env[j as int], emo(*r, env)); } }
}
pub proof fn l_mmul<F: FieldSpec>(a: Mo, b: Mo, env: Seq<F>) ensures emo(mmul(a, b), env) == emo(a, env).fmul(emo(b, env)) decreases a {
    match a { Mo::N => { l_one_l(emo(b, env)); }, Mo::C(i, r) => { l_mmul(*r, b, env); l_mins(i, mmul(*r, b), env); F::ax_mul_assoc(env[i as int], emo(*r, env), emo(b, env)); } }
}
pub proof fn l_nat_sub<F: FieldSpec>(m: nat, n: nat) requires m >= n ensures fnat::<F>((m - n) as nat) == fnat::<F>(m).fadd(fnat::<F>(n).fneg()) {
    l_nat_add::<F>((m - n) as nat, n); F::ax_add_assoc(fnat((m - n) as nat), fnat(n), fnat::<F>(n).fneg()); F::ax_neg(fnat::<F>(n)); F::ax_zero(fnat((m - n) as nat));
}
pub proof fn l_fint_add<F: FieldSpec>(a: int, b: int) ensures fint::<F>(a + b) == fint::<F>(a).fadd(fint(b)) {
    if a >= 0 && b >= 0 { l_nat_add::<F>(a as nat, b as nat); }
    else if a < 0 && b < 0 { l_nat_add::<F>((-a) as nat, (-b) as nat); l_neg_add(fnat::<F>((-a) as nat), fnat::<F>((-b) as nat)); assert((-(a + b)) as nat == (-a) as nat + (-b) as nat); }
    else {
        let (p, q) = if a >= 0 { (a as nat, (-b) as nat) } else { (b as nat, (-a) as nat) };
        F::ax_add_comm(fint::<F>(a), fint::<F>(b));
        if p >= q { l_nat_sub::<F>(p, q); }
        else { l_nat_sub::<F>(q, p); l_neg_add(fnat::<F>(q), fnat::<F>(p).fneg()); l_neg_neg(fnat::<F>(p)); F::ax_add_comm(fnat::<F>(q).fneg(), fnat::<F>(p)); assert((-(a + b)) as nat == (q - p) as nat); }
    }
}
pub proof fn l_nat_mul<F: FieldSpec>(a: nat, b: nat) ensures fnat::<F>(a * b) == fnat::<F>(a).fmul(fnat(b)) decreases a {
    if a == 0 { l_mul_zero(fnat::<F>(b)); assert(0 * b == 0); }
    else { l_nat_mul::<F>((a - 1) as nat, b); assert(a * b == b + ((a - 1) as nat) * b) by (nonlinear_arith) requires a > 0; l_nat_add::<F>(b, ((a - 1) as nat) * b);
        l_distr_r(F::f1(), fnat::<F>((a - 1) as nat), fnat::<F>(b)); l_one_l(fnat::<F>(b)); }
}
pub proof fn l_fint_neg<F: FieldSpec>(a: int) ensures fint::<F>(-a) == fint::<F>(a).fneg() {
    if a == 0 { l_neg_zero::<F>(); } else if a < 0 { l_neg_neg(fnat::<F>((-a) as nat)); }
}
pub proof fn l_fint_mul<F: FieldSpec>(a: int, b: int) ensures fint::<F>(a * b) == fint::<F>(a).fmul(fint(b)) {
    let x = if a >= 0 { a as nat } else { (-a) as nat }; let y = if b >= 0 { b as nat } else { (-b) as nat };
    l_nat_mul::<F>(x, y);
    let fx = fnat::<F>(x); let fy = fnat::<F>(y);
    l_mul_neg(fx, fy); l_mul_neg(fx, fy.fneg()); l_neg_neg(fx.fmul(fy));
    assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
    l_fint_neg::<F>((x * y) as int);
    if a >= 0 && b >= 0 { assert(a * b == x * y); }
    else if a >= 0 { assert(a * b == -(x * y)) by (nonlinear_arith) requires a == x, b == -y; }
    else if b >= 0 { assert(a * b == -(x * y)) by (nonlinear_arith) requires a == -x, b == y; }
    else { assert(a * b == x * y) by (nonlinear_arith) requires a == -x, b == -y; }
}
pub proof fn l_fint1<F: FieldSpec>() ensures fint::<F>(1) == F::f1(), fint::<F>(0) == F::f0() { reveal_with_fuel(fnat, 2); F::ax_zero(F::f1()); }
pub proof fn l_pins<F: FieldSpec>(c: int, m: Mo, p: Po, env: Seq<F>) ensures epo(pins(c, m, p), env) == fint::<F>(c).fmul(emo(m, env)).fadd(epo(p, env)) decreases p {
    l_fint1::<F>(); let t = fint::<F>(c).fmul(emo(m, env)); l_mul_zero(emo(m, env)); l_zero_l(epo(p, env));
    match p {
        Po::N => { let q = Po::C(c, m, Box::new(Po::N)); assert(epo(q, env) == t.fadd(epo(Po::N, env))); F::ax_zero(F::f0()); },
        Po::C(d, n, r) => { let k = mcmp(m, n); let s = fint::<F>(d).fmul(emo(n, env)); let rr = epo(*r, env);
            if k == 0 { l_mcmp(m, n); l_fint_add::<F>(c, d); l_distr_r(fint::<F>(c), fint::<F>(d), emo(n, env)); F::ax_add_assoc(t, s, rr); l_zero_l(rr); }
            else if k < 0 { }
            else { l_pins(c, m, *r, env); l_add3(t, s, rr); } }
    }
}
pub proof fn l_padd<F: FieldSpec>(a: Po, b: Po, env: Seq<F>) ensures epo(padd(a, b), env) == epo(a, env).fadd(epo(b, env)) decreases a {
    match a { Po::N => { l_zero_l(epo(b, env)); }, Po::C(c, m, r) => { l_padd(*r, b, env); l_pins(c, m, padd(*r, b), env); F::ax_add_assoc(fint::<F>(c).fmul(emo(m, env)), epo(*r, env), epo(b, env)); } }
}
pub proof fn l_pscale<F: FieldSpec>(c: int, m: Mo, b: Po, env: Seq<F>) ensures epo(pscale(c, m, b), env) == fint::<F>(c).fmul(emo(m, env)).fmul(epo(b, env)) decreases b {
    let t = fint::<F>(c).fmul(emo(m, env));
    match b { Po::N => { l_mul_zero(t); },
        Po::C(d, n, r) => { l_pscale(c, m, *r, env); l_pins(c * d, mmul(m, n), pscale(c, m, *r), env); l_mmul(m, n, env); l_fint_mul::<F>(c, d);
            l_mul4(fint::<F>(c), fint::<F>(d), emo(m, env), emo(n, env)); F::ax_distr(t, fint::<F>(d).fmul(emo(n, env)), epo(*r, env)); } }
}
pub proof fn l_pmul<F: FieldSpec>(a: Po, b: Po, env: Seq<F>) ensures epo(pmul(a, b), env) == epo(a, env).fmul(epo(b, env)) decreases a {
    match a { Po::N => { l_mul_zero(epo(b, env)); },
        Po::C(c, m, r) => { l_pmul(*r, b, env); l_pscale(c, m, b, env); l_padd(pscale(c, m, b), pmul(*r, b), env); l_distr_r(fint::<F>(c).fmul(emo(m, env)), epo(*r, env), epo(b, env)); } }
}
pub proof fn l_nrm<F: FieldSpec>(e: E, env: Seq<F>) ensures epo(nrm(e), env) == eval(e, env) decreases e {
    l_fint1::<F>();
    match e {
        E::V(i) => { let x = env[i as int]; let m = Mo::C(i, Box::new(Mo::N)); assert(emo(m, env) == x.fmul(emo(Mo::N, env))); F::ax_one(x); l_one_l(x); F::ax_zero(x);
            assert(epo(Po::C(1, m, Box::new(Po::N)), env) == fint::<F>(1).fmul(emo(m, env)).fadd(epo(Po::N, env))); },
        E::One => { assert(epo(Po::C(1, Mo::N, Box::new(Po::N)), env) == fint::<F>(1).fmul(emo(Mo::N, env)).fadd(epo(Po::N, env))); F::ax_one(F::f1()); F::ax_zero(F::f1()); },
        E::Zero => {},
        E::Add(a, b) => { l_nrm(*a, env); l_nrm(*b, env); l_padd(nrm(*a), nrm(*b), env); },
        E::Mul(a, b) => { l_nrm(*a, env); l_nrm(*b, env); l_pmul(nrm(*a), nrm(*b), env); },
        E::Neg(a) => { l_nrm(*a, env); l_pscale(-1, Mo::N, nrm(*a), env); l_fint_neg::<F>(1); F::ax_one(F::f1().fneg()); l_neg_one_mul(epo(nrm(*a), env)); },
    }
}
pub proof fn l_ring<F: FieldSpec>(a: E, b: E, env: Seq<F>) requires nrm(a) == nrm(b) ensures eval(a, env) == eval(b, env) { l_nrm(a, env); l_nrm(b, env); }
