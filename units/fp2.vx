// ---- the base field of the experiments: raw (Montgomery) limbs, contract of derive(PrimeField) ----
//@@ attr src/experiments/mod.rs Fr PrimeFieldModulus => "3618502788666131213697322783095070105623107215331596699973092056135872020481"
//@@ subst "&fq" => "fq"
#[derive(Clone, Copy)]
pub struct FqRepr(pub [u64; 4]);
#[derive(Clone, Copy)]
pub struct Fq(pub FqRepr);
// the modulus (its decimal digits in groups), 2^64 and the inverse of 2^256
pub open spec fn q_() -> int { ((3618502788666131213697322783095070 * 1000000000000000000000 + 105623107215331596699) * 1000000000000000000000 + 973092056135872020481) as int }
pub open spec fn b64() -> int { 0x1_0000_0000_0000_0000 }
pub open spec fn rinv() -> int { (((0x40000000000001int * b64() + 0x1000000000000121int) * b64() + 0x0int) * b64() + 0x0int) }
pub open spec fn lv(l: [u64; 4]) -> int { l[0] + b64() * (l[1] + b64() * (l[2] + b64() * l[3])) }
impl Fq {
    pub open spec fn canon(self) -> int { (lv(self.0.0) * rinv()) % q_() }
}
impl FieldSpec for Fq {
    uninterp spec fn f0() -> Self;
    uninterp spec fn f1() -> Self;
    uninterp spec fn fadd(self, o: Self) -> Self;
    uninterp spec fn fmul(self, o: Self) -> Self;
    uninterp spec fn fneg(self) -> Self;
    uninterp spec fn finv(self) -> Self;
    #[verifier::external_body]
    proof fn ax_add_comm(a: Self, b: Self) {}
    #[verifier::external_body]
    proof fn ax_add_assoc(a: Self, b: Self, c: Self) {}
    #[verifier::external_body]
    proof fn ax_mul_comm(a: Self, b: Self) {}
    #[verifier::external_body]
    proof fn ax_mul_assoc(a: Self, b: Self, c: Self) {}
    #[verifier::external_body]
    proof fn ax_distr(a: Self, b: Self, c: Self) {}
    #[verifier::external_body]
    proof fn ax_zero(a: Self) {}
    #[verifier::external_body]
    proof fn ax_one(a: Self) {}
    #[verifier::external_body]
    proof fn ax_neg(a: Self) {}
    #[verifier::external_body]
    proof fn ax_inv(a: Self) {}
    #[verifier::external_body]
    proof fn ax_one_ne_zero() {}
    #[verifier::external_body]
    proof fn ax_clone(a: Self, b: Self) {}
}
impl Field for Fq {
    #[verifier::external_body]
    fn zero() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn one() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn is_zero(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn add_assign(&mut self, other: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn sub_assign(&mut self, other: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn mul_assign(&mut self, other: &Self) { unimplemented!() }
    #[verifier::external_body]
    fn negate(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn square(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn double(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn inverse(&self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn pow_u64(&self, exp: u64) -> (r: Self) { unimplemented!() }
}
// integers modulo the modulus, in Montgomery form; the multiplicative group has q-1 elements
#[verifier::external_body]
proof fn ax_fq_canon(a: Fq, b: Fq)
    ensures a.canon() == b.canon() ==> a == b, Fq::f0().canon() == 0, Fq::f1().canon() == 1,
        a.fadd(b).canon() == (a.canon() + b.canon()) % q_(), a.fmul(b).canon() == (a.canon() * b.canon()) % q_(),
{}
#[verifier::external_body]
proof fn ax_fq_fermat(a: Fq) ensures a != Fq::f0() ==> fpow(a, (q_() - 1) as nat) == Fq::f1() {}

//@@ const src/experiments/square_root_calculator/fp2.rs NON_RESIDUE
//@@ const src/experiments/square_root_calculator/fp2.rs MINUS_ONE
//@@ item src/experiments/square_root_calculator/fp2.rs Fq2

// the Montgomery factor is the inverse of 2^256
proof fn lemma_rinv() ensures (rinv() * (b64() * b64() * b64() * b64())) % q_() == 1 { assert((rinv() * (b64() * b64() * b64() * b64())) % q_() == 1) by (compute_only); }
pub open spec fn beta() -> Fq { Fq::f1().fadd(Fq::f1()).fadd(Fq::f1()) }
proof fn lemma_nonresidue() ensures NON_RESIDUE == beta(), beta().canon() == 3 {
    ax_fq_canon(Fq::f1(), Fq::f1()); ax_fq_canon(Fq::f1().fadd(Fq::f1()), Fq::f1());
    assert(2int % q_() == 2) by (compute_only); assert(3int % q_() == 3) by (compute_only);
    assert((lv([0xffffffffffffffa1u64, 0xffffffffffffffffu64, 0xffffffffffffffffu64, 0x07fffffffffff9b0u64]) * rinv()) % q_() == 3) by (compute_only);
    let l = NON_RESIDUE.0.0;
    assert(l[0] == 0xffffffffffffffa1u64 && l[1] == 0xffffffffffffffffu64 && l[2] == 0xffffffffffffffffu64 && l[3] == 0x07fffffffffff9b0u64);
    assert(NON_RESIDUE.canon() == 3);
    ax_fq_canon(NON_RESIDUE, beta());
}
pub open spec fn pm(b: int, e: nat, m: int) -> int decreases e {
    if e == 0 { 1 } else if e % 2 == 0 { let h = pm(b, e / 2, m); (h * h) % m } else { (b * pm(b, (e - 1) as nat, m)) % m }
}
proof fn l_pm(a: Fq, e: nat) ensures fpow(a, e).canon() == pm(a.canon(), e, q_()) decreases e {
    if e == 0 { ax_fq_canon(a, a); }
    else if e % 2 == 0 { l_pm(a, e / 2); l_pow_add(a, e / 2, e / 2); assert(e / 2 + e / 2 == e); ax_fq_canon(fpow(a, e / 2), fpow(a, e / 2)); }
    else { l_pm(a, (e - 1) as nat); ax_fq_canon(a, fpow(a, (e - 1) as nat)); }
}
// 3 is a quadratic non-residue (Euler's criterion evaluated)
proof fn lemma_not_square(x: Fq) ensures x.fmul(x) != beta() {
    if x.fmul(x) == beta() {
        lemma_nonresidue(); ax_fq_canon(x, x); ax_fq_canon(beta(), Fq::f0());
        if x == Fq::f0() { l_mul_zero(x); }
        ax_fq_fermat(x);
        let h = ((q_() - 1) / 2) as nat;
        assert(q_() - 1 == 2 * ((q_() - 1) / 2)) by (compute_only);
        assert(q_() > 10) by (compute_only);
        l_pow_mul(x, 2, h); l_pow2(x);
        assert(2 * h == (q_() - 1) as nat);
        l_pm(beta(), h);
        assert(pm(3, ((q_() - 1) / 2) as nat, q_()) == q_() - 1) by (compute_only);
    }
}

// ---- the extension: coefficients (c0, c1) stand for c0 + c1*u with u*u = 3 ----
impl Fq2 {
    pub open spec fn z0() -> Fq2 { Fq2 { c0: Fq::f0(), c1: Fq::f0() } }
    pub open spec fn z1() -> Fq2 { Fq2 { c0: Fq::f1(), c1: Fq::f0() } }
    pub open spec fn u() -> Fq2 { Fq2 { c0: Fq::f0(), c1: Fq::f1() } }
    pub open spec fn of(a: Fq) -> Fq2 { Fq2 { c0: a, c1: Fq::f0() } }
    pub open spec fn zadd(self, o: Fq2) -> Fq2 { Fq2 { c0: self.c0.fadd(o.c0), c1: self.c1.fadd(o.c1) } }
    pub open spec fn zneg(self) -> Fq2 { Fq2 { c0: self.c0.fneg(), c1: self.c1.fneg() } }
    pub open spec fn zmul(self, o: Fq2) -> Fq2 { Fq2 { c0: self.c0.fmul(o.c0).fadd(beta().fmul(self.c1.fmul(o.c1))), c1: self.c0.fmul(o.c1).fadd(self.c1.fmul(o.c0)) } }
    pub open spec fn conj(self) -> Fq2 { Fq2 { c0: self.c0, c1: self.c1.fneg() } }
    pub open spec fn nrm_(self) -> Fq { fsub(self.c0.fmul(self.c0), beta().fmul(self.c1.fmul(self.c1))) }
}
//@@ ring r_sq0 a b t : (a-b)*(a-b*t)+a*b+a*b*t == a*a+t*(b*b)
//@@ ring r_sq1 a b : a*b+a*b == a*b+b*a
//@@ ring r_mul0 a b c d t : a*c+b*d*t == a*c+t*(b*d)
//@@ ring r_mul1 a b c d : (b+a)*(c+d)-a*c-b*d == a*d+b*c
//@@ ring r_m0c0 a b t f : a*f == a*f+t*(b*0)
//@@ ring r_m0c1 a b f : b*f == a*0+b*f
//@@ ring r_m1c0 a b t f : b*f*t == a*0+t*(b*f)
//@@ ring r_m1c1 a b f : (b+a)*f-b*f == a*f+b*0
//@@ ring r_norm a b t : a*a-b*b*t == a*a-t*(b*b)
//@@ ring r_inv0 a b t n : a*(a*n)+t*(b*(-(b*n))) == (a*a-t*(b*b))*n
//@@ ring r_inv1 a b n : a*(-(b*n))+b*(a*n) == 0
//@@ ring r_cj0 a b t : a*a+t*(b*(-b)) == a*a-t*(b*b)
//@@ ring r_cj1 a b : a*(-b)+b*a == 0
//@@ ring r_as0 a0 a1 b0 b1 c0 c1 t : (a0*b0+t*(a1*b1))*c0+t*((a0*b1+a1*b0)*c1) == a0*(b0*c0+t*(b1*c1))+t*(a1*(b0*c1+b1*c0))
//@@ ring r_as1 a0 a1 b0 b1 c0 c1 t : (a0*b0+t*(a1*b1))*c1+(a0*b1+a1*b0)*c0 == a0*(b0*c1+b1*c0)+a1*(b0*c0+t*(b1*c1))
//@@ ring r_cm0 a0 a1 b0 b1 t : a0*b0+t*(a1*b1) == b0*a0+t*(b1*a1)
//@@ ring r_cm1 a0 a1 b0 b1 : a0*b1+a1*b0 == b0*a1+b1*a0
//@@ ring r_ds0 a0 a1 b0 b1 c0 c1 t : a0*(b0+c0)+t*(a1*(b1+c1)) == (a0*b0+t*(a1*b1))+(a0*c0+t*(a1*c1))
//@@ ring r_ds1 a0 a1 b0 b1 c0 c1 : a0*(b1+c1)+a1*(b0+c0) == (a0*b1+a1*b0)+(a0*c1+a1*c0)
//@@ ring r_on0 a b t : a*1+t*(b*0) == a
//@@ ring r_on1 a b : a*0+b*1 == b
//@@ ring r_uu t : 0*0+t*(1*1) == t
//@@ ring r_uu1 t : 0*1+1*0 == 0*t
//@@ ring r_nm a b : (a*a)*(b*b) == (a*b)*(a*b)
// the extension is a field: commutative ring with u*u = 3, and only zero has norm zero
proof fn lemma_ring_laws(a: Fq2, b: Fq2, c: Fq2)
    ensures a.zadd(b) == b.zadd(a), a.zadd(b).zadd(c) == a.zadd(b.zadd(c)), a.zadd(Fq2::z0()) == a, a.zadd(a.zneg()) == Fq2::z0(),
        a.zmul(b) == b.zmul(a), a.zmul(b).zmul(c) == a.zmul(b.zmul(c)), a.zmul(b.zadd(c)) == a.zmul(b).zadd(a.zmul(c)), a.zmul(Fq2::z1()) == a,
        Fq2::u().zmul(Fq2::u()) == Fq2::of(beta()), a.zmul(a.conj()) == Fq2::of(a.nrm_()),
{
    Fq::ax_add_comm(a.c0, b.c0); Fq::ax_add_comm(a.c1, b.c1); Fq::ax_add_assoc(a.c0, b.c0, c.c0); Fq::ax_add_assoc(a.c1, b.c1, c.c1);
    Fq::ax_zero(a.c0); Fq::ax_zero(a.c1); Fq::ax_neg(a.c0); Fq::ax_neg(a.c1);
    r_cm0(a.c0, a.c1, b.c0, b.c1, beta()); r_cm1(a.c0, a.c1, b.c0, b.c1);
    r_as0(a.c0, a.c1, b.c0, b.c1, c.c0, c.c1, beta()); r_as1(a.c0, a.c1, b.c0, b.c1, c.c0, c.c1, beta());
    r_ds0(a.c0, a.c1, b.c0, b.c1, c.c0, c.c1, beta()); r_ds1(a.c0, a.c1, b.c0, b.c1, c.c0, c.c1);
    r_on0(a.c0, a.c1, beta()); r_on1(a.c0, a.c1);
    r_uu(beta()); r_uu1(beta()); l_mul_zero(beta());
    r_cj0(a.c0, a.c1, beta()); r_cj1(a.c0, a.c1);
}
proof fn lemma_norm_zero(a: Fq2) ensures a.nrm_() == Fq::f0() <==> a == Fq2::z0() {
    if a.nrm_() == Fq::f0() {
        let (x, y) = (a.c0, a.c1);
        l_sub_eq_zero(x.fmul(x), beta().fmul(y.fmul(y)));
        if y == Fq::f0() {
            l_mul_zero(y); l_mul_zero(beta());
            if x != Fq::f0() { l_mul_nonzero(x, x); }
        } else {
            let i = y.finv(); Fq::ax_inv(y); Fq::ax_one(Fq::f1()); Fq::ax_one(beta());
            r_nm(x, i); r_nm(y, i); Fq::ax_mul_assoc(beta(), y.fmul(y), i.fmul(i));
            lemma_not_square(x.fmul(i));
        }
    } else { l_mul_zero(Fq::f0()); l_mul_zero(beta()); l_sub_self(Fq::f0()); }
}
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::norm ret=r
ensures r == self.nrm_()
//@@ begin
  proof { lemma_nonresidue(); r_norm(self.c0, self.c1, beta()); }
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::zero ret=r impl="Field for Fq2"
ensures r == Fq2::z0()
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::one ret=r impl="Field for Fq2"
ensures r == Fq2::z1()
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::is_zero ret=r impl="Field for Fq2"
ensures r <==> *self == Fq2::z0()
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::square impl="Field for Fq2"
ensures *final(self) == old(self).zmul(*old(self))
//@@ begin
  proof { lemma_nonresidue(); r_sq0(self.c0, self.c1, beta()); r_sq1(self.c0, self.c1); Fq::ax_clone(self.c0.fmul(self.c1), self.c0.fmul(self.c1)); }
//@@ stmt "self . c1 = v2" after
  proof { Fq::ax_clone(v2, self.c1); }
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::double impl="Field for Fq2"
ensures *final(self) == old(self).zadd(*old(self))
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::negate impl="Field for Fq2"
ensures *final(self) == old(self).zneg()
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::add_assign impl="Field for Fq2"
ensures *final(self) == old(self).zadd(*other)
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::sub_assign impl="Field for Fq2"
ensures *final(self) == old(self).zadd(other.zneg())
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::mul_assign impl="Field for Fq2"
ensures *final(self) == old(self).zmul(*other)
//@@ begin
  proof { lemma_nonresidue(); r_mul0(self.c0, self.c1, other.c0, other.c1, beta()); r_mul1(self.c0, self.c1, other.c0, other.c1); }
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::inverse ret=r impl="Field for Fq2"
ensures r is None <==> *self == Fq2::z0(), r is Some ==> self.zmul(r->Some_0) == Fq2::z1()
//@@ begin
  proof { lemma_nonresidue(); lemma_norm_zero(*self); r_norm(self.c0, self.c1, beta());
    let n = self.nrm_().finv(); Fq::ax_inv(self.nrm_()); r_inv0(self.c0, self.c1, beta(), n); r_inv1(self.c0, self.c1, n); }
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::mul_by_0 impl="Fq2"
ensures *final(self) == old(self).zmul(Fq2::of(*fq))
//@@ begin
  proof { r_m0c0(self.c0, self.c1, beta(), *fq); r_m0c1(self.c0, self.c1, *fq); }
//@@ endfn
//@@ fn src/experiments/square_root_calculator/fp2.rs Fq2::mul_by_1 impl="Fq2"
ensures *final(self) == old(self).zmul(Fq2::u().zmul(Fq2::of(*fq)))
//@@ begin
  proof { lemma_nonresidue(); r_m1c0(self.c0, self.c1, beta(), *fq); r_m1c1(self.c0, self.c1, *fq); 
    lemma_ring_laws(Fq2::u(), Fq2::of(*fq), Fq2::z0()); r_m0c0(Fq::f0(), Fq::f1(), beta(), *fq); r_m0c1(Fq::f0(), Fq::f1(), *fq); l_mul_zero(*fq); l_one_l(*fq); }
//@@ endfn
