// ---- evaluation domains ----
#[derive(Debug)] pub enum SynthesisError { Error, Unsatisfied(String), InvalidValue(String), DivisionByZero(String) }
//@@ item src/domains/mod.rs Domain
impl<F: PrimeField> Domain<F> {
    pub open spec fn wf(&self) -> bool {
        &&& self.power_of_two <= F::S
        &&& self.size == pow2(self.power_of_two as nat)
        &&& prim(self.generator, self.power_of_two as nat)
        &&& self.generator == dgen::<F>(self.power_of_two as nat)
    }
}
// the generator of the 2^k subgroup: the field's 2^S-th root raised to 2^(S-k)
pub open spec fn dgen<F: PrimeField>(k: nat) -> F { fpow(F::sroot(), pow2((F::S - k) as nat)) }
pub proof fn l_dgen_sq<F: PrimeField>(k: nat) requires 1 <= k <= F::S ensures dgen::<F>(k).fmul(dgen::<F>(k)) == dgen::<F>((k - 1) as nat) {
    l_pow2(dgen::<F>(k)); lemma_pow2_step((F::S - k) as nat); l_pow_mul(F::sroot(), pow2((F::S - k) as nat), 2);
    assert(pow2((F::S - k) as nat) * 2 == pow2((F::S - (k - 1)) as nat));
}
pub proof fn l_dgen_prim<F: PrimeField>(k: nat) requires k <= F::S ensures prim(dgen::<F>(k), k) decreases F::S - k {
    if k == F::S { lemma2_to64(); l_root_prim::<F>(); l_pow1(F::sroot()); }
    else { l_dgen_prim::<F>(k + 1); l_prim_sq(dgen::<F>(k + 1), k + 1); l_dgen_sq::<F>(k + 1); }
}
// g generates the multiplicative subgroup of order 2^k
pub open spec fn prim<F: FieldSpec>(g: F, k: nat) -> bool {
    fpow(g, pow2(k)) == F::f1() && (k >= 1 ==> fpow(g, pow2((k - 1) as nat)) == F::f1().fneg())
}
pub proof fn l_prim_sq<F: FieldSpec>(g: F, k: nat) requires prim(g, k), k >= 1 ensures prim(g.fmul(g), (k - 1) as nat) {
    l_pow2(g);
    lemma_pow2_step((k - 1) as nat);
    l_pow_mul(g, 2, pow2((k - 1) as nat));
    if k >= 2 { lemma_pow2_step((k - 2) as nat); l_pow_mul(g, 2, pow2((k - 2) as nat)); }
}
pub proof fn l_m1_ne_1<F: PrimeField>() ensures F::f1().fneg() != F::f1() {
    F::ax_two(); F::ax_neg(F::f1());
}
pub proof fn l_m1_pow<F: FieldSpec>(m: nat) ensures fpow(F::f1().fneg(), m) == if m % 2 == 0 { F::f1() } else { F::f1().fneg() } decreases m {
    if m > 0 { l_m1_pow::<F>((m - 1) as nat); l_pow_step(F::f1().fneg(), (m - 1) as nat);
        F::ax_one(F::f1().fneg()); l_neg_one_mul(F::f1().fneg()); l_neg_neg(F::f1()); }
}
// exact multiplicative order
pub proof fn l_prim_order<F: PrimeField>(g: F, k: nat, m: nat) requires prim(g, k), 0 < m < pow2(k) ensures fpow(g, m) != F::f1() decreases k {
    l_m1_ne_1::<F>();
    lemma2_to64();
    if k >= 1 {
        lemma_pow2_step((k - 1) as nat);
        if m % 2 == 1 {
            if fpow(g, m) == F::f1() {
                l_pow_one::<F>(pow2((k - 1) as nat));
                l_pow_mul(g, m, pow2((k - 1) as nat));
                l_pow_mul(g, pow2((k - 1) as nat), m);
                assert(m * pow2((k - 1) as nat) == pow2((k - 1) as nat) * m) by (nonlinear_arith);
                l_m1_pow::<F>(m);
            }
        } else {
            l_prim_sq(g, k);
            l_pow2(g);
            l_pow_mul(g, 2, m / 2);
            l_prim_order(g.fmul(g), (k - 1) as nat, m / 2);
        }
    }
}
pub proof fn l_prim_nonzero<F: FieldSpec>(g: F, k: nat) requires prim(g, k) ensures g != F::f0() {
    lemma_pow2_pos(k);
    F::ax_one_ne_zero();
    if g == F::f0() { l_pow_step(g, (pow2(k) - 1) as nat); l_mul_zero(fpow(g, (pow2(k) - 1) as nat)); }
}
pub proof fn l_root_prim<F: PrimeField>() ensures prim(F::sroot(), F::S as nat) {
    F::ax_s(); F::ax_root();
    lemma_pow2_step((F::S - 1) as nat);
    l_pow_mul(F::sroot(), pow2((F::S - 1) as nat), 2);
    l_pow2(F::f1().fneg());
    l_neg_one_mul(F::f1().fneg());
    l_neg_neg(F::f1());
    assert(pow2((F::S - 1) as nat) * 2 == pow2(F::S as nat));
}
//@@ fn src/domains/mod.rs Domain::new_for_size ret=r
ensures
  np2(size as int) <= pow2(F::S as nat) && np2(size as int) < 0x1_0000_0000_0000_0000 ==> r is Ok,
  np2(size as int) > pow2(F::S as nat) || np2(size as int) >= 0x1_0000_0000_0000_0000 ==> r is Err,
  r is Ok ==> r->Ok_0.size == np2(size as int) && r->Ok_0.wf()
//@@ begin
  let ghost size0 = size as int;
  proof { F::ax_s(); lemma_np2(size as int); lemma2_to64_rest(); lemma_np2_big(size as int); }
//@@ loop 1 before
  proof { lemma_is_p2(size as int); lemma2_to64(); }
//@@ loop 1
  invariant is_p2(size as int), k >= 1, power_of_two <= 64, size == k * pow2(power_of_two as nat), is_p2(k as int),
    size <= 0x8000_0000_0000_0000,
  decreases k
//@@ loop 1 start
  proof { lemma_is_p2(k as int); lemma2_to64(); if lg2(k as int) == 0 { } else { lemma_pow2_step((lg2(k as int) - 1) as nat); }
    assert(k >> 1 == k / 2) by (bit_vector);
    lemma_pow2_step(power_of_two as nat);
    let ghost h = k / 2; assert(k == 2 * h);
    assert(k * pow2(power_of_two as nat) == h * pow2((power_of_two + 1) as nat)) by (nonlinear_arith) requires k == 2 * h, pow2((power_of_two + 1) as nat) == 2 * pow2(power_of_two as nat);
    assert(is_p2(h as int));
    lemma2_to64_rest();
    if power_of_two >= 63 { lemma_pow2_le(63, power_of_two as nat);
       assert(k * pow2(power_of_two as nat) >= 2 * pow2(63)) by (nonlinear_arith) requires k >= 2, pow2(power_of_two as nat) >= pow2(63); assert(false); }
  }
//@@ loop 1 after
  proof { lemma2_to64_rest();
    if power_of_two > F::S { lemma_pow2_strictly_increases(F::S as nat, power_of_two as nat); }
    else { lemma_pow2_le(power_of_two as nat, F::S as nat); }
    l_root_prim::<F>(); l_pow1(F::sroot()); lemma2_to64(); }
//@@ loop 2
  invariant vx_n2 == max_power_of_two, power_of_two <= vx_k2 <= vx_n2,
     max_power_of_two == F::S, power_of_two <= max_power_of_two,
     prim(generator, (max_power_of_two - (vx_k2 - power_of_two)) as nat), generator == dgen::<F>((max_power_of_two - (vx_k2 - power_of_two)) as nat),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_dgen_sq::<F>((max_power_of_two - (vx_k2 - 1 - power_of_two)) as nat); l_prim_sq(generator, (max_power_of_two - (vx_k2 - 1 - power_of_two)) as nat); }
//@@ endfn
