// ---- the polynomial object and its constructors ----
pub trait PolynomialForm: Sized + Copy + Clone {}
#[derive(Clone, Copy)] pub struct Coefficients;
#[derive(Clone, Copy)] pub struct Values;
impl PolynomialForm for Coefficients {}
impl PolynomialForm for Values {}
//@@ item src/polynomials/mod.rs Polynomial
impl<F: PrimeField, P: PolynomialForm> Polynomial<F, P> {
    // the constants a polynomial carries belong to the domain of its size
    pub open spec fn wf(&self) -> bool {
        &&& self.exp <= F::S && self.exp < 64
        &&& self.coeffs@.len() == pow2(self.exp as nat)
        &&& self.omega == dgen::<F>(self.exp as nat)
        &&& self.omegainv == self.omega.finv()
        &&& self.geninv == F::sgen().finv()
        &&& self.minv == fnat::<F>(pow2(self.exp as nat)).finv()
    }
    pub open spec fn same_domain(&self, o: &Self) -> bool {
        &&& self.exp == o.exp && self.omega == o.omega && self.omegainv == o.omegainv && self.geninv == o.geninv && self.minv == o.minv
        &&& self.coeffs@.len() == o.coeffs@.len()
    }
}
pub open spec fn padded<F: FieldSpec>(s: Seq<F>, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { F::f0() }) }
// smallest 2-power domain exists for this many elements
pub open spec fn admissible<F: PrimeField>(n: int) -> bool { np2(n) <= pow2(F::S as nat) && n <= 0x8000_0000_0000_0000 }

//@@ fn src/polynomials/mod.rs Polynomial::size ret=r
ensures r == self.coeffs@.len()
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::as_ref ret=r
ensures r@ == self.coeffs@
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::as_mut ret=r
ensures r@ == old(self).coeffs@, final(r)@.len() == r@.len() ==> final(self).coeffs@ == final(r)@ && final(self).same_domain(old(self))
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::into_coeffs ret=r
ensures r@ == self.coeffs@
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::from_coeffs ret=r
ensures r is Ok <==> admissible::<F>(coeffs@.len() as int),
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.coeffs@ == padded(coeffs@, np2(coeffs@.len() as int))
//@@ begin
  let ghost c0 = coeffs@;
  proof { lemma_np2(c0.len() as int); lemma_np2_big(c0.len() as int); l_gen_ok::<F>(); }
//@@ stmt "coeffs.resize" before
  proof { l_dom_ok(domain); }
//@@ stmt "coeffs.resize" after
  proof { l_cl0::<F>(); assert(coeffs@ =~= padded(c0, np2(c0.len() as int))); }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::from_values ret=r
ensures r is Ok <==> admissible::<F>(values@.len() as int),
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.coeffs@ == padded(values@, np2(values@.len() as int))
//@@ begin
  let ghost c0 = values@;
  proof { lemma_np2(c0.len() as int); lemma_np2_big(c0.len() as int); l_gen_ok::<F>(); }
//@@ stmt "values.resize" before
  proof { l_dom_ok(domain); }
//@@ stmt "values.resize" after
  proof { l_cl0::<F>(); assert(values@ =~= padded(c0, np2(c0.len() as int))); }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::new_for_size ret=r impl="Coefficients"
ensures r is Ok <==> admissible::<F>(size as int),
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.coeffs@ == Seq::new(np2(size as int) as nat, |i: int| F::f0())
//@@ begin
  proof { assert(padded(Seq::new(size as nat, |i: int| F::f0()), np2(size as int)) =~= Seq::new(np2(size as int) as nat, |i: int| F::f0())); }
//@@ stmt "let coeffs" after
  proof { l_cl0::<F>(); assert(coeffs@ =~= Seq::new(size as nat, |i: int| F::f0())); }
//@@ endfn
//@@ fn src/polynomials/mod.rs Polynomial::new_for_size ret=r impl="Values"
ensures r is Ok <==> admissible::<F>(size as int),
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.coeffs@ == Seq::new(np2(size as int) as nat, |i: int| F::f0())
//@@ begin
  proof { assert(padded(Seq::new(size as nat, |i: int| F::f0()), np2(size as int)) =~= Seq::new(np2(size as int) as nat, |i: int| F::f0())); }
//@@ stmt "let coeffs" after
  proof { l_cl0::<F>(); assert(coeffs@ =~= Seq::new(size as nat, |i: int| F::f0())); }
//@@ endfn
pub proof fn l_gen_ok<F: PrimeField>() ensures F::sgen() != F::f0() { F::ax_gen(); }
pub proof fn l_dom_ok<F: PrimeField>(d: Domain<F>) requires d.wf()
    ensures d.generator != F::f0(), fnat::<F>(d.size as nat) != F::f0(), d.power_of_two < 64, d.power_of_two as u32 == d.power_of_two,
        d.size as usize == d.size, d.size == pow2(d.power_of_two as nat)
{
    l_prim_nonzero(d.generator, d.power_of_two as nat); l_nat_pow2_nonzero::<F>(d.power_of_two as nat);
    lemma2_to64_rest();
    if d.power_of_two >= 64 { lemma_pow2_le(64, d.power_of_two as nat); lemma_pow2_step(63); }
}
