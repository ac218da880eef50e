#![feature(allocator_api)]
#![allow(unused, non_snake_case, non_camel_case_types)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::std_specs::cmp::PartialEqSpec;

verus! {

global size_of usize == 8;

// ======================================================================
// Assumed contract of the field dependency (ff_ce).  Elements are abstract;
// the laws are those of a prime field of odd characteristic with 2-adicity S.
// ======================================================================
pub trait FieldSpec: Sized + Copy {
    spec fn f0() -> Self;
    spec fn f1() -> Self;
    spec fn fadd(self, o: Self) -> Self;
    spec fn fmul(self, o: Self) -> Self;
    spec fn fneg(self) -> Self;
    spec fn finv(self) -> Self;

    proof fn ax_add_comm(a: Self, b: Self) ensures a.fadd(b) == b.fadd(a);
    proof fn ax_add_assoc(a: Self, b: Self, c: Self) ensures a.fadd(b).fadd(c) == a.fadd(b.fadd(c));
    proof fn ax_mul_comm(a: Self, b: Self) ensures a.fmul(b) == b.fmul(a);
    proof fn ax_mul_assoc(a: Self, b: Self, c: Self) ensures a.fmul(b).fmul(c) == a.fmul(b.fmul(c));
    proof fn ax_distr(a: Self, b: Self, c: Self) ensures a.fmul(b.fadd(c)) == a.fmul(b).fadd(a.fmul(c));
    proof fn ax_zero(a: Self) ensures a.fadd(Self::f0()) == a;
    proof fn ax_one(a: Self) ensures a.fmul(Self::f1()) == a;
    proof fn ax_neg(a: Self) ensures a.fadd(a.fneg()) == Self::f0();
    proof fn ax_inv(a: Self) ensures a != Self::f0() ==> a.fmul(a.finv()) == Self::f1();
    proof fn ax_one_ne_zero() ensures Self::f1() != Self::f0();
    // cloning an element yields the element (elements are Copy)
    proof fn ax_clone(a: Self, b: Self) requires cloned(a, b) ensures a == b;
}
pub open spec fn fsub<F: FieldSpec>(a: F, b: F) -> F { a.fadd(b.fneg()) }

pub open spec fn fpow<F: FieldSpec>(a: F, n: nat) -> F decreases n {
    if n == 0 { F::f1() } else { a.fmul(fpow(a, (n - 1) as nat)) }
}

pub open spec fn fnat<F: FieldSpec>(n: nat) -> F decreases n {
    if n == 0 { F::f0() } else { F::f1().fadd(fnat((n - 1) as nat)) }
}


pub trait Field: FieldSpec {
    fn zero() -> (r: Self) ensures r == Self::f0();
    fn one() -> (r: Self) ensures r == Self::f1();
    fn is_zero(&self) -> (r: bool) ensures r <==> *self == Self::f0();
    fn add_assign(&mut self, other: &Self) ensures *final(self) == old(self).fadd(*other);
    fn sub_assign(&mut self, other: &Self) ensures *final(self) == old(self).fadd(other.fneg());
    fn mul_assign(&mut self, other: &Self) ensures *final(self) == old(self).fmul(*other);
    fn negate(&mut self) ensures *final(self) == old(self).fneg();
    fn square(&mut self) ensures *final(self) == old(self).fmul(*old(self));
    fn double(&mut self) ensures *final(self) == old(self).fadd(*old(self));
    fn inverse(&self) -> (r: Option<Self>)
        ensures
            *self == Self::f0() ==> r is None,
            *self != Self::f0() ==> r == Some(self.finv());
    fn pow_u64(&self, exp: u64) -> (r: Self) ensures r == fpow(*self, exp as nat);
}

// byte i (from the least significant) of a 64-bit limb
pub open spec fn limb_byte(l: u64, i: int) -> u8 { ((l >> ((8 * i) as u64)) & 0xffu64) as u8 }
// the limb whose big-endian bytes are b[o..o+8]
pub open spec fn be_limb(b: Seq<u8>, o: int) -> u64 {
    ((b[o] as u64) << 56u64) | ((b[o + 1] as u64) << 48u64) | ((b[o + 2] as u64) << 40u64) | ((b[o + 3] as u64) << 32u64)
    | ((b[o + 4] as u64) << 24u64) | ((b[o + 5] as u64) << 16u64) | ((b[o + 6] as u64) << 8u64) | (b[o + 7] as u64)
}
// the integer a limb vector stands for (least significant limb first)
pub open spec fn lval(l: Seq<u64>, n: int) -> nat decreases n { if n <= 0 { 0 } else { lval(l, n - 1) + l[n - 1] as nat * pow2((64 * (n - 1)) as nat) } }
pub open spec fn sp_le(l: Seq<u64>) -> Seq<u8> { Seq::new(8 * l.len(), |i: int| limb_byte(l[i / 8], i % 8)) }
pub open spec fn sp_be(l: Seq<u64>) -> Seq<u8> { Seq::new(8 * l.len(), |i: int| limb_byte(l[l.len() - 1 - i / 8], 7 - i % 8)) }

// Assumed contract of PrimeFieldRepr: a fixed number of 64-bit limbs; std readers and writers over slices
pub trait PrimeFieldRepr: Sized + Copy {
    spec fn nl() -> nat;
    spec fn limbs(&self) -> Seq<u64>;
    proof fn ax_limbs(&self) ensures self.limbs().len() == Self::nl();
    fn default() -> (r: Self);
    fn as_mut(&mut self) -> (r: &mut [u64])
        ensures r@ == old(self).limbs(), final(self).limbs() == final(r)@;
    fn read_be(&mut self, b: &[u8]) -> (r: Result<(), ()>)
        ensures b@.len() >= 8 * Self::nl() ==> r is Ok && final(self).limbs() == Seq::new(Self::nl(), |i: int| be_limb(b@, 8 * (Self::nl() - 1 - i))),
            b@.len() < 8 * Self::nl() ==> r is Err;
    fn write_be(&self, b: &mut [u8]) -> (r: Result<(), ()>)
        ensures old(b)@.len() >= 8 * Self::nl() ==> r is Ok && final(b)@ == sp_be(self.limbs()) + old(b)@.subrange(8 * Self::nl() as int, old(b)@.len() as int);
    fn write_le(&self, b: &mut [u8]) -> (r: Result<(), ()>)
        ensures old(b)@.len() >= 8 * Self::nl() ==> r is Ok && final(b)@ == sp_le(self.limbs()) + old(b)@.subrange(8 * Self::nl() as int, old(b)@.len() as int);
}

pub trait PrimeField: Field + PartialEq {
    type Repr: PrimeFieldRepr;
    // canonical integer and raw (Montgomery) limbs of an element, the characteristic
    spec fn canon(self) -> nat;
    spec fn raw(self) -> Seq<u64>;
    spec fn charn() -> nat;
    proof fn ax_repr(a: Self, b: Self)
        ensures a.canon() < Self::charn(), a.canon() == b.canon() ==> a == b, a.raw() == b.raw() ==> a == b,
            a.raw().len() == <Self::Repr as PrimeFieldRepr>::nl();
    proof fn ax_bits()
        ensures Self::NUM_BITS >= 2, Self::CAPACITY == Self::NUM_BITS - 1, pow2((Self::NUM_BITS - 1) as nat) <= Self::charn() < pow2(Self::NUM_BITS as nat),
            64 * <Self::Repr as PrimeFieldRepr>::nl() > Self::NUM_BITS, 64 * (<Self::Repr as PrimeFieldRepr>::nl() - 1) <= Self::NUM_BITS;
    fn from_repr(r: Self::Repr) -> (res: Result<Self, ()>)
        ensures res is Ok <==> lval(r.limbs(), <Self::Repr as PrimeFieldRepr>::nl() as int) < Self::charn(),
            res is Ok ==> res->Ok_0.canon() == lval(r.limbs(), <Self::Repr as PrimeFieldRepr>::nl() as int);
    fn into_repr(&self) -> (r: Self::Repr) ensures lval(r.limbs(), <Self::Repr as PrimeFieldRepr>::nl() as int) == self.canon();
    fn into_raw_repr(&self) -> (r: Self::Repr) ensures r.limbs() == self.raw();
    const S: u32;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    spec fn sroot() -> Self;
    spec fn sgen() -> Self;
    proof fn ax_s() ensures 1 <= Self::S;
    proof fn ax_two() ensures Self::f1().fadd(Self::f1()) != Self::f0();
    // root_of_unity() is a primitive 2^S-th root of unity
    proof fn ax_root() ensures fpow(Self::sroot(), pow2((Self::S - 1) as nat)) == Self::f1().fneg();
    proof fn ax_gen() ensures Self::sgen() != Self::f0();
    // the multiplicative generator lies outside every 2-power subgroup
    proof fn ax_gen_coset(k: nat) ensures k <= Self::S ==> fpow(Self::sgen(), pow2(k)) != Self::f1();
    fn root_of_unity() -> (r: Self) ensures r == Self::sroot();
    fn multiplicative_generator() -> (r: Self) ensures r == Self::sgen();
    // F::from_str on the decimal rendering of an integer below the characteristic
    fn from_dec(m: usize) -> (r: Option<Self>) ensures r == Some(fnat::<Self>(m as nat));
    // `==` of field elements is equality (canonical representation)
    fn eq_(&self, o: &Self) -> (r: bool) ensures r <==> *self == *o;
}

// derived `==` of field elements is equality of the (canonically represented) elements
pub axiom fn ax_eq<F: PrimeField>() ensures F::obeys_eq_spec(), forall|a: F, b: F| #[trigger] a.eq_spec(&b) <==> a == b;
fn vx_field_from_dec<F: PrimeField>(m: usize) -> (r: Option<F>) ensures r == Some(fnat::<F>(m as nat)) { F::from_dec(m) }

// ======================================================================
// Runtime helpers the extraction maps std constructs onto
// ======================================================================
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic() -> ! requires false { panic!() }
#[verifier::external_body]
fn vx_string() -> String { String::new() }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn vx_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
// `step_by`: the loop counter advances by the step (std never steps past the end; the counter is
// required not to overflow here, which only strengthens the obligation)
pub uninterp spec fn vx_cov(n: int) -> bool; // reachability probes (cover run only)
pub trait VxStep: Sized { spec fn vx_v(self) -> int; fn vx_adv(self, s: usize) -> (r: Self) requires self.vx_v() + s <= 0xffff_ffff ensures r.vx_v() == self.vx_v() + s; }
impl VxStep for u32 { open spec fn vx_v(self) -> int { self as int } fn vx_adv(self, s: usize) -> (r: Self) { self + s as u32 } }
impl VxStep for usize { open spec fn vx_v(self) -> int { self as int } fn vx_adv(self, s: usize) -> (r: Self) { self + s } }
impl VxStep for u64 { open spec fn vx_v(self) -> int { self as int } fn vx_adv(self, s: usize) -> (r: Self) { self + s as u64 } }
fn vx_step<T: VxStep>(k: T, s: usize) -> (r: T) requires k.vx_v() + s <= 0xffff_ffff ensures r.vx_v() == k.vx_v() + s { k.vx_adv(s) }
fn vx_range_len(a: usize, b: usize) -> (r: usize) ensures r == if b >= a { b - a } else { 0 } { if b >= a { b - a } else { 0 } }

#[verifier::external_body]
fn vx_vec_repeat<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x,
{ vec![x; n] }
fn vx_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); v }
fn vx_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { let mut v = Vec::new(); v.push(a); v.push(b); v }
fn vx_last_cloned<T: Copy>(s: &[T]) -> (r: Option<T>) ensures r == if s@.len() == 0 { None } else { Some(s@[s@.len() - 1]) } { if s.len() == 0 { None } else { Some(s[s.len() - 1]) } }
// Vec::from(&[T])
fn vx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ {
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len() invariant i <= s@.len(), v@ == s@.subrange(0, i as int) decreases s@.len() - i { v.push(s[i]); i = i + 1; proof { assert(v@ =~= s@.subrange(0, i as int)); } }
    proof { assert(s@.subrange(0, i as int) =~= s@); }
    v
}
#[verifier::external_body]
fn vx_own<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

pub open spec fn off(k: int, c: int, len: int) -> int { if k * c <= len { k * c } else { len } }
pub open spec fn num_chunks(len: int, c: int) -> int { (len + c - 1) / c }

#[verifier::external_body]
fn vx_num_chunks(len: usize, c: usize) -> (r: usize) requires c > 0 ensures r == num_chunks(len as int, c as int) { (len + c - 1) / c }

pub proof fn lemma_chunk_step(k: int, c: int, len: int)
    requires 0 <= k < num_chunks(len, c), c > 0, len >= 0
    ensures 0 <= k * c < len, off(k, c, len) == k * c, off(k, c, len) < off(k + 1, c, len) <= len,
        off(k + 1, c, len) == if k * c + c <= len { k * c + c } else { len },
        off(0, c, len) == 0, off(num_chunks(len, c), c, len) == len,
        off(k + 1, c, len) - off(k, c, len) <= c,
{
    let n = num_chunks(len, c);
    lemma_num_chunks(len, c);
    assert(k * c <= (n - 1) * c) by (nonlinear_arith) requires 0 <= k <= n - 1, c > 0;
    assert((k + 1) * c == k * c + c) by (nonlinear_arith);
    assert(0 <= k * c) by (nonlinear_arith) requires 0 <= k, c > 0;
    assert(0 * c == 0);
}
pub proof fn lemma_num_chunks(len: int, c: int)
    requires c > 0, len >= 0
    ensures num_chunks(len, c) >= 0, len > 0 ==> num_chunks(len, c) >= 1 && (num_chunks(len, c) - 1) * c < len,
        num_chunks(len, c) * c >= len, off(num_chunks(len, c), c, len) == len, off(0, c, len) == 0,
        len == 0 ==> num_chunks(len, c) == 0,
{
    let n = num_chunks(len, c);
    lemma_fundamental_div_mod(len + c - 1, c);
    let q = (len + c - 1) % c;
    assert(c * n == n * c) by (nonlinear_arith);
    assert(n * c == len + c - 1 - q);
    assert((n - 1) * c == n * c - c) by (nonlinear_arith);
    if len == 0 { lemma_basic_div(c - 1, c); }
    assert(0 * c == 0);
    assert(n >= 0) by (nonlinear_arith) requires n * c > -1, c > 0;
    if len > 0 { assert(n >= 1) by (nonlinear_arith) requires n * c > 0, c > 0; }
}

#[verifier::external_body]
fn vx_chunk_mut<'a, T>(s: &'a mut [T], i: usize, c: usize) -> (r: &'a mut [T])
    requires c > 0, i < num_chunks(old(s)@.len() as int, c as int),
    ensures
        r@ == old(s)@.subrange(off(i as int, c as int, old(s)@.len() as int), off(i + 1, c as int, old(s)@.len() as int)),
        final(r)@.len() == r@.len(),
        final(s)@ == old(s)@.subrange(0, off(i as int, c as int, old(s)@.len() as int)) + final(r)@
            + old(s)@.subrange(off(i + 1, c as int, old(s)@.len() as int), old(s)@.len() as int),
        final(s)@.len() == old(s)@.len(),
{ s.chunks_mut(c).nth(i).unwrap() }
#[verifier::external_body]
fn vx_chunk<'a, T>(s: &'a [T], i: usize, c: usize) -> (r: &'a [T])
    requires c > 0, i < num_chunks(s@.len() as int, c as int),
    ensures r@ == s@.subrange(off(i as int, c as int, s@.len() as int), off(i + 1, c as int, s@.len() as int)),
{ s.chunks(c).nth(i).unwrap() }

// Vec::as_ref (assumed contract of std)
pub assume_specification<T, A: std::alloc::Allocator>[ <std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref ](v: &std::vec::Vec<T, A>) -> (r: &[T]) ensures r@ == v@;
pub assume_specification<T> [ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);

// slice::sort (assumed contract of std)
#[verifier::external_body]
fn vx_sort(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> final(v)@[i] <= final(v)@[j],
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        old(v)@.len() == 2 ==> final(v)@ == if old(v)@[0] <= old(v)@[1] { old(v)@ } else { seq![old(v)@[1], old(v)@[0]] },
{ v.sort() }
