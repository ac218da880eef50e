// ---- blake2s: the digest is an (unknown) function of the parameters and the absorbed bytes ----
#[verifier::external_body]
pub struct State { x: u8 }
#[verifier::external_body]
pub struct Hash { x: u8 }
pub uninterp spec fn blake(params: int, s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_blake_len(p: int, s: Seq<u8>) ensures #[trigger] blake(p, s).len() == 32;
impl State {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn params(&self) -> int;
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@, final(self).params() == old(self).params() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(&self) -> (r: Hash) ensures r@ == blake(self.params(), self@) { unimplemented!() }
}
impl Hash {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
}
// the two lazy statics: fixed parameters, nothing absorbed yet
#[verifier::external_body]
fn vx_tree_state() -> (r: State) ensures r@ == Seq::<u8>::empty(), r.params() == 0 { unimplemented!() }
#[verifier::external_body]
fn vx_transcript_state() -> (r: State) ensures r@ == Seq::<u8>::empty(), r.params() == 1 { unimplemented!() }
#[verifier::external_body]
fn vx_size_of_repr<R: PrimeFieldRepr>() -> (r: usize) ensures r == 8 * R::nl() { unimplemented!() }

// ---- digest to field ----
pub open spec fn dig_limbs(b: Seq<u8>, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| be_limb(b, 8 * (n - 1 - i))) }
pub open spec fn shave1(l: u64, cap: int, i: int) -> u64 { if cap <= 64 * i { 0 } else if cap - 64 * i >= 64 { l } else { (l as nat % pow2((cap - 64 * i) as nat)) as u64 } }
pub open spec fn shave(l: Seq<u64>, cap: int) -> Seq<u64> { Seq::new(l.len(), |i: int| shave1(l[i], cap, i)) }
// the value a digest is mapped to: its low CAPACITY bits, read big-endian into the element's limbs
pub open spec fn dig_val<F: PrimeField>(b: Seq<u8>) -> nat {
    let n = <F::Repr as PrimeFieldRepr>::nl() as int;
    lval(dig_limbs(b, n), n) % pow2(F::CAPACITY as nat)
}
pub proof fn l_lval_bound(l: Seq<u64>, n: int) requires 0 <= n <= l.len() ensures lval(l, n) < pow2((64 * n) as nat) decreases n {
    lemma2_to64(); lemma2_to64_rest();
    if n > 0 {
        l_lval_bound(l, n - 1);
        lemma_pow2_adds((64 * (n - 1)) as nat, 64);
        let p = pow2((64 * (n - 1)) as nat); let d = l[n - 1] as nat;
        assert(lval(l, n - 1) + d * p < 0x1_0000_0000_0000_0000 * p) by (nonlinear_arith) requires lval(l, n - 1) < p, d < 0x1_0000_0000_0000_0000;
        assert((64 * (n - 1) + 64) == 64 * n);
    }
}
pub proof fn l_shave(l: Seq<u64>, cap: int, n: int) requires 0 <= n <= l.len(), cap >= 0
    ensures lval(shave(l, cap), n) == lval(l, n) % pow2(cap as nat) decreases n
{
    lemma2_to64(); lemma2_to64_rest();
    let s = shave(l, cap); let pc = pow2(cap as nat);
    lemma_pow2_pos(cap as nat);
    if n <= 0 { lemma_small_mod(0, pc); }
    else {
        l_shave(l, cap, n - 1); l_lval_bound(l, n); l_lval_bound(l, n - 1);
        let e = 64 * (n - 1); let p = pow2(e as nat); let d = l[n - 1] as nat; let a = lval(l, n - 1);
        lemma_pow2_pos(e as nat);
        if cap <= e {
            lemma_pow2_adds(cap as nat, (e - cap) as nat);
            let q = pow2((e - cap) as nat);
            assert(d * p == (d * q) * pc) by (nonlinear_arith) requires p == pc * q;
            lemma_mod_multiples_vanish((d * q) as int, a as int, pc as int);
            assert(pc * (d * q) + a == a + d * p) by (nonlinear_arith) requires d * p == (d * q) * pc;
            assert(s[n - 1] == 0); assert(0 * p == 0);
        } else {
            lemma_pow2_adds(e as nat, (cap - e) as nat);
            let q = pow2((cap - e) as nat); lemma_pow2_pos((cap - e) as nat);
            // the lower limbs fit below the cut
            lemma_pow2_mono(e as nat, cap as nat);
            lemma_small_mod(a, pc);
            assert(lval(s, n - 1) == a);
            if cap - e >= 64 {
                lemma_pow2_mono((64 * n) as nat, cap as nat);
                lemma_small_mod(lval(l, n), pc);
            } else {
                let h = d / q; let r = d % q;
                lemma_fundamental_div_mod(d as int, q as int);
                lemma_mod_bound(d as int, q as int);
                assert(a + d * p == pc * h + (a + r * p)) by (nonlinear_arith) requires d == q * h + r, pc == p * q;
                assert(a + r * p < pc) by (nonlinear_arith) requires a < p, r + 1 <= q, pc == p * q;
                lemma_mod_multiples_vanish(h as int, (a + r * p) as int, pc as int);
                lemma_small_mod((a + r * p) as nat, pc);
                lemma_pow2_mono((cap - e) as nat, 64);
                assert(s[n - 1] as nat == r);
            }
        }
    }
}
pub proof fn lemma_pow2_mono(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) {
    lemma_pow2_adds(a, (b - a) as nat); lemma_pow2_pos((b - a) as nat);
    let x = pow2(a); let y = pow2((b - a) as nat);
    assert(x <= x * y) by (nonlinear_arith) requires y >= 1, x >= 0;
}
pub proof fn l_mask(l: u64, k: u64) requires k < 64 ensures pow2(k as nat) <= u64::MAX, (1u64 << k) as nat == pow2(k as nat), (1u64 << k) >= 1, l & (((1u64 << k) - 1) as u64) == l as nat % pow2(k as nat) {
    lemma2_to64(); lemma2_to64_rest();
    lemma_pow2_mono(k as nat, 63);
    vstd::bits::lemma_u64_shl_is_mul(1, k);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(l, k as nat);
    vstd::bits::lemma_low_bits_mask_values();
    lemma_pow2_pos(k as nat);
}
// dropping the digest to CAPACITY bits always lands in the field
pub proof fn l_dig<F: PrimeField>(b: Seq<u8>) ensures dig_val::<F>(b) < F::charn(), dig_val::<F>(b) < pow2(F::CAPACITY as nat) {
    F::ax_bits(); lemma_pow2_pos(F::CAPACITY as nat);
    let n = <F::Repr as PrimeFieldRepr>::nl() as int;
    lemma_mod_bound(lval(dig_limbs(b, n), n) as int, pow2(F::CAPACITY as nat) as int);
}

// ---- fixed-width encodings are injective ----
pub open spec fn limb_of(v: nat, i: int) -> u64 { ((v / pow2((64 * i) as nat)) % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn limbs_of(v: nat, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| limb_of(v, i)) }
pub proof fn l_limbs_of(l: Seq<u64>, n: int) requires 0 <= n <= l.len() ensures forall|i: int| 0 <= i < n ==> limb_of(lval(l, n), i) == #[trigger] l[i] decreases n {
    lemma2_to64(); lemma2_to64_rest();
    if n > 0 {
        l_limbs_of(l, n - 1); l_lval_bound(l, n - 1);
        let e = 64 * (n - 1); let p = pow2(e as nat); let d = l[n - 1] as nat; let a = lval(l, n - 1);
        lemma_pow2_pos(e as nat);
        assert forall|i: int| 0 <= i < n implies limb_of(lval(l, n), i) == #[trigger] l[i] by {
            if i == n - 1 {
                lemma_fundamental_div_mod_converse((a + d * p) as int, p as int, d as int, a as int);
                lemma_small_mod(d, 0x1_0000_0000_0000_0000);
            } else {
                // p = 2^(64i) * 2^64 * 2^(64(n-2-i))
                let b = pow2((64 * i) as nat); let t = pow2((64 * (n - 2 - i)) as nat); let w = 0x1_0000_0000_0000_0000nat;
                lemma_pow2_pos((64 * i) as nat);
                lemma_pow2_adds((64 * i) as nat, 64); lemma_pow2_adds((64 * (i + 1)) as nat, (64 * (n - 2 - i)) as nat);
                assert(64 * (i + 1) + 64 * (n - 2 - i) == e);
                assert(p == b * (w * t)) by (nonlinear_arith) requires p == (b * w) * t;
                assert(a + d * p == b * (d * (w * t)) + a) by (nonlinear_arith) requires p == b * (w * t);
                lemma_div_multiples_vanish_plus(a as int, b as int, (d * (w * t)) as int);
                let y = a / b;
                assert(d * (w * t) == w * (d * t)) by (nonlinear_arith);
                lemma_mod_multiples_vanish((d * t) as int, y as int, w as int);
                assert((d * (w * t) + y) % w == y % w);
                assert(l[i] == limb_of(a, i));
            }
        }
    }
}
pub proof fn lemma_div_multiples_vanish_plus(a: int, b: int, k: int) requires a >= 0, b > 0, k >= 0 ensures (b * k + a) / b == k + a / b {
    lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    assert(b * k + a == (k + a / b) * b + a % b) by (nonlinear_arith) requires a == b * (a / b) + a % b;
    lemma_fundamental_div_mod_converse(b * k + a, b, k + a / b, a % b);
}
// big-endian bytes of an element: a function of its canonical integer
pub open spec fn elem_bytes<F: PrimeField>(x: F) -> Seq<u8> { sp_be(limbs_of(x.canon(), <F::Repr as PrimeFieldRepr>::nl() as int)) }
pub proof fn l_byte_inj(a: u64, b: u64) requires forall|i: int| 0 <= i < 8 ==> #[trigger] limb_byte(a, i) == limb_byte(b, i) ensures a == b {
    assert(limb_byte(a, 0) == limb_byte(b, 0) && limb_byte(a, 1) == limb_byte(b, 1) && limb_byte(a, 2) == limb_byte(b, 2) && limb_byte(a, 3) == limb_byte(b, 3)
        && limb_byte(a, 4) == limb_byte(b, 4) && limb_byte(a, 5) == limb_byte(b, 5) && limb_byte(a, 6) == limb_byte(b, 6) && limb_byte(a, 7) == limb_byte(b, 7));
    assert(((a >> 0u64) & 0xff) as u8 == ((b >> 0u64) & 0xff) as u8 && ((a >> 8u64) & 0xff) as u8 == ((b >> 8u64) & 0xff) as u8 && ((a >> 16u64) & 0xff) as u8 == ((b >> 16u64) & 0xff) as u8
        && ((a >> 24u64) & 0xff) as u8 == ((b >> 24u64) & 0xff) as u8 && ((a >> 32u64) & 0xff) as u8 == ((b >> 32u64) & 0xff) as u8 && ((a >> 40u64) & 0xff) as u8 == ((b >> 40u64) & 0xff) as u8
        && ((a >> 48u64) & 0xff) as u8 == ((b >> 48u64) & 0xff) as u8 && ((a >> 56u64) & 0xff) as u8 == ((b >> 56u64) & 0xff) as u8 ==> a == b) by (bit_vector);
}
pub proof fn l_sp_be_inj(l: Seq<u64>, m: Seq<u64>) requires l.len() == m.len(), sp_be(l) == sp_be(m) ensures l == m {
    let n = l.len() as int;
    assert forall|k: int| 0 <= k < n implies l[k] == m[k] by {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] limb_byte(l[k], i) == limb_byte(m[k], i) by {
            let j = 8 * (n - 1 - k) + (7 - i);
            assert(j / 8 == n - 1 - k && j % 8 == 7 - i);
            assert(0 <= j < 8 * n); let a = j / 8; let b = j % 8;
            assert(sp_be(l)[j] == limb_byte(l[n - 1 - a], 7 - b)); assert(sp_be(m)[j] == limb_byte(m[n - 1 - a], 7 - b));
            assert(n - 1 - a == k && 7 - b == i); assert(sp_be(l)[j] == sp_be(m)[j]);
        }
        l_byte_inj(l[k], m[k]);
    }
    assert(l =~= m);
}
pub proof fn l_sp_le_inj(l: Seq<u64>, m: Seq<u64>) requires l.len() == m.len(), sp_le(l) == sp_le(m) ensures l == m {
    let n = l.len() as int;
    assert forall|k: int| 0 <= k < n implies l[k] == m[k] by {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] limb_byte(l[k], i) == limb_byte(m[k], i) by {
            let j = 8 * k + i;
            assert(j / 8 == k && j % 8 == i);
            assert(0 <= j < 8 * n); let a = j / 8; let b = j % 8;
            assert(sp_le(l)[j] == limb_byte(l[a], b)); assert(sp_le(m)[j] == limb_byte(m[a], b));
            assert(a == k && b == i); assert(sp_le(l)[j] == sp_le(m)[j]);
        }
        l_byte_inj(l[k], m[k]);
    }
    assert(l =~= m);
}
pub proof fn l_lval_ext(l: Seq<u64>, m: Seq<u64>, n: int) requires forall|i: int| 0 <= i < n ==> l[i] == m[i] ensures lval(l, n) == lval(m, n) decreases n { if n > 0 { l_lval_ext(l, m, n - 1); } }
// value < 2^(64 n) is recovered from its limbs
pub proof fn l_limbs_val(v: nat, n: int) requires n >= 0 ensures lval(limbs_of(v, n), n) == v % pow2((64 * n) as nat) decreases n {
    lemma2_to64(); lemma2_to64_rest();
    if n > 0 {
        l_limbs_val(v, n - 1);
        l_lval_ext(limbs_of(v, n), limbs_of(v, n - 1), n - 1);
        let p = pow2((64 * (n - 1)) as nat); let w = 0x1_0000_0000_0000_0000nat;
        lemma_pow2_pos((64 * (n - 1)) as nat); lemma_pow2_adds((64 * (n - 1)) as nat, 64);
        assert(64 * (n - 1) + 64 == 64 * n);
        let y = v / p; let r = v % p; let h = y / w; let d = y % w;
        lemma_fundamental_div_mod(v as int, p as int); lemma_fundamental_div_mod(y as int, w as int); lemma_mod_bound(v as int, p as int); lemma_mod_bound(y as int, w as int);
        assert(v == (p * w) * h + (r + d * p)) by (nonlinear_arith) requires v == p * y + r, y == w * h + d;
        assert(r + d * p < p * w) by (nonlinear_arith) requires r < p, d + 1 <= w;
        lemma_mod_multiples_vanish(h as int, (r + d * p) as int, (p * w) as int);
        lemma_small_mod((r + d * p) as nat, p * w);
    } else { assert(v % 1 == 0); }
}
pub proof fn l_elem_bytes_inj<F: PrimeField>(x: F, y: F) requires elem_bytes(x) == elem_bytes(y) ensures x == y {
    let n = <F::Repr as PrimeFieldRepr>::nl() as int;
    F::ax_repr(x, y); F::ax_repr(y, x); F::ax_bits();
    l_sp_be_inj(limbs_of(x.canon(), n), limbs_of(y.canon(), n));
    lemma_pow2_mono(F::NUM_BITS as nat, (64 * n) as nat);
    l_limbs_val(x.canon(), n); l_limbs_val(y.canon(), n);
    lemma_small_mod(x.canon(), pow2((64 * n) as nat)); lemma_small_mod(y.canon(), pow2((64 * n) as nat));
}
