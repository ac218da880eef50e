// ---- query index from challenge bytes: real code (the verifier's; the prover calls the same function) ----
pub trait VxAsRef { spec fn sb(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.sb(); }
// the integer the last eight bytes stand for, most significant first
pub open spec fn tail_u64(b: Seq<u8>) -> u64 { be_limb(b, b.len() - 8) }
pub open spec fn chal_skip(x: int, n: int) -> int { (x + 1) % n }
pub open spec fn chal_index(b: Seq<u8>, n: int, factor: int) -> int {
    let x0 = tail_u64(b) as int % n;
    let x1 = if x0 % factor == 0 { chal_skip(x0, n) } else { x0 };
    if x1 % 2 == 0 { chal_skip(x1, n) } else { x1 }
}
// byteorder::BigEndian::read_u64 (panics below eight bytes)
#[verifier::external_body]
fn vx_be_u64(b: &[u8]) -> (r: u64) requires b@.len() >= 8 ensures r == be_limb(b@, 0) { unimplemented!() }
//@@ subst "S: AsRef<[u8]>" => "S: VxAsRef"
//@@ subst "BigEndian::read_u64" => "vx_be_u64"
//@@ fn src/verifier/mod.rs Verifier::bytes_to_challenge_index ret=r free
requires bytes.sb().len() >= 8, 1 <= lde_factor, 1 <= lde_size < usize::MAX
ensures r == chal_index(bytes.sb(), lde_size as int, lde_factor as int), r < lde_size
//@@ begin
  proof { let b = bytes.sb(); assert(b.subrange(b.len() - 8, b.len() as int).len() == 8); }
//@@ endfn
// On an even domain the index is odd: the point lies in no smaller 2-power subgroup, in particular (for a
// power-of-two blow-up of at least 2) not on the domain the trace was interpolated on.
pub proof fn lemma_chal_odd(b: Seq<u8>, n: int, factor: int)
    requires n >= 2, n % 2 == 0, factor >= 1
    ensures 0 <= chal_index(b, n, factor) < n, chal_index(b, n, factor) % 2 == 1, factor % 2 == 0 ==> chal_index(b, n, factor) % factor != 0
{
    let x0 = tail_u64(b) as int % n;
    let x1 = if x0 % factor == 0 { chal_skip(x0, n) } else { x0 };
    assert(0 <= x1 < n);
    let r = chal_index(b, n, factor);
    if x1 % 2 == 0 { assert(x1 + 1 < n) by (nonlinear_arith) requires x1 % 2 == 0, n % 2 == 0, x1 < n; vstd::arithmetic::div_mod::lemma_small_mod((x1 + 1) as nat, n as nat); }
    assert(r % 2 == 1);
    if factor % 2 == 0 && r % factor == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, factor);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(factor, 2);
        let k = r / factor; let h = factor / 2;
        assert(r == 2 * (h * k)) by (nonlinear_arith) requires r == factor * k, factor == 2 * h;
    }
}
// it is a function of the last eight bytes alone, so a 32-byte challenge fixes it
pub proof fn lemma_chal_fn(a: Seq<u8>, b: Seq<u8>, n: int, factor: int)
    requires a.len() >= 8, b.len() >= 8, a.subrange(a.len() - 8, a.len() as int) == b.subrange(b.len() - 8, b.len() as int)
    ensures chal_index(a, n, factor) == chal_index(b, n, factor)
{
    let x = a.subrange(a.len() - 8, a.len() as int); let y = b.subrange(b.len() - 8, b.len() as int);
    assert(x[0] == a[a.len() - 8 + 0] && y[0] == b[b.len() - 8 + 0]);
    assert(x[1] == a[a.len() - 8 + 1] && y[1] == b[b.len() - 8 + 1]);
    assert(x[2] == a[a.len() - 8 + 2] && y[2] == b[b.len() - 8 + 2]);
    assert(x[3] == a[a.len() - 8 + 3] && y[3] == b[b.len() - 8 + 3]);
    assert(x[4] == a[a.len() - 8 + 4] && y[4] == b[b.len() - 8 + 4]);
    assert(x[5] == a[a.len() - 8 + 5] && y[5] == b[b.len() - 8 + 5]);
    assert(x[6] == a[a.len() - 8 + 6] && y[6] == b[b.len() - 8 + 6]);
    assert(x[7] == a[a.len() - 8 + 7] && y[7] == b[b.len() - 8 + 7]);
    assert(be_limb(a, a.len() - 8) == be_limb(b, b.len() - 8));
}
