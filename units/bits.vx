// ---- powers of two and machine shifts ----
pub proof fn lemma_shl1(k: u64)
    requires k < 64
    ensures (1u64 << k) == pow2(k as nat), (1usize << (k as usize)) == pow2(k as nat), pow2(k as nat) <= 0x8000_0000_0000_0000
{
    lemma2_to64();
    lemma2_to64_rest();
    if k < 63 { lemma_pow2_strictly_increases(k as nat, 63); }
    vstd::bits::lemma_u64_shl_is_mul(1u64, k);
    vstd::bits::lemma_usize_shl_is_mul(1usize, k as usize);
}
pub proof fn lemma_pow2_pos_(k: nat) ensures pow2(k) >= 1 { lemma_pow2_pos(k); }
pub proof fn lemma_pow2_step(k: nat) ensures pow2(k + 1) == 2 * pow2(k), pow2(k) >= 1 { lemma_pow2_unfold(k + 1); lemma_pow2_pos(k); }
pub proof fn lemma_pow2_le(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) { if a < b { lemma_pow2_strictly_increases(a, b); } }
pub proof fn lemma_pow2_inj(a: nat, b: nat) requires pow2(a) == pow2(b) ensures a == b {
    if a < b { lemma_pow2_strictly_increases(a, b); }
    if b < a { lemma_pow2_strictly_increases(b, a); }
}
pub proof fn lemma_pow2_mul(a: nat, b: nat) ensures pow2(a + b) == pow2(a) * pow2(b) { lemma_pow2_adds(a, b); }
pub open spec fn is_p2(n: int) -> bool { exists|k: nat| n == #[trigger] pow2(k) }
pub open spec fn lg2(n: int) -> nat decreases n { if n <= 1 { 0 } else { lg2(n / 2) + 1 } }
pub proof fn lemma_lg2_pow2(k: nat) ensures lg2(pow2(k) as int) == k decreases k {
    lemma_pow2_pos(k);
    if k == 0 { lemma2_to64(); } else { lemma_pow2_step((k - 1) as nat); lemma_pow2_pos((k-1) as nat); lemma_lg2_pow2((k - 1) as nat); }
}
pub proof fn lemma_is_p2(n: int) requires is_p2(n) ensures n == pow2(lg2(n)), n >= 1 {
    let k = choose|k: nat| n == #[trigger] pow2(k); lemma_lg2_pow2(k); lemma_pow2_pos(k);
}
// bracket: lg2 is the floor of the logarithm
pub proof fn lemma_lg2_bracket(n: int) requires n >= 1 ensures pow2(lg2(n)) <= n < pow2(lg2(n) + 1) decreases n {
    if n == 1 { lemma2_to64(); } else {
        lemma_lg2_bracket(n / 2); lemma_pow2_step(lg2(n / 2)); lemma_pow2_step(lg2(n / 2) + 1);
    }
}
pub assume_specification [ u64::is_power_of_two ](x: u64) -> (r: bool) ensures r <==> is_p2(x as int);
pub assume_specification [ usize::is_power_of_two ](x: usize) -> (r: bool) ensures r <==> is_p2(x as int);
pub open spec fn np2(n: int) -> int { if n <= 1 { 1 } else { pow2(lg2(n - 1) + 1) as int } }
pub proof fn lemma_np2(n: int)
    requires n >= 0
    ensures is_p2(np2(n)), np2(n) >= n, np2(n) >= 1, n >= 2 ==> np2(n) < 2 * n, is_p2(n) ==> np2(n) == n,
        forall|k: nat| pow2(k) >= n ==> #[trigger] pow2(k) >= np2(n),
{
    if n <= 1 { lemma2_to64(); assert(np2(n) == pow2(0));
        assert forall|k: nat| pow2(k) >= n implies #[trigger] pow2(k) >= np2(n) by { lemma_pow2_pos(k); } }
    else {
        lemma_lg2_bracket(n - 1);
        lemma_pow2_step(lg2(n - 1));
        assert forall|k: nat| pow2(k) >= n implies #[trigger] pow2(k) >= np2(n) by {
            if k <= lg2(n - 1) { lemma_pow2_le(k, lg2(n - 1)); } else { lemma_pow2_le(lg2(n - 1) + 1, k); }
        }
        if is_p2(n) { lemma_is_p2(n); assert(pow2(lg2(n)) >= np2(n)); }
    }
}
pub assume_specification [ u64::next_power_of_two ](x: u64) -> (r: u64)
    requires x <= 0x8000_0000_0000_0000
    ensures r == np2(x as int);
pub assume_specification [ u64::checked_next_power_of_two ](x: u64) -> (r: Option<u64>)
    ensures x <= 0x8000_0000_0000_0000 ==> r == Some(np2(x as int) as u64) && np2(x as int) <= 0x8000_0000_0000_0000, x > 0x8000_0000_0000_0000 ==> r is None;
pub assume_specification [ usize::next_power_of_two ](x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000
    ensures r == np2(x as int);
pub proof fn lemma_shl_ty(k: u32) requires k < 64 ensures (1usize << k) == (1usize << (k as usize)), (1u64 << k) == (1u64 << (k as u64)) {
    assert((1usize << k) == (1usize << (k as usize))) by (bit_vector) requires k < 64;
    assert((1u64 << k) == (1u64 << (k as u64))) by (bit_vector) requires k < 64;
}
pub proof fn lemma_lg2_unique(n: int, k: nat) requires pow2(k) <= n < pow2(k + 1) ensures lg2(n) == k {
    lemma_pow2_pos(k);
    lemma_lg2_bracket(n);
    if lg2(n) < k { lemma_pow2_le(lg2(n) + 1, k); }
    if lg2(n) > k { lemma_pow2_le(k + 1, lg2(n)); }
}
pub proof fn lemma_np2_big(n: int) requires 0 <= n ensures n > 0x8000_0000_0000_0000 <==> np2(n) >= 0x1_0000_0000_0000_0000 {
    lemma2_to64_rest(); lemma2_to64(); lemma_np2(n); lemma_pow2_step(63);
    assert(pow2(63) == 0x8000_0000_0000_0000);
    if n <= 0x8000_0000_0000_0000 { assert(pow2(63) >= np2(n)); }
    else { lemma_is_p2(np2(n)); if lg2(np2(n)) <= 63 { lemma_pow2_le(lg2(np2(n)), 63); } else { lemma_pow2_le(64, lg2(np2(n))); } }
}
