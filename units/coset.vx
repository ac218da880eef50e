// ---- FRI coset maps (C02) ----
pub open spec fn sp_coset(i: int, n: int) -> Seq<usize> {
    if i < n / 2 { seq![i as usize, (i + n / 2) as usize] } else { seq![(i - n / 2) as usize, i as usize] }
}
//@@ fn src/domains/mod.rs Domain::coset_for_natural_index_and_size ret=r
requires domain_size > 1, is_p2(domain_size as int), natural_index < domain_size
ensures r@ == sp_coset(natural_index as int, domain_size as int)
//@@ begin
  proof { lemma_half(natural_index as int, domain_size as int); }
//@@ endfn
//@@ fn src/domains/mod.rs Domain::index_and_size_for_next_domain ret=r
requires domain_size > 1, is_p2(domain_size as int), natural_index < domain_size
ensures r.0 == natural_index as int % (domain_size as int / 2), r.1 == domain_size / 2
//@@ begin
  proof { lemma_half(natural_index as int, domain_size as int); }
//@@ endfn
pub proof fn lemma_half(i: int, n: int)
    requires is_p2(n), n > 1, 0 <= i < n, n <= usize::MAX
    ensures n % 2 == 0, n / 2 >= 1, is_p2(n / 2), n <= 0x8000_0000_0000_0000,
      (i + n / 2) % n == if i < n / 2 { i + n / 2 } else { i - n / 2 },
      i % (n / 2) == if i < n / 2 { i } else { i - n / 2 },
{
    lemma_is_p2(n); lemma2_to64(); lemma2_to64_rest();
    let k = lg2(n);
    if k == 0 { } else { lemma_pow2_step((k - 1) as nat); }
    if k >= 64 { lemma_pow2_le(64, k); lemma_pow2_step(63); }
    lemma_pow2_le(k, 63);
    let h = n / 2;
    assert(n == 2 * h);
    if i < h { lemma_small_mod((i + h) as nat, n as nat); lemma_small_mod(i as nat, h as nat); }
    else {
        lemma_fundamental_div_mod_converse(i + h, n, 1, i - h);
        lemma_fundamental_div_mod_converse(i, h, 1, i - h);
    }
}
