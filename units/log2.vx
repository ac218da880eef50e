//@@ fn src/utils/mod.rs log2_floor ret=r
requires 0 < num < 0x8000_0000_0000_0000
ensures r == lg2(num as int), r < 64
//@@ begin
  proof { lemma_shl1(1); lemma2_to64(); }
//@@ loop 1
  invariant pow < 63, pow2(pow as nat) <= num, 0 < num < 0x8000_0000_0000_0000,
  decreases 64 - pow
//@@ loop 1 start
  proof { lemma_shl1((pow + 1) as u64); lemma_shl_ty((pow + 1) as u32); lemma2_to64_rest(); lemma2_to64(); assert(pow2(63) == 0x8000_0000_0000_0000); if pow >= 62 { assert(false); } }
//@@ loop 1 after
  proof { lemma_shl1((pow + 1) as u64); lemma_shl_ty((pow + 1) as u32); lemma_lg2_unique(num as int, pow as nat); }
//@@ endfn
