// ---- parallel radix-2 transform: real code ----
pub proof fn l_prim_down<F: FieldSpec>(g: F, k: nat, c: nat) requires prim(g, k), c <= k ensures prim(fpow(g, pow2(c)), (k - c) as nat) {
    lemma_pow2_mul(c, (k - c) as nat); l_pow_mul(g, pow2(c), pow2((k - c) as nat)); assert((c + (k - c)) as nat == k);
    if k - c >= 1 { lemma_pow2_mul(c, (k - c - 1) as nat); l_pow_mul(g, pow2(c), pow2((k - c - 1) as nat)); assert((c + (k - c - 1)) as nat == (k - 1) as nat); }
}
pub proof fn lemma_shlx(x: usize, k: u32, n1: int) requires k < 64, n1 == pow2(k as nat), x * n1 <= 0xffff_ffff_ffff_ffff ensures (x << k) == x * n1, ((x as u64) << k) == x * n1 {
    assert((x << k) == (x << (k as usize))) by (bit_vector) requires k < 64;
    let y = x as u64;
    assert((y << k) == (y << (k as u64))) by (bit_vector) requires k < 64;
    vstd::bits::lemma_usize_shl_is_mul(x, k as usize);
    vstd::bits::lemma_u64_shl_is_mul(y, k as u64);
}
pub proof fn lemma_maskshr(x: usize, k: u32, c: int) requires k < 63, c == pow2(k as nat) ensures (1usize << k) == c, c >= 1, (x & ((c - 1) as usize)) == x as int % c, (x >> k) == x as int / c {
    lemma_shl1(k as u64); lemma_shl_ty(k); lemma_pow2_pos(k as nat); lemma2_to64();
    assert((x >> k) == (x >> (k as usize))) by (bit_vector) requires k < 64;
    vstd::bits::lemma_usize_low_bits_mask_is_mod(x, k as nat);
    vstd::bits::lemma_usize_shr_is_div(x, k as usize);
    assert(vstd::bits::low_bits_mask(k as nat) == c - 1);
}
pub proof fn lemma_spidx(i: int, s: int, n1: int, c: int) requires 0 <= i < n1, 0 <= s < c ensures 0 <= s * n1, i + s * n1 < c * n1, s * n1 < c * n1 {
    assert(s * n1 + n1 <= c * n1 && 0 <= s * n1) by (nonlinear_arith) requires 0 <= s, s + 1 <= c, n1 > 0;
}
// the element multiplier of row j at position (i, s) is w^(j (i + s n1))
pub proof fn l_elt_step<F: FieldSpec>(w: F, j: int, i: int, s: int, n1: int)
    requires 0 <= j, 0 <= i, 0 <= s, n1 > 0
    ensures fpow(w, (j * (i + s * n1)) as nat).fmul(fpow(w, (j * n1) as nat)) == fpow(w, (j * (i + (s + 1) * n1)) as nat)
{
    assert(j * (i + s * n1) >= 0 && j * n1 >= 0 && j * (i + (s + 1) * n1) == j * (i + s * n1) + j * n1) by (nonlinear_arith) requires 0 <= j, 0 <= i, 0 <= s, n1 > 0;
    l_pow_add(w, (j * (i + s * n1)) as nat, (j * n1) as nat);
}
pub proof fn l_elt_next<F: FieldSpec>(w: F, j: int, i: int, c: int, n1: int)
    requires 0 <= j, 0 <= i, 0 < c, n1 > 0, fpow(w, (c * n1) as nat) == F::f1()
    ensures fpow(w, (j * (i + c * n1)) as nat).fmul(fpow(w, j as nat)) == fpow(w, (j * (i + 1 + 0 * n1)) as nat)
{
    let n = c * n1;
    assert(n > 0) by (nonlinear_arith) requires n == c * n1, c > 0, n1 > 0;
    assert(j * i >= 0 && n * j >= 0 && j * (i + n) == j * i + n * j && j * (i + 1 + 0 * n1) == j * i + j) by (nonlinear_arith) requires 0 <= j, 0 <= i, n > 0;
    l_pow_add(w, (j * i) as nat, (n * j) as nat); l_pow_mul(w, n as nat, j as nat); l_pow_one::<F>(j as nat); F::ax_one(fpow(w, (j * i) as nat));
    l_pow_add(w, (j * i) as nat, j as nat);
}
// what row jj holds once its sub-transform is done
pub open spec fn row_ok<F: FieldSpec>(row: Seq<F>, x: Seq<F>, w: F, c: int, n1: int, jj: int) -> bool {
    row.len() == n1 && forall|k: int| 0 <= k < n1 ==> #[trigger] row[k] == peval(x, fpow(w, (c * k + jj) as nat))
}
pub proof fn l_row_ok<F: FieldSpec>(row: Seq<F>, x: Seq<F>, w: F, c: int, n1: int, jj: int)
    requires c > 0, n1 > 0, 0 <= jj < c, x.len() == c * n1, fpow(w, (c * n1) as nat) == F::f1(), is_dft(row, subv(x, w, jj, c, n1), fpow(w, c as nat))
    ensures row_ok(row, x, w, c, n1, jj)
{
    assert forall|k: int| 0 <= k < n1 implies #[trigger] row[k] == peval(x, fpow(w, (c * k + jj) as nat)) by {
        l_subfft(x, w, c, n1, jj, k); assert(row[k] == peval(subv(x, w, jj, c, n1), fpow(fpow(w, c as nat), k as nat))); }
}
pub open spec fn gathered<F: FieldSpec>(tmp: Seq<Vec<F>>, x: Seq<F>, w: F, c: int, n1: int, i: int) -> F { tmp[i % c]@[i / c] }
pub proof fn l_gather<F: FieldSpec>(tmp: Seq<Vec<F>>, x: Seq<F>, w: F, c: int, n1: int, i: int)
    requires c > 0, n1 > 0, 0 <= i < c * n1, tmp.len() == c, forall|jj: int| 0 <= jj < c ==> row_ok(#[trigger] tmp[jj]@, x, w, c, n1, jj)
    ensures 0 <= i % c < c, 0 <= i / c < n1, tmp[i % c]@.len() == n1, tmp[i % c]@[i / c] == peval(x, fpow(w, i as nat))
{
    lemma_fundamental_div_mod(i, c); lemma_mod_bound(i, c); lemma_div_pos_is_pos(i, c);
    assert(i / c < n1) by (nonlinear_arith) requires i == c * (i / c) + i % c, i < c * n1, i % c >= 0, c > 0;
    assert(row_ok(tmp[i % c]@, x, w, c, n1, i % c));
}
//@@ fn src/fft/fft.rs parallel_fft ret=r
requires log_n < 32, 0 < log_cpus <= log_n, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), worker.wf()
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ begin
  let ghost x = a@; let ghost w = *omega; let ghost log_m = (log_n - log_cpus) as u32;
  let ghost c = pow2(log_cpus as nat) as int; let ghost n1 = pow2(log_m as nat) as int;
  proof { lemma_shl1(log_n as u64); lemma_shl_ty(log_n); lemma_shl1(log_cpus as u64); lemma_shl_ty(log_cpus); lemma_shl1(log_m as u64); lemma_shl_ty(log_m); lemma2_to64_rest(); lemma2_to64();
    lemma_pow2_mul(log_cpus as nat, log_m as nat); lemma_pow2_pos(log_cpus as nat); lemma_pow2_pos(log_m as nat); lemma_pow2_strictly_increases(log_n as nat, 32); 
    lemma_pow2_le(log_cpus as nat, log_n as nat); lemma_pow2_le(log_m as nat, log_n as nat);
    assert(log_cpus as nat + log_m as nat == log_n); l_prim_down(w, log_n as nat, log_cpus as nat); }
//@@ loop 1
  invariant x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c == pow2(log_cpus as nat), n1 == pow2(log_m as nat), c >= 1, n1 >= 1, c * n1 < 0x1_0000_0000, c <= c * n1, n1 <= c * n1, num_cpus == c, w == *omega, prim(w, log_n as nat),
    new_omega == fpow(w, c as nat), prim(new_omega, log_m as nat), (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    vx_n1 == c, vx_k1 <= c, tmp@.len() == c,
    forall|jj: int| 0 <= jj < vx_k1 ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    forall|jj: int| vx_k1 <= jj < c ==> (#[trigger] tmp@[jj])@.len() == n1 && forall|k: int| 0 <= k < n1 ==> tmp@[jj]@[k] == F::f0(),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost jj = vx_i1 as int; let ghost tpre = tmp@;
  proof { lemma_spidx(0, jj, n1, c); lemma_shlx(vx_i1, log_m, n1); }
//@@ loop 2 before
  proof { assert(jj * (0 + 0 * n1) == 0) by (nonlinear_arith); }
//@@ loop 2
  invariant x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c >= 1, n1 >= 1, n1 == pow2(log_m as nat), c * n1 < 0x1_0000_0000, num_cpus == c, w == *omega, prim(w, log_n as nat), (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    0 <= jj < c, omega_j == fpow(w, jj as nat), omega_step == fpow(w, (jj * n1) as nat),
    vx_n2 == n1, vx_k2 <= n1, tmp@.len() == n1, elt == fpow(w, (jj * (vx_k2 + 0 * n1)) as nat),
    forall|k: int| 0 <= k < vx_k2 ==> #[trigger] tmp@[k] == fsum(subx(x, w, jj, k, n1), c),
    forall|k: int| vx_k2 <= k < n1 ==> #[trigger] tmp@[k] == F::f0(),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost ii = vx_i2 as int; let ghost t2 = tmp@;
//@@ loop 3
  invariant x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c >= 1, n1 >= 1, n1 == pow2(log_m as nat), c * n1 < 0x1_0000_0000, num_cpus == c, w == *omega, (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    0 <= jj < c, 0 <= ii < n1, i == ii, omega_step == fpow(w, (jj * n1) as nat),
    vx_n3 == c, vx_k3 <= c, tmp@.len() == n1, t2.len() == n1, elt == fpow(w, (jj * (ii + vx_k3 * n1)) as nat),
    tmp@[ii] == fsum(subx(x, w, jj, ii, n1), vx_k3 as int),
    forall|k: int| 0 <= k < n1 && k != ii ==> #[trigger] tmp@[k] == t2[k],
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  proof { let s = vx_i3 as int; lemma_spidx(ii, s, n1, c); lemma_shlx(vx_i3, log_m, n1); l_elt_step(w, jj, ii, s, n1); lemma_small_mod((ii + s * n1) as nat, (c * n1) as nat);
    assert(s * n1 < 0x1_0000_0000);
    assert(subx(x, w, jj, ii, n1)(s) == x[ii + s * n1].fmul(fpow(w, (jj * (ii + s * n1)) as nat))); }
//@@ loop 3 after
  proof { l_elt_next(w, jj, ii, c, n1); assert(vx_k2 == ii + 1); }
//@@ stmt "serial_fft (" before
  proof { assert(tmp@ =~= subv(x, w, jj, c, n1)); }
//@@ stmt "serial_fft (" after
  proof { l_row_ok(tmp@, x, w, c, n1, jj); }
//@@ loop 4 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 4
  invariant x.len() == c * n1, vx_l1 == c * n1, vx_c1 == chunk, chunk > 0, vx_n4 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k4 <= vx_n4, a@.len() == vx_l1, c == pow2(log_cpus as nat), log_cpus < 32, c >= 1, n1 >= 1, tmp@.len() == c,
    forall|jj: int| 0 <= jj < c ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    forall|i: int| 0 <= i < off(vx_k4 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] a@[i] == peval(x, fpow(w, i as nat)),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost o = off(vx_i4 as int, vx_c1 as int, vx_l1 as int); let ghost o2 = off(vx_i4 + 1, vx_c1 as int, vx_l1 as int); let ghost apre = a@;
  proof { lemma_chunk_step(vx_i4 as int, vx_c1 as int, vx_l1 as int); lemma_maskshr(0, log_cpus, c); }
//@@ loop 5
  invariant x.len() == c * n1, vx_l1 == c * n1, c == pow2(log_cpus as nat), log_cpus < 32, c >= 1, n1 >= 1, tmp@.len() == c, mask == c - 1,
    forall|jj: int| 0 <= jj < c ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    vx_n5 == o2 - o, a@.len() == vx_n5, vx_k5 <= vx_n5, 0 <= o, o2 <= vx_l1, idx == o + vx_k5,
    forall|k: int| 0 <= k < vx_k5 ==> #[trigger] a@[k] == peval(x, fpow(w, (o + k) as nat)),
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  proof { lemma_maskshr(idx, log_cpus, c); l_gather(tmp@, x, w, c, n1, idx as int); }
//@@ loop 4 end
  proof { assert forall|i: int| 0 <= i < o2 implies #[trigger] a@[i] == peval(x, fpow(w, i as nat)) by {
      if i < o { assert(a@[i] == apre[i]); } else { assert(o + (i - o) == i); } } }
//@@ endfn
//@@ fn src/fft/fft.rs best_fft ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), worker.wf(), worker.cpus < 0x8000_0000_0000_0000,
  use_cpus_hint matches Some(h) ==> 1 <= h <= worker.cpus
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ endfn
