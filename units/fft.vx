// ---- radix-2 transform: real code ----
pub proof fn lemma_shl32(k: u32) requires k < 32 ensures (1u32 << k) == pow2(k as nat), pow2(k as nat) <= 0x8000_0000 {
    lemma2_to64(); lemma2_to64_rest();
    if k < 31 { lemma_pow2_strictly_increases(k as nat, 31); }
    vstd::bits::lemma_u32_shl_is_mul(1u32, k);
}
//@@ fn src/fft/fft.rs serial_fft::bitreverse ret=r
requires l < 32
ensures r == rev(n as int, l as nat)
//@@ begin
  let ghost n0 = n as int;
  proof { lemma2_to64(); }
//@@ loop 1
  invariant vx_n1 == l, l < 32, vx_k1 <= l, r < pow2(vx_k1 as nat), rev(n0, l as nat) == (r as int) * (pow2((l - vx_k1) as nat) as int) + rev(n as int, (l - vx_k1) as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost rr: u32 = r; let ghost nn: u32 = n;
  proof { let h = pow2((l - vx_k1) as nat) as int; lemma_pow2_step((l - vx_k1) as nat); lemma_pow2_step(vx_i1 as nat); lemma_pow2_le(vx_k1 as nat, 31); lemma2_to64(); lemma2_to64_rest();
    assert(r < 0x4000_0000 * 2 - 0) by { lemma_pow2_le(vx_i1 as nat, 30); }
    assert(r < 0x4000_0000) by { lemma_pow2_le(vx_i1 as nat, 30); }
    assert(((rr << 1u32) | (nn & 1u32)) == 2 * rr + nn % 2 && (nn >> 1u32) == nn / 2) by (bit_vector) requires rr < 0x4000_0000u32;
    let b = n as int % 2; let r0 = r as int;
    assert(r0 * (2 * h) + b * h == (2 * r0 + b) * h) by (nonlinear_arith); }
//@@ loop 1 after
  proof { lemma2_to64(); assert((r as int) * 1 == r); }
//@@ endfn
//@@ fn src/fft/fft.rs serial_fft ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat)
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ begin
  let ghost x = a@; let ghost l = log_n as nat; let ghost om = *omega;
  proof { lemma_shl32(log_n); lemma2_to64(); }
//@@ loop 1 before
  proof { assert forall|i: int| 0 <= i < pow2(l) implies #[trigger] rev(i, l) >= 0 by { l_rev_bound(i, l); } }
//@@ loop 1
  invariant l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, vx_n1 == n, vx_k1 <= n, a@.len() == n,
    forall|i: int| 0 <= i < n ==> #[trigger] a@[i] == (if i < vx_k1 || rev(i, l) < vx_k1 { x[rev(i, l)] } else { x[i] }),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = a@;
  proof { l_rev_bound(vx_i1 as int, l); l_rev_inv(vx_i1 as int, l); }
//@@ loop 1 end
  proof { let k = vx_i1 as int; let rk = rev(k, l);
    assert forall|i: int| 0 <= i < n implies #[trigger] a@[i] == (if i < vx_k1 || rev(i, l) < vx_k1 { x[rev(i, l)] } else { x[i] }) by {
      l_rev_bound(i, l); l_rev_inv(i, l);
      assert(pre[i] == (if i < k || rev(i, l) < k { x[rev(i, l)] } else { x[i] }));
      assert(pre[k] == (if k < k || rev(k, l) < k { x[rev(k, l)] } else { x[k] }));
      assert(pre[rk] == (if rk < k || rev(rk, l) < k { x[rev(rk, l)] } else { x[rk] }));
    } }
//@@ loop 2 before
  proof { assert forall|b: int, j: int| 0 <= b < pow2(l) && 0 <= j < 1 implies a@[b * 1 + j] == #[trigger] fv(x, om, l, 0, b, j) by { l_fv_first(x, om, l, b); l_rev_bound(b, l); } }
//@@ loop 2
  invariant l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, a@.len() == n, om == *omega, prim(om, l), vx_n2 == log_n, vx_k2 <= log_n, m == pow2(vx_k2 as nat),
    forall|b: int, j: int| 0 <= b < pow2((l - vx_k2) as nat) && 0 <= j < m ==> a@[b * m + j] == #[trigger] fv(x, om, l, vx_k2 as nat, b, j),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost mi: int = { let mm: u32 = m; mm as int }; let ghost s = vx_i2 as nat; let ghost nb = pow2((l - s - 1) as nat) as int; let ghost a2 = a@; let ghost mut q: int = 0;
  proof { lemma_pow2_step(s); lemma_pow2_step((l - s - 1) as nat); lemma_pow2_mul(s, (l - s - 1) as nat); lemma_pow2_mul((s + 1) as nat, (l - s - 1) as nat);
    assert((s + 1) as nat + (l - s - 1) as nat == l);
    assert(n == nb * (2 * mi)) by (nonlinear_arith) requires n == (2 * mi) * nb;
    assert(1 <= nb);
    assert(2 * mi <= n) by (nonlinear_arith) requires n == nb * (2 * mi), nb >= 1, mi >= 0;
    assert((n as int) / (2 * mi as int) == nb) by { lemma_fundamental_div_mod_converse(n as int, 2 * mi as int, nb, 0); } }
//@@ loop 3
  invariant l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, a@.len() == n, om == *omega, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), n == nb * (2 * mi), 2 * mi <= n, mi >= 1, pow2((s + 1) as nat) == 2 * mi, pow2((l - s) as nat) == 2 * nb,
    a2.len() == n, forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    w_m == fpow(om, nb as nat), k == q * (2 * mi), 0 <= q <= nb,
    forall|i: int| k <= i < n ==> #[trigger] a@[i] == a2[i],
    forall|b: int, j: int| 0 <= b < q && 0 <= j < 2 * mi ==> a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j),
  decreases n - k
//@@ loop 3 start
  let ghost a3 = a@;
  proof { assert(q < nb) by (nonlinear_arith) requires q * (2 * mi) < nb * (2 * mi), mi >= 1;
    assert(k + 2 * mi <= n) by (nonlinear_arith) requires k == q * (2 * mi), n == nb * (2 * mi), q + 1 <= nb, mi >= 1;
    assert((2 * q) * mi == k && (2 * q + 1) * mi == k + mi) by (nonlinear_arith) requires k == q * (2 * mi); }
//@@ loop 4
  invariant l == log_n, log_n < 32, n <= 0x8000_0000, x.len() == n, a@.len() == n, a2.len() == n, a3.len() == n, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), mi >= 1, k + 2 * mi <= n, 0 <= q < nb,
    (2 * q) * mi == k, (2 * q + 1) * mi == k + mi,
    forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    forall|i: int| k <= i < n ==> #[trigger] a3[i] == a2[i],
    w_m == fpow(om, nb as nat), vx_n4 == mi, vx_k4 <= mi, w == fpow(w_m, vx_k4 as nat),
    forall|i: int| 0 <= i < n && !(k <= i < k + vx_k4) && !(k + mi <= i < k + mi + vx_k4) ==> #[trigger] a@[i] == a3[i],
    forall|i: int| 0 <= i < vx_k4 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
    forall|i: int| mi <= i < mi + vx_k4 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost a4 = a@;
  proof { let j = vx_i4 as int; l_bfly(x, om, l, s, q, j); l_pow_step(w_m, j as nat); F::ax_mul_comm(w_m, w);
    let e = fv(x, om, l, s, 2 * q, j); let o = fv(x, om, l, s, 2 * q + 1, j);
    assert(a2[(2 * q) * mi + j] == e); assert(a2[(2 * q + 1) * mi + j] == o);
    assert(a@[k + j] == a3[k + j] && a3[k + j] == a2[k + j]); assert(a@[k + mi + j] == a3[k + mi + j] && a3[k + mi + j] == a2[k + mi + j]); }
//@@ loop 4 end
  proof { let j0 = vx_i4 as int;
    assert forall|i: int| 0 <= i < vx_k4 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < j0 { assert(a@[k + i] == a4[k + i]); } }
    assert forall|i: int| mi <= i < mi + vx_k4 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < mi + j0 { assert(a@[k + i] == a4[k + i]); } } }
//@@ loop 3 end
  proof { let k0 = (k - 2 * mi) as int;
    assert forall|b: int, j: int| 0 <= b < q + 1 && 0 <= j < 2 * mi implies a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j) by {
      if b < q { assert(b * (2 * mi) + j < k0 && b * (2 * mi) + j >= 0) by (nonlinear_arith) requires 0 <= b, b + 1 <= q, 0 <= j < 2 * mi, k0 == q * (2 * mi);
        assert(a@[b * (2 * mi) + j] == a3[b * (2 * mi) + j]); assert(a3[b * (2 * mi) + j] == fv(x, om, l, s + 1, b, j)); }
      else { assert(b * (2 * mi) == k0); assert(a@[k0 + j] == fv(x, om, l, s + 1, q, j)); } }
    assert((q + 1) * (2 * mi) == q * (2 * mi) + 2 * mi) by (nonlinear_arith);
    q = q + 1; }
//@@ loop 3 after
  proof { assert(q == nb) by (nonlinear_arith) requires q * (2 * mi) >= nb * (2 * mi), q <= nb, mi >= 1; }
//@@ loop 2 end
  proof { assert((l - vx_k2) as nat == (l - s - 1) as nat); }
//@@ end
  proof { lemma2_to64(); assert forall|i: int| 0 <= i < x.len() implies #[trigger] a@[i] == peval(x, fpow(om, i as nat)) by { l_fv_last(x, om, l, i); assert(a@[0 * m + i] == fv(x, om, l, l, 0, i)); } }
//@@ endfn
