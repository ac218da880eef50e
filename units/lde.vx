// ---- transform of a zero-padded vector, skipping the zeros: real code ----  (written by tools/genlde.py)
pub open spec fn zero_from<F: FieldSpec>(x: Seq<F>, m: int) -> bool { forall|i: int| m <= i < x.len() ==> #[trigger] x[i] == F::f0() }
pub proof fn l_rev_low(b: int, q: nat, l: nat) requires b >= 0, q <= l, b % (pow2(q) as int) != 0 ensures rev(b, l) >= pow2((l - q) as nat) decreases q {
    lemma2_to64();
    if q > 0 {
        let h = pow2((q - 1) as nat) as int; lemma_pow2_step((q - 1) as nat);
        l_rev_bound(b / 2, (l - 1) as nat); lemma_pow2_le((l - q) as nat, (l - 1) as nat);
        let p = pow2((l - 1) as nat) as int; assert(0 * p == 0 && 1 * p == p);
        if b % 2 == 0 {
            if (b / 2) % h == 0 { lemma_fundamental_div_mod(b / 2, h); let c = (b / 2) / h; assert(b == c * (2 * h)) by (nonlinear_arith) requires b == 2 * (h * c); lemma_mod_multiples_basic(c, 2 * h); }
            l_rev_low(b / 2, (q - 1) as nat, (l - 1) as nat);
            assert(((l - 1) - (q - 1)) as nat == (l - q) as nat);
        }
    }
}
pub proof fn l_fv_zero<F: FieldSpec>(x: Seq<F>, w: F, l: nat, s: nat, e: nat, b: int, j: int)
    requires s < e, e <= l, b >= 0, 0 <= j < pow2(s), b < pow2((l - s) as nat), x.len() == pow2(l), zero_from(x, pow2((l - e) as nat) as int), (b * pow2(s) + j) % (pow2(e) as int) >= pow2(s)
    ensures fv(x, w, l, s, b, j) == F::f0()
{
    let d = (e - s) as nat; lemma_pow2_mul(d, s); assert(d + s == e); lemma_pow2_pos(s); lemma_pow2_pos(d);
    let ps = pow2(s) as int; let pd = pow2(d) as int;
    if b % pd == 0 {
        lemma_fundamental_div_mod(b, pd); let c = b / pd;
        assert(b * ps + j == c * (pd * ps) + j) by (nonlinear_arith) requires b == pd * c; assert(pd * ps >= 1) by (nonlinear_arith) requires pd >= 1, ps >= 1;
        assert(j < pd * ps) by (nonlinear_arith) requires j < ps, pd >= 1, ps >= 1;
        lemma_fundamental_div_mod_converse(b * ps + j, pd * ps, c, j);
    }
    let ll = (l - s) as nat; l_rev_low(b, d, ll); l_rev_bound(b, ll); assert((ll - d) as nat == (l - e) as nat);
    let r = rev(b, ll); let st = pow2(ll) as int; let z = fpow(fpow(w, pow2(ll)), j as nat);
    let f = esm(x, r, st, z); lemma_pow2_mul(ll, s); assert(ll + s == l);
    assert forall|t: int| 0 <= t < ps implies #[trigger] f(t) == F::f0() by {
        let p = r + t * st;
        assert(p >= r && p < x.len()) by (nonlinear_arith) requires p == r + t * st, r < st, 0 <= t, t + 1 <= ps, x.len() == st * ps, st >= 0;
        assert(x[p] == F::f0()); l_mul_zero(fpow(z, t as nat)); }
    l_sum_zero(f, ps);
}
//@@ fn src/fft/lde.rs serial_lde::is_non_zero ret=r
requires is_p2(lde_factor as int), step < 64
ensures r <==> (idx as int) % (lde_factor as int) < pow2(step as nat)
//@@ begin
  proof { let f = lg2(lde_factor as int); lemma_is_p2(lde_factor as int); lemma2_to64_rest(); if f >= 64 { lemma_pow2_le(64, f); lemma_pow2_step(63); } lemma_shl1(step as u64); lemma_shl1(f as u64);
    vstd::bits::lemma_usize_low_bits_mask_is_mod(idx, f); assert(vstd::bits::low_bits_mask(f) == lde_factor - 1); }
//@@ endfn
//@@ fn src/fft/lde.rs serial_lde::is_dense_round ret=r
requires step < 64
ensures r <==> (lde_factor as int) / (pow2(step as nat) as int) <= 1
//@@ begin
  proof { vstd::bits::lemma_usize_shr_is_div(lde_factor, step); }
//@@ endfn
pub proof fn lemma_lde_round(f: usize, e: nat, step: usize, s: nat) requires f == pow2(e), step == s ensures (f as int) / (pow2(s) as int) <= 1 <==> s >= e {
    lemma_pow2_pos(s); lemma_pow2_pos(e);
    if s < e { lemma_pow2_mul(s, (e - s) as nat); lemma_pow2_le(1, (e - s) as nat); lemma2_to64(); let d = pow2((e - s) as nat) as int; assert(s + (e - s) as nat == e); assert(f as int == d * (pow2(s) as int)) by (nonlinear_arith) requires f == pow2(s) * pow2((e - s) as nat), d == pow2((e - s) as nat); lemma_fundamental_div_mod_converse(f as int, pow2(s) as int, d, 0); }
    else { lemma_pow2_le(e, s); lemma_fundamental_div_mod(f as int, pow2(s) as int); let p = pow2(s) as int; let d = (f as int) / p;
       assert(d <= 1) by (nonlinear_arith) requires p * d <= f, f <= p, p >= 1; }
}
pub proof fn lemma_isnz(idx: usize, f: usize, step: usize, e: nat) requires f == pow2(e) ensures is_p2(f as int) { }
//@@ fn src/fft/lde.rs serial_lde::bitreverse ret=r
requires l < 32
ensures r == rev(n as int, l as nat)
//@@ begin
  let ghost n0 = n as int;
  proof { lemma2_to64(); }
//@@ loop 1
  invariant vx_n1 == l, l < 32, vx_k1 <= l, r < pow2(vx_k1 as nat), rev(n0, l as nat) == (r as int) * (pow2((l - vx_k1) as nat) as int) + rev(n as int, (l - vx_k1) as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost rr: u32 = r; let ghost nn: u32 = n;
  proof { let h = pow2((l - vx_k1) as nat) as int; lemma_pow2_step((l - vx_k1) as nat); lemma_pow2_step(vx_i1 as nat); lemma_pow2_le(vx_k1 as nat, 31); lemma2_to64(); lemma2_to64_rest();
    assert(r < 0x4000_0000 * 2 - 0) by { lemma_pow2_le(vx_i1 as nat, 30); }
    assert(r < 0x4000_0000) by { lemma_pow2_le(vx_i1 as nat, 30); }
    assert(((rr << 1u32) | (nn & 1u32)) == 2 * rr + nn % 2 && (nn >> 1u32) == nn / 2) by (bit_vector) requires rr < 0x4000_0000u32;
    let b = n as int % 2; let r0 = r as int;
    assert(r0 * (2 * h) + b * h == (2 * r0 + b) * h) by (nonlinear_arith); }
//@@ loop 1 after
  proof { lemma2_to64(); assert((r as int) * 1 == r); }
//@@ endfn
//@@ fn src/fft/lde.rs serial_lde ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n,
  zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ begin
  let ghost x = a@; let ghost l = log_n as nat; let ghost om = *omega;
  let ghost e = lg2(lde_factor as int);
  proof { lemma_is_p2(lde_factor as int); lemma_shl32(log_n); lemma2_to64(); }
//@@ loop 1 before
  proof { assert forall|i: int| 0 <= i < pow2(l) implies #[trigger] rev(i, l) >= 0 by { l_rev_bound(i, l); } }
//@@ loop 1
  invariant l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, vx_n1 == n, vx_k1 <= n, a@.len() == n,
    forall|i: int| 0 <= i < n ==> #[trigger] a@[i] == (if i < vx_k1 || rev(i, l) < vx_k1 { x[rev(i, l)] } else { x[i] }),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = a@;
  proof { l_rev_bound(vx_i1 as int, l); l_rev_inv(vx_i1 as int, l); }
//@@ loop 1 end
  proof { let k = vx_i1 as int; let rk = rev(k, l);
    assert forall|i: int| 0 <= i < n implies #[trigger] a@[i] == (if i < vx_k1 || rev(i, l) < vx_k1 { x[rev(i, l)] } else { x[i] }) by {
      l_rev_bound(i, l); l_rev_inv(i, l);
      assert(pre[i] == (if i < k || rev(i, l) < k { x[rev(i, l)] } else { x[i] }));
      assert(pre[k] == (if k < k || rev(k, l) < k { x[rev(k, l)] } else { x[k] }));
      assert(pre[rk] == (if rk < k || rev(rk, l) < k { x[rev(rk, l)] } else { x[rk] }));
    } }
//@@ loop 2 before
  proof { assert forall|b: int, j: int| 0 <= b < pow2(l) && 0 <= j < 1 implies a@[b * 1 + j] == #[trigger] fv(x, om, l, 0, b, j) by { l_fv_first(x, om, l, b); l_rev_bound(b, l); } }
//@@ loop 2
  invariant step == vx_k2, e == lg2(lde_factor as int), lde_factor == pow2(e), e <= l, zero_from(x, pow2((l - e) as nat) as int), x.len() == pow2(l),
    l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, a@.len() == n, om == *omega, prim(om, l), vx_n2 == log_n, vx_k2 <= log_n, m == pow2(vx_k2 as nat),
    forall|b: int, j: int| 0 <= b < pow2((l - vx_k2) as nat) && 0 <= j < m ==> a@[b * m + j] == #[trigger] fv(x, om, l, vx_k2 as nat, b, j),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost mi: int = { let mm: u32 = m; mm as int }; let ghost s = vx_i2 as nat; let ghost nb = pow2((l - s - 1) as nat) as int; let ghost a2 = a@; let ghost mut q: int = 0;
  proof { lemma_lde_round(lde_factor, e, step, s); lemma_pow2_step(s); lemma_pow2_step((l - s - 1) as nat); lemma_pow2_mul(s, (l - s - 1) as nat); lemma_pow2_mul((s + 1) as nat, (l - s - 1) as nat);
    assert((s + 1) as nat + (l - s - 1) as nat == l);
    assert(n == nb * (2 * mi)) by (nonlinear_arith) requires n == (2 * mi) * nb;
    assert(1 <= nb);
    assert(2 * mi <= n) by (nonlinear_arith) requires n == nb * (2 * mi), nb >= 1, mi >= 0;
    assert((n as int) / (2 * mi as int) == nb) by { lemma_fundamental_div_mod_converse(n as int, 2 * mi as int, nb, 0); } }
//@@ loop 3
  invariant step_by == 2 * mi, l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, a@.len() == n, om == *omega, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), n == nb * (2 * mi), 2 * mi <= n, mi >= 1, pow2((s + 1) as nat) == 2 * mi, pow2((l - s) as nat) == 2 * nb,
    a2.len() == n, forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    w_m == fpow(om, nb as nat), vx_k3 == q * (2 * mi), vx_n3 == n, 0 <= q <= nb,
    forall|i: int| vx_k3 <= i < n ==> #[trigger] a@[i] == a2[i],
    forall|b: int, j: int| 0 <= b < q && 0 <= j < 2 * mi ==> a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j),
  decreases (if vx_n3 >= vx_k3 { vx_n3 - vx_k3 } else { 0 })
//@@ loop 3 start
  let ghost a3 = a@;
  proof { assert(q < nb) by (nonlinear_arith) requires q * (2 * mi) < nb * (2 * mi), mi >= 1;
    assert(vx_i3 + 2 * mi <= n) by (nonlinear_arith) requires vx_i3 == q * (2 * mi), n == nb * (2 * mi), q + 1 <= nb, mi >= 1;
    assert((2 * q) * mi == vx_i3 && (2 * q + 1) * mi == vx_i3 + mi) by (nonlinear_arith) requires vx_i3 == q * (2 * mi); }
//@@ loop 4
  invariant l == log_n, log_n < 32, n <= 0x8000_0000, x.len() == n, a@.len() == n, a2.len() == n, a3.len() == n, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), mi >= 1, k + 2 * mi <= n, 0 <= q < nb,
    (2 * q) * mi == k, (2 * q + 1) * mi == k + mi,
    forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    forall|i: int| k <= i < n ==> #[trigger] a3[i] == a2[i],
    w_m == fpow(om, nb as nat), vx_n4 == mi, vx_k4 <= mi, w == fpow(w_m, vx_k4 as nat),
    forall|i: int| 0 <= i < n && !(k <= i < k + vx_k4) && !(k + mi <= i < k + mi + vx_k4) ==> #[trigger] a@[i] == a3[i],
    forall|i: int| 0 <= i < vx_k4 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
    forall|i: int| mi <= i < mi + vx_k4 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost a4 = a@;
  proof { let j = vx_i4 as int; l_bfly(x, om, l, s, q, j); l_pow_step(w_m, j as nat); F::ax_mul_comm(w_m, w);
    let e = fv(x, om, l, s, 2 * q, j); let o = fv(x, om, l, s, 2 * q + 1, j);
    assert(a2[(2 * q) * mi + j] == e); assert(a2[(2 * q + 1) * mi + j] == o);
    assert(a@[k + j] == a3[k + j] && a3[k + j] == a2[k + j]); assert(a@[k + mi + j] == a3[k + mi + j] && a3[k + mi + j] == a2[k + mi + j]); }
//@@ loop 4 end
  proof { let j0 = vx_i4 as int;
    assert forall|i: int| 0 <= i < vx_k4 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < j0 { assert(a@[k + i] == a4[k + i]); } }
    assert forall|i: int| mi <= i < mi + vx_k4 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < mi + j0 { assert(a@[k + i] == a4[k + i]); } } }
//@@ loop 3 end
  proof { let k0 = vx_i3 as int;
    assert forall|b: int, j: int| 0 <= b < q + 1 && 0 <= j < 2 * mi implies a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j) by {
      if b < q { assert(b * (2 * mi) + j < k0 && b * (2 * mi) + j >= 0) by (nonlinear_arith) requires 0 <= b, b + 1 <= q, 0 <= j < 2 * mi, k0 == q * (2 * mi);
        assert(a@[b * (2 * mi) + j] == a3[b * (2 * mi) + j]); assert(a3[b * (2 * mi) + j] == fv(x, om, l, s + 1, b, j)); }
      else { assert(b * (2 * mi) == k0); assert(a@[k0 + j] == fv(x, om, l, s + 1, q, j)); } }
    assert((q + 1) * (2 * mi) == q * (2 * mi) + 2 * mi) by (nonlinear_arith);
    q = q + 1; }
//@@ loop 3 after
  proof { assert(q == nb) by (nonlinear_arith) requires q * (2 * mi) >= nb * (2 * mi), q <= nb, mi >= 1; }
//@@ loop 5
  invariant step_by == 2 * mi, s < e, step == s, e == lg2(lde_factor as int), lde_factor == pow2(e), e <= l, zero_from(x, pow2((l - e) as nat) as int), x.len() == pow2(l), l == log_n, log_n < 32, n == pow2(l), n <= 0x8000_0000, x.len() == n, a@.len() == n, om == *omega, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), n == nb * (2 * mi), 2 * mi <= n, mi >= 1, pow2((s + 1) as nat) == 2 * mi, pow2((l - s) as nat) == 2 * nb,
    a2.len() == n, forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    w_m == fpow(om, nb as nat), vx_k5 == q * (2 * mi), vx_n5 == n, 0 <= q <= nb,
    forall|i: int| vx_k5 <= i < n ==> #[trigger] a@[i] == a2[i],
    forall|b: int, j: int| 0 <= b < q && 0 <= j < 2 * mi ==> a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j),
  decreases (if vx_n5 >= vx_k5 { vx_n5 - vx_k5 } else { 0 })
//@@ loop 5 start
  let ghost a3 = a@;
  proof { assert(q < nb) by (nonlinear_arith) requires q * (2 * mi) < nb * (2 * mi), mi >= 1;
    assert(vx_i5 + 2 * mi <= n) by (nonlinear_arith) requires vx_i5 == q * (2 * mi), n == nb * (2 * mi), q + 1 <= nb, mi >= 1;
    assert((2 * q) * mi == vx_i5 && (2 * q + 1) * mi == vx_i5 + mi) by (nonlinear_arith) requires vx_i5 == q * (2 * mi); }
//@@ loop 6
  invariant s < e, step == s, e == lg2(lde_factor as int), lde_factor == pow2(e), e <= l, zero_from(x, pow2((l - e) as nat) as int), x.len() == pow2(l), n == pow2(l), pow2((l - s) as nat) == 2 * nb,
    l == log_n, log_n < 32, n <= 0x8000_0000, x.len() == n, a@.len() == n, a2.len() == n, a3.len() == n, prim(om, l), s < l, m == mi, mi == pow2(s), nb == pow2((l - s - 1) as nat), mi >= 1, k + 2 * mi <= n, 0 <= q < nb,
    (2 * q) * mi == k, (2 * q + 1) * mi == k + mi,
    forall|b: int, j: int| 0 <= b < 2 * nb && 0 <= j < mi ==> a2[b * mi + j] == #[trigger] fv(x, om, l, s, b, j),
    forall|i: int| k <= i < n ==> #[trigger] a3[i] == a2[i],
    w_m == fpow(om, nb as nat), vx_n6 == mi, vx_k6 <= mi, w == fpow(w_m, vx_k6 as nat),
    forall|i: int| 0 <= i < n && !(k <= i < k + vx_k6) && !(k + mi <= i < k + mi + vx_k6) ==> #[trigger] a@[i] == a3[i],
    forall|i: int| 0 <= i < vx_k6 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
    forall|i: int| mi <= i < mi + vx_k6 ==> a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i),
  decreases vx_n6 - vx_k6
//@@ loop 6 start
  let ghost a4 = a@;
  proof { let j = vx_i6 as int; l_bfly(x, om, l, s, q, j); l_pow_step(w_m, j as nat); F::ax_mul_comm(w_m, w);
    let ev = fv(x, om, l, s, 2 * q, j); let o = fv(x, om, l, s, 2 * q + 1, j);
    assert(a2[(2 * q) * mi + j] == ev); assert(a2[(2 * q + 1) * mi + j] == o);
    lemma_isnz((k + j) as usize, lde_factor, step, e); lemma_isnz((k + j + mi) as usize, lde_factor, step, e);
    if (k + j) as int % (lde_factor as int) >= mi { l_fv_zero(x, om, l, s, e, 2 * q, j); }
    if (k + j + mi) as int % (lde_factor as int) >= mi { l_fv_zero(x, om, l, s, e, 2 * q + 1, j); }
    l_mul_zero(w); l_neg_zero::<F>(); l_zero_l(o.fmul(w)); l_zero_l(o.fmul(w).fneg()); F::ax_zero(ev); F::ax_zero(F::f0());
    assert(a@[k + j] == a3[k + j] && a3[k + j] == a2[k + j]); assert(a@[k + mi + j] == a3[k + mi + j] && a3[k + mi + j] == a2[k + mi + j]); }
//@@ loop 6 end
  proof { let j0 = vx_i6 as int;
    assert forall|i: int| 0 <= i < vx_k6 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < j0 { assert(a@[k + i] == a4[k + i]); } }
    assert forall|i: int| mi <= i < mi + vx_k6 implies a@[k + i] == #[trigger] fv(x, om, l, s + 1, q, i) by { if i < mi + j0 { assert(a@[k + i] == a4[k + i]); } } }
//@@ loop 5 end
  proof { let k0 = vx_i5 as int;
    assert forall|b: int, j: int| 0 <= b < q + 1 && 0 <= j < 2 * mi implies a@[b * (2 * mi) + j] == #[trigger] fv(x, om, l, s + 1, b, j) by {
      if b < q { assert(b * (2 * mi) + j < k0 && b * (2 * mi) + j >= 0) by (nonlinear_arith) requires 0 <= b, b + 1 <= q, 0 <= j < 2 * mi, k0 == q * (2 * mi);
        assert(a@[b * (2 * mi) + j] == a3[b * (2 * mi) + j]); assert(a3[b * (2 * mi) + j] == fv(x, om, l, s + 1, b, j)); }
      else { assert(b * (2 * mi) == k0); assert(a@[k0 + j] == fv(x, om, l, s + 1, q, j)); } }
    assert((q + 1) * (2 * mi) == q * (2 * mi) + 2 * mi) by (nonlinear_arith);
    q = q + 1; }
//@@ loop 5 after
  proof { assert(q == nb) by (nonlinear_arith) requires q * (2 * mi) >= nb * (2 * mi), q <= nb, mi >= 1; }
//@@ loop 2 end
  proof { assert((l - vx_k2) as nat == (l - s - 1) as nat); }
//@@ end
  proof { lemma2_to64(); assert forall|i: int| 0 <= i < x.len() implies #[trigger] a@[i] == peval(x, fpow(om, i as nat)) by { l_fv_last(x, om, l, i); assert(a@[0 * m + i] == fv(x, om, l, l, 0, i)); } }
//@@ endfn
pub proof fn lemma_shr_pow2(f: usize, e: nat, k: u32) requires f == pow2(e), k < 64 ensures k >= e ==> (f >> k) <= 1, k < e ==> (f >> k) == pow2((e - k) as nat) && (f >> k) >= 2 && is_p2((f >> k) as int) {
    assert((f >> k) == (f >> (k as usize))) by (bit_vector) requires k < 64;
    vstd::bits::lemma_usize_shr_is_div(f, k as usize); lemma_pow2_pos(k as nat);
    if k >= e { lemma_lde_round(f, e, k as usize, k as nat); }
    else { lemma_pow2_mul(k as nat, (e - k) as nat); assert(k as nat + (e - k) as nat == e); assert(f as int == (pow2((e - k) as nat) as int) * (pow2(k as nat) as int)) by (nonlinear_arith) requires f == pow2(k as nat) * pow2((e - k) as nat); lemma_pow2_le(1, (e - k) as nat); lemma2_to64(); lemma_fundamental_div_mod_converse(f as int, pow2(k as nat) as int, pow2((e - k) as nat) as int, 0); }
}
pub proof fn l_subv_zero<F: FieldSpec>(x: Seq<F>, w: F, j: int, c: int, n1: int, nt: int) requires x.len() == c * n1, c > 0, n1 > 0, 0 <= nt, zero_from(x, nt) ensures zero_from(subv(x, w, j, c, n1), nt) {
    assert forall|i: int| nt <= i < n1 implies #[trigger] subv(x, w, j, c, n1)[i] == F::f0() by {
        let f = subx(x, w, j, i, n1);
        assert forall|s: int| 0 <= s < c implies #[trigger] f(s) == F::f0() by { lemma_spidx(i, s, n1, c); assert(x[i + s * n1] == F::f0()); l_mul_zero(fpow(w, (j * (i + s * n1)) as nat)); }
        l_sum_zero(f, c); }
}
//@@ fn src/fft/lde.rs parallel_lde ret=r
requires log_n < 32, log_cpus <= log_n, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), worker.wf(), is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n,
  zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ subst "super :: fft :: serial_fft" => "serial_fft"
//@@ begin
  let ghost e = lg2(lde_factor as int); let ghost nt = pow2((log_n - e) as nat) as int;
  let ghost x = a@; let ghost w = *omega; let ghost log_m = (log_n - log_cpus) as u32;
  let ghost c = pow2(log_cpus as nat) as int; let ghost n1 = pow2(log_m as nat) as int;
  proof { lemma_is_p2(lde_factor as int); lemma_pow2_mul(e, (log_n - e) as nat); assert(e + (log_n - e) as nat == log_n); lemma_pow2_pos(e); lemma_pow2_pos((log_n - e) as nat);
    assert((pow2(log_n as nat) as int) / (lde_factor as int) == nt) by { lemma_fundamental_div_mod_converse(pow2(log_n as nat) as int, lde_factor as int, nt, 0); }
    lemma_shl1(log_n as u64); lemma_shl_ty(log_n); lemma_shl1(log_cpus as u64); lemma_shl_ty(log_cpus); lemma_shl1(log_m as u64); lemma_shl_ty(log_m); lemma2_to64_rest(); lemma2_to64();
    lemma_pow2_mul(log_cpus as nat, log_m as nat); lemma_pow2_pos(log_cpus as nat); lemma_pow2_pos(log_m as nat); lemma_pow2_strictly_increases(log_n as nat, 32); 
    lemma_pow2_le(log_cpus as nat, log_n as nat); lemma_pow2_le(log_m as nat, log_n as nat);
    assert(log_cpus as nat + log_m as nat == log_n); l_prim_down(w, log_n as nat, log_cpus as nat); }
//@@ loop 1
  invariant non_trivial_len == nt, zero_from(x, nt), e == lg2(lde_factor as int), e <= log_n, lde_factor == pow2(e), nt == pow2((log_n - e) as nat), log_m == log_n - log_cpus, log_cpus <= log_n, x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c == pow2(log_cpus as nat), n1 == pow2(log_m as nat), c >= 1, n1 >= 1, c * n1 < 0x1_0000_0000, c <= c * n1, n1 <= c * n1, num_cpus == c, w == *omega, prim(w, log_n as nat),
    new_omega == fpow(w, c as nat), prim(new_omega, log_m as nat), (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    vx_n1 == c, vx_k1 <= c, tmp@.len() == c,
    forall|jj: int| 0 <= jj < vx_k1 ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    forall|jj: int| vx_k1 <= jj < c ==> (#[trigger] tmp@[jj])@.len() == n1 && forall|k: int| 0 <= k < n1 ==> tmp@[jj]@[k] == F::f0(),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost jj = vx_i1 as int; let ghost tpre = tmp@;
  proof { lemma_spidx(0, jj, n1, c); lemma_shlx(vx_i1, log_m, n1); }
//@@ loop 2 before
  proof { assert(jj * (0 + 0 * n1) == 0) by (nonlinear_arith); }
//@@ loop 2
  invariant non_trivial_len == nt, zero_from(x, nt), e == lg2(lde_factor as int), e <= log_n, lde_factor == pow2(e), nt == pow2((log_n - e) as nat), log_m == log_n - log_cpus, log_cpus <= log_n, x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c >= 1, n1 >= 1, n1 == pow2(log_m as nat), c * n1 < 0x1_0000_0000, num_cpus == c, w == *omega, prim(w, log_n as nat), (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    0 <= jj < c, omega_j == fpow(w, jj as nat), omega_step == fpow(w, (jj * n1) as nat),
    vx_n2 == n1, vx_k2 <= n1, tmp@.len() == n1, elt == fpow(w, (jj * (vx_k2 + 0 * n1)) as nat),
    forall|k: int| 0 <= k < vx_k2 ==> #[trigger] tmp@[k] == fsum(subx(x, w, jj, k, n1), c),
    forall|k: int| vx_k2 <= k < n1 ==> #[trigger] tmp@[k] == F::f0(),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost ii = vx_i2 as int; let ghost t2 = tmp@;
//@@ loop 3
  invariant non_trivial_len == nt, zero_from(x, nt), x.len() == c * n1, a@ == x, c * n1 == pow2(log_n as nat), log_n < 32, log_m < 32, log_new_n == log_m, c >= 1, n1 >= 1, n1 == pow2(log_m as nat), c * n1 < 0x1_0000_0000, num_cpus == c, w == *omega, (1usize << log_n) == c * n1, (1usize << log_m) == n1,
    0 <= jj < c, 0 <= ii < n1, i == ii, omega_step == fpow(w, (jj * n1) as nat),
    vx_n3 == c, vx_k3 <= c, tmp@.len() == n1, t2.len() == n1, elt == fpow(w, (jj * (ii + vx_k3 * n1)) as nat),
    tmp@[ii] == fsum(subx(x, w, jj, ii, n1), vx_k3 as int),
    forall|k: int| 0 <= k < n1 && k != ii ==> #[trigger] tmp@[k] == t2[k],
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  proof { let s = vx_i3 as int; lemma_spidx(ii, s, n1, c); lemma_shlx(vx_i3, log_m, n1); l_elt_step(w, jj, ii, s, n1); lemma_small_mod((ii + s * n1) as nat, (c * n1) as nat);
    assert(s * n1 < 0x1_0000_0000);
    if ii + s * n1 >= nt { l_mul_zero(fpow(w, (jj * (ii + s * n1)) as nat)); F::ax_zero(tmp@[ii]); assert(x[ii + s * n1] == F::f0()); }
    assert(subx(x, w, jj, ii, n1)(s) == x[ii + s * n1].fmul(fpow(w, (jj * (ii + s * n1)) as nat))); }
//@@ loop 3 after
  proof { l_elt_next(w, jj, ii, c, n1); assert(vx_k2 == ii + 1); }
//@@ stmt "let new_lde_factor" before
  let ghost sv = subv(x, w, jj, c, n1);
  proof { assert(tmp@ =~= sv); lemma_shr_pow2(lde_factor, e, log_cpus);
    if e > log_cpus { let e2 = (e - log_cpus) as nat; assert((log_m - e2) as nat == (log_n - e) as nat); lemma_lg2_pow2(e2); l_subv_zero(x, w, jj, c, n1, nt); } }
//@@ stmt "if new_lde_factor" after
  proof { l_row_ok(tmp@, x, w, c, n1, jj); }
//@@ loop 4 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 4
  invariant x.len() == c * n1, vx_l1 == c * n1, vx_c1 == chunk, chunk > 0, vx_n4 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k4 <= vx_n4, a@.len() == vx_l1, c == pow2(log_cpus as nat), log_cpus < 32, c >= 1, n1 >= 1, tmp@.len() == c,
    forall|jj: int| 0 <= jj < c ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    forall|i: int| 0 <= i < off(vx_k4 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] a@[i] == peval(x, fpow(w, i as nat)),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost o = off(vx_i4 as int, vx_c1 as int, vx_l1 as int); let ghost o2 = off(vx_i4 + 1, vx_c1 as int, vx_l1 as int); let ghost apre = a@;
  proof { lemma_chunk_step(vx_i4 as int, vx_c1 as int, vx_l1 as int); lemma_maskshr(0, log_cpus, c); }
//@@ loop 5
  invariant x.len() == c * n1, vx_l1 == c * n1, c == pow2(log_cpus as nat), log_cpus < 32, c >= 1, n1 >= 1, tmp@.len() == c, mask == c - 1,
    forall|jj: int| 0 <= jj < c ==> row_ok(#[trigger] tmp@[jj]@, x, w, c, n1, jj),
    vx_n5 == o2 - o, a@.len() == vx_n5, vx_k5 <= vx_n5, 0 <= o, o2 <= vx_l1, idx == o + vx_k5,
    forall|k: int| 0 <= k < vx_k5 ==> #[trigger] a@[k] == peval(x, fpow(w, (o + k) as nat)),
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  proof { lemma_maskshr(idx, log_cpus, c); l_gather(tmp@, x, w, c, n1, idx as int); }
//@@ loop 4 end
  proof { assert forall|i: int| 0 <= i < o2 implies #[trigger] a@[i] == peval(x, fpow(w, i as nat)) by {
      if i < o { assert(a@[i] == apre[i]); } else { assert(o + (i - o) == i); } } }
//@@ endfn
//@@ fn src/fft/lde.rs best_lde ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), worker.wf(), worker.cpus < 0x8000_0000_0000_0000,
  is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n, zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ endfn
