#!/usr/bin/env python3
"""Writes units/lde.vx: the zero-skipping transform shares its invariants with units/fft.vx."""
s = open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../units/fft.vx').read()
def part(a, b, after=0):
    i = s.index(a, after); return s[i:s.index(b, i)]
sf = s.index("//@@ fn src/fft/fft.rs serial_fft ret")
pre = part("//@@ begin\n", "//@@ loop 2\n", sf)
br = part("//@@ fn src/fft/fft.rs serial_fft::bitreverse", "//@@ fn src/fft/fft.rs serial_fft ret").replace("src/fft/fft.rs serial_fft::", "src/fft/lde.rs serial_lde::")
l2inv = part("//@@ loop 2\n", "//@@ loop 2 start", sf)
l2start = part("//@@ loop 2 start", "//@@ loop 3\n", sf)
l3 = part("//@@ loop 3\n", "//@@ loop 3 start", sf)
l3s = part("//@@ loop 3 start", "//@@ loop 4\n", sf)
l4 = part("//@@ loop 4\n", "//@@ loop 3 end", sf)
l3e = part("//@@ loop 3 end", "//@@ loop 2 end", sf)
l2e = part("//@@ loop 2 end", "//@@ endfn", sf)
Z = " e == lg2(lde_factor as int), lde_factor == pow2(e), e <= l, zero_from(x, pow2((l - e) as nat) as int),"
l2inv = l2inv.replace("  invariant ", "  invariant step == vx_k2," + Z + " x.len() == pow2(l),\n    ", 1)
l2start = l2start.replace("  proof {", "  proof { lemma_lde_round(lde_factor, e, step, s);", 1)
def chain(a, b, sparse):
    """loop 3 -> loop a (outer, stepping), loop 4 -> loop b (inner)."""
    A = l3.replace("loop 3", "loop %d" % a).replace("k == q * (2 * mi)", "vx_k%d == q * (2 * mi), vx_n%d == n" % (a, a)).replace("k <= i < n", "vx_k%d <= i < n" % a).replace("decreases n - k", "decreases (if vx_n%d >= vx_k%d { vx_n%d - vx_k%d } else { 0 })" % (a, a, a, a))
    A = A.replace("  invariant ", "  invariant step_by == 2 * mi, " + (("s < e, step == s," + Z + " x.len() == pow2(l), ") if sparse else ""), 1)
    import re
    S = re.sub(r"(?<![\w])k(?![\w])", "vx_i%d" % a, l3s).replace("loop 3", "loop %d" % a)
    B = l4.replace("loop 4", "loop %d" % b).replace("vx_n4", "vx_n%d" % b).replace("vx_k4", "vx_k%d" % b).replace("vx_i4", "vx_i%d" % b)
    if sparse:
        B = B.replace("  invariant ", "  invariant s < e, step == s," + Z + " x.len() == pow2(l), n == pow2(l), pow2((l - s) as nat) == 2 * nb,\n    ", 1)
        B = B.replace("    let e = fv(x", "    let ev = fv(x").replace("== e);", "== ev);")
        B = B.replace("assert(a@[k + j] ==", """lemma_isnz((k + j) as usize, lde_factor, step, e); lemma_isnz((k + j + mi) as usize, lde_factor, step, e);
    if (k + j) as int % (lde_factor as int) >= mi { l_fv_zero(x, om, l, s, e, 2 * q, j); }
    if (k + j + mi) as int % (lde_factor as int) >= mi { l_fv_zero(x, om, l, s, e, 2 * q + 1, j); }
    l_mul_zero(w); l_neg_zero::<F>(); l_zero_l(o.fmul(w)); l_zero_l(o.fmul(w).fneg()); F::ax_zero(ev); F::ax_zero(F::f0());
    assert(a@[k + j] ==""")
    E = l3e.replace("let k0 = (k - 2 * mi) as int;", "let k0 = vx_i%d as int;" % a).replace("loop 3", "loop %d" % a)
    E = E.replace("q * (2 * mi) >= nb * (2 * mi)", "q * (2 * mi) >= nb * (2 * mi)")
    return A + S + B + E
out = """// ---- transform of a zero-padded vector, skipping the zeros: real code ----  (written by tools/genlde.py)
pub open spec fn zero_from<F: FieldSpec>(x: Seq<F>, m: int) -> bool { forall|i: int| m <= i < x.len() ==> #[trigger] x[i] == F::f0() }
pub proof fn l_rev_low(b: int, q: nat, l: nat) requires b >= 0, q <= l, b % (pow2(q) as int) != 0 ensures rev(b, l) >= pow2((l - q) as nat) decreases q {
    lemma2_to64();
    if q > 0 {
        let h = pow2((q - 1) as nat) as int; lemma_pow2_step((q - 1) as nat);
        l_rev_bound(b / 2, (l - 1) as nat); lemma_pow2_le((l - q) as nat, (l - 1) as nat);
        let p = pow2((l - 1) as nat) as int; assert(0 * p == 0 && 1 * p == p);
        if b % 2 == 0 {
            if (b / 2) % h == 0 { lemma_fundamental_div_mod(b / 2, h); let c = (b / 2) / h; assert(b == c * (2 * h)) by (nonlinear_arith) requires b == 2 * (h * c); lemma_mod_multiples_basic(c, 2 * h); }
            l_rev_low(b / 2, (q - 1) as nat, (l - 1) as nat);
            assert(((l - 1) - (q - 1)) as nat == (l - q) as nat);
        }
    }
}
pub proof fn l_fv_zero<F: FieldSpec>(x: Seq<F>, w: F, l: nat, s: nat, e: nat, b: int, j: int)
    requires s < e, e <= l, b >= 0, 0 <= j < pow2(s), b < pow2((l - s) as nat), x.len() == pow2(l), zero_from(x, pow2((l - e) as nat) as int), (b * pow2(s) + j) % (pow2(e) as int) >= pow2(s)
    ensures fv(x, w, l, s, b, j) == F::f0()
{
    let d = (e - s) as nat; lemma_pow2_mul(d, s); assert(d + s == e); lemma_pow2_pos(s); lemma_pow2_pos(d);
    let ps = pow2(s) as int; let pd = pow2(d) as int;
    if b % pd == 0 {
        lemma_fundamental_div_mod(b, pd); let c = b / pd;
        assert(b * ps + j == (pd * ps) * c + j) by (nonlinear_arith) requires b == pd * c;
        assert(j < pd * ps) by (nonlinear_arith) requires j < ps, pd >= 1, ps >= 1;
        lemma_fundamental_div_mod_converse(b * ps + j, pd * ps, c, j);
    }
    let ll = (l - s) as nat; l_rev_low(b, d, ll); l_rev_bound(b, ll); assert((ll - d) as nat == (l - e) as nat);
    let r = rev(b, ll); let st = pow2(ll) as int; let z = fpow(fpow(w, pow2(ll)), j as nat);
    let f = esm(x, r, st, z); lemma_pow2_mul(ll, s); assert(ll + s == l);
    assert forall|t: int| 0 <= t < ps implies #[trigger] f(t) == F::f0() by {
        let p = r + t * st;
        assert(p >= r && p < x.len()) by (nonlinear_arith) requires p == r + t * st, r < st, 0 <= t, t + 1 <= ps, x.len() == st * ps, st >= 0;
        assert(x[p] == F::f0()); l_mul_zero(fpow(z, t as nat)); }
    l_sum_zero(f, ps);
}
//@@ fn src/fft/lde.rs serial_lde::is_non_zero ret=r
requires is_p2(lde_factor as int), step < 64
ensures r <==> (idx as int) % (lde_factor as int) < pow2(step as nat)
//@@ begin
  proof { let f = lg2(lde_factor as int); lemma_is_p2(lde_factor as int); lemma2_to64_rest(); if f >= 64 { lemma_pow2_le(64, f); lemma_pow2_step(63); } lemma_shl1(step as u64); lemma_shl1(f as u64);
    vstd::bits::lemma_usize_low_bits_mask_is_mod(idx, f); assert(vstd::bits::low_bits_mask(f) == lde_factor - 1); }
//@@ endfn
//@@ fn src/fft/lde.rs serial_lde::is_dense_round ret=r
requires step < 64
ensures r <==> (lde_factor as int) / (pow2(step as nat) as int) <= 1
//@@ begin
  proof { vstd::bits::lemma_usize_shr_is_div(lde_factor, step); }
//@@ endfn
pub proof fn lemma_lde_round(f: usize, e: nat, step: usize, s: nat) requires f == pow2(e), step == s ensures (f as int) / (pow2(s) as int) <= 1 <==> s >= e {
    lemma_pow2_pos(s); lemma_pow2_pos(e);
    if s < e { lemma_pow2_mul(s, (e - s) as nat); lemma_pow2_le(1, (e - s) as nat); lemma2_to64(); let d = pow2((e - s) as nat) as int; assert(s + (e - s) as nat == e); assert(f as int == d * (pow2(s) as int)) by (nonlinear_arith) requires f == pow2(s) * pow2((e - s) as nat), d == pow2((e - s) as nat); lemma_fundamental_div_mod_converse(f as int, pow2(s) as int, d, 0); }
    else { lemma_pow2_le(e, s); lemma_fundamental_div_mod(f as int, pow2(s) as int); let p = pow2(s) as int; let d = (f as int) / p;
       assert(d <= 1) by (nonlinear_arith) requires p * d <= f, f <= p, p >= 1; }
}
pub proof fn lemma_isnz(idx: usize, f: usize, step: usize, e: nat) requires f == pow2(e) ensures is_p2(f as int) { }
""" + br + """//@@ fn src/fft/lde.rs serial_lde ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n,
  zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)
ensures is_dft(final(a)@, old(a)@, *omega)
""" + pre.replace("  proof { lemma_shl32(log_n);", "  let ghost e = lg2(lde_factor as int);\n  proof { lemma_is_p2(lde_factor as int); lemma_shl32(log_n);", 1) + l2inv + l2start + chain(3, 4, False) + chain(5, 6, True) + l2e + "//@@ endfn\n"
# parallel
p = open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../units/pfft.vx').read()
i = p.index("//@@ fn src/fft/fft.rs parallel_fft"); j = p.index("//@@ fn src/fft/fft.rs best_fft")
b = p[i:j].replace("src/fft/fft.rs parallel_fft", "src/fft/lde.rs parallel_lde").replace("0 < log_cpus <= log_n", "log_cpus <= log_n")
b = b.replace("worker.wf()\n", "worker.wf(), is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n,\n  zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)\n", 1)
b = b.replace("  let ghost x = a@;", "  let ghost e = lg2(lde_factor as int); let ghost nt = pow2((log_n - e) as nat) as int;\n  let ghost x = a@;", 1)
b = b.replace("  proof { lemma_shl1(log_n as u64);", "  proof { lemma_is_p2(lde_factor as int); lemma_pow2_mul(e, (log_n - e) as nat); assert(e + (log_n - e) as nat == log_n); lemma_pow2_pos(e); lemma_pow2_pos((log_n - e) as nat);\n    assert((pow2(log_n as nat) as int) / (lde_factor as int) == nt) by { lemma_fundamental_div_mod_converse(pow2(log_n as nat) as int, lde_factor as int, nt, 0); }\n    lemma_shl1(log_n as u64);", 1)
NT = " non_trivial_len == nt, zero_from(x, nt),"
for n in (1, 2, 3):
    k = b.index("//@@ loop %d\n" % n); m = b.index("  invariant ", k)
    extra = NT
    if n in (1, 2): extra += " e == lg2(lde_factor as int), e <= log_n, lde_factor == pow2(e), nt == pow2((log_n - e) as nat), log_m == log_n - log_cpus, log_cpus <= log_n,"
    b = b[:m] + "  invariant" + extra + b[m + len("  invariant"):]
b = b.replace("    assert(subx(x, w, jj, ii, n1)(s) ==", "    if ii + s * n1 >= nt { l_mul_zero(fpow(w, (jj * (ii + s * n1)) as nat)); F::ax_zero(tmp@[ii]); assert(x[ii + s * n1] == F::f0()); }\n    assert(subx(x, w, jj, ii, n1)(s) ==")
b = b.replace("//@@ stmt \"serial_fft (\" before\n  proof { assert(tmp@ =~= subv(x, w, jj, c, n1)); }", """//@@ stmt "let new_lde_factor" before
  let ghost sv = subv(x, w, jj, c, n1);
  proof { assert(tmp@ =~= sv); lemma_shr_pow2(lde_factor, e, log_cpus);
    if e > log_cpus { let e2 = (e - log_cpus) as nat; assert((log_m - e2) as nat == (log_n - e) as nat); lemma_lg2_pow2(e2); l_subv_zero(x, w, jj, c, n1, nt); } }""")
b = b.replace("//@@ stmt \"serial_fft (\" after\n  proof { l_row_ok", "//@@ stmt \"if new_lde_factor\" after\n  proof { l_row_ok")
b = b.replace("//@@ begin", "//@@ subst \"super :: fft :: serial_fft\" => \"serial_fft\"\n//@@ begin", 1)
out += """pub proof fn lemma_shr_pow2(f: usize, e: nat, k: u32) requires f == pow2(e), k < 64 ensures k >= e ==> (f >> k) <= 1, k < e ==> (f >> k) == pow2((e - k) as nat) && (f >> k) >= 2 && is_p2((f >> k) as int) {
    assert((f >> k) == (f >> (k as usize))) by (bit_vector) requires k < 64;
    vstd::bits::lemma_usize_shr_is_div(f, k as usize); lemma_pow2_pos(k as nat);
    if k >= e { lemma_lde_round(f, e, k as usize, k as nat); }
    else { lemma_pow2_mul(k as nat, (e - k) as nat); assert(k as nat + (e - k) as nat == e); assert(f as int == (pow2((e - k) as nat) as int) * (pow2(k as nat) as int)) by (nonlinear_arith) requires f == pow2(k as nat) * pow2((e - k) as nat); lemma_pow2_le(1, (e - k) as nat); lemma2_to64(); lemma_fundamental_div_mod_converse(f as int, pow2(k as nat) as int, pow2((e - k) as nat) as int, 0); }
}
pub proof fn l_subv_zero<F: FieldSpec>(x: Seq<F>, w: F, j: int, c: int, n1: int, nt: int) requires x.len() == c * n1, c > 0, n1 > 0, 0 <= nt, zero_from(x, nt) ensures zero_from(subv(x, w, j, c, n1), nt) {
    assert forall|i: int| nt <= i < n1 implies #[trigger] subv(x, w, j, c, n1)[i] == F::f0() by {
        let f = subx(x, w, j, i, n1);
        assert forall|s: int| 0 <= s < c implies #[trigger] f(s) == F::f0() by { lemma_spidx(i, s, n1, c); assert(x[i + s * n1] == F::f0()); l_mul_zero(fpow(w, (j * (i + s * n1)) as nat)); }
        l_sum_zero(f, c); }
}
""" + b + """//@@ fn src/fft/lde.rs best_lde ret=r
requires log_n < 32, old(a)@.len() == pow2(log_n as nat), prim(*omega, log_n as nat), worker.wf(), worker.cpus < 0x8000_0000_0000_0000,
  is_p2(lde_factor as int), lg2(lde_factor as int) <= log_n, zero_from(old(a)@, pow2((log_n - lg2(lde_factor as int)) as nat) as int)
ensures is_dft(final(a)@, old(a)@, *omega)
//@@ endfn
"""
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../units/lde.vx', 'w').write(out)
