// ---- multiply position i by g^i ----
pub open spec fn powered<F: FieldSpec>(s: Seq<F>, g: F) -> Seq<F> { Seq::new(s.len(), |i: int| s[i].fmul(fpow(g, i as nat))) }
//@@ fn src/fft/mod.rs distribute_powers ret=r
requires worker.wf()
ensures final(coeffs)@ == powered(old(coeffs)@, g)
//@@ begin
  let ghost c0 = coeffs@;
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == c0.len(), vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1,
    coeffs@.len() == vx_l1,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] coeffs@[i] == c0[i].fmul(fpow(g, i as nat)),
    forall|i: int| off(vx_k1 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] coeffs@[i] == c0[i],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = coeffs@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2 before
  let ghost vx_v0 = v@;
//@@ loop 2
  invariant vx_n2 == v@.len(), v@.len() == vx_v0.len(), vx_k2 <= vx_n2, o >= 0, u == fpow(g, (o + vx_k2) as nat),
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] v@[i] == vx_v0[i].fmul(fpow(g, (o + i) as nat)),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] v@[i] == vx_v0[i],
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_pow_step(g, (o + vx_i2) as nat); }
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] coeffs@[i] == c0[i].fmul(fpow(g, i as nat)) by {
      if i >= o { assert(vx_pre[i] == c0[i]); assert(vx_pre.subrange(o, o2)[i - o] == vx_pre[i]); } else { assert(coeffs@[i] == vx_pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l1 implies #[trigger] coeffs@[i] == c0[i] by { assert(coeffs@[i] == vx_pre[i]); } }
//@@ end
  proof { assert(coeffs@ =~= powered(c0, g)); }
//@@ endfn
