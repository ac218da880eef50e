// ---- witness polynomials ----
// polynomial p takes the values of column w at the powers of the generator of the smallest domain the rows fit in, zeros beyond the rows
pub open spec fn interpolates<F: PrimeField>(p: Polynomial<F, Coefficients>, w: Seq<F>) -> bool {
    p.wf() && p.coeffs@.len() == np2(w.len() as int) && is_dft(padded(w, np2(w.len() as int)), p.coeffs@, p.omega)
}
pub open spec fn wp_ok(rows: int, cols: int, worker: &Worker) -> bool { rows <= 0x8000_0000 && cols >= 1 && worker.wf() && worker.cpus < 0x8000_0000_0000_0000 }
//@@ fn src/arp/per_register/mod.rs make_witness_polymonials ret=r
//@@ subst "best_fft (& mut w [..]" => "best_fft (vx_all_mut (w)"
//@@ subst "vx_chunk_mut (& mut * w" => "vx_chunk_mut (vx_all_mut (& mut w)"
//@@ subst "let mut result = Vec :: new ()" => "let mut result : Vec < Polynomial < F , Coefficients >> = Vec :: new ()"
//@@ subst "Some (1)" => "Some (1usize)"
requires rect(witness@), wp_ok(nrows(witness@), witness@.len() as int, worker)
ensures r is Ok <==> admissible::<F>(nrows(witness@)),
  r matches Ok(ps) ==> ps@.len() == witness@.len() && forall|i: int| 0 <= i < ps@.len() ==> interpolates(#[trigger] ps@[i], witness@[i]@)
//@@ begin
  let ghost w0 = witness@; let ghost rows = nrows(w0); let ghost sup = np2(rows);
  proof { lemma_np2(rows); lemma_np2_big(rows); lemma_np2(sup); lemma2_to64_rest(); lemma2_to64(); assert(pow2(31) == 0x8000_0000); assert(pow2(31) >= sup); l_cl0::<F>(); assert(w0[0]@.len() == rows); }
//@@ loop 1
  invariant vx_n1 == w0.len(), vx_k1 <= vx_n1, witness@ == w0, rect(w0), num_rows == nrows(w0),
  decreases vx_n1 - vx_k1
//@@ stmt "let log_n" before
  proof { l_dom_ok(domain); }
//@@ stmt "let num_cpus_hint" before
  proof { if worker.cpus > w0.len() { lemma_small_mod(w0.len(), worker.cpus as nat); lemma_basic_div(w0.len() as int, worker.cpus as int); } }
//@@ stmt "let mut result" before
  let ghost k = domain.power_of_two as nat; let ghost om = domain.generator; let ghost nn = fnat::<F>(pow2(k));
  proof { l_dom_ok(domain); l_prim_inv(om, k); l_nat_pow2_nonzero::<F>(k); l_inv_nonzero(nn);
    if k >= 32 { lemma_pow2_le(32, k); assert(pow2(31) >= np2(rows)); } }
//@@ loop 2
  invariant vx_n2 == w0.len(), vx_k2 <= vx_n2, witness@.len() == w0.len(), rect(w0), rows == nrows(w0), num_rows_sup == sup, sup >= rows, sup == np2(rows),
    forall|a: F, b: F| #[trigger] cloned(a, b) ==> a == b,
    forall|i: int| 0 <= i < vx_k2 ==> (#[trigger] witness@[i])@ == padded(w0[i]@, sup),
    forall|i: int| vx_k2 <= i < vx_n2 ==> #[trigger] witness@[i] == w0[i],
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  let ghost pre = witness@;
//@@ loop 2 end
  proof { assert(w0[vx_i2 as int]@.len() == rows); assert(witness@[vx_i2 as int]@ =~= padded(w0[vx_i2 as int]@, sup));
    assert forall|i: int| 0 <= i < vx_k2 implies (#[trigger] witness@[i])@ == padded(w0[i]@, sup) by { if i < vx_i2 { assert(witness@[i] == pre[i]); } }
    assert forall|i: int| vx_k2 <= i < vx_n2 implies #[trigger] witness@[i] == w0[i] by { assert(witness@[i] == pre[i]); } }
//@@ loop 3
  invariant vx_n3 == w0.len(), vx_k3 <= vx_n3, witness@.len() == w0.len(), sup == pow2(k), log_n == k, k < 32, omega_inv == om.finv(), prim(om.finv(), k), worker.wf(), worker.cpus < 0x8000_0000_0000_0000,
    num_cpus_hint matches Some(h) && h == 1,
    forall|i: int| 0 <= i < vx_k3 ==> is_dft((#[trigger] witness@[i])@, padded(w0[i]@, sup), om.finv()),
    forall|i: int| vx_k3 <= i < vx_n3 ==> (#[trigger] witness@[i])@ == padded(w0[i]@, sup),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost pre = witness@; proof { assert(witness@[vx_i3 as int]@ == padded(w0[vx_i3 as int]@, sup)); }
//@@ loop 3 end
  proof { 
    assert forall|i: int| 0 <= i < vx_k3 implies is_dft((#[trigger] witness@[i])@, padded(w0[i]@, sup), om.finv()) by { if i < vx_i3 { assert(witness@[i] == pre[i]); } }
    assert forall|i: int| vx_k3 <= i < vx_n3 implies (#[trigger] witness@[i])@ == padded(w0[i]@, sup) by { assert(witness@[i] == pre[i]); } }
//@@ loop 4 before
  let ghost w1 = witness@;
//@@ loop 4
  invariant vx_n4 == w0.len(), vx_k4 <= vx_n4, witness@ == w1, w1.len() == w0.len(), rect(w0), rows == nrows(w0), sup == np2(rows), sup == pow2(k), k < 32, k <= F::S, worker.wf(), worker.cpus < 0x8000_0000_0000_0000,
    om == dgen::<F>(k), prim(om, k), minv == nn.finv(), nn == fnat::<F>(pow2(k)), nn != F::f0(), nn.finv() != F::f0(), admissible::<F>(rows), is_p2(sup), np2(sup) == sup, sup <= 0x8000_0000_0000_0000, np2(sup) <= pow2(F::S as nat),
    forall|i: int| 0 <= i < w0.len() ==> is_dft((#[trigger] w1[i])@, padded(w0[i]@, sup), om.finv()),
    result@.len() == vx_k4, forall|i: int| 0 <= i < vx_k4 ==> interpolates(#[trigger] result@[i], w0[i]@),
  decreases vx_n4 - vx_k4
//@@ loop 5 before
  let ghost y = w@;
  proof { assert(w1[vx_i4 as int]@ == y); assert(w0[vx_i4 as int]@.len() == rows); lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 5
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == y.len(), vx_n5 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k5 <= vx_n5,
    w@.len() == vx_l1,
    forall|i: int| 0 <= i < off(vx_k5 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] w@[i] == y[i].fmul(minv),
    forall|i: int| off(vx_k5 as int, vx_c1 as int, vx_l1 as int) <= i < vx_l1 ==> #[trigger] w@[i] == y[i],
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  let ghost pre = w@; let ghost o = off(vx_i5 as int, vx_c1 as int, vx_l1 as int);
//@@ loop 6 before
  let ghost v0 = w@;
//@@ loop 6
  invariant vx_n6 == w@.len(), w@.len() == v0.len(), vx_k6 <= vx_n6,
    forall|i: int| 0 <= i < vx_k6 ==> #[trigger] w@[i] == v0[i].fmul(minv),
    forall|i: int| vx_k6 <= i < vx_n6 ==> #[trigger] w@[i] == v0[i],
  decreases vx_n6 - vx_k6
//@@ loop 5 end
  proof { let o2 = off(vx_k5 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] w@[i] == y[i].fmul(minv) by {
      if i >= o { assert(pre[i] == y[i]); assert(pre.subrange(o, o2)[i - o] == pre[i]); } else { assert(w@[i] == pre[i]); } }
    assert forall|i: int| o2 <= i < vx_l1 implies #[trigger] w@[i] == y[i] by { assert(w@[i] == pre[i]); } }
//@@ stmt "let p =" before
  let ghost cs = w@;
  proof { let v = padded(w0[vx_i4 as int]@, sup);
    assert forall|i: int| 0 <= i < pow2(k) implies #[trigger] cs[i] == peval(v, fpow(om.finv(), i as nat)).fmul(nn.finv()) by { assert(w1[vx_i4 as int]@[i] == peval(v, fpow(om.finv(), i as nat))); }
    F::ax_mul_comm(nn, nn.finv()); F::ax_inv(nn);
    l_inverse_dft(v, cs, nn.finv(), om, k); assert(padded(cs, np2(cs.len() as int)) =~= cs); }
//@@ stmt "let p =" after
  proof { lemma_pow2_inj(p.exp as nat, k); }
//@@ endfn
//@@ fn src/arp/per_register/mod.rs ARPInstance::calculate_witness_polys ret=r
requires rect(witness@), wp_ok(nrows(witness@), witness@.len() as int, worker)
ensures r is Ok <==> witness@.len() == self.properties.num_registers && nrows(witness@) == self.properties.num_rows && admissible::<F>(nrows(witness@)),
  r matches Ok(ps) ==> ps@.len() == self.properties.num_registers && forall|i: int| 0 <= i < ps@.len() ==> interpolates(#[trigger] ps@[i], witness@[i]@)
//@@ begin
  let ghost w0 = witness@; proof { assert(w0[0]@.len() == nrows(w0)); }
//@@ loop 1
  invariant vx_n1 == w0.len(), vx_k1 <= vx_n1, witness@ == w0, rect(w0), num_rows == nrows(w0),
  decreases vx_n1 - vx_k1
//@@ endfn
// what the transform identity says about one row
pub proof fn thm_witness_value<F: PrimeField>(p: Polynomial<F, Coefficients>, w: Seq<F>, row: int)
    requires interpolates(p, w), 0 <= row < np2(w.len() as int)
    ensures peval(p.coeffs@, fpow(p.omega, row as nat)) == (if row < w.len() { w[row] } else { F::f0() }),
        p.omega == dgen::<F>(p.exp as nat), pow2(p.exp as nat) == np2(w.len() as int)
{ assert(padded(w, np2(w.len() as int))[row] == peval(p.coeffs@, fpow(p.omega, row as nat))); }
