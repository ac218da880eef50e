// ---- building the prover's arithmetised instance: real code ----
//@@ item src/ali/mod.rs WitnessEvaluationData
//@@ item src/ali/per_register/mod.rs ALIInstance "T : ARPType" => "T"
// point i of the coset the composition polynomial is computed over
pub open spec fn cpt<F: PrimeField>(n: int, i: int) -> F { F::sgen().fmul(fpow(dgen::<F>(lg2(n)), i as nat)) }
pub open spec fn div_ok<F: PrimeField>(q: Polynomial<F, Values>, n: int, rows: int, m: int, d: ConstraintDensity) -> bool {
    q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == den_inv(cpt::<F>(n, i), m, rows, d) }
pub open spec fn bdiv_ok<F: PrimeField>(q: Polynomial<F, Values>, n: int, m: int, row: int) -> bool {
    q.wf() && q.coeffs@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] q.coeffs@[i] == fsub(cpt::<F>(n, i), fpow(dgen::<F>(lg2(m)), row as nat)).finv() }
pub open spec fn ali_ok<F: PrimeField>(a: ALIInstance<F, PerRegisterARP>) -> bool {
    let p = a.properties; let n = pgsize(p);
    &&& inst_m(p) && a.max_constraint_power == pdeg(p)
    &&& a.column_domain.wf() && a.column_domain.size == psize(p) && a.constraints_domain.wf() && a.constraints_domain.size == n
    &&& a.all_masks@ == pmasks(p) && bview(a.constraints_batched_by_density@) == pbat(p)
    &&& a.precomputations.coset@ == Seq::new(n as nat, |i: int| cpt::<F>(n, i))
    &&& forall|d: int| 0 <= d < pbat(p).len() ==> im_has(a.constraint_divisors@, (#[trigger] pbat(p)[d]).0) && div_ok(im_val(a.constraint_divisors@, pbat(p)[d].0), n, p.num_rows as int, psize(p), pbat(p)[d].0)
    &&& forall|k: int| 0 <= k < p.boundary_constraints@.len() ==> bdivs_has(a.boundary_constraint_divisors@, (#[trigger] p.boundary_constraints@[k]).at_row, n, psize(p))
}
pub open spec fn bdivs_has<F: PrimeField>(s: Seq<(u64, Polynomial<F, Values>)>, row: usize, n: int, m: int) -> bool { im_has(s, row as u64) && bdiv_ok(im_val(s, row as u64), n, m, row as int) }
// a coset point lies in no subgroup of two-power order
pub proof fn l_cpt_out<F: PrimeField>(n: int, m: int, i: int) requires is_p2(n), is_p2(m), m <= n <= pow2(F::S as nat), 0 <= i ensures fpow(cpt::<F>(n, i), m as nat) != F::f1() {
    let k = lg2(n); let j = lg2(m); lemma_is_p2(n); lemma_is_p2(m); let w = dgen::<F>(k); let x = cpt::<F>(n, i);
    if k > F::S { lemma_pow2_strictly_increases(F::S as nat, k); } if j > k { lemma_pow2_strictly_increases(k, j); }
    l_dgen_prim::<F>(k); l_pow_mulbase(F::sgen(), fpow(w, i as nat), n as nat); l_pow_mul(w, i as nat, n as nat); l_pow_mul(w, n as nat, i as nat); l_pow_one::<F>(i as nat);
    assert(i as nat * n as nat == n as nat * i as nat) by (nonlinear_arith); F::ax_one(fpow(F::sgen(), n as nat)); F::ax_gen_coset(k);
    if fpow(x, m as nat) == F::f1() { let e = pow2((k - j) as nat); lemma_pow2_mul(j, (k - j) as nat); l_pow_mul(x, m as nat, e); l_pow_one::<F>(e); }
}
pub proof fn l_cpt_ne<F: PrimeField>(n: int, m: int, i: int, row: nat) requires is_p2(n), is_p2(m), m <= n <= pow2(F::S as nat), 0 <= i ensures cpt::<F>(n, i) != fpow(dgen::<F>(lg2(m)), row) {
    l_cpt_out::<F>(n, m, i); let om = dgen::<F>(lg2(m)); lemma_is_p2(m);
    if lg2(m) > F::S { lemma_pow2_strictly_increases(F::S as nat, lg2(m)); }
    l_dgen_prim::<F>(lg2(m)); l_pow_mul(om, row, m as nat); l_pow_mul(om, m as nat, row); l_pow_one::<F>(row); assert(row * m as nat == m as nat * row) by (nonlinear_arith);
}
// the product the divisor loop accumulates
pub open spec fn rprod<F: FieldSpec>(d: F, x: F, r: Seq<F>, k: int) -> F decreases k { if k <= 0 { d } else { rprod(d, x, r, k - 1).fmul(fsub(x, r[k - 1])) } }
pub proof fn l_rprod<F: PrimeField>(d: F, x: F, r: Seq<F>, o: int, om: F, a: int, b: int)
    requires 0 <= a <= b, 0 <= o, forall|i: int| a <= i < b ==> #[trigger] r[o + i - a] == fpow(om, i as nat)
    ensures rprod(d, x, r, o + b - a) == rprod(d, x, r, o).fmul(vanish(x, om, a, b)) decreases b - a
{
    if a < b { l_rprod(d, x, r, o, om, a, b - 1); assert(r[o + (b - 1) - a] == fpow(om, (b - 1) as nat)); F::ax_mul_assoc(rprod(d, x, r, o), vanish(x, om, a, b - 1), fsub(x, fpow(om, (b - 1) as nat))); }
    else { F::ax_one(rprod(d, x, r, o)); }
}
pub open spec fn droots<F: PrimeField>(om: F, n: int, rows: int, d: DenseConstraint) -> Seq<F> { Seq::new((d.start_at + n - (rows - d.span)) as nat, |i: int| if i < d.start_at { fpow(om, i as nat) } else { fpow(om, (rows - d.span + i - d.start_at) as nat) }) }
pub proof fn l_droots<F: PrimeField>(v: F, x: F, n: int, rows: int, d: DenseConstraint) requires d.start_at + d.span <= rows <= n, v == fsub(fpow(x, n as nat), F::f1()).finv()
    ensures rprod(v, x, droots(dgen::<F>(lg2(n)), n, rows, d), droots(dgen::<F>(lg2(n)), n, rows, d).len() as int) == dense_inv(x, n, rows, d)
{
    let om = dgen::<F>(lg2(n)); let r = droots(om, n, rows, d); let s = d.start_at as int; let l = rows - d.span;
    l_rprod(v, x, r, 0, om, 0, s); l_rprod(v, x, r, s, om, l, n);
}
//@@ fn src/ali/per_register/mod.rs ALIInstance::from_arp::inverse_divisor_for_dense_constraint_in_coset ret=r rename=from_arp__inverse_divisor_for_dense_constraint_in_coset attr="#[verifier::rlimit(40)]"
//@@ subst "roots . iter ()" => "& roots"
//@@ subst "roots_iter . clone ()" => "roots_iter"
//@@ iterkind roots_iter_outer=ref
requires worker.wf(), column_domain.wf(), evaluation_domain.wf(), dense_constraint.start_at + dense_constraint.span <= num_rows <= column_domain.size <= evaluation_domain.size <= 0x8000_0000_0000_0000
ensures r matches Ok(q) && div_ok(q.0, evaluation_domain.size as int, num_rows as int, column_domain.size as int, ConstraintDensity::Dense(dense_constraint))
//@@ begin
  let ghost n = evaluation_domain.size as int; let ghost m = column_domain.size as int; let ghost om = column_domain.generator; let ghost w = evaluation_domain.generator; let ghost rows = num_rows as int; let ghost dn = dense_constraint;
  proof { lemma_lg2_pow2(column_domain.power_of_two as nat); lemma_lg2_pow2(evaluation_domain.power_of_two as nat); lemma_np2(n); lemma_pow2_le(evaluation_domain.power_of_two as nat, F::S as nat); assert(is_p2(n)); assert(is_p2(m)); l_np2_p2(n); }
//@@ loop 1
  invariant vx_n1 == dn.start_at, vx_k1 <= vx_n1, roots_generator == om, root == fpow(om, vx_k1 as nat), roots@.len() == vx_k1, forall|i: int| 0 <= i < vx_k1 ==> #[trigger] roots@[i] == fpow(om, i as nat),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { l_pow_step(om, vx_i1 as nat); }
//@@ loop 2
  invariant vx_n2 == m, last_step == rows - dn.span, last_step <= vx_k2 <= vx_n2, roots_generator == om, root == fpow(om, vx_k2 as nat), roots@.len() == dn.start_at + vx_k2 - last_step,
    forall|i: int| 0 <= i < dn.start_at ==> #[trigger] roots@[i] == fpow(om, i as nat), forall|i: int| dn.start_at <= i < dn.start_at + vx_k2 - last_step ==> #[trigger] roots@[i] == fpow(om, (last_step + i - dn.start_at) as nat),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { l_pow_step(om, vx_i2 as nat); }
//@@ stmt "let evaluation_domain_generator" before
  let ghost rr = roots@;
  proof { assert(rr =~= droots(om, m, rows, dn)); }
//@@ loop 3 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 3
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == n, vx_n3 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k3 <= vx_n3, evaluation_domain_generator == w, multiplicative_generator == F::sgen(), divisor_domain_size == m,
    inverse_divisors.coeffs@.len() == n, inverse_divisors.wf(), w == dgen::<F>(lg2(n)),
    forall|i: int| 0 <= i < off(vx_k3 as int, vx_c1 as int, n) ==> #[trigger] inverse_divisors.coeffs@[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1()),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost pre = inverse_divisors.coeffs@; let ghost o = off(vx_i3 as int, vx_c1 as int, n);
  proof { lemma_chunk_step(vx_i3 as int, vx_c1 as int, n); F::ax_mul_comm(F::sgen(), fpow(w, o as nat)); }
//@@ loop 4
  invariant vx_n4 == inv_divis@.len(), vx_k4 <= vx_n4, o >= 0, w == dgen::<F>(lg2(n)), evaluation_domain_generator == w, divisor_domain_size == m, x == cpt::<F>(n, o + vx_k4),
    forall|i: int| 0 <= i < vx_k4 ==> #[trigger] inv_divis@[i] == fsub(fpow(cpt::<F>(n, o + i), m as nat), F::f1()),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  proof { l_pow_step(w, (o + vx_i4) as nat); F::ax_mul_assoc(F::sgen(), fpow(w, (o + vx_i4) as nat), w); }
//@@ loop 3 end
  proof { let o2 = off(vx_k3 as int, vx_c1 as int, n);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] inverse_divisors.coeffs@[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1()) by { if i < o { assert(inverse_divisors.coeffs@[i] == pre[i]); } else { assert(inverse_divisors.coeffs@[i] == inverse_divisors.coeffs@.subrange(o, o2)[i - o]); } } }
//@@ stmt "inverse_divisors . batch_inversion" before
  let ghost iv = inverse_divisors.coeffs@;
  proof { lemma_num_chunks(n, worker.csz(n)); assert forall|i: int| 0 <= i < n implies #[trigger] iv[i] != F::f0() by { l_cpt_out::<F>(n, m, i); l_nz(fpow(cpt::<F>(n, i), m as nat), F::f1()); } }
//@@ loop 5 before
  let ghost bv = inverse_divisors.coeffs@;
  proof { lemma_num_chunks(vx_l2 as int, vx_c2 as int); assert forall|i: int| 0 <= i < n implies #[trigger] bv[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1()).finv() by { assert(iv[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1())); } }
//@@ loop 5
  invariant vx_c2 > 0, vx_c2 == chunk, vx_l2 == n, vx_n5 == num_chunks(vx_l2 as int, vx_c2 as int), vx_k5 <= vx_n5, evaluation_domain_generator == w, multiplicative_generator == F::sgen(), roots_iter@ == rr, rr == droots(om, m, rows, dn), om == dgen::<F>(lg2(m)),
    dn.start_at + dn.span <= rows <= m,
    inverse_divisors.coeffs@.len() == n, inverse_divisors.wf(), w == dgen::<F>(lg2(n)), bv.len() == n,
    forall|i: int| 0 <= i < n ==> #[trigger] bv[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1()).finv(),
    forall|i: int| 0 <= i < off(vx_k5 as int, vx_c2 as int, n) ==> #[trigger] inverse_divisors.coeffs@[i] == dense_inv(cpt::<F>(n, i), m, rows, dn),
    forall|i: int| off(vx_k5 as int, vx_c2 as int, n) <= i < n ==> #[trigger] inverse_divisors.coeffs@[i] == bv[i],
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  let ghost pre = inverse_divisors.coeffs@; let ghost o = off(vx_i5 as int, vx_c2 as int, n);
  proof { lemma_chunk_step(vx_i5 as int, vx_c2 as int, n); F::ax_mul_comm(F::sgen(), fpow(w, o as nat)); }
//@@ loop 6 before
  let ghost v0 = inv_divis@;
  proof { assert forall|i: int| 0 <= i < v0.len() implies #[trigger] v0[i] == bv[o + i] by { assert(pre.subrange(o, o + v0.len())[i] == pre[o + i]); } }
//@@ loop 6
  invariant vx_n6 == inv_divis@.len(), vx_k6 <= vx_n6, o >= 0, w == dgen::<F>(lg2(n)), evaluation_domain_generator == w, x == cpt::<F>(n, o + vx_k6), roots_iter_outer@ == rr, rr == droots(om, m, rows, dn), om == dgen::<F>(lg2(m)), dn.start_at + dn.span <= rows <= m,
    v0.len() == vx_n6, o + v0.len() <= n, bv.len() == n, forall|i: int| 0 <= i < vx_n6 ==> #[trigger] v0[i] == bv[o + i],
    forall|i: int| 0 <= i < n ==> #[trigger] bv[i] == fsub(fpow(cpt::<F>(n, i), m as nat), F::f1()).finv(),
    forall|i: int| 0 <= i < vx_k6 ==> #[trigger] inv_divis@[i] == dense_inv(cpt::<F>(n, o + i), m, rows, dn),
    forall|i: int| vx_k6 <= i < vx_n6 ==> #[trigger] inv_divis@[i] == v0[i],
  decreases vx_n6 - vx_k6
//@@ loop 6 start
  proof { l_pow_step(w, (o + vx_i6) as nat); F::ax_mul_assoc(F::sgen(), fpow(w, (o + vx_i6) as nat), w); assert(v0[vx_i6 as int] == bv[o + vx_i6]); l_droots(bv[o + vx_i6], x, m, rows, dn); }
//@@ loop 7
  invariant vx_n7 == rr.len(), vx_k7 <= vx_n7, roots_iter_outer@ == rr, d == rprod(bv[o + vx_i6], x, rr, vx_k7 as int),
  decreases vx_n7 - vx_k7
//@@ loop 5 end
  proof { let o2 = off(vx_k5 as int, vx_c2 as int, n);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] inverse_divisors.coeffs@[i] == dense_inv(cpt::<F>(n, i), m, rows, dn) by { if i < o { assert(inverse_divisors.coeffs@[i] == pre[i]); } else { assert(inverse_divisors.coeffs@[i] == inverse_divisors.coeffs@.subrange(o, o2)[i - o]); } }
    assert forall|i: int| o2 <= i < n implies #[trigger] inverse_divisors.coeffs@[i] == bv[i] by { assert(inverse_divisors.coeffs@[i] == pre[i]); } }
//@@ loop 5 after
  proof { lemma_num_chunks(vx_l2 as int, vx_c2 as int); }
//@@ endfn
pub proof fn l_np2_p2(n: int) requires is_p2(n) ensures np2(n) == n { lemma_is_p2(n); lemma_np2(n); }
pub open spec fn rows_in<F: PrimeField>(b: Seq<BoundaryConstraint<F>>, s: Seq<usize>, n: int) -> bool { forall|k: int| 0 <= k < n ==> is_in(s, (#[trigger] b[k]).at_row) }
pub proof fn l_is_in_add<T>(s: Seq<T>, x: T) ensures is_in(set_add(s, x), x), forall|y: T| is_in(s, y) ==> #[trigger] is_in(set_add(s, x), y) {
    let t = set_add(s, x); if !is_in(s, x) { assert(t[s.len() as int] == x); }
    assert forall|y: T| is_in(s, y) implies #[trigger] is_in(t, y) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == y; assert(t[i] == y); }
}
// np2(2^k * d) == 2^k * np2(d), in the form used here
pub proof fn l_np2_scale(m: int, d: int) requires is_p2(m), d >= 1 ensures np2(m * d) == np2(np2(d) * m), np2(np2(d) * m) == np2(d) * m {
    let a = np2(d) * m; lemma_np2(d); lemma_is_p2(m); lemma_is_p2(np2(d)); lemma_pow2_mul(lg2(np2(d)), lg2(m)); assert(is_p2(a)); lemma_np2(a); assert(m * d >= 1) by (nonlinear_arith) requires m >= 1, d >= 1;
    lemma_np2(m * d); assert(m * d <= a) by (nonlinear_arith) requires d <= np2(d), m >= 1, a == np2(d) * m;
    lemma_is_p2(a); assert(pow2(lg2(a)) >= np2(m * d));
    if np2(m * d) < a {
        let b = np2(m * d); lemma_is_p2(b); lemma_is_p2(a); if lg2(a) <= lg2(b) { lemma_pow2_le(lg2(a), lg2(b)); }
        let k = lg2(a); lemma_pow2_step((k - 1) as nat); lemma_pow2_le(lg2(b), (k - 1) as nat); let j = lg2(np2(d));
        if j == 0 { lemma2_to64(); assert(np2(d) == 1); assert(a == m); assert(m * d >= m) by (nonlinear_arith) requires m >= 1, d >= 1; }
        else { lemma_pow2_mul((j - 1) as nat, lg2(m)); lemma_pow2_inj(k, j + lg2(m)); lemma_pow2_step((j - 1) as nat); if pow2((j - 1) as nat) >= d { assert(pow2((j - 1) as nat) >= np2(d)); } assert(m * d > m * pow2((j - 1) as nat)) by (nonlinear_arith) requires m >= 1, d > pow2((j - 1) as nat); assert(m * pow2((j - 1) as nat) == pow2((k - 1) as nat)) by (nonlinear_arith) requires pow2((j - 1 + lg2(m)) as nat) == pow2((j - 1) as nat) * pow2(lg2(m)), m == pow2(lg2(m)), k == j + lg2(m); }
    }
}
//@@ fn src/ali/per_register/mod.rs ALIInstance::from_arp ret=r attr="#[verifier::rlimit(60)]"
//@@ iterkind all_boundary_constraint_steps=copy
requires worker.wf(), inst_m(arp.properties), arp.properties.num_rows <= 0x8000_0000_0000_0000, psize(arp.properties) * pdeg(arp.properties) <= 0x8000_0000_0000_0000
ensures r is Ok <==> admissible::<F>(arp.properties.num_rows as int) && admissible::<F>(pgsize(arp.properties)),
  r matches Ok(a) ==> ali_ok(a) && a.properties == arp.properties
//@@ begin
  let ghost p = arp.properties; let ghost m = psize(p); let ghost d = pdeg(p); let ghost n = pgsize(p); let ghost rows = p.num_rows as int; let ghost cs = p.constraints@; let ghost bs = p.boundary_constraints@; let ghost b = pbat(p);
  proof { l_deg_range(cs, cs.len() as int); lemma_np2(rows); lemma_np2_big(rows); l_np2_scale(m, d); lemma_np2(m * d); lemma_np2_big(m * d); lemma_np2(n); lemma_np2(d); lemma2_to64_rest(); lemma2_to64(); l_pbat(p); F::ax_s(); assert(m <= n) by (nonlinear_arith) requires n == np2(d) * m, np2(d) >= 1, m >= 1; }
//@@ loop 1
  invariant arp.properties == p, cs == p.constraints@, vx_n1 == cs.len(), vx_k1 <= vx_n1, max_constraint_power == max_deg(cs, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ stmt "let precomputed_omegas" before
  let ghost w = constraints_domain.generator;
  proof { l_dom_ok(constraints_domain); l_dom_ok(column_domain); lemma_lg2_pow2(column_domain.power_of_two as nat); lemma_lg2_pow2(constraints_domain.power_of_two as nat); lemma_pow2_le(constraints_domain.power_of_two as nat, F::S as nat); if constraints_domain.power_of_two >= 64 { lemma_pow2_le(64, constraints_domain.power_of_two as nat); } }
//@@ loop 2
  invariant arp.properties == p, cs == p.constraints@, vx_n2 == cs.len(), vx_k2 <= vx_n2, all_masks@ == m_cs(cs, vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ loop 3
  invariant arp.properties == p, cs == p.constraints@, vx_n3 == cs.len(), vx_k3 <= vx_n3, bview(constraints_batched_by_density@) == bat(cs, vx_k3 as int),
  decreases vx_n3 - vx_k3
//@@ loop 3 before
  proof { assert(bview(constraints_batched_by_density@) =~= bat(cs, 0)); }
//@@ loop 3 start
  let ghost bm = constraints_batched_by_density@; let ghost cj = cs[vx_i3 as int];
  proof { constraints_batched_by_density.ax_map(); l_bat_steps(bm, cj); }
//@@ loop 4 before
  proof { constraints_batched_by_density.ax_map(); }
//@@ loop 4
  invariant arp.properties == p, b == pbat(p), bview(constraints_batched_by_density@) == b, vx_n4 == b.len(), vx_n4 == constraints_batched_by_density@.len(), vx_k4 <= vx_n4, rows == p.num_rows, num_rows == rows, m == psize(p), n == pgsize(p),
    m <= n, rows <= m, worker.wf(), column_domain.wf(), column_domain.size == m, constraints_domain.wf(), constraints_domain.size == n, n <= 0x8000_0000_0000_0000,
    forall|i: int| 0 <= i < b.len() ==> dense_ok((#[trigger] b[i]).0, rows),
    forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0,
    forall|i: int| 0 <= i < vx_k4 ==> im_has(inverse_divisors_per_constraint_density@, (#[trigger] b[i]).0) && div_ok(im_val(inverse_divisors_per_constraint_density@, b[i].0), n, rows, m, b[i].0),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost dv = inverse_divisors_per_constraint_density@;
  proof { assert(b[vx_i4 as int].0 == constraints_batched_by_density@[vx_i4 as int].0); inverse_divisors_per_constraint_density.ax_map(); }
//@@ stmt "inverse_divisors_per_constraint_density . insert" before
  proof { l_im_put(dv, *density, divisors); assert(density == b[vx_i4 as int].0);
    assert forall|i: int| 0 <= i < vx_i4 implies im_has(im_put(dv, *density, divisors), (#[trigger] b[i]).0) && im_val(im_put(dv, *density, divisors), b[i].0) == im_val(dv, b[i].0) by { assert(b[i].0 != b[vx_i4 as int].0); } }
//@@ loop 5
  invariant arp.properties == p, bs == p.boundary_constraints@, vx_n5 == bs.len(), vx_k5 <= vx_n5,
  decreases vx_n5 - vx_k5
//@@ loop 6
  invariant arp.properties == p, bs == p.boundary_constraints@, cs == p.constraints@, vx_n6 == bs.len(), vx_k6 <= vx_n6, all_masks@ == m_bs(m_cs(cs, cs.len() as int), bs, vx_k6 as int), rows_in(bs, all_boundary_constraint_steps@, vx_k6 as int),
  decreases vx_n6 - vx_k6
//@@ loop 6 start
  proof { let s = all_boundary_constraint_steps@; l_is_in_add(s, bs[vx_i6 as int].at_row); }
//@@ loop 7 before
  let ghost st = all_boundary_constraint_steps@;
  proof { all_boundary_constraint_steps.ax_set(); }
//@@ loop 7
  invariant all_boundary_constraint_steps@ == st, vx_n7 == st.len(), vx_k7 <= vx_n7, m == psize(p), n == pgsize(p), m <= n, worker.wf(), column_domain.wf(), column_domain.size == m, constraints_domain.wf(), constraints_domain.size == n, n <= 0x8000_0000_0000_0000, is_p2(n), is_p2(m), n <= pow2(F::S as nat), np2(n) == n, column_domain.generator == dgen::<F>(lg2(m)), admissible::<F>(n), F::S >= 1,
    forall|i: int, j: int| 0 <= i < j < st.len() ==> #[trigger] st[i] != #[trigger] st[j],
    forall|i: int| 0 <= i < vx_k7 ==> bdivs_has(boundary_constraint_divisors@, #[trigger] st[i], n, m),
  decreases vx_n7 - vx_k7
//@@ loop 7 start
  let ghost bv = boundary_constraint_divisors@; let ghost rw = st[vx_i7 as int];
  proof { boundary_constraint_divisors.ax_map(); lemma2_to64(); lemma_np2(2); assert(pow2(1) == 2); lemma_pow2_le(1, F::S as nat); }
//@@ stmt "let mut inverse_q_poly_coset_values" after
  let ghost qv = inverse_q_poly_coset_values.coeffs@; let ghost rt = fpow(dgen::<F>(lg2(m)), rw as nat);
  proof { l_dom_eq(inverse_q_poly_coset_values); assert forall|i: int| 0 <= i < n implies #[trigger] qv[i] == fsub(cpt::<F>(n, i), rt) && qv[i] != F::f0() by { l_lin(q_poly.coeffs@, cpt::<F>(n, i), rt); l_cpt_ne::<F>(n, m, i, rw as nat); l_nz(cpt::<F>(n, i), rt); assert(qv[i] == peval(q_poly.coeffs@, cpt::<F>(n, i))); } }
//@@ stmt "boundary_constraint_divisors . insert" before
  proof { assert(bdiv_ok(inverse_q_poly_coset_values, n, m, rw as int)) by { assert forall|i: int| 0 <= i < n implies #[trigger] inverse_q_poly_coset_values.coeffs@[i] == fsub(cpt::<F>(n, i), rt).finv() by { assert(qv[i] == fsub(cpt::<F>(n, i), rt)); } }
    l_im_put(bv, rw as u64, inverse_q_poly_coset_values);
    assert forall|i: int| 0 <= i < vx_i7 implies bdivs_has(im_put(bv, rw as u64, inverse_q_poly_coset_values), #[trigger] st[i], n, m) by { assert(st[i] != st[vx_i7 as int]); assert(bdivs_has(bv, st[i], n, m)); } }
//@@ loop 7 after
  proof { assert forall|k: int| 0 <= k < bs.len() implies bdivs_has(boundary_constraint_divisors@, (#[trigger] bs[k]).at_row, n, m) by { let i = choose|i: int| 0 <= i < st.len() && #[trigger] st[i] == bs[k].at_row; }
    assert(precomputed_omegas.coset@ =~= Seq::new(n as nat, |i: int| cpt::<F>(n, i))); }
//@@ endfn
// x - r as a polynomial of two coefficients
pub proof fn l_lin<F: PrimeField>(s: Seq<F>, x: F, r: F) requires s.len() == 2, s[0] == fsub(F::f0(), r), s[1] == F::f1() ensures peval(s, x) == fsub(x, r) {
    reveal_with_fuel(fsum, 3); l_pow0(x); l_pow1(x); let t = term(s, x); assert(t(0) == s[0].fmul(F::f1())); assert(t(1) == s[1].fmul(x)); F::ax_one(s[0]); l_one_l(x); l_zero_l(r.fneg()); F::ax_add_comm(r.fneg(), x); l_zero_l(s[0]);
    assert(fsum(t, 2) == fsum(t, 1).fadd(t(1)));  assert(fsum(t, 1) == F::f0().fadd(t(0)));
}
pub proof fn l_dom_eq<F: PrimeField, P: PolynomialForm>(q: Polynomial<F, P>) requires q.wf() ensures q.omega == dgen::<F>(lg2(q.coeffs@.len() as int)) { lemma_lg2_pow2(q.exp as nat); }
