// ---- vanishing polynomials: product of (X - root) ----
//@@ ring r_mulx p a b y x r : (p + (a - b*r)*y) + b*(x*y) == (p + a*y) + (b*y)*(x - r)
//@@ ring r_mulx_d s t x r z : (s + t)*(x - r) == s*(x-r) + t*(x-r)
// coefficients of (X - r) * c
pub open spec fn mulx<F: FieldSpec>(c: Seq<F>, r: F) -> Seq<F> {
    Seq::new(c.len() + 1, |i: int| if i < c.len() { (if i > 0 { c[i - 1] } else { F::f0() }).fadd(c[i].fmul(r).fneg()) } else { c[i - 1] }) }
// coefficients of the product over the first n roots
pub open spec fn rcoef<F: FieldSpec>(s: Seq<F>, n: int) -> Seq<F> decreases n { if n <= 0 { seq![F::f1()] } else { mulx(rcoef(s, n - 1), s[n - 1]) } }
pub open spec fn vprod<F: FieldSpec>(s: Seq<F>, x: F, n: int) -> F decreases n { if n <= 0 { F::f1() } else { vprod(s, x, n - 1).fmul(x.fadd(s[n - 1].fneg())) } }
pub open spec fn prevc<F: FieldSpec>(c: Seq<F>, i: int) -> F { if i > 0 { c[i - 1] } else { F::f0() } }
pub proof fn l_mulx_part<F: FieldSpec>(c: Seq<F>, r: F, x: F, n: int) requires 0 <= n <= c.len()
    ensures fsum(term(mulx(c, r), x), n).fadd(prevc(c, n).fmul(fpow(x, n as nat))) == fsum(term(c, x), n).fmul(x.fadd(r.fneg())) decreases n
{
    if n == 0 { l_mul_zero(F::f1()); l_mul_zero(x.fadd(r.fneg())); F::ax_zero(F::f0()); }
    else {
        let m = n - 1; l_mulx_part(c, r, x, m); let y = fpow(x, m as nat); l_pow_step(x, m as nat);
        let p = fsum(term(mulx(c, r), x), m); let a = prevc(c, m); let b = c[m]; let s = fsum(term(c, x), m);
        assert(mulx(c, r)[m] == a.fadd(b.fmul(r).fneg()));
        assert(term(mulx(c, r), x)(m) == a.fadd(b.fmul(r).fneg()).fmul(y)); assert(term(c, x)(m) == b.fmul(y));
        r_mulx(p, a, b, y, x, r); r_mulx_d(s, b.fmul(y), x, r, x);
        assert(prevc(c, n) == b); assert(fpow(x, n as nat) == x.fmul(y));
    }
}
pub proof fn l_mulx_eval<F: FieldSpec>(c: Seq<F>, r: F, x: F) requires c.len() >= 1 ensures peval(mulx(c, r), x) == peval(c, x).fmul(x.fadd(r.fneg())) {
    let n = c.len() as int; l_mulx_part(c, r, x, n); assert(mulx(c, r)[n] == c[n - 1]); assert(term(mulx(c, r), x)(n) == c[n - 1].fmul(fpow(x, n as nat)));
}
pub proof fn l_rcoef_len<F: FieldSpec>(s: Seq<F>, n: int) requires 0 <= n <= s.len() ensures rcoef(s, n).len() == n + 1, rcoef(s, n)[n] == F::f1() decreases n { if n > 0 { l_rcoef_len(s, n - 1); } }
pub proof fn l_rcoef_eval<F: FieldSpec>(s: Seq<F>, n: int, x: F) requires 0 <= n <= s.len() ensures peval(rcoef(s, n), x) == vprod(s, x, n) decreases n {
    if n > 0 { l_rcoef_eval(s, n - 1, x); l_rcoef_len(s, n - 1); l_mulx_eval(rcoef(s, n - 1), s[n - 1], x); }
    else { let c: Seq<F> = seq![F::f1()]; assert(rcoef(s, n) == c); reveal_with_fuel(fsum, 2); F::ax_one(F::f1()); l_zero_l(F::f1()); assert(term(c, x)(0) == F::f1().fmul(F::f1())); }
}
pub proof fn l_vprod_split<F: FieldSpec>(s: Seq<F>, x: F, a: int, b: int) requires 0 <= a <= b <= s.len() ensures vprod(s, x, b) == vprod(s, x, a).fmul(vprod(s.subrange(a, b), x, b - a)) decreases b {
    let t = s.subrange(a, b);
    if b == a { F::ax_one(vprod(s, x, a)); }
    else { l_vprod_split(s, x, a, b - 1); let u = s.subrange(a, b - 1); l_vprod_ext(t, u, x, b - 1 - a); assert(t[b - 1 - a] == s[b - 1]); F::ax_mul_assoc(vprod(s, x, a), vprod(u, x, b - 1 - a), x.fadd(s[b - 1].fneg())); }
}
pub proof fn l_vprod_ext<F: FieldSpec>(s: Seq<F>, t: Seq<F>, x: F, n: int) requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures vprod(s, x, n) == vprod(t, x, n) decreases n { if n > 0 { l_vprod_ext(s, t, x, n - 1); } }
// the first root: (X - r) * 1
pub proof fn l_rcoef_one<F: FieldSpec>(s: Seq<F>) requires s.len() >= 1 ensures rcoef(s, 1) == seq![s[0].fneg(), F::f1()] {
    reveal_with_fuel(rcoef, 2); let c: Seq<F> = seq![F::f1()]; assert(rcoef(s, 0) == c); l_one_l(s[0]); l_zero_l(s[0].fneg()); assert(mulx(c, s[0]) =~= seq![s[0].fneg(), F::f1()]);
}
pub proof fn l_rcoef_ext<F: FieldSpec>(s: Seq<F>, t: Seq<F>, n: int) requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures rcoef(s, n) == rcoef(t, n) decreases n { if n > 0 { l_rcoef_ext(s, t, n - 1); } }
// result of merging a chunk product of m+1 coefficients into a domain of 2^kk elements
pub proof fn l_merge_sizes<F: PrimeField>(m: int, n: int, kk: nat) requires 1 <= m <= n, np2(n) == pow2(kk), kk < 32, kk <= F::S
    ensures admissible::<F>(m), ({ let t = np2(m); let f = (pow2(kk) as int) / t; let e = lg2(t); &&& t == pow2(e) &&& e <= kk &&& is_p2(f) &&& lg2(f) == kk - e &&& t * f == pow2(kk) &&& f >= 1 &&& e < 32 })
{
    lemma_np2(m); lemma_np2(n); lemma2_to64(); lemma2_to64_rest(); let t = np2(m); lemma_is_p2(t); let e = lg2(t);
    if n >= m { assert(pow2(kk) >= np2(m)); }
    if e > kk { lemma_pow2_strictly_increases(kk, e); }
    let d = (kk - e) as nat; lemma_pow2_adds(e, d); lemma_pow2_pos(d); assert(pow2(kk) == pow2(d) * t && pow2(kk) == t * pow2(d)) by (nonlinear_arith) requires pow2(kk) == pow2(e) * pow2(d), t == pow2(e);
    lemma_fundamental_div_mod_converse(pow2(kk) as int, t, pow2(d) as int, 0); lemma_lg2_pow2(d);
    lemma_pow2_le(e, F::S as nat); lemma_pow2_le(kk, 32); 
}
//@@ fn src/polynomials/mod.rs Polynomial::from_roots ret=r attr="#[verifier::rlimit(60)]"
requires worker.wf(), worker.cpus < 0x8000_0000_0000_0000, 1 <= roots@.len() < 0x8000_0000
ensures r is Ok <==> admissible::<F>((roots@.len() + 1) as int),
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.coeffs@ == padded(rcoef(roots@, roots@.len() as int), np2((roots@.len() + 1) as int)),
  // what these coefficients are: the monic product of the (X - root)
  rcoef(roots@, roots@.len() as int).len() == roots@.len() + 1, rcoef(roots@, roots@.len() as int)[roots@.len() as int] == F::f1(),
  forall|x: F| #[trigger] peval(rcoef(roots@, roots@.len() as int), x) == vprod(roots@, x, roots@.len() as int)
//@@ subst "let mut subterms = vx_vec_repeat (Vec :: new () , num_threads)" => "let mut subterms : Vec < Vec < F >> = vx_vec_repeat (Vec :: new () , num_threads)"
//@@ subst "tmp . extend (s [0] . clone ())" => "tmp . append (& mut vx_to_vec (s [0] . as_slice ()))"
//@@ begin
  let ghost rs = roots@; let ghost n = roots@.len() as int;
  proof { l_rcoef_len(rs, n); assert forall|x: F| #[trigger] peval(rcoef(rs, n), x) == vprod(rs, x, n) by { l_rcoef_eval(rs, n, x); }
    lemma_np2(n + 1); lemma_np2_big(n + 1); lemma2_to64(); lemma2_to64_rest(); assert(pow2(31) == 0x8000_0000); assert(np2(n + 1) <= pow2(31)); }
//@@ stmt "let num_threads" before
  let ghost kk = domain.power_of_two as nat; let ghost w = domain.generator;
  proof { lemma_is_p2(np2(n + 1)); lemma_pow2_inj(kk, lg2(np2(n + 1))); if kk > 31 { lemma_pow2_strictly_increases(31, kk); } }
//@@ loop 1 before
  let ghost nt = num_chunks(n, vx_c1 as int);
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); lemma_num_chunks(vx_l2 as int, 1); assert((vx_l2 + 1 - 1) / 1 == vx_l2); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c2 == 1, vx_l1 == n, vx_l2 == nt, roots@ == rs, rs.len() == n, nt == num_chunks(n, vx_c1 as int), vx_n1 == nt, vx_nc1 == nt, vx_nc2 == nt, vx_nc2 == num_chunks(vx_l2 as int, 1), vx_k1 <= vx_n1, n < 0x8000_0000,
    subterms@.len() == nt,
    forall|j: int| 0 <= j < vx_k1 ==> (#[trigger] subterms@[j])@ == rcoef(rs.subrange(off(j, vx_c1 as int, n), off(j + 1, vx_c1 as int, n)), off(j + 1, vx_c1 as int, n) - off(j, vx_c1 as int, n)),
    forall|j: int| vx_k1 <= j < nt ==> (#[trigger] subterms@[j])@.len() == 0,
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost pre = subterms@; let ghost o = off(vx_i1 as int, vx_c1 as int, n); let ghost o2 = off(vx_i1 + 1, vx_c1 as int, n); let ghost ck = rs.subrange(o, o2);
  proof { lemma_chunk_step(vx_i1 as int, 1, vx_l2 as int); assert(pre[vx_i1 as int]@.len() == 0); }
//@@ loop 2
  invariant r@ == ck, ck.len() == o2 - o, vx_n2 == r@.len(), vx_k2 <= vx_n2, s@.len() == 1, 0 <= o < o2 <= n, n < 0x8000_0000,
    vx_k2 == 0 ==> s@[0]@.len() == 0, vx_k2 > 0 ==> s@[0]@ == rcoef(ck, vx_k2 as int),
  decreases vx_n2 - vx_k2
//@@ loop 2 start
  proof { if vx_i2 > 0 { l_rcoef_len(ck, vx_i2 as int); } else { l_rcoef_one(ck); } }
//@@ stmt "tmp . extend" after
  let ghost c0 = s@[0]@; let ghost t0 = tmp@;
//@@ loop 3
  invariant s@.len() == 1, s@[0]@ == c0, c0.len() >= 1, t0 == seq![F::f0()] + c0, tmp@.len() == c0.len() + 1, vx_n3 == c0.len(), vx_k3 <= vx_n3, *r == rr,
    forall|i: int| 0 <= i < vx_k3 ==> #[trigger] tmp@[i] == t0[i].fadd(c0[i].fmul(rr).fneg()),
    forall|i: int| vx_k3 <= i < tmp@.len() ==> #[trigger] tmp@[i] == t0[i],
  decreases vx_n3 - vx_k3
//@@ loop 3 before
  let ghost rr = *r;
//@@ loop 3 after
  proof { assert(tmp@ =~= mulx(c0, rr)); }
//@@ loop 1 end
  proof { assert forall|j: int| 0 <= j < vx_k1 implies (#[trigger] subterms@[j])@ == rcoef(rs.subrange(off(j, vx_c1 as int, n), off(j + 1, vx_c1 as int, n)), off(j + 1, vx_c1 as int, n) - off(j, vx_c1 as int, n)) by {
      if j < vx_i1 { assert(subterms@[j] == pre[j]); } }
    assert forall|j: int| vx_k1 <= j < nt implies (#[trigger] subterms@[j])@.len() == 0 by { assert(subterms@[j] == pre[j]); } }
//@@ loop 4 before
  let ghost c = worker.csz(n); proof { lemma_num_chunks(n, c); }
//@@ loop 4
  invariant worker.wf(), worker.cpus < 0x8000_0000_0000_0000, c > 0, subterms@.len() == num_chunks(n, c), vx_n4 == num_chunks(n, c), vx_k4 <= vx_n4, rs.len() == n, 1 <= n < 0x8000_0000,
    kk < 32, kk <= F::S, result_len == pow2(kk), np2(n + 1) == pow2(kk), w == dgen::<F>(kk), admissible::<F>(n + 1),
    forall|j: int| 0 <= j < num_chunks(n, c) ==> (#[trigger] subterms@[j])@ == rcoef(rs.subrange(off(j, c, n), off(j + 1, c, n)), off(j + 1, c, n) - off(j, c, n)),
    result is Some <==> vx_k4 > 0,
    result matches Some(q) ==> q.wf() && q.exp == kk && (forall|i: int| 0 <= i < pow2(kk) ==> #[trigger] q.coeffs@[i] == vprod(rs, fpow(w, i as nat), off(vx_k4 as int, c, n))),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  let ghost o = off(vx_i4 as int, c, n); let ghost o2 = off(vx_i4 + 1, c, n); let ghost ck = rs.subrange(o, o2); let ghost m = o2 - o; let ghost q0 = result;
  proof { lemma_chunk_step(vx_i4 as int, c, n); l_rcoef_len(ck, m); l_merge_sizes::<F>(m + 1, n + 1, kk); lemma_np2(m + 1); }
//@@ stmt "let t = Polynomial :: < F , Coefficients > :: from_coeffs" after
  let ghost tc = t.coeffs@; proof { lemma_exp(t, lg2(np2(m + 1))); lemma2_to64(); lemma_pow2_strictly_increases(kk, 64); }
//@@ stmt "let t = t ." after
  proof { lemma_exp(t, kk); l_vals_step(rs, ck, t.coeffs@, tc, w, kk, o, o2);
     if vx_i4 > 0 { assert(q0 is Some); } }
//@@ loop 4 inner_end
  proof { let q = result->Some_0; assert forall|i: int| 0 <= i < pow2(kk) implies #[trigger] q.coeffs@[i] == vprod(rs, fpow(w, i as nat), o2) by { let x = fpow(w, i as nat);
      assert(t.coeffs@[i] == vprod(ck, x, m)); l_vprod_split(rs, x, o, o2); if vx_i4 > 0 { assert(q.coeffs@[i] == q0->Some_0.coeffs@[i].fmul(t.coeffs@[i])); } else { l_one_l(vprod(ck, x, m)); } } }
//@@ stmt "let result = result . ifft" before
  let ghost vals = result.coeffs@;
//@@ stmt "let result = result . ifft" after
  proof { let y = padded(rcoef(rs, n), np2(n + 1)); l_dgen_prim::<F>(kk);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] vals[i] == peval(y, fpow(w, i as nat)) by { l_padded_eval(rcoef(rs, n), np2(n + 1), fpow(w, i as nat)); l_rcoef_eval(rs, n, fpow(w, i as nat)); }
    thm_roundtrip(vals, result.coeffs@, y, w, kk); }
//@@ endfn
pub proof fn l_vals_step<F: PrimeField>(rs: Seq<F>, ck: Seq<F>, v: Seq<F>, tc: Seq<F>, w: F, kk: nat, o: int, o2: int)
    requires 0 <= o < o2 <= rs.len(), ck == rs.subrange(o, o2), is_ext(v, tc, F::f1(), w, pow2(kk) as int), tc == padded(rcoef(ck, o2 - o), np2(o2 - o + 1))
    ensures forall|i: int| 0 <= i < pow2(kk) ==> #[trigger] v[i] == vprod(ck, fpow(w, i as nat), o2 - o)
{
    let m = o2 - o; l_rcoef_len(ck, m); lemma_np2(m + 1);
    assert forall|i: int| 0 <= i < pow2(kk) implies #[trigger] v[i] == vprod(ck, fpow(w, i as nat), m) by {
        let x = fpow(w, i as nat); l_one_l(x); l_padded_eval(rcoef(ck, m), np2(m + 1), x); l_rcoef_eval(ck, m, x); }
}
