// ---- FRI (over the TrivialBlake2sIOP oracle) ----
//@@ subst "impl<F: PrimeField, I: IOP<F>>" => "impl<F: PrimeField>"
//@@ subst "impl<'a, F: PrimeField, I: IOP<F>>" => "impl<F: PrimeField>"
//@@ subst "NaiveFriIop<F, I>" => "NaiveFriIop<F>"
//@@ subst "FRIProof<F, I>" => "FRIProof<F>"
//@@ subst "FRIProof::<F, I>" => "FRIProof::<F>"
//@@ subst "FRIProofPrototype<F, I>" => "FRIProofPrototype<F>"
//@@ subst "<I::Combiner as CosetCombiner<F>>" => "TrivialCombiner::<F>"
//@@ subst "I::verify_query" => "TrivialBlake2sIOP::<F>::verify_query"
//@@ subst "I::encode_root_into_challenge" => "TrivialBlake2sIOP::<F>::encode_root_into_challenge"
//@@ subst "I::get_for_natural_index" => "TrivialBlake2sIOP::<F>::get_for_natural_index"
//@@ subst "< <I as IOP<F> >::Query >" => "<TrivialBlake2sIopQuery<F>>"
//@@ subst "< < <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput>" => "<[u8; 32]>"
//@@ subst "< <I::Tree as IopTree<F> >::Hasher as IopTreeHasher<F>>::HashOutput" => "[u8; 32]"
//@@ const src/iop/trivial_coset_combiner.rs TrivialCombiner::COSET_SIZE
pub struct NaiveFriIop<F: PrimeField> { _marker_f: std::marker::PhantomData<F> }
//@@ item src/fri/mod.rs FRIProof "FRIProof<F: PrimeField, I: IOP<F>>" => "FRIProof<F: PrimeField>"
pub open spec fn ftwo<F: FieldSpec>() -> F { F::f1().fadd(F::f1()) }
// ((a + b) + c * (a - b) / x) / 2
pub open spec fn ffold<F: FieldSpec>(a: F, b: F, c: F, xinv: F) -> F { fsub(a, b).fmul(xinv).fmul(c).fadd(a.fadd(b)).fmul(ftwo::<F>().finv()) }
pub open spec fn fri_k<F: PrimeField>(p: FRIProof<F>) -> nat { lg2(np2(p.initial_degree_plus_one * p.lde_factor)) }
// index and coset in round r
pub open spec fn fri_idx(k: nat, i: int, r: int) -> int { i % (pow2((k - r) as nat) as int) }
pub open spec fn fri_cos(k: nat, i: int, r: int) -> Seq<usize> { sp_coset(fri_idx(k, i, r), pow2((k - r) as nat) as int) }
pub open spec fn fri_val<F: PrimeField>(p: FRIProof<F>, k: nat, i: int, r: int) -> F {
    if fri_cos(k, i, r)[0] == fri_idx(k, i, r) { p.queries@[2 * r].value } else { p.queries@[2 * r + 1].value }
}
pub open spec fn fri_fold<F: PrimeField>(p: FRIProof<F>, k: nat, i: int, r: int) -> F {
    ffold(p.queries@[2 * r].value, p.queries@[2 * r + 1].value, chal::<F>(p.roots@[r]@), fpow(dgen::<F>((k - r) as nat).finv(), fri_cos(k, i, r)[0] as nat))
}
pub open spec fn fri_shape<F: PrimeField>(p: FRIProof<F>, i: int) -> bool {
    let n = p.initial_degree_plus_one * p.lde_factor;
    &&& n < 0x1_0000_0000_0000_0000 && np2(n) < 0x1_0000_0000_0000_0000 && np2(n) <= pow2(F::S as nat)
    &&& 0 <= i < np2(n) && i % 2 == 1
    &&& 1 <= p.roots@.len() <= fri_k(p) && p.queries@.len() == 2 * p.roots@.len()
    &&& p.initial_degree_plus_one == p.output_coeffs_at_degree_plus_one * pow2((p.roots@.len() - 1) as nat) && p.final_coefficients@.len() == p.output_coeffs_at_degree_plus_one
}
pub proof fn l_deg_odd(n: int, d: int, o: int, t: nat, r: nat) requires n == d * pow2(t), t < r
    ensures d % 2 != 0 ==> n != o * pow2(r), d % 2 == 0 ==> n == (d / 2) * pow2(t + 1)
{
    lemma_pow2_adds(t, (r - t) as nat); lemma_pow2_step((r - t - 1) as nat); lemma_pow2_pos(t); lemma_pow2_step(t); let e = pow2(t) as int; let h = pow2((r - t - 1) as nat) as int;
    if n == o * pow2(r) { assert(d == 2 * (o * h)) by (nonlinear_arith) requires d * e == o * (e * (2 * h)), e >= 1; }
    if d % 2 == 0 { let q = d / 2; assert(d == 2 * q); assert((2 * q) * e == q * (2 * e)) by (nonlinear_arith); }
}
// a supplied query is the one asked for, and it opens the round's root
pub open spec fn fri_opens<F: PrimeField>(q: TrivialBlake2sIopQuery<F>, idx: int, depth: int, root: Seq<u8>) -> bool {
    q.index == idx && q.path@.len() == depth && verifies(root, q.value, q.path@, q.index as int)
}
pub open spec fn fri_round<F: PrimeField>(p: FRIProof<F>, k: nat, i: int, v: F, r: int) -> bool {
    &&& fri_opens(p.queries@[2 * r], fri_cos(k, i, r)[0] as int, k - r, p.roots@[r]@)
    &&& fri_opens(p.queries@[2 * r + 1], fri_cos(k, i, r)[1] as int, k - r, p.roots@[r]@)
    &&& fri_val(p, k, i, r) == if r == 0 { v } else { fri_fold(p, k, i, r - 1) }
}
pub open spec fn fri_final<F: PrimeField>(p: FRIProof<F>, k: nat, i: int) -> bool {
    let l = p.roots@.len() - 1;
    peval(p.final_coefficients@, fpow(dgen::<F>((k - l) as nat), fri_idx(k, i, l) as nat)) == fri_val(p, k, i, l)
}
pub open spec fn fri_accepts<F: PrimeField>(p: FRIProof<F>, i: int, v: F) -> bool {
    &&& fri_shape(p, i)
    &&& forall|r: int| 0 <= r < p.roots@.len() ==> #[trigger] fri_round(p, fri_k(p), i, v, r)
    &&& fri_final(p, fri_k(p), i)
}

// std: slice::contains, chunks_exact
fn vx_contains(s: &Vec<usize>, x: &usize) -> (r: bool) ensures r <==> s@.contains(*x) {
    let mut i: usize = 0;
    while i < s.len() invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> s@[j] != *x decreases s@.len() - i { if s[i] == *x { assert(s@[i as int] == *x); return true; } i = i + 1; }
    false
}
#[verifier::external_body]
fn vx_num_chunks_exact(len: usize, c: usize) -> (r: usize) requires c > 0 ensures r == len as int / c as int { len / c }
#[verifier::external_body]
fn vx_chunk_exact<'a, T>(s: &'a [T], i: usize, c: usize) -> (r: &'a [T]) requires c > 0, i < s@.len() as int / c as int
    ensures r@ == s@.subrange(i as int * c as int, i as int * c as int + c as int) { s.chunks_exact(c).nth(i).unwrap() }
pub proof fn lemma_chunk_exact_step(k: int, c: int, len: int) requires 0 <= k < len / c, c > 0, len >= 0 ensures 0 <= k * c, k * c + c <= len {
    lemma_fundamental_div_mod(len, c); let q = len / c;
    assert(k * c + c <= q * c) by (nonlinear_arith) requires k + 1 <= q, c > 0;
    assert(k * c >= 0) by (nonlinear_arith) requires k >= 0, c > 0;
    assert(c * q == q * c) by (nonlinear_arith);
    lemma_mod_bound(len, c);
}
// the power of the domain generator that is -1 decides the parity of the index
pub proof fn l_odd_index<F: PrimeField>(g: F, k: nat, i: nat) requires prim(g, k), k >= 1 ensures fpow(fpow(g, i), pow2(k)) == F::f1(), (fpow(fpow(g, i), pow2((k - 1) as nat)) == F::f1()) <==> i % 2 == 0 {
    l_pow_mul(g, i, pow2(k)); l_pow_mul(g, pow2(k), i); l_pow_one::<F>(i); assert(i * pow2(k) == pow2(k) * i) by (nonlinear_arith);
    let h = pow2((k - 1) as nat);
    l_pow_mul(g, i, h); l_pow_mul(g, h, i); assert(i * h == h * i) by (nonlinear_arith); l_m1_pow::<F>(i); l_m1_ne_1::<F>();
}
pub proof fn l_fri_next<F: PrimeField>(k: nat, i: int, r: int, w: F, wi: F) requires 0 <= r < k, k <= F::S, 0 <= i, w == dgen::<F>((k - r) as nat), wi == w.finv(), w != F::f0()
    ensures w.fmul(w) == dgen::<F>((k - (r + 1)) as nat), wi.fmul(wi) == w.fmul(w).finv(), w.fmul(w) != F::f0(),
      fri_idx(k, i, r) % (pow2((k - r) as nat) as int / 2) == fri_idx(k, i, r + 1), pow2((k - r) as nat) as int / 2 == pow2((k - (r + 1)) as nat)
{
    l_dgen_sq::<F>((k - r) as nat); l_mul_nonzero(w, w); F::ax_inv(w); l_mul4(w, w, wi, wi); F::ax_one(F::f1()); l_inv_unique(w.fmul(w), wi.fmul(wi));
    lemma_pow2_step((k - r - 1) as nat); let h = pow2((k - r - 1) as nat) as int; lemma_pow2_pos((k - r - 1) as nat);
    lemma_mod_mod(i, h, 2); assert(h * 2 == pow2((k - r) as nat));
}
// ---- FRI prototypes: what the prover produces ----
//@@ item src/fri/mod.rs FRIProofPrototype "FRIProofPrototype<F: PrimeField, I: IOP<F>>" => "FRIProofPrototype<F: PrimeField>" "l0_commitment: I" => "l0_commitment: TrivialBlake2sIOP<F>" "Vec<I>" => "Vec<TrivialBlake2sIOP<F>>"
//@@ const src/fri/mod.rs NaiveFriIop::DEGREE
pub open spec fn pl_layer<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, r: int) -> Seq<F> { if r <= 0 { leaf } else { p.intermediate_values@[r - 1].coeffs@ } }
pub open spec fn pl_iop<F: PrimeField>(p: FRIProofPrototype<F>, r: int) -> TrivialBlake2sIOP<F> { if r <= 0 { p.l0_commitment } else { p.intermediate_commitments@[r - 1] } }
pub open spec fn pl_k<F: PrimeField>(p: FRIProofPrototype<F>) -> nat { lg2(np2(p.initial_degree_plus_one * p.lde_factor)) }
// what folding the layer of round r gives at the queried index
pub open spec fn pl_fold<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, k: nat, i: int, r: int) -> F {
    let l = pl_layer(p, leaf, r); let c = fri_cos(k, i, r);
    ffold(l[c[0] as int], l[c[1] as int], p.challenges@[r], fpow(dgen::<F>((k - r) as nat).finv(), c[0] as nat))
}
pub open spec fn pl_rounds<F: PrimeField>(p: FRIProofPrototype<F>) -> int { if p.challenges@.len() <= p.intermediate_values@.len() { p.challenges@.len() as int } else { p.intermediate_values@.len() as int + 1 } }
pub open spec fn pl_shape<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>) -> bool {
    let n = p.initial_degree_plus_one * p.lde_factor; let k = pl_k(p);
    &&& n <= 0x8000_0000_0000_0000 && np2(n) <= pow2(F::S as nat)
    &&& p.intermediate_values@.len() < usize::MAX && 1 <= pl_rounds(p) <= k
    &&& forall|r: int| 0 <= r < pl_rounds(p) ==> (#[trigger] pl_layer(p, leaf, r)).len() >= pow2((k - r) as nat)
}
pub open spec fn pl_link<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, k: nat, i: int, r: int) -> bool { r >= 1 ==> pl_layer(p, leaf, r)[fri_idx(k, i, r)] == pl_fold(p, leaf, k, i, r - 1) }
pub open spec fn pl_accepts<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, i: int) -> bool {
    let k = pl_k(p); let s = pl_rounds(p);
    &&& i % 2 == 1
    &&& forall|r: int| 0 <= r < s ==> #[trigger] pl_link(p, leaf, k, i, r)
    &&& peval(p.final_coefficients@, fpow(dgen::<F>((k - s) as nat), fri_idx(k, i, s) as nat)) == pl_fold(p, leaf, k, i, s - 1)
}
// a prototype whose trees commit to its layers and whose challenges are the ones the roots encode
pub open spec fn pl_committed<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>) -> bool {
    let n = p.initial_degree_plus_one * p.lde_factor; let k = lg2(n as int); let s = p.intermediate_values@.len();
    &&& n < 0x8000_0000_0000_0000 && is_p2(n as int) && k <= F::S && s + 1 <= k
    &&& p.intermediate_commitments@.len() == s && p.challenges@.len() == s
    &&& forall|r: int| 0 <= r <= s ==> (#[trigger] pl_layer(p, leaf, r)).len() == pow2((k - r) as nat)
    &&& forall|r: int| 0 <= r <= s ==> (#[trigger] pl_iop(p, r)).tree.wf(pl_layer(p, leaf, r))
    &&& forall|r: int| 0 <= r < s ==> #[trigger] p.challenges@[r] == chal::<F>(nd(pl_layer(p, leaf, r), 1))
}
// each layer is the fold of the one before
pub open spec fn layer_folds<F: PrimeField>(a: Seq<F>, b: Seq<F>, c: F, k: nat) -> bool {
    let h = pow2((k - 1) as nat) as int;
    forall|j: int| 0 <= j < h ==> #[trigger] b[j] == ffold(a[j], a[j + h], c, fpow(dgen::<F>(k).finv(), j as nat))
}
pub open spec fn pl_folded<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>) -> bool {
    let k = lg2(p.initial_degree_plus_one * p.lde_factor);
    forall|r: int| 0 <= r < p.intermediate_values@.len() ==> #[trigger] layer_folds(pl_layer(p, leaf, r), pl_layer(p, leaf, r + 1), p.challenges@[r], (k - r) as nat)
}
// the final coefficients are those of the last layer
pub open spec fn pl_final<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>) -> bool {
    let k = lg2(p.initial_degree_plus_one * p.lde_factor); let s = p.intermediate_values@.len() as int;
    forall|j: int| 0 <= j < pow2((k - s) as nat) ==> peval(p.final_coefficients@, fpow(dgen::<F>((k - s) as nat), j as nat)) == #[trigger] pl_layer(p, leaf, s)[j]
}
pub open spec fn pl_query<F: PrimeField>(q: TrivialBlake2sIopQuery<F>, l: Seq<F>, i: int) -> bool { q.index == i && q.value == l[i] && is_path(q.path@, l, i) }
pub open spec fn pl_answers<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, k: nat, i: int, qs: Seq<TrivialBlake2sIopQuery<F>>, roots: Seq<[u8; 32]>, r: int) -> bool {
    &&& pl_query(qs[2 * r], pl_layer(p, leaf, r), fri_cos(k, i, r)[0] as int) && pl_query(qs[2 * r + 1], pl_layer(p, leaf, r), fri_cos(k, i, r)[1] as int)
    &&& roots[r]@ == nd(pl_layer(p, leaf, r), 1)
}
// the final polynomial has the degree the claimed one leaves after all the foldings
pub open spec fn pl_degrees<F: PrimeField>(p: FRIProofPrototype<F>) -> bool { p.initial_degree_plus_one == p.output_coeffs_at_degree_plus_one * pow2(p.intermediate_values@.len()) && p.final_coefficients@.len() == p.output_coeffs_at_degree_plus_one }
pub open spec fn pl_honest<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>) -> bool { pl_committed(p, leaf) && pl_folded(p, leaf) && pl_final(p, leaf) && pl_degrees(p) }
