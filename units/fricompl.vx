// ---- completeness: honest prototypes and the proofs made from them verify; soundness link by link ----
pub proof fn l_cos(k: nat, i: int, r: int) requires 0 <= r < k, k < 64, 0 <= i
    ensures ({ let m = pow2((k - r) as nat) as int; let h = pow2((k - r - 1) as nat) as int; let c = fri_cos(k, i, r); let x = fri_idx(k, i, r);
        &&& m == 2 * h && h >= 1 && 0 <= x < m && m <= 0x8000_0000_0000_0000
        &&& 0 <= c[0] < h && c[1] == c[0] + h && c[0] == fri_idx(k, i, r + 1) && (x == c[0] || x == c[1]) && (c[0] == x <==> x < h) })
{
    let m = pow2((k - r) as nat) as int; let h = pow2((k - r - 1) as nat) as int; lemma_pow2_step((k - r - 1) as nat); lemma_pow2_pos((k - r - 1) as nat);
    lemma_mod_bound(i, m); lemma_mod_mod(i, h, 2); assert(h * 2 == m); lemma2_to64_rest(); lemma_pow2_le((k - r) as nat, 63); assert(pow2(63) == 0x8000_0000_0000_0000) by { lemma2_to64(); }
    let x = fri_idx(k, i, r);
    if x < h { lemma_small_mod(x as nat, h as nat); } else { lemma_fundamental_div_mod_converse(x, h, 1, x - h); }
}
pub proof fn lemma_prototype_complete<F: PrimeField>(p: FRIProofPrototype<F>, leaf: Seq<F>, i: int)
    requires pl_honest(p, leaf), p.intermediate_values@.len() >= 1, 0 <= i < p.initial_degree_plus_one * p.lde_factor, i % 2 == 1
    ensures pl_shape(p, leaf), pl_accepts(p, leaf, i)
{
    let n = (p.initial_degree_plus_one * p.lde_factor) as int; let k = lg2(n); let s = p.intermediate_values@.len() as int;
    lemma_is_p2(n); lemma2_to64(); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); } lemma_pow2_le(k, F::S as nat);
    lemma_np2(n);
    assert(pl_rounds(p) == s); assert(pl_k(p) == k);
    assert forall|r: int| 0 <= r < s implies (#[trigger] pl_layer(p, leaf, r)).len() >= pow2((k - r) as nat) by { }
    assert forall|r: int| 1 <= r <= s implies #[trigger] pl_layer(p, leaf, r)[fri_idx(k, i, r)] == pl_fold(p, leaf, k, i, r - 1) by {
        l_cos(k, i, r - 1); assert(layer_folds(pl_layer(p, leaf, r - 1), pl_layer(p, leaf, r), p.challenges@[r - 1], (k - (r - 1)) as nat));
    }
    assert forall|r: int| 0 <= r < s implies #[trigger] pl_link(p, leaf, k, i, r) by { if r >= 1 { assert(pl_layer(p, leaf, r)[fri_idx(k, i, r)] == pl_fold(p, leaf, k, i, r - 1)); } }
    l_cos(k, i, s - 1); assert(pl_layer(p, leaf, s)[fri_idx(k, i, s)] == pl_fold(p, leaf, k, i, s - 1));
}
pub open spec fn made_from<F: PrimeField>(q: FRIProof<F>, p: FRIProofPrototype<F>, leaf: Seq<F>, i: int) -> bool {
    &&& q.initial_degree_plus_one == p.initial_degree_plus_one && q.lde_factor == p.lde_factor && q.output_coeffs_at_degree_plus_one == p.output_coeffs_at_degree_plus_one && q.final_coefficients@ == p.final_coefficients@
    &&& q.roots@.len() == p.intermediate_values@.len() + 1 && q.queries@.len() == 2 * q.roots@.len()
    &&& forall|t: int| 0 <= t <= p.intermediate_values@.len() ==> #[trigger] pl_answers(p, leaf, lg2(p.initial_degree_plus_one * p.lde_factor), i, q.queries@, q.roots@, t)
}
pub proof fn lemma_fri_complete<F: PrimeField>(q: FRIProof<F>, p: FRIProofPrototype<F>, leaf: Seq<F>, i: int)
    requires pl_honest(p, leaf), made_from(q, p, leaf, i), 0 <= i < p.initial_degree_plus_one * p.lde_factor, i % 2 == 1
    ensures fri_accepts(q, i, leaf[i])
{
    let n = (p.initial_degree_plus_one * p.lde_factor) as int; let k = lg2(n); let s = p.intermediate_values@.len() as int;
    lemma_is_p2(n); lemma2_to64(); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); } lemma_pow2_le(k, F::S as nat);
    lemma_np2(n); assert(fri_k(q) == k); lemma_small_mod(i as nat, pow2(k));
    assert forall|r: int| 0 <= r <= s implies #[trigger] fri_round(q, k, i, leaf[i], r) && fri_val(q, k, i, r) == pl_layer(p, leaf, r)[fri_idx(k, i, r)] && (r < s ==> fri_fold(q, k, i, r) == pl_layer(p, leaf, r + 1)[fri_idx(k, i, r + 1)]) by {
        l_made(q, p, leaf, i, r);
        if r > 0 { l_made(q, p, leaf, i, r - 1); }
    }
    assert(fri_round(q, k, i, leaf[i], s)); l_cos(k, i, s);
    assert(fri_final(q, k, i));
}
pub proof fn l_made<F: PrimeField>(q: FRIProof<F>, p: FRIProofPrototype<F>, leaf: Seq<F>, i: int, r: int)
    requires pl_honest(p, leaf), made_from(q, p, leaf, i), 0 <= i < p.initial_degree_plus_one * p.lde_factor, 0 <= r <= p.intermediate_values@.len(), fri_k(q) == lg2(p.initial_degree_plus_one * p.lde_factor), fri_k(q) < 64
    ensures ({ let k = fri_k(q); let l = pl_layer(p, leaf, r); let c = fri_cos(k, i, r);
        &&& fri_opens(q.queries@[2 * r], c[0] as int, k - r, q.roots@[r]@) && fri_opens(q.queries@[2 * r + 1], c[1] as int, k - r, q.roots@[r]@)
        &&& fri_val(q, k, i, r) == l[fri_idx(k, i, r)]
        &&& r < p.intermediate_values@.len() ==> fri_fold(q, k, i, r) == pl_layer(p, leaf, r + 1)[fri_idx(k, i, r + 1)] })
{
    let k = fri_k(q); let l = pl_layer(p, leaf, r); l_cos(k, i, r); let c = fri_cos(k, i, r);
    assert(pl_answers(p, leaf, k, i, q.queries@, q.roots@, r)); assert(pl_iop(p, r).tree.wf(l)); assert(l.len() == pow2((k - r) as nat)); lemma_lg2_pow2((k - r) as nat);
    lemma_complete(l, c[0] as int, q.queries@[2 * r].path@); lemma_complete(l, c[1] as int, q.queries@[2 * r + 1].path@);
    if r < p.intermediate_values@.len() {
        assert(layer_folds(l, pl_layer(p, leaf, r + 1), p.challenges@[r], (k - r) as nat));
        assert(p.challenges@[r] == chal::<F>(nd(l, 1)));
    }
}
// the first-round value is the one expected from the oracle, whatever the rest of the proof says
pub proof fn lemma_fri_oracle<F: PrimeField>(q: FRIProof<F>, i: int, v: F, w: F) requires fri_accepts(q, i, v), fri_accepts(q, i, w) ensures v == w {
    assert(fri_round(q, fri_k(q), i, v, 0)); assert(fri_round(q, fri_k(q), i, w, 0));
}
// an accepted proof under the roots of committed layers opens those very layers (or exhibits a hash collision),
// so along the queried path each layer is the fold of the previous one and the last one is the final polynomial
pub proof fn lemma_fri_binding<F: PrimeField>(q: FRIProof<F>, v: F, h: FRIProof<F>, p: FRIProofPrototype<F>, leaf: Seq<F>, i: int)
    requires fri_accepts(q, i, v), pl_committed(p, leaf), made_from(h, p, leaf, i), q.initial_degree_plus_one * q.lde_factor == p.initial_degree_plus_one * p.lde_factor, q.roots@ == h.roots@, 0 <= i
    ensures collision() || {
        let k = fri_k(q); let s = p.intermediate_values@.len() as int;
        &&& v == leaf[i]
        &&& forall|r: int| 0 <= r < s ==> #[trigger] pl_layer(p, leaf, r + 1)[fri_idx(k, i, r + 1)] == pl_fold(p, leaf, k, i, r)
        &&& peval(q.final_coefficients@, fpow(dgen::<F>((k - s) as nat), fri_idx(k, i, s) as nat)) == pl_layer(p, leaf, s)[fri_idx(k, i, s)] }
{
    if !collision() {
        let n = (p.initial_degree_plus_one * p.lde_factor) as int; let k = lg2(n); let s = p.intermediate_values@.len() as int;
        lemma_is_p2(n); lemma2_to64(); lemma2_to64_rest(); if k >= 64 { lemma_pow2_le(64, k); } lemma_np2(n); assert(fri_k(q) == k); lemma_small_mod(i as nat, pow2(k));
        assert forall|r: int| 0 <= r <= s implies fri_val(q, k, i, r) == (#[trigger] pl_layer(p, leaf, r))[fri_idx(k, i, r)] && (r < s ==> fri_fold(q, k, i, r) == pl_fold(p, leaf, k, i, r)) by {
            l_bind(q, v, h, p, leaf, i, r);
        }
        assert forall|r: int| 0 <= r < s implies #[trigger] pl_layer(p, leaf, r + 1)[fri_idx(k, i, r + 1)] == pl_fold(p, leaf, k, i, r) by {
            assert(fri_round(q, k, i, v, r + 1)); let a = pl_layer(p, leaf, r);
        }
        assert(fri_round(q, k, i, v, 0)); let a = pl_layer(p, leaf, 0); let b = pl_layer(p, leaf, s);
    }
}
pub proof fn l_bind<F: PrimeField>(q: FRIProof<F>, v: F, h: FRIProof<F>, p: FRIProofPrototype<F>, leaf: Seq<F>, i: int, r: int)
    requires fri_accepts(q, i, v), pl_committed(p, leaf), made_from(h, p, leaf, i), q.roots@ == h.roots@, 0 <= i, 0 <= r <= p.intermediate_values@.len(), fri_k(q) == lg2(p.initial_degree_plus_one * p.lde_factor), fri_k(q) < 64, !collision()
    ensures ({ let k = fri_k(q);
        &&& fri_val(q, k, i, r) == pl_layer(p, leaf, r)[fri_idx(k, i, r)]
        &&& r < p.intermediate_values@.len() ==> fri_fold(q, k, i, r) == pl_fold(p, leaf, k, i, r) })
{
    let k = fri_k(q); let l = pl_layer(p, leaf, r); l_cos(k, i, r); let c = fri_cos(k, i, r);
    assert(pl_answers(p, leaf, k, i, h.queries@, h.roots@, r)); assert(pl_iop(p, r).tree.wf(l)); assert(l.len() == pow2((k - r) as nat)); lemma_lg2_pow2((k - r) as nat);
    lemma_complete(l, c[0] as int, h.queries@[2 * r].path@); lemma_complete(l, c[1] as int, h.queries@[2 * r + 1].path@);
    assert(fri_round(q, k, i, v, r));
    let (a, b) = (q.queries@[2 * r], q.queries@[2 * r + 1]); let (ha, hb) = (h.queries@[2 * r], h.queries@[2 * r + 1]);
    lemma_binding(q.roots@[r]@, a.value, a.path@, ha.value, ha.path@, c[0] as int);
    lemma_binding(q.roots@[r]@, b.value, b.path@, hb.value, hb.path@, c[1] as int);
    if r < p.intermediate_values@.len() { assert(p.challenges@[r] == chal::<F>(nd(l, 1))); }
}
// ---- the public interface ----
//@@ fn src/fri/mod.rs NaiveFriIop::prototype_into_proof ret=r impl="FriIop"
//@@ subst "Self::ProofPrototype" => "FRIProofPrototype<F>"
//@@ subst "Self::Proof" => "FRIProof<F>"
requires pl_committed(prototype, iop_values.coeffs@), natural_first_element_index < prototype.initial_degree_plus_one * prototype.lde_factor
ensures r is Ok, made_from(r->Ok_0, prototype, iop_values.coeffs@, natural_first_element_index as int), r->Ok_0.output_coeffs_at_degree_plus_one == prototype.output_coeffs_at_degree_plus_one,
  pl_honest(prototype, iop_values.coeffs@) && natural_first_element_index % 2 == 1 ==> fri_accepts(r->Ok_0, natural_first_element_index as int, iop_values.coeffs@[natural_first_element_index as int])
//@@ end tail
  proof { assert(vx_ret is Ok); if pl_honest(prototype, iop_values.coeffs@) && natural_first_element_index % 2 == 1 { lemma_fri_complete(vx_ret->Ok_0, prototype, iop_values.coeffs@, natural_first_element_index as int); } }
//@@ endfn
//@@ fn src/fri/mod.rs FRIProofPrototype::get_roots ret=r impl="FriProofPrototype" attr="#[verifier::loop_isolation(false)]"
requires self.l0_commitment.tree.nodes@.len() >= 2, forall|t: int| 0 <= t < self.intermediate_commitments@.len() ==> (#[trigger] self.intermediate_commitments@[t]).tree.nodes@.len() >= 2
ensures r@.len() == self.intermediate_commitments@.len() + 1, forall|t: int| 0 <= t < r@.len() ==> #[trigger] r@[t]@ == pl_iop(*self, t).tree.nodes@[1]@
//@@ loop 1
  invariant vx_n1 == self.intermediate_commitments@.len(), vx_k1 <= vx_n1, roots@.len() == vx_k1 + 1, forall|t: int| 0 <= t < roots@.len() ==> #[trigger] roots@[t]@ == pl_iop(*self, t).tree.nodes@[1]@,
  decreases vx_n1 - vx_k1
//@@ endfn
//@@ fn src/fri/mod.rs FRIProofPrototype::get_final_root ret=r impl="FriProofPrototype"
ensures r@ == self.final_root@
//@@ endfn
