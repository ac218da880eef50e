// every element index lies in exactly one chunk
pub proof fn thm_chunks_partition(len: int, c: int, i: int)
    requires c > 0, 0 <= i < len
    ensures 0 <= i / c < num_chunks(len, c), off(i / c, c, len) <= i < off(i / c + 1, c, len),
        forall|k: int| 0 <= k < num_chunks(len, c) && #[trigger] off(k, c, len) <= i < off(k + 1, c, len) ==> k == i / c
{
    lemma_fundamental_div_mod(i, c); lemma_mod_bound(i, c);
    let q = i / c;
    assert(c * q == q * c && (q + 1) * c == q * c + c) by (nonlinear_arith);
    assert(q >= 0) by (nonlinear_arith) requires q * c > -c, c > 0;
    lemma_num_chunks(len, c);
    if q >= num_chunks(len, c) { assert(q * c >= num_chunks(len, c) * c) by (nonlinear_arith) requires q >= num_chunks(len, c), c > 0; }
    assert forall|k: int| 0 <= k < num_chunks(len, c) && #[trigger] off(k, c, len) <= i < off(k + 1, c, len) implies k == i / c by {
        lemma_chunk_step(k, c, len);
        if k < q { assert((k + 1) * c <= q * c) by (nonlinear_arith) requires k < q, c > 0; assert((k + 1) * c == k * c + c) by (nonlinear_arith); }
        if k > q { assert(k * c >= (q + 1) * c) by (nonlinear_arith) requires k > q, c > 0; }
    }
}
