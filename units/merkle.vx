// ---- Merkle tree over blake2s ----
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sIopTree IopTree Combiner => "TrivialCombiner<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sIopTree IopTree Hasher => "Blake2sTreeHasher<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher IopTreeHasher HashOutput => "[u8; 32]"
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher IopTreeHasher LeafEncoder => "Blake2sLeafEncoder<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder LeafEncoder Output => "[u8; 32]"
//@@ assoc src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder HashEncoder Input => "[u8; 32]"
//@@ subst "<Self::LeafEncoder as LeafEncoder<F> >::Output" => "[u8; 32]"
//@@ subst "<Self::LeafEncoder as LeafEncoder<F> >" => "Blake2sLeafEncoder::<F>"
//@@ subst "< <Self::Hasher as IopTreeHasher<F> >::LeafEncoder as HashEncoder<F> >" => "Blake2sLeafEncoder::<F>"
//@@ subst "<Self::Hasher as IopTreeHasher<F> >::HashOutput" => "[u8; 32]"
//@@ subst "< Blake2sTreeHasher<F> as IopTreeHasher<F> >::HashOutput" => "[u8; 32]"
//@@ subst "<Self::Hasher as IopTreeHasher<F> >" => "Blake2sTreeHasher::<F>"
//@@ subst "<Self::Combiner as CosetCombiner<F> >" => "TrivialCombiner::<F>"
//@@ subst "(*BASE_BLAKE2S_PARAMS).clone()" => "vx_tree_state()"
pub open spec fn hl<F: PrimeField>(x: F) -> Seq<u8> { blake(0, leaf_bytes(x)) }
pub open spec fn hn(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { blake(0, a + b) }
// heap-indexed tree: nd(j) is the parent of nd(2j) and nd(2j+1), the leaf hashes are nd(n..2n), the root is nd(1)
pub open spec fn nd<F: PrimeField>(l: Seq<F>, j: int) -> Seq<u8> decreases (if j >= l.len() { 0int } else { l.len() - j }) {
    if j < 1 { Seq::<u8>::empty() } else if j >= l.len() { hl(l[j - l.len()]) } else { hn(nd(l, 2 * j), nd(l, 2 * j + 1)) }
}
//@@ item src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher
//@@ item src/iop/blake2s_trivial_iop.rs Blake2sIopTree
fn vx_arr_eq(a: &[u8; 32], b: &[u8; 32]) -> (r: bool) ensures r <==> a@ == b@ {
    let mut i: usize = 0;
    while i < 32 invariant i <= 32, forall|j: int| 0 <= j < i ==> a@[j] == b@[j] decreases 32 - i { if a[i] != b[i] { return false; } i = i + 1; }
    assert(a@ =~= b@);
    true
}
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sLeafEncoder::new ret=r
requires F::NUM_BITS < 256
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher::new ret=r
requires F::NUM_BITS < 256
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher::hash_encoded_leaf ret=r impl="IopTreeHasher"
//@@ subst "Self::HashOutput" => "[u8; 32]"
ensures r@ == blake(0, value@)
//@@ end
  proof { assert(Seq::<u8>::empty() + value@ =~= value@); }
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher::hash_leaf ret=r impl="IopTreeHasher"
//@@ subst "Self::HashOutput" => "[u8; 32]"
requires F::NUM_BITS < 256
ensures r@ == hl(*value)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sTreeHasher::hash_node ret=r impl="IopTreeHasher"
//@@ subst "Self::HashOutput" => "[u8; 32]"
requires values@.len() == 2
ensures r@ == hn(values@[0]@, values@[1]@)
//@@ loop 1
  invariant vx_n1 == 2, values@.len() == 2, vx_k1 <= 2, state.params() == 0,
    state@ == if vx_k1 == 0 { Seq::<u8>::empty() } else if vx_k1 == 1 { values@[0]@ } else { values@[0]@ + values@[1]@ },
  decreases vx_n1 - vx_k1
//@@ loop 1 end
  proof { assert(Seq::<u8>::empty() + values@[0]@ =~= values@[0]@); }
//@@ endfn
//@@ include allmut.vx
pub open spec fn tree_ok<F: PrimeField>(nodes: Seq<[u8; 32]>, l: Seq<F>) -> bool {
    nodes.len() == l.len() && forall|j: int| 1 <= j < l.len() ==> #[trigger] nodes[j]@ == nd(l, j)
}
// heap slice s covers nodes s.len()/2 .. s.len() correctly
pub open spec fn top_ok<F: PrimeField>(s: Seq<[u8; 32]>, l: Seq<F>) -> bool { forall|j: int| s.len() / 2 <= j < s.len() ==> #[trigger] s[j]@ == nd(l, j) }
impl<F: PrimeField> Blake2sIopTree<F> {
    pub open spec fn wf(&self, l: Seq<F>) -> bool {
        F::NUM_BITS < 256 && l.len() >= 2 && l.len() < 0x8000_0000_0000_0000 && is_p2(l.len() as int) && self.size == l.len() && tree_ok(self.nodes@, l)
    }
}
pub proof fn l_p2_half(n: int) requires is_p2(n), n >= 2 ensures n % 2 == 0, is_p2(n / 2), n / 2 >= 1, n == 2 * (n / 2), lg2(n) >= 1, lg2(n / 2) == lg2(n) - 1 {
    lemma_is_p2(n); lemma2_to64();
    if lg2(n) == 0 { } else { lemma_pow2_step((lg2(n) - 1) as nat); assert(n / 2 == pow2((lg2(n) - 1) as nat)); }
}
pub proof fn l_dbl(k: int, c: int, m: int) requires k >= 0, c > 0, m >= 0 ensures off(k, 2 * c, 2 * m) == 2 * off(k, c, m), num_chunks(2 * m, 2 * c) == num_chunks(m, c) {
    assert(k * (2 * c) == 2 * (k * c)) by (nonlinear_arith);
    let q = (m + c - 1) / c; let r = (m + c - 1) % c;
    lemma_fundamental_div_mod(m + c - 1, c); lemma_mod_bound(m + c - 1, c);
    assert(2 * m + 2 * c - 1 == q * (2 * c) + (2 * r + 1)) by (nonlinear_arith) requires m + c - 1 == c * q + r;
    lemma_fundamental_div_mod_converse(2 * m + 2 * c - 1, 2 * c, q, 2 * r + 1);
}
// chunk i of twos
pub proof fn l_two(k: int, m: int) requires 0 <= k < m ensures num_chunks(2 * m, 2) == m, off(k, 2, 2 * m) == 2 * k, off(k + 1, 2, 2 * m) == 2 * k + 2, off(m, 2, 2 * m) == 2 * m {
    l_dbl(k, 1, m); l_dbl(k + 1, 1, m); l_dbl(m, 1, m); assert((m + 1 - 1) / 1 == m); assert(k * 1 == k);
}
pub open spec fn pairs_ok(o: Seq<[u8; 32]>, i: Seq<[u8; 32]>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] o[j]@ == hn(i[2 * j]@, i[2 * j + 1]@) }
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::create ret=r impl="IopTree"
//@@ subst "let _ = *BASE_BLAKE2S_PARAMS;" => ""
//@@ subst "let mut nodes_for_hashing = &mut nodes[..];" => "let mut nodes_for_hashing = vx_all_mut(&mut nodes);"
//@@ subst "let inputs = &mut leaf_hashes[..];" => "let inputs = vx_all_mut(&mut leaf_hashes);"
requires F::NUM_BITS < 256, leafs@.len() >= 2, leafs@.len() < 0x8000_0000_0000_0000, is_p2(leafs@.len() as int)
ensures r.wf(leafs@)
//@@ begin
  let ghost l = leafs@; let ghost n = l.len() as int; let ghost mut outs1: Seq<[u8; 32]> = Seq::<[u8; 32]>::empty();
  proof { lemma_is_p2(n); l_p2_half(n); lemma_np2(n); }
//@@ loop 1 before
  proof { lemma_num_chunks(vx_l1 as int, vx_c1 as int); }
//@@ loop 1
  invariant vx_c1 > 0, vx_c1 == chunk, vx_l1 == n, vx_n1 == num_chunks(vx_l1 as int, vx_c1 as int), vx_k1 <= vx_n1, leaf_hashes@.len() == n, n < 0x8000_0000_0000_0000, l == leafs@, n == l.len(), F::NUM_BITS < 256,
    forall|i: int| 0 <= i < off(vx_k1 as int, vx_c1 as int, vx_l1 as int) ==> #[trigger] leaf_hashes@[i]@ == hl(l[i]),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = leaf_hashes@; let ghost o = off(vx_i1 as int, vx_c1 as int, vx_l1 as int);
  proof { lemma_chunk_step(vx_i1 as int, vx_c1 as int, vx_l1 as int); }
//@@ loop 2
  invariant vx_n2 == lh@.len(), vx_k2 <= vx_n2, o >= 0, base_idx == o, o + vx_n2 <= n, n < 0x8000_0000_0000_0000, l == leafs@, n == l.len(), F::NUM_BITS < 256,
    forall|i: int| 0 <= i < vx_k2 ==> #[trigger] lh@[i]@ == hl(l[o + i]),
  decreases vx_n2 - vx_k2
//@@ loop 1 end
  proof { let o2 = off(vx_k1 as int, vx_c1 as int, vx_l1 as int);
    assert forall|i: int| 0 <= i < o2 implies #[trigger] leaf_hashes@[i]@ == hl(l[i]) by { if i < o { assert(leaf_hashes@[i] == vx_pre[i]); } else { let d = i - o; assert(o + d == i); } } }
//@@ loop 3 before
  let ghost m = outputs@.len() as int; let ghost in0 = inputs@;
  proof { lemma_num_chunks(m, vx_c2 as int); l_dbl(0, vx_c2 as int, m); }
//@@ loop 3
  invariant vx_c2 > 0, vx_c2 == chunk, vx_l2 == m, vx_l3 == 2 * m, vx_c3 == 2 * chunk, 0 < m < 0x4000_0000_0000_0000, m == outputs@.len(), in0.len() == 2 * m, inputs@ == in0,
    vx_n3 == num_chunks(m, vx_c2 as int), vx_nc2 == vx_n3, vx_nc3 == vx_n3, vx_k3 <= vx_n3, num_chunks(vx_l3 as int, vx_c3 as int) == vx_n3,
    pairs_ok(outputs@, in0, off(vx_k3 as int, vx_c2 as int, m)),
  decreases vx_n3 - vx_k3
//@@ loop 3 start
  let ghost vx_pre = outputs@; let ghost of = off(vx_i3 as int, vx_c2 as int, m); let ghost ot = off(vx_k3 as int, vx_c2 as int, m);
  proof { lemma_chunk_step(vx_i3 as int, vx_c2 as int, m); l_dbl(vx_i3 as int, vx_c2 as int, m); l_dbl(vx_k3 as int, vx_c2 as int, m); l_two(0, ot - of); }
//@@ loop 4
  invariant o@.len() == ot - of, i@ == in0.subrange(2 * of, 2 * ot), vx_l4 == 2 * (ot - of), vx_c4 == 2, vx_nc4 == ot - of, vx_n4 == ot - of, vx_k4 <= vx_n4, 0 <= of < ot <= m, in0.len() == 2 * m,
    num_chunks(vx_l4 as int, 2) == ot - of,
    forall|j: int| 0 <= j < vx_k4 ==> #[trigger] o@[j]@ == hn(in0[2 * (of + j)]@, in0[2 * (of + j) + 1]@),
  decreases vx_n4 - vx_k4
//@@ loop 4 start
  proof { l_two(vx_i4 as int, ot - of); }
//@@ loop 3 end
  proof { assert forall|j: int| 0 <= j < ot implies #[trigger] outputs@[j]@ == hn(in0[2 * j]@, in0[2 * j + 1]@) by { if j < of { assert(outputs@[j] == vx_pre[j]); } else { let d = j - of; assert(of + d == j); } } }
//@@ loop 3 after
  proof { outs1 = outputs@; }
//@@ loop 5 before
  let ghost mut tail: Seq<[u8; 32]> = Seq::<[u8; 32]>::empty();
  proof {
    assert forall|j: int| n / 2 <= j < n implies #[trigger] nodes_for_hashing@[j]@ == nd(l, j) by {
      let d = j - n / 2; assert(nodes_for_hashing@[j] == outs1[d]); assert(outs1[d]@ == hn(leaf_hashes@[2 * d]@, leaf_hashes@[2 * d + 1]@));
      assert(nd(l, 2 * j) == hl(l[2 * j - n])); assert(nd(l, 2 * j + 1) == hl(l[2 * j + 1 - n])); assert(2 * j - n == 2 * d); }
  }
//@@ loop 5
  invariant vx_n5 == num_levels - 1, vx_k5 <= vx_n5, num_levels == lg2(n), num_levels < 64, n == l.len(), l == leafs@, n >= 2, n < 0x8000_0000_0000_0000, worker.wf(),
    is_p2(nodes_for_hashing@.len() as int), nodes_for_hashing@.len() >= 2, nodes_for_hashing@.len() <= n, lg2(nodes_for_hashing@.len() as int) == num_levels - vx_k5,
    top_ok(nodes_for_hashing@, l), final(nodes_for_hashing)@.len() == nodes_for_hashing@.len(), nodes_for_hashing@.len() + tail.len() == n,
    after_borrow(nodes)@ == final(nodes_for_hashing)@ + tail, forall|j: int| 0 <= j < tail.len() ==> #[trigger] tail[j]@ == nd(l, nodes_for_hashing@.len() + j),
  decreases vx_n5 - vx_k5
//@@ loop 5 start
  let ghost s0 = nodes_for_hashing@; let ghost len = s0.len() as int; let ghost half = len / 2; let ghost mut outs2: Seq<[u8; 32]> = Seq::<[u8; 32]>::empty(); let ghost tail0 = tail;
  proof { l_p2_half(len); l_p2_half(half); lemma_is_p2(half); }
//@@ loop 6 before
  let ghost m = outputs@.len() as int; let ghost in0 = inputs@;
  proof { lemma_num_chunks(m, vx_c5 as int); l_dbl(0, vx_c5 as int, m); }
//@@ loop 6
  invariant vx_c5 > 0, vx_c5 == chunk, vx_l5 == m, vx_l6 == 2 * m, vx_c6 == 2 * chunk, 0 < m < 0x4000_0000_0000_0000, m == outputs@.len(), in0.len() == 2 * m, inputs@ == in0,
    vx_n6 == num_chunks(m, vx_c5 as int), vx_nc5 == vx_n6, vx_nc6 == vx_n6, vx_k6 <= vx_n6, num_chunks(vx_l6 as int, vx_c6 as int) == vx_n6,
    pairs_ok(outputs@, in0, off(vx_k6 as int, vx_c5 as int, m)),
  decreases vx_n6 - vx_k6
//@@ loop 6 start
  let ghost vx_pre = outputs@; let ghost of = off(vx_i6 as int, vx_c5 as int, m); let ghost ot = off(vx_k6 as int, vx_c5 as int, m);
  proof { lemma_chunk_step(vx_i6 as int, vx_c5 as int, m); l_dbl(vx_i6 as int, vx_c5 as int, m); l_dbl(vx_k6 as int, vx_c5 as int, m); l_two(0, ot - of); }
//@@ loop 7
  invariant o@.len() == ot - of, i@ == in0.subrange(2 * of, 2 * ot), vx_l7 == 2 * (ot - of), vx_c7 == 2, vx_nc7 == ot - of, vx_n7 == ot - of, vx_k7 <= vx_n7, 0 <= of < ot <= m, in0.len() == 2 * m,
    num_chunks(vx_l7 as int, 2) == ot - of,
    forall|j: int| 0 <= j < vx_k7 ==> #[trigger] o@[j]@ == hn(in0[2 * (of + j)]@, in0[2 * (of + j) + 1]@),
  decreases vx_n7 - vx_k7
//@@ loop 7 start
  proof { l_two(vx_i7 as int, ot - of); }
//@@ loop 6 end
  proof { assert forall|j: int| 0 <= j < ot implies #[trigger] outputs@[j]@ == hn(in0[2 * j]@, in0[2 * j + 1]@) by { if j < of { assert(outputs@[j] == vx_pre[j]); } else { let d = j - of; assert(of + d == j); } } }
//@@ loop 6 after
  proof { outs2 = outputs@; }
//@@ loop 5 end
  proof {
    let s1 = nodes_for_hashing@;
    tail = s0.subrange(half, len) + tail0;
    assert forall|j: int| half / 2 <= j < half implies #[trigger] s1[j]@ == nd(l, j) by {
      let d = j - half / 2; assert(s1[j] == outs2[d]); assert(outs2[d]@ == hn(s0[half + 2 * d]@, s0[half + 2 * d + 1]@)); assert(2 * j == half + 2 * d); }
    assert forall|j: int| 0 <= j < tail.len() implies #[trigger] tail[j]@ == nd(l, s1.len() + j) by { if j < len - half { assert(tail[j] == s0[half + j]); } else { assert(tail[j] == tail0[j - (len - half)]); } }
  }
//@@ loop 5 after
  proof { lemma_is_p2(nodes_for_hashing@.len() as int); lemma2_to64(); assert(nodes_for_hashing@.len() == 2);
    assert forall|j: int| 1 <= j < n implies #[trigger] nodes@[j]@ == nd(l, j) by { if j < 2 { assert(nodes@[j] == nodes_for_hashing@[j]); } else { assert(nodes@[j] == tail[j - 2]); } } }
//@@ endfn

// ---- paths ----
pub open spec fn sib(j: int) -> int { if j % 2 == 0 { j + 1 } else { j - 1 } }
// the path of leaf i: siblings of the nodes from the leaf (heap index n + i) up to just below the root
pub open spec fn is_path<F: PrimeField>(p: Seq<[u8; 32]>, l: Seq<F>, i: int) -> bool {
    p.len() == lg2(l.len() as int) && forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k]@ == nd(l, sib(up(l.len() as int + i, k)))
}
// k-th ancestor in heap order
pub open spec fn up(j: int, k: int) -> int decreases k { if k <= 0 { j } else { up(j, k - 1) / 2 } }
pub open spec fn vfold(h: Seq<u8>, p: Seq<[u8; 32]>, i: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { h } else { let g = vfold(h, p, i, k - 1); if up(i, k - 1) % 2 == 0 { hn(g, p[k - 1]@) } else { hn(p[k - 1]@, g) } }
}
pub open spec fn verifies<F: PrimeField>(root: Seq<u8>, x: F, p: Seq<[u8; 32]>, i: int) -> bool { vfold(hl(x), p, i, p.len() as int) == root }
pub proof fn lemma_xor1(x: usize) ensures (x ^ 1usize) == sib(x as int), (x & 1usize) == x % 2, (x >> 1usize) == x / 2 {
    assert((x & 1usize) == x % 2) by (bit_vector);
    assert((x >> 1usize) == x / 2) by (bit_vector);
    assert(x % 2 == 0 ==> (x ^ 1usize) == add(x, 1)) by (bit_vector);
    assert(x % 2 == 1 ==> (x ^ 1usize) == sub(x, 1)) by (bit_vector);
}
// ancestors of heap index n + i: level k holds indices 2^(L-k) .. 2^(L-k+1)
pub proof fn l_up(n: int, i: int, k: int) requires is_p2(n), 0 <= i < n, 0 <= k <= lg2(n)
    ensures up(n + i, k) == pow2((lg2(n) - k) as nat) + up(i, k), 0 <= up(i, k) < pow2((lg2(n) - k) as nat) decreases k
{
    lemma_is_p2(n);
    if k > 0 { l_up(n, i, k - 1); lemma_pow2_step((lg2(n) - k) as nat); }
}
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::get_path ret=r impl="IopTree"
//@@ subst "Vec<[u8; 32]>" => "Vec<[u8; 32]>"
requires self.wf(leafs_values@), tree_index < leafs_values@.len()
ensures is_path(r@, leafs_values@, tree_index as int)
//@@ begin
  let ghost l = leafs_values@; let ghost n = l.len() as int; let ghost ti = tree_index as int;
  proof { lemma_xor1(tree_index); l_p2_half(n); lemma_is_p2(n); lemma_is_p2(n / 2); l_up(n, ti, 0); assert(sib(n + ti) == n + sib(ti)); assert(up(n + ti, 0) == n + ti); assert(nd(l, n + sib(ti)) == hl(l[sib(ti)])); }
//@@ loop 1 before
  proof { l_up(n, ti, 1); assert(up(ti, 0) == ti); }
//@@ loop 1
  invariant vx_n1 == lg2(n) - 1, vx_k1 <= vx_n1, n == l.len(), is_p2(n), n >= 2, n < 0x8000_0000_0000_0000, 0 <= ti < n, self.wf(l),
    is_p2(nodes@.len() as int), lg2(nodes@.len() as int) == lg2(n) - vx_k1, nodes@.len() >= 2, nodes@ == self.nodes@.subrange(0, nodes@.len() as int),  nodes@.len() <= n,
    idx == up(ti, vx_k1 + 1), path@.len() == vx_k1 + 1,
    forall|k: int| 0 <= k < path@.len() ==> #[trigger] path@[k]@ == nd(l, sib(up(n + ti, k))),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost nd0 = nodes@; let ghost path0 = path@; let ghost k0 = vx_i1 as int;
  proof { let len = nodes@.len() as int; lemma_xor1(idx); l_p2_half(len); l_p2_half(len / 2); lemma_is_p2(len / 2); l_up(n, ti, k0 + 1); lemma_pow2_step((lg2(n) - k0 - 2) as nat); }
//@@ loop 1 end
  proof { let h = nd0.len() as int / 2; let j = up(ti, k0 + 1); assert(h == pow2((lg2(n) - k0 - 1) as nat)); assert(sib(h + j) == h + sib(j)); assert(path@[k0 + 1]@ == nd0[h + sib(j)]@);
    assert(nd0[h + sib(j)] == self.nodes@[h + sib(j)]);
    assert forall|k: int| 0 <= k < path@.len() implies #[trigger] path@[k]@ == nd(l, sib(up(n + ti, k))) by { if k <= k0 { assert(path@[k] == path0[k]); } }
    assert(nodes@ =~= self.nodes@.subrange(0, nodes@.len() as int)); }
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::verify ret=r impl="IopTree"
//@@ subst "&hash == root" => "vx_arr_eq(&hash, root)"
requires F::NUM_BITS < 256
ensures r <==> verifies(root@, *leaf_value, path@, tree_index as int)
//@@ loop 1
  invariant vx_n1 == path@.len(), vx_k1 <= vx_n1, F::NUM_BITS < 256, idx == up(tree_index as int, vx_k1 as int), hash@ == vfold(hl(*leaf_value), path@, tree_index as int, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  proof { lemma_xor1(idx); }
//@@ endfn

//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::size ret=r impl="IopTree"
ensures r == self.size
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::get_root ret=r impl="IopTree"
requires self.nodes@.len() >= 2
ensures r@ == self.nodes@[1]@, forall|l: Seq<F>| self.wf(l) ==> r@ == #[trigger] nd(l, 1)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::encode_root_into_challenge ret=r impl="IopTree"
requires F::NUM_BITS < 256
ensures r.canon() == dig_val::<F>(root@)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs Blake2sIopTree::get_challenge_scalar_from_root ret=r impl="IopTree"
requires F::NUM_BITS < 256, self.nodes@.len() >= 2
ensures r.canon() == dig_val::<F>(self.nodes@[1]@)
//@@ endfn
//@@ item src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP
//@@ item src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery
//@@ assoc src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP IOP Tree => "Blake2sIopTree<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP IOP Combiner => "TrivialCombiner<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP IOP Query => "TrivialBlake2sIopQuery<F>"
//@@ assoc src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery IopQuery Hasher => "Blake2sTreeHasher<F>"
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery::natural_index ret=r impl="IopQuery"
ensures r == self.index
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery::tree_index ret=r impl="IopQuery"
ensures r == self.index
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery::value ret=r impl="IopQuery"
ensures r == self.value
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIopQuery::path ret=r impl="IopQuery"
ensures r@ == self.path@
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::create ret=r impl="IOP"
//@@ subst "Self::Tree" => "Blake2sIopTree::<F>"
requires F::NUM_BITS < 256, leafs@.len() >= 2, leafs@.len() < 0x8000_0000_0000_0000, is_p2(leafs@.len() as int)
ensures r.tree.wf(leafs@)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::get_root ret=r impl="IOP"
//@@ subst "< < <Self::Tree as IopTree<F> >::Hasher as IopTreeHasher<F> >::HashOutput >" => "[u8; 32]"
//@@ subst "< <Self::Tree as IopTree<F> >::Hasher as IopTreeHasher<F> >::HashOutput" => "[u8; 32]"
requires self.tree.nodes@.len() >= 2
ensures r@ == self.tree.nodes@[1]@, forall|l: Seq<F>| self.tree.wf(l) ==> r@ == #[trigger] nd(l, 1)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::encode_root_into_challenge ret=r impl="IOP"
//@@ subst "< <Self::Tree as IopTree<F> >::Hasher as IopTreeHasher<F> >::HashOutput" => "[u8; 32]"
//@@ subst "<Self::Tree as IopTree<F> >" => "Blake2sIopTree::<F>"
requires F::NUM_BITS < 256
ensures r.canon() == dig_val::<F>(root@)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::get_challenge_scalar_from_root ret=r impl="IOP"
requires F::NUM_BITS < 256, self.tree.nodes@.len() >= 2
ensures r.canon() == dig_val::<F>(self.tree.nodes@[1]@)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::get_for_natural_index ret=r impl="IOP"
requires natural_index < leafs@.len()
ensures *r == leafs@[natural_index as int]
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::verify_query ret=r impl="IOP"
//@@ subst "< <Self::Tree as IopTree<F> >::Hasher as IopTreeHasher<F> >::HashOutput" => "[u8; 32]"
//@@ subst "Self::Query" => "TrivialBlake2sIopQuery<F>"
//@@ subst "Self::Tree" => "Blake2sIopTree::<F>"
requires F::NUM_BITS < 256
ensures r <==> verifies(root@, query.value, query.path@, query.index as int)
//@@ endfn
//@@ fn src/iop/blake2s_trivial_iop.rs TrivialBlake2sIOP::query ret=r impl="IOP"
//@@ subst "Self::Query" => "TrivialBlake2sIopQuery<F>"
requires self.tree.wf(leafs@), natural_index < leafs@.len()
ensures r.index == natural_index, r.value == leafs@[natural_index as int], is_path(r.path@, leafs@, natural_index as int), r.path@.len() == lg2(leafs@.len() as int),
  verifies(nd(leafs@, 1), r.value, r.path@, r.index as int)
//@@ stmt "let path" after
  proof { lemma_complete(leafs@, natural_index as int, path@); }
//@@ endfn
// ---- completeness and binding ----
pub proof fn l_vfold_up<F: PrimeField>(l: Seq<F>, i: int, p: Seq<[u8; 32]>, k: int)
    requires is_p2(l.len() as int), l.len() >= 2, 0 <= i < l.len(), is_path(p, l, i), 0 <= k <= p.len()
    ensures vfold(hl(l[i]), p, i, k) == nd(l, up(l.len() + i, k)) decreases k
{
    let n = l.len() as int;
    if k > 0 {
        l_vfold_up(l, i, p, k - 1); l_up(n, i, k - 1); l_up(n, i, k); lemma_is_p2(n);
        lemma_pow2_step((lg2(n) - k) as nat);
        let e = lg2(n); assert(pow2((e - k) as nat) <= pow2((e - 1) as nat)) by { lemma_pow2_le((e - k) as nat, (e - 1) as nat); }
        lemma_pow2_step((e - 1) as nat);
        let j = up(n + i, k - 1); let q = up(n + i, k);
        assert(q == j / 2); assert(1 <= q < n);
        assert(p[k - 1]@ == nd(l, sib(j)));
        assert(j % 2 == up(i, k - 1) % 2);
        if j % 2 == 0 { assert(2 * q == j); } else { assert(2 * q + 1 == j); }
    }
}
pub proof fn lemma_complete<F: PrimeField>(l: Seq<F>, i: int, p: Seq<[u8; 32]>)
    requires is_p2(l.len() as int), l.len() >= 2, 0 <= i < l.len(), is_path(p, l, i)
    ensures verifies(nd(l, 1), l[i], p, i)
{
    let n = l.len() as int; lemma_is_p2(n);
    l_vfold_up(l, i, p, p.len() as int); l_up(n, i, lg2(n) as int); lemma2_to64();
}
pub open spec fn collision() -> bool { exists|a: Seq<u8>, b: Seq<u8>| a != b && #[trigger] blake(0, a) == #[trigger] blake(0, b) }
pub proof fn l_fold_bind(h: Seq<u8>, p: Seq<[u8; 32]>, g: Seq<u8>, q: Seq<[u8; 32]>, i: int, k: int)
    requires p.len() == q.len(), 0 <= k <= p.len(), h.len() == g.len(), h.len() == 32, vfold(h, p, i, k) == vfold(g, q, i, k)
    ensures (h == g && forall|t: int| 0 <= t < k ==> #[trigger] p[t]@ == q[t]@) || collision(), decreases k
{
    if k > 0 {
        let a = vfold(h, p, i, k - 1); let b = vfold(g, q, i, k - 1); let x = p[k - 1]@; let y = q[k - 1]@;
        l_fold_len(h, p, i, k - 1); l_fold_len(g, q, i, k - 1);
        let (u, v) = if up(i, k - 1) % 2 == 0 { (a + x, b + y) } else { (x + a, y + b) };
        assert(blake(0, u) == blake(0, v));
        if u == v {
            if up(i, k - 1) % 2 == 0 { assert(a =~= u.subrange(0, 32)); assert(b =~= v.subrange(0, 32)); assert(x =~= u.subrange(32, 64)); assert(y =~= v.subrange(32, 64)); }
            else { assert(x =~= u.subrange(0, 32)); assert(y =~= v.subrange(0, 32)); assert(a =~= u.subrange(32, 64)); assert(b =~= v.subrange(32, 64)); }
            l_fold_bind(h, p, g, q, i, k - 1);
        }
    }
}
pub proof fn l_fold_len(h: Seq<u8>, p: Seq<[u8; 32]>, i: int, k: int) requires 0 <= k <= p.len(), h.len() == 32 ensures vfold(h, p, i, k).len() == 32 decreases k {
    if k > 0 { l_fold_len(h, p, i, k - 1); let g = vfold(h, p, i, k - 1); ax_blake_len(0, g + p[k - 1]@); ax_blake_len(0, p[k - 1]@ + g); }
}
// two openings of one index under one root agree, or a collision of the hash has been found
pub proof fn lemma_binding<F: PrimeField>(root: Seq<u8>, x: F, p: Seq<[u8; 32]>, y: F, q: Seq<[u8; 32]>, i: int)
    requires F::NUM_BITS < 256, p.len() == q.len(), verifies(root, x, p, i), verifies(root, y, q, i)
    ensures x == y || collision()
{
    ax_blake_len(0, leaf_bytes(x)); ax_blake_len(0, leaf_bytes(y));
    l_fold_bind(hl(x), p, hl(y), q, i, p.len() as int);
    if !collision() {
        assert(hl(x) == hl(y));
        assert(blake(0, leaf_bytes(x)) == blake(0, leaf_bytes(y)));
        assert(leaf_bytes(x) == leaf_bytes(y));
        lemma_leaf_inj(x, y);
    }
}
