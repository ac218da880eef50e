//@@ include prelude.vx
//@@ include alg.vx
//@@ include bits.vx
//@@ include domain.vx
//@@ include coset.vx
//@@ include tcomb.vx
//@@ include combiner.vx
// ---- what the index maps mean: coset members are negatives, and the next index is the index of the square ----
pub proof fn l_half_power<F: PrimeField>(g: F, k: nat, i: nat)
    requires prim(g, k), k >= 1
    ensures fpow(g, i + pow2((k - 1) as nat)) == fpow(g, i).fneg()
{
    l_pow_add(g, i, pow2((k - 1) as nat));
    l_neg_one_mul(fpow(g, i));
}
pub proof fn thm_coset_pairs_negatives<F: PrimeField>(g: F, k: nat, i: nat)
    requires prim(g, k), 1 <= k < 64, i < pow2(k)
    ensures ({
        let n = pow2(k) as int; let c = sp_coset(i as int, n);
        &&& c.len() == 2 && c[0] < c[1] < n && (c[0] == i || c[1] == i)
        &&& fpow(g, c[1] as nat) == fpow(g, c[0] as nat).fneg()
        &&& c[0] as int % (n / 2) == i as int % (n / 2) && c[1] as int % (n / 2) == i as int % (n / 2)
        &&& fpow(g.fmul(g), (i as int % (n / 2)) as nat) == fpow(g, i).fmul(fpow(g, i))
        &&& prim(g.fmul(g), (k - 1) as nat)
        &&& forall|j: int| 0 <= j < n && #[trigger] (j % (n / 2)) == i as int % (n / 2) ==> j == c[0] || j == c[1]
    })
{
    let n = pow2(k) as int;
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_le(k, 63); lemma_pow2_le(1, k);
    assert(is_p2(n));
    lemma_half(i as int, n);
    lemma_pow2_step((k - 1) as nat);
    let h = n / 2;
    assert(h == pow2((k - 1) as nat));
    let c = sp_coset(i as int, n);
    lemma_half(c[0] as int, n); lemma_half(c[1] as int, n);
    l_half_power(g, k, c[0] as nat);
    l_prim_sq(g, k);
    let t = (i as int % h) as nat;
    l_pow2(g); l_pow_mul(g, 2, t); l_pow_add(g, i, i);
    if i < h { } else {
        l_pow_mod(g, n as nat, (i + i) as nat);
        lemma_fundamental_div_mod_converse(2 * (i as int), n, 1, 2 * (t as int));
    }
    assert forall|j: int| 0 <= j < n && #[trigger] (j % h) == i as int % h implies j == c[0] || j == c[1] by { lemma_half(j, n); }
}
// both members go to the same next index; the two functions are proved against these maps above
}
fn main(){}
