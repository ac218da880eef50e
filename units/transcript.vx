// ---- transcript ----
//@@ item src/transcript/mod.rs Blake2sTranscript
//@@ assoc src/transcript/mod.rs Blake2sTranscript - REPR_SIZE => "std::mem::size_of::<F::Repr>()"
//@@ subst "(*TRANSCRIPT_BLAKE2S_PARAMS).clone()" => "vx_transcript_state()"
//@@ subst "Self::REPR_SIZE" => "vx_size_of_repr::<F::Repr>()"
impl<F: PrimeField> Blake2sTranscript<F> {
    // everything absorbed so far
    pub open spec fn view(&self) -> Seq<u8> { self.state@ }
    pub open spec fn wf(&self) -> bool { self.state.params() == 1 && F::NUM_BITS < 256 }
}
//@@ fn src/transcript/mod.rs Blake2sTranscript::new ret=r impl="Transcript"
requires F::NUM_BITS < 256
ensures r.wf(), r@ == Seq::<u8>::empty()
//@@ endfn
//@@ fn src/transcript/mod.rs Blake2sTranscript::commit_bytes impl="Transcript"
requires old(self).wf()
ensures final(self).wf(), final(self)@ == old(self)@ + bytes@
//@@ endfn
//@@ fn src/transcript/mod.rs Blake2sTranscript::commit_field_element impl="Transcript"
//@@ subst "&mut bytes[..]" => "bytes.as_mut_slice()"
requires old(self).wf()
ensures final(self).wf(), final(self)@ == old(self)@ + elem_bytes(*element)
//@@ stmt "let mut bytes" after
  let ghost rl = repr.limbs();
  proof { repr.ax_limbs(); }
//@@ end
  proof { let n = <F::Repr as PrimeFieldRepr>::nl() as int; l_limbs_of(rl, n); assert(rl =~= limbs_of(element.canon(), n)); assert(bytes@ =~= sp_be(rl)); }
//@@ endfn
//@@ fn src/transcript/mod.rs Blake2sTranscript::get_challenge_bytes ret=r impl="Transcript"
//@@ subst "Vec::from(&value[..])" => "vx_to_vec(&value[..])"
requires old(self).wf()
ensures final(self).wf(), r@ == blake(1, old(self)@), final(self)@ == old(self)@ + r@
//@@ endfn
//@@ fn src/transcript/mod.rs Blake2sTranscript::get_challenge ret=r impl="Transcript"
requires old(self).wf()
ensures final(self).wf(), final(self)@ == old(self)@ + blake(1, old(self)@), r.canon() == dig_val::<F>(blake(1, old(self)@))
//@@ begin
  proof { F::ax_bits();  l_dig::<F>(blake(1, old(self)@)); ax_blake_len(1, self@); }
//@@ loop 1 before
  proof { repr.ax_limbs(); }
  let ghost l0 = repr.limbs(); let ghost n = <F::Repr as PrimeFieldRepr>::nl() as int;
  proof { assert(l0 =~= dig_limbs(blake(1, old(self)@), n)); }
//@@ loop 1
  invariant n == <F::Repr as PrimeFieldRepr>::nl(), l0.len() == n, repr.limbs().len() == n, vx_n1 == n, vx_k1 <= n, n <= 4, F::CAPACITY < 256,
    forall|j: int| 0 <= j < vx_k1 ==> #[trigger] repr.limbs()[j] == shave1(l0[j], F::CAPACITY as int, j),
    forall|j: int| vx_k1 <= j < n ==> #[trigger] repr.limbs()[j] == l0[j],
  decreases vx_n1 - vx_k1
//@@ loop 1 start
  let ghost vx_pre = repr.limbs();
  proof { let c = F::CAPACITY as int - 64 * vx_i1; if 0 <= c < 64 { l_mask(vx_pre[vx_i1 as int], c as u64); lemma2_to64(); } if c < 0 { l_mask(vx_pre[vx_i1 as int], 0); lemma2_to64(); } }
//@@ loop 1 end
  proof { repr.ax_limbs(); assert forall|j: int| 0 <= j < vx_k1 implies #[trigger] repr.limbs()[j] == shave1(l0[j], F::CAPACITY as int, j) by { if j < vx_i1 { assert(repr.limbs()[j] == vx_pre[j]); } } }
//@@ loop 1 after
  proof { assert(repr.limbs() =~= shave(l0, F::CAPACITY as int)); l_shave(l0, F::CAPACITY as int, n); }
//@@ endfn

// ---- every history: the state is the concatenation of what was absorbed, challenges included ----
pub enum TOp<F> { Bytes(Seq<u8>), Elem(F), Chal }
pub open spec fn t_absorbed<F: PrimeField>(ops: Seq<TOp<F>>) -> Seq<u8> decreases ops.len() {
    if ops.len() == 0 { Seq::<u8>::empty() } else {
        let p = t_absorbed(ops.drop_last());
        match ops.last() { TOp::Bytes(b) => p + b, TOp::Elem(x) => p + elem_bytes(x), TOp::Chal => p + blake(1, p) }
    }
}
// one transition of the real code, as its contracts give it; every finite history is a sequence of them
pub open spec fn t_step<F: PrimeField>(before: Seq<u8>, op: TOp<F>, after: Seq<u8>, out: Option<Seq<u8>>) -> bool {
    match op {
        TOp::Bytes(b) => after == before + b && out is None,
        TOp::Elem(x) => after == before + elem_bytes(x) && out is None,
        TOp::Chal => after == before + blake(1, before) && out == Some(blake(1, before)),
    }
}
pub open spec fn t_run<F: PrimeField>(ops: Seq<TOp<F>>, st: Seq<Seq<u8>>, outs: Seq<Option<Seq<u8>>>) -> bool {
    st.len() == ops.len() + 1 && outs.len() == ops.len() && st[0] == Seq::<u8>::empty()
    && forall|i: int| 0 <= i < ops.len() ==> t_step(#[trigger] st[i], ops[i], st[i + 1], outs[i])
}
pub proof fn lemma_history<F: PrimeField>(ops: Seq<TOp<F>>, st: Seq<Seq<u8>>, outs: Seq<Option<Seq<u8>>>, i: int)
    requires t_run(ops, st, outs), 0 <= i <= ops.len()
    ensures st[i] == t_absorbed(ops.take(i)),
        i < ops.len() && ops[i] is Chal ==> outs[i] == Some(blake(1, t_absorbed(ops.take(i)))),
    decreases i
{
    if i > 0 {
        lemma_history(ops, st, outs, i - 1);
        assert(ops.take(i).drop_last() =~= ops.take(i - 1));
        assert(ops.take(i).last() == ops[i - 1]);
        assert(t_step(st[i - 1], ops[i - 1], st[i], outs[i - 1]));
    } else { assert(ops.take(0) =~= Seq::<TOp<F>>::empty()); }
    if i < ops.len() { assert(t_step(st[i], ops[i], st[i + 1], outs[i])); }
}
// two challenges of one history are drawn from different (strictly longer) states
pub proof fn lemma_fresh<F: PrimeField>(ops: Seq<TOp<F>>, st: Seq<Seq<u8>>, outs: Seq<Option<Seq<u8>>>, i: int, j: int)
    requires t_run(ops, st, outs), 0 <= i < j <= ops.len(), ops[i] is Chal
    ensures st[i].len() + 32 <= st[j].len(), st[i] != st[j]
    decreases j - i
{
    assert(t_step(st[j - 1], ops[j - 1], st[j], outs[j - 1]));
    if j - 1 > i { lemma_fresh(ops, st, outs, i, j - 1); } else { ax_blake_len(1, st[i]); }
}
