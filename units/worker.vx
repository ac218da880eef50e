// ---- worker: the amount of parallelism is an arbitrary positive `cpus` ----
pub struct Worker { pub cpus: usize }
impl Worker {
    pub open spec fn wf(&self) -> bool { self.cpus > 0 }
    // size of the chunks n elements are split into
    pub open spec fn csz(&self, n: int) -> int { if n < self.cpus { 1 } else { n / self.cpus as int } }
    // Worker::new() asks the OS for the number of CPUs: any positive number may come back
    #[verifier::external_body]
    pub fn new() -> (r: Worker) ensures r.wf() { unimplemented!() }
}
//@@ fn src/fft/multicore.rs Worker::get_chunk_size ret=r
requires self.wf()
ensures r > 0, r == self.csz(elements as int), elements < self.cpus ==> r == 1, elements >= self.cpus ==> r == elements / self.cpus
//@@ begin
  proof { if elements >= self.cpus { assert(elements / self.cpus >= 1) by (nonlinear_arith) requires elements >= self.cpus, self.cpus > 0; } }
//@@ endfn
//@@ fn src/fft/multicore.rs Worker::get_num_spawned_threads ret=r
requires self.wf()
ensures
  r == num_chunks(elements as int, self.csz(elements as int)), self.csz(elements as int) > 0,
  elements < self.cpus ==> r == num_chunks(elements as int, 1),
  elements >= self.cpus ==> r == num_chunks(elements as int, (elements / self.cpus) as int)
//@@ begin
  proof { lemma_num_chunks(elements as int, 1); assert((elements + 1 - 1) / 1 == elements);
     if elements >= self.cpus {
       assert(elements / self.cpus >= 1) by (nonlinear_arith) requires elements >= self.cpus, self.cpus > 0;
       lemma_div_ceil(elements as int, (elements / self.cpus) as int); } }
//@@ endfn
// the number of chunks the task count predicts is the number of chunks there are
pub proof fn lemma_div_ceil(n: int, c: int)
    requires n >= 0, c > 0
    ensures num_chunks(n, c) == n / c + (if n % c != 0 { 1int } else { 0int }), n / c <= n, n % c != 0 ==> n / c < n
{
    lemma_fundamental_div_mod(n, c);
    let q = n / c; let r = n % c;
    assert(0 <= r < c) by { lemma_mod_bound(n, c); }
    assert(c * q == q * c) by (nonlinear_arith);
    lemma_div_pos_is_pos(n, c);
    if r == 0 { lemma_fundamental_div_mod_converse(n + c - 1, c, q, c - 1); }
    else { assert((q + 1) * c == q * c + c) by (nonlinear_arith); lemma_fundamental_div_mod_converse(n + c - 1, c, q + 1, r - 1); }
    lemma_div_nonincreasing(n, c);
    if r != 0 { assert(q <= q * c) by (nonlinear_arith) requires q >= 0, c > 0; }
}
//@@ fn src/fft/multicore.rs log2_floor ret=r rename=mc_log2_floor
requires 0 < num < 0x8000_0000_0000_0000
ensures r == lg2(num as int), r < 64
//@@ begin
  proof { lemma_shl1(1); lemma2_to64(); }
//@@ loop 1
  invariant pow < 63, pow2(pow as nat) <= num, 0 < num < 0x8000_0000_0000_0000,
  decreases 64 - pow
//@@ loop 1 start
  proof { lemma_shl1((pow + 1) as u64); lemma_shl_ty((pow + 1) as u32); lemma2_to64_rest(); lemma2_to64(); assert(pow2(63) == 0x8000_0000_0000_0000); if pow >= 62 { assert(false); } }
//@@ loop 1 after
  proof { lemma_shl1((pow + 1) as u64); lemma_shl_ty((pow + 1) as u32); lemma_lg2_unique(num as int, pow as nat); }
//@@ endfn
//@@ fn src/fft/multicore.rs Worker::log_num_cpus ret=r
requires self.wf(), self.cpus < 0x8000_0000_0000_0000
ensures r == lg2(self.cpus as int), r < 64
//@@ subst "log2_floor" => "mc_log2_floor"
//@@ endfn
// what a scoped computation is handed is exactly get_chunk_size(elements); this is the fact the
// rewriting of `worker.scope(n, |scope, chunk| B)` into `let chunk = worker.get_chunk_size(n); B` uses
//@@ fn src/fft/multicore.rs Worker::scope ret=r rename=scope_
requires self.wf(), forall|c: usize| c > 0 ==> #[trigger] f.requires((c,))
ensures exists|c: usize| #[trigger] f.ensures((c,), r) && c > 0 && (elements < self.cpus ==> c == 1) && (elements >= self.cpus ==> c == elements / self.cpus)
//@@ subst "< 'a , F , R >" => "<F, R>"
//@@ subst "FnOnce (& Scope < 'a > , usize) -> R" => "FnOnce(usize) -> R"
//@@ subst "crossbeam :: scope (| scope | { f (scope , chunk_size) }) . unwrap ()" => "f(chunk_size)"
//@@ endfn
