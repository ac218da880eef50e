// ---- what is drawn from a transcript state ----
// the state after n challenges, and the i-th of them
pub open spec fn chs(s: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { s } else { chs(s, n - 1) + blake(1, chs(s, n - 1)) } }
pub open spec fn chf<F: PrimeField>(s: Seq<u8>, i: int) -> F { chal::<F>(blake(1, chs(s, i))) }
pub open spec fn ch_pairs<F: PrimeField>(s: Seq<u8>, o: int, n: int) -> Seq<(F, F)> { Seq::new(n as nat, |i: int| (chf::<F>(s, 2 * (o + i)), chf::<F>(s, 2 * (o + i) + 1))) }
pub open spec fn ch_seq<F: PrimeField>(s: Seq<u8>, o: int, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| chf::<F>(s, o + i)) }
pub proof fn l_ch2<F: PrimeField>(s: Seq<u8>, o: int, t0: Seq<u8>, t2: Seq<u8>, a: F, b: F)
    requires o >= 0, t0 == chs(s, 2 * o), a.canon() == dig_val::<F>(blake(1, t0)), b.canon() == dig_val::<F>(blake(1, t0 + blake(1, t0))), t2 == (t0 + blake(1, t0)) + blake(1, t0 + blake(1, t0))
    ensures t2 == chs(s, 2 * (o + 1)), a == chf::<F>(s, 2 * o), b == chf::<F>(s, 2 * o + 1)
{ let u = t0 + blake(1, t0); assert(chs(s, 2 * o + 1) == u); assert(chs(s, 2 * o + 2) == u + blake(1, u)); l_chal(a, blake(1, t0)); l_chal(b, blake(1, u)); }
// number of constraints and boundary constraints
pub open spec fn p_nc<F: PrimeField>(p: InstanceProperties<F>) -> int { flat(pbat(p), pbat(p).len() as int) }
pub open spec fn p_nb<F: PrimeField>(p: InstanceProperties<F>) -> int { p.boundary_constraints@.len() as int }
