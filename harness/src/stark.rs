//! a prover and a verifier written here from the definition of the protocol (slow, by evaluating polynomials point by point)
use crate::*;
use hodor::air::*; use hodor::arp::*; use hodor::fri::*; use hodor::iop::*; use hodor::iop::blake2s_trivial_iop::*; use hodor::transcript::*; use hodor::verifier::*; use hodor::prover::*;
use std::marker::PhantomData;
pub type Iop<F> = TrivialBlake2sIOP<F>;
pub type Tr<F> = Blake2sTranscript<F>;
pub type Fp<F> = FRIProof<F, Iop<F>>;
pub type Fpp<F> = FRIProofPrototype<F, Iop<F>>;
pub type Nf<F> = NaiveFriIop<F, Iop<F>>;
pub type Proof<F> = InstanceProof<F, Tr<F>, Iop<F>, Fpp<F>, Fp<F>, Nf<F>, PerRegisterARP>;
pub type Verif<F> = Verifier<F, Tr<F>, Iop<F>, Fpp<F>, Fp<F>, Nf<F>, PerRegisterARP>;
pub type Prov<F> = Prover<F, Tr<F>, Iop<F>, Fpp<F>, Fp<F>, Nf<F>, PerRegisterARP>;

pub fn chal<F: PrimeField>(root: &[u8; 32]) -> F {
    let l = digest_limbs::<F>(root);
    let mut a = F::zero(); let mut base = F::one(); let mut two64 = F::one(); for _ in 0..64 { two64.double(); }
    for x in l.iter() { let mut v = fu::<F>(*x >> 32); for _ in 0..32 { v.double(); } v.add_assign(&fu::<F>(*x & 0xffff_ffff)); a.add_assign(&mul(v, base)); base.mul_assign(&two64); }
    a
}
pub fn ffold<F: PrimeField>(a: F, b: F, ch: F, x: F) -> F { mul(add(add(a, b), mul(mul(sub(a, b), inv(x)), ch)), inv(fu::<F>(2))) }
/// the FRI verifier's acceptance condition
pub fn fri_accepts<F: PrimeField>(p: &Fp<F>, idx: usize, v: F) -> bool {
    let n = p.initial_degree_plus_one as u128 * p.lde_factor as u128;
    if n > 1 << 62 { return false; }
    let mut k = 0; while (1u128 << k) < n { k += 1; }
    if k > F::S || idx as u128 >= 1u128 << k || idx % 2 == 0 { return false; }
    let rounds = p.roots.len();
    if rounds == 0 || rounds > k as usize || p.queries.len() != 2 * rounds { return false; }
    if p.final_coefficients.len() != p.output_coeffs_at_degree_plus_one || (p.output_coeffs_at_degree_plus_one as u128) << (rounds - 1) != p.initial_degree_plus_one as u128 { return false; }
    let mut want = v;
    for r in 0..rounds {
        let kk = k - r as u32; let m = 1usize << kk; let h = m / 2; let i = idx % m; let lo = i % h;
        let (a, b) = (&p.queries[2 * r], &p.queries[2 * r + 1]);
        if !opens(a, lo, kk, &p.roots[r]) || !opens(b, lo + h, kk, &p.roots[r]) { return false; }
        let val = if i < h { a.value() } else { b.value() };
        if val != want { return false; }
        let w = root::<F>(kk);
        if r + 1 == rounds { return peval(&p.final_coefficients, pw(w, i as u128)) == val; }
        want = ffold(a.value(), b.value(), chal(&p.roots[r]), pw(w, lo as u128));
    }
    unreachable!()
}
pub fn opens<F: PrimeField>(q: &TrivialBlake2sIopQuery<F>, i: usize, k: u32, root: &[u8; 32]) -> bool { q.natural_index() == i && q.path().len() == k as usize && Iop::<F>::verify_query(q, root) }
pub fn clone_fri<F: PrimeField>(p: &Fp<F>) -> Fp<F> { FRIProof { queries: p.queries.clone(), roots: p.roots.clone(), final_coefficients: p.final_coefficients.clone(), initial_degree_plus_one: p.initial_degree_plus_one, output_coeffs_at_degree_plus_one: p.output_coeffs_at_degree_plus_one, lde_factor: p.lde_factor } }
pub fn clone_proof<F: PrimeField>(p: &Proof<F>) -> Proof<F> { InstanceProof { f_at_z_m: p.f_at_z_m.clone(), f_iop_roots: p.f_iop_roots.clone(), g_iop_root: p.g_iop_root, f_queries: p.f_queries.clone(), g_query: p.g_query.clone(), h1_iop_roots: p.h1_iop_roots.clone(), h2_iop_roots: p.h2_iop_roots.clone(), fri_proof_h1: clone_fri(&p.fri_proof_h1), fri_proof_h2: clone_fri(&p.fri_proof_h2), _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData } }
pub fn idft<F: PrimeField>(v: &[F], k: u32) -> Vec<F> { let x = dft(v, inv(root::<F>(k))); let m = inv(pw(fu::<F>(2), k as u128)); x.iter().map(|a| mul(*a, m)).collect() }
pub fn log2_ceil(n: usize) -> u32 { n.next_power_of_two().trailing_zeros() }
pub fn reg(r: &Register) -> usize { match r { Register::Register(i) => *i, _ => panic!("harness: register") } }
pub fn steps<F: PrimeField>(s: &StepDifference<F>) -> usize { match s { StepDifference::Steps(i) => *i, _ => panic!("harness: steps") } }
pub fn dense(d: &ConstraintDensity) -> (usize, usize) { match d { ConstraintDensity::Dense(d) => (d.start_at, d.span), _ => panic!("harness: density") } }
/// the value of a constraint, reading register r at step s as a(r, s)
pub fn cval<F: PrimeField>(c: &Constraint<F>, a: &dyn Fn(usize, usize) -> F) -> F {
    let u = |t: &UnivariateTerm<F>| mul(t.coeff, pw(a(reg(&t.register), steps(&t.steps_difference)), t.power as u128));
    let mut v = c.constant_term;
    for t in c.terms.iter() { v = add(v, match t { ConstraintTerm::Univariate(t) => u(t), ConstraintTerm::Polyvariate(p) => p.terms.iter().fold(p.coeff, |x, t| mul(x, u(t))) }); }
    v
}
/// an instance as prover and verifier see it
pub struct Inst<F: PrimeField> { pub p: InstanceProperties<F>, pub k: u32, pub n: usize, pub deg: u64, pub gk: u32, pub gn: usize, pub masks: Vec<(usize, usize)>, pub batches: Vec<((usize, usize), Vec<Constraint<F>>)> }
impl<F: PrimeField> Inst<F> {
    pub fn new(p: InstanceProperties<F>) -> Self {
        let k = log2_ceil(p.num_rows); let n = 1usize << k;
        let deg = p.constraints.iter().map(|c| c.degree).max().unwrap_or(0).max(1);
        let gk = log2_ceil(deg as usize) + k;
        // masked registers in the order of their first appearance; steps count modulo the domain
        let mut masks: Vec<(usize, usize)> = vec![];
        { let mut put = |r: usize, s: usize| { let m = (r, s % n); if !masks.contains(&m) { masks.push(m); } };
          for c in p.constraints.iter() { for t in c.terms.iter() { match t { ConstraintTerm::Univariate(t) => put(reg(&t.register), steps(&t.steps_difference)), ConstraintTerm::Polyvariate(q) => for t in q.terms.iter() { put(reg(&t.register), steps(&t.steps_difference)); } } } }
          for b in p.boundary_constraints.iter() { put(reg(&b.register), 0); } }
        let mut batches: Vec<((usize, usize), Vec<Constraint<F>>)> = vec![];
        for c in p.constraints.iter() { let d = dense(&c.density); match batches.iter().position(|b| b.0 == d) { Some(i) => batches[i].1.push(c.clone()), None => batches.push((d, vec![c.clone()])) } }
        Inst { p, k, n, deg, gk, gn: 1 << gk, masks, batches }
    }
    /// is the composition defined at x, and its value there; a(r, s) is register r at w^s * x
    pub fn gdef(&self, x: F) -> bool { let w = root::<F>(self.k); (self.p.constraints.is_empty() || pw(x, self.n as u128) != F::one()) && self.p.boundary_constraints.iter().all(|b| x != pw(w, b.at_row as u128)) }
    /// is the composition defined all over the coset the prover computes it on
    pub fn coset_def(&self) -> bool { let w = root::<F>(self.gk); let mut x = F::multiplicative_generator(); for _ in 0..self.gn { if !self.gdef(x) { return false; } x.mul_assign(&w); } true }
    pub fn gcomp(&self, x: F, a: &dyn Fn(usize, usize) -> F, cc: &[(F, F)], bc: &[(F, F)]) -> F {
        let w = root::<F>(self.k); let mut i = 0; let mut g = F::zero();
        let adj = |e: u64, ab: (F, F)| if e == 0 { ab.0 } else { add(mul(ab.0, pw(x, e as u128)), ab.1) };
        for ((st, sp), b) in self.batches.iter() {
            let mut s = F::zero();
            for c in b.iter() { s = add(s, mul(cval(c, a), adj(self.deg - c.degree, cc[i]))); i += 1; }
            let mut d = F::one();       // product over the rows the constraint covers
            for t in *st..self.p.num_rows - sp { d = mul(d, sub(x, pw(w, t as u128))); }
            g = add(g, mul(s, inv(d)));
        }
        for (b, ab) in self.p.boundary_constraints.iter().zip(bc.iter()) { g = add(g, mul(mul(sub(a(reg(&b.register), 0), b.value.unwrap()), adj(self.deg - 1, *ab)), inv(sub(x, pw(w, b.at_row as u128))))); }
        g
    }
    pub fn h1(&self, x: F, z: F, fx: &[F], fz: &[F], al: &[F]) -> F { let w = root::<F>(self.k); let mut h = F::zero(); for (i, m) in self.masks.iter().enumerate() { h = add(h, mul(al[i], mul(sub(fx[m.0], fz[i]), inv(sub(x, mul(z, pw(w, m.1 as u128))))))); } h }
    pub fn h1def(&self, x: F, z: F) -> bool { let w = root::<F>(self.k); self.masks.iter().all(|m| x != mul(z, pw(w, m.1 as u128))) }
}
pub fn chal_index(bytes: &[u8], n: usize, f: usize) -> usize { let mut x: u128 = 0; for y in &bytes[bytes.len() - 8..] { x = x * 256 + *y as u128; } let m = n as u128; let mut x = x % m; if x % f as u128 == 0 { x = (x + 1) % m; } if x % 2 == 0 { x = (x + 1) % m; } x as usize }
/// everything the verifier draws from the transcript of this proof
pub struct Drawn<F: PrimeField> { pub cc: Vec<(F, F)>, pub bc: Vec<(F, F)>, pub z: F, pub al: Vec<F>, pub i1: usize, pub i2: usize }
pub fn drawn<F: PrimeField>(o: &Inst<F>, q: &Proof<F>, lde: usize) -> Drawn<F> {
    let mut t = Tr::<F>::new();
    for r in q.f_iop_roots.iter() { t.commit_bytes(r); }
    let cc = o.p.constraints.iter().map(|_| { let a = t.get_challenge(); (a, t.get_challenge()) }).collect();
    let bc = o.p.boundary_constraints.iter().map(|_| { let a = t.get_challenge(); (a, t.get_challenge()) }).collect();
    t.commit_bytes(&q.g_iop_root); let z = t.get_challenge();
    let al = o.masks.iter().map(|_| t.get_challenge()).collect();
    t.commit_bytes(q.h1_iop_roots.last().unwrap()); for c in q.fri_proof_h1.final_coefficients.iter() { t.commit_field_element(c); }
    t.commit_bytes(q.h2_iop_roots.last().unwrap()); for c in q.fri_proof_h2.final_coefficients.iter() { t.commit_field_element(c); }
    let i1 = chal_index(&t.get_challenge_bytes(), o.n * lde, lde); let i2 = chal_index(&t.get_challenge_bytes(), o.gn * lde, lde);
    Drawn { cc, bc, z, al, i1, i2 }
}
/// the verifier's acceptance condition
pub fn accepts<F: PrimeField>(o: &Inst<F>, q: &Proof<F>, lde: usize) -> bool {
    let nr = o.p.num_registers;
    if q.f_queries.len() != nr || q.f_iop_roots.len() != nr || q.f_at_z_m.len() != o.masks.len() { return false; }
    if q.h1_iop_roots.is_empty() || q.h2_iop_roots.is_empty() || q.h1_iop_roots != q.fri_proof_h1.roots || q.h2_iop_roots != q.fri_proof_h2.roots { return false; }
    if q.fri_proof_h1.lde_factor != lde || q.fri_proof_h2.lde_factor != lde || q.fri_proof_h1.initial_degree_plus_one != o.n || q.fri_proof_h2.initial_degree_plus_one != o.gn { return false; }
    let (kf, kg) = (log2_ceil(o.n * lde), log2_ceil(o.gn * lde));
    if kf > F::S || kg > F::S { return false; }
    let d = drawn(o, q, lde);
    let (lf, lg) = ((o.n * lde).leading_zeros(), (o.gn * lde).leading_zeros());   // path lengths: floor of the logarithm
    for i in 0..nr { if !opens(&q.f_queries[i], d.i1, 63 - lf, &q.f_iop_roots[i]) { return false; } }
    if !opens(&q.g_query, d.i2, 63 - lg, &q.g_iop_root) { return false; }
    let (x1, x2) = (pw(root::<F>(kf), d.i1 as u128), pw(root::<F>(kg), d.i2 as u128));
    if !o.h1def(x1, d.z) || !o.gdef(d.z) || d.z == x2 { return false; }
    let fx: Vec<F> = q.f_queries.iter().map(|x| x.value()).collect();
    let h1 = o.h1(x1, d.z, &fx, &q.f_at_z_m, &d.al);
    let n = o.n; let ix = |r: usize, s: usize| q.f_at_z_m[o.masks.iter().position(|m| *m == (r, s % n)).unwrap()];
    let g = o.gcomp(d.z, &ix, &d.cc, &d.bc);
    let h2 = mul(sub(q.g_query.value(), g), inv(sub(x2, d.z)));
    fri_accepts(&q.fri_proof_h1, d.i1, h1) && fri_accepts(&q.fri_proof_h2, d.i2, h2)
}
/// what an (honest or not) prover does: bits of `cheat` name the steps at which it deviates
pub struct Opt { pub lde: usize, pub out: usize, pub cheat: u64 }
pub const CHEATS: u64 = 23;
/// cheats that need an instance without constraints (both quotients are zero)
pub fn empty_instance(cheat: u64) -> bool { cheat >= 15 }
fn lde_of<F: PrimeField>(c: &[F], k: u32) -> Vec<F> { let w = root::<F>(k); let mut x = F::one(); (0..1usize << k).map(|_| { let v = peval(c, x); x.mul_assign(&w); v }).collect() }
/// values a prover commits to; None when the out-of-domain point hits a denominator
pub fn prove<F: PrimeField>(o: &Inst<F>, wit: &[Vec<F>], op: &Opt, r: &mut Rng, wk: &Worker) -> Result<Option<Proof<F>>, String> {
    let (lde, n) = (op.lde, o.n); let (kf, kg) = (log2_ceil(n * lde), log2_ceil(o.gn * lde)); let ch = op.cheat;
    let w = root::<F>(o.k); let nr = o.p.num_registers;
    let mut cols: Vec<Vec<F>> = wit.iter().map(|c| { let mut c = c.clone(); c.resize(n, F::zero()); c }).collect();
    if ch == 1 { let i = r.below(nr as u64) as usize; let j = r.below(n as u64) as usize; cols[i][j] = add(cols[i][j], F::one()); }
    let f: Vec<Vec<F>> = cols.iter().map(|c| idft(c, o.k)).collect();
    let mut fl: Vec<Vec<F>> = f.iter().map(|c| lde_of(c, kf)).collect();
    if ch == 7 { let i = r.below(nr as u64) as usize; for x in fl[i].iter_mut() { *x = felt(r); } }
    if ch == 8 { let i = r.below(nr as u64) as usize; fl[i] = lde_of(&felts(r, 2 * n), kf); }
    // trees as committed: cheat 12 commits to trees of twice the size
    let tree = |v: &Vec<F>, dbl: bool, r: &mut Rng| { let mut v = v.clone(); if dbl { let l = v.len(); v.extend(felts::<F>(r, l)); } (Iop::<F>::create(&v), v) };
    let mut t = Tr::<F>::new();
    let ft: Vec<_> = fl.iter().map(|v| tree(v, ch == 12, r)).collect();
    for x in ft.iter() { t.commit_bytes(&x.0.get_root()); }
    let cc: Vec<(F, F)> = o.p.constraints.iter().map(|_| { let a = t.get_challenge(); (a, t.get_challenge()) }).collect();
    let bc: Vec<(F, F)> = o.p.boundary_constraints.iter().map(|_| { let a = t.get_challenge(); (a, t.get_challenge()) }).collect();
    // the composition on the coset, then its coefficients
    let gen = F::multiplicative_generator(); let wg = root::<F>(o.gk);
    let mut gv = vec![]; let mut x = gen;
    for _ in 0..o.gn {
        if !o.gdef(x) { return Ok(None); }
        let a = |rg: usize, s: usize| peval(&f[rg], mul(x, pw(w, s as u128)));
        gv.push(o.gcomp(x, &a, &cc, &bc)); x.mul_assign(&wg);
    }
    let mut g = idft(&gv, o.gk); { let gi = inv(gen); let mut p = F::one(); for c in g.iter_mut() { c.mul_assign(&p); p.mul_assign(&gi); } }
    if ch == 5 { g = felts(r, o.gn); }
    let mut gl = lde_of(&g, kg);
    if ch == 6 { for x in gl.iter_mut() { *x = felt(r); } }
    let gt = tree(&gl, ch == 13, r); let groot = gt.0.get_root();
    t.commit_bytes(&groot);
    let z: F = t.get_challenge(); let al: Vec<F> = o.masks.iter().map(|_| t.get_challenge()).collect();
    let mut fz: Vec<F> = o.masks.iter().map(|m| peval(&f[m.0], mul(z, pw(w, m.1 as u128)))).collect();
    if ch == 4 && !fz.is_empty() { let i = r.below(fz.len() as u64) as usize; fz[i] = add(fz[i], F::one()); }
    let gz = peval(&g, z);
    let mut h1 = vec![]; let mut x = F::one(); let wf = root::<F>(kf);
    for i in 0..1usize << kf { if !o.h1def(x, z) { return Ok(None); } let fx: Vec<F> = fl.iter().map(|v| v[i]).collect(); h1.push(o.h1(x, z, &fx, &fz, &al)); x.mul_assign(&wf); }
    let mut h2 = vec![]; let mut x = F::one(); let wh = root::<F>(kg);
    for i in 0..1usize << kg { if x == z { return Ok(None); } h2.push(mul(sub(gl[i], gz), inv(sub(x, z)))); x.mul_assign(&wh); }
    if ch == 2 { h1 = lde_of(&felts(r, n), kf); }
    if ch == 3 { h2 = lde_of(&felts(r, o.gn), kg); }
    let e = |e: hodor::SynthesisError| format!("FRI prover: {}", e);
    let (mut l1, mut l2) = (lde, lde);
    if ch == 9 { l1 = lde / 2; } if ch == 10 { l2 = lde / 2; } if ch == 11 { l1 = lde * 2; } if ch == 14 { l2 = lde * 2; }
    // the quotients are zero: low degree over domains of other sizes too
    if ch == 15 || ch == 17 { h1 = vec![F::zero(); 2 << kf]; if ch == 15 { l1 = lde * 2; } } if ch == 16 || ch == 18 { h2 = vec![F::zero(); 2 << kg]; if ch == 16 { l2 = lde * 2; } }
    if log2_ceil(h1.len()) > F::S || log2_ceil(h2.len()) > F::S { return Ok(None); }
    if l1 == 0 || l2 == 0 || h1.len() / l1 < op.out || h2.len() / l2 < op.out || l1 * op.out < 2 || l2 * op.out < 2 { return Ok(None); }
    let (h1p, h2p) = (VPoly::<F>::from_values(h1).map_err(e)?, VPoly::<F>::from_values(h2).map_err(e)?);
    let p1 = Nf::<F>::proof_from_lde(&h1p, l1, op.out, wk).map_err(e)?; let p2 = Nf::<F>::proof_from_lde(&h2p, l2, op.out, wk).map_err(e)?;
    let (r1, r2) = (p1.get_roots(), p2.get_roots());
    t.commit_bytes(&p1.get_final_root()); for c in p1.get_final_coefficients().iter() { t.commit_field_element(c); }
    t.commit_bytes(&p2.get_final_root()); for c in p2.get_final_coefficients().iter() { t.commit_field_element(c); }
    let i1 = chal_index(&t.get_challenge_bytes(), n * lde, lde); let i2 = chal_index(&t.get_challenge_bytes(), o.gn * lde, lde);
    // openings of the wrong place, or under another root
    let (mut j1, mut j2) = (i1, i2); if ch == 19 { j1 = (i1 + 2) % (n * lde); } if ch == 20 { j2 = (i2 + 2) % (o.gn * lde); }
    let fo: Vec<_> = ft.iter().map(|x| if ch == 21 { (Iop::<F>::create(&felts(r, x.1.len())), x.1.clone()) } else { (Iop::<F>::create(&x.1), x.1.clone()) }).collect();
    let gq = if ch == 22 { let mut v: Vec<F> = felts(r, gt.1.len()); v[i2] = gt.1[i2]; Iop::<F>::create(&v).query(i2, &v) } else { gt.0.query(j2, &gt.1) };
    Ok(Some(InstanceProof { f_at_z_m: fz, f_iop_roots: ft.iter().map(|x| x.0.get_root()).collect(), g_iop_root: groot,
        f_queries: fo.iter().map(|x| x.0.query(j1, &x.1)).collect(), g_query: gq, h1_iop_roots: r1, h2_iop_roots: r2,
        fri_proof_h1: Nf::<F>::prototype_into_proof(p1, &h1p, i1).map_err(e)?, fri_proof_h2: Nf::<F>::prototype_into_proof(p2, &h2p, i2).map_err(e)?,
        _marker_a: PhantomData, _marker_t: PhantomData, _marker_p: PhantomData, _marker_fri: PhantomData }))
}
/// a random register system with a trace that satisfies it
pub struct Gen { pub rows: usize, pub regs: usize, pub densities: usize, pub maxdeg: u64 }
pub fn system<F: PrimeField>(g: &Gen, r: &mut Rng) -> (InstanceProperties<F>, Vec<Vec<F>>) {
    let rows = g.rows; let mut w: Vec<Vec<F>> = (0..g.regs).map(|_| felts(r, rows)).collect();
    let mut ds: Vec<(usize, usize)> = vec![];
    let sp = 1 + r.below(rows.min(3) as u64) as usize;
    for _ in 0..g.densities { let d = (if r.below(3) == 0 { r.below((rows - sp.min(rows)) as u64 + 1) as usize } else { 0 }, sp); ds.push(d); }
    let ncons = 1 + r.below(g.regs as u64) as usize;
    let mut cons: Vec<Constraint<F>> = vec![];
    for i in 0..ncons {
        let (st, s) = ds[i % ds.len()];
        let mut k = Constraint::<F>::default(); k.density = ConstraintDensity::Dense(DenseConstraint::new(st, s));
        let x: F = felt(r); k += &x;
        let term = |r: &mut Rng, p: u64| { let mut t: UnivariateTerm<F> = Register::Register(r.below(g.regs as u64) as usize).into(); t.power = p; t.set_step_difference(r.below(s as u64) as usize); let c: F = felt(r); t *= c; t };
        for _ in 0..r.below(3) { let p = 1 + r.below(g.maxdeg); let t = term(r, p); if r.below(2) == 0 { k += t; } else { k -= t; } }
        if r.below(2) == 0 && g.maxdeg >= 2 { let mut q = PolyvariateTerm::<F>::default(); let mut left = g.maxdeg; for _ in 0..1 + r.below(3) { if left == 0 { break; } let p = 1 + r.below(left); left -= p; q *= term(r, p); } k += q; }
        let mut nx: UnivariateTerm<F> = Register::Register(i).into(); nx.set_step_difference(s); k -= nx;
        cons.push(k);
    }
    for t in 0..rows { for (i, k) in cons.iter().enumerate() { let (st, s) = dense(&k.density); if t >= st && t + s < rows {
        w[i][t + s] = F::zero(); let v = cval(k, &|rg, d| w[rg][t + d]); w[i][t + s] = v; } } }
    let mut bcs = vec![];
    for _ in 0..r.below(3) { let j = r.below(g.regs as u64) as usize; let at = r.below(rows as u64) as usize; bcs.push(BoundaryConstraint { register: Register::Register(j), at_row: at, value: Some(w[j][at]) }); }
    (InstanceProperties { num_rows: rows, num_registers: g.regs, constraints: cons, boundary_constraints: bcs }, w)
}
