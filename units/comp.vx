// ---- the composition: what prover and verifier both compute from the same instance ----
//@@ item src/ali/mod.rs MaskProperties
// derived Clone: the clone is the value (a Vec is identified with its contents)
impl Clone for DenseConstraint { fn clone(&self) -> (r: Self) ensures r == *self { DenseConstraint { start_at: self.start_at, span: self.span } } }
impl Clone for ConstraintDensity {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<F: PrimeField> Clone for Constraint<F> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn mk<F: PrimeField>(r: Register, s: StepDifference<F>) -> MaskProperties<F> { MaskProperties { register: r, steps_difference: s } }
// masked registers, in the order in which they are first read
pub open spec fn m_us<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<UnivariateTerm<F>>, n: int) -> Seq<MaskProperties<F>> decreases n { if n <= 0 { s } else { set_add(m_us(s, t, n - 1), mk(t[n - 1].register, t[n - 1].steps_difference)) } }
pub open spec fn m_t<F: PrimeField>(s: Seq<MaskProperties<F>>, t: ConstraintTerm<F>) -> Seq<MaskProperties<F>> { match t { ConstraintTerm::Univariate(u) => set_add(s, mk(u.register, u.steps_difference)), ConstraintTerm::Polyvariate(p) => m_us(s, p.terms@, p.terms@.len() as int) } }
pub open spec fn m_ts<F: PrimeField>(s: Seq<MaskProperties<F>>, t: Seq<ConstraintTerm<F>>, n: int) -> Seq<MaskProperties<F>> decreases n { if n <= 0 { s } else { m_t(m_ts(s, t, n - 1), t[n - 1]) } }
pub open spec fn m_c<F: PrimeField>(s: Seq<MaskProperties<F>>, c: Constraint<F>) -> Seq<MaskProperties<F>> { m_ts(s, c.terms@, c.terms@.len() as int) }
pub open spec fn m_cs<F: PrimeField>(cs: Seq<Constraint<F>>, n: int) -> Seq<MaskProperties<F>> decreases n { if n <= 0 { Seq::empty() } else { m_c(m_cs(cs, n - 1), cs[n - 1]) } }
pub open spec fn one_mask<F: PrimeField>() -> StepDifference<F> { StepDifference::<F>::Mask(F::f1()) }
pub open spec fn m_bs<F: PrimeField>(s: Seq<MaskProperties<F>>, bs: Seq<BoundaryConstraint<F>>, n: int) -> Seq<MaskProperties<F>> decreases n { if n <= 0 { s } else { set_add(m_bs(s, bs, n - 1), mk(bs[n - 1].register, one_mask::<F>())) } }
pub open spec fn masks_of<F: PrimeField>(cs: Seq<Constraint<F>>, bs: Seq<BoundaryConstraint<F>>) -> Seq<MaskProperties<F>> { m_bs(m_cs(cs, cs.len() as int), bs, bs.len() as int) }
//@@ fn src/ali/mod.rs get_masks_from_term
ensures final(set)@ == m_t(old(set)@, *constraint)
//@@ loop 1
  invariant vx_n1 == poly.terms@.len(), vx_k1 <= vx_n1, set@ == m_us(old(set)@, poly.terms@, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ endfn
//@@ fn src/ali/mod.rs get_masks_from_constraint
ensures final(set)@ == m_c(old(set)@, *constraint)
//@@ loop 1
  invariant vx_n1 == constraint.terms@.len(), vx_k1 <= vx_n1, set@ == m_ts(old(set)@, constraint.terms@, vx_k1 as int),
  decreases vx_n1 - vx_k1
//@@ endfn
//@@ fn src/ali/mod.rs get_mask_from_boundary_constraint
ensures final(set)@ == set_add(old(set)@, mk(b_constraint.register, one_mask::<F>()))
//@@ endfn
// constraints grouped by density, groups in the order of first appearance
pub type Batch<F> = (ConstraintDensity, Seq<Constraint<F>>);
pub open spec fn bat_put<F: PrimeField>(p: Seq<Batch<F>>, c: Constraint<F>) -> Seq<Batch<F>> { if im_has(p, c.density) { im_put(p, c.density, im_val(p, c.density).push(c)) } else { im_put(p, c.density, seq![c]) } }
pub open spec fn bat<F: PrimeField>(cs: Seq<Constraint<F>>, n: int) -> Seq<Batch<F>> decreases n { if n <= 0 { Seq::empty() } else { bat_put(bat(cs, n - 1), cs[n - 1]) } }
pub open spec fn bview<F: PrimeField>(s: Seq<(ConstraintDensity, Vec<Constraint<F>>)>) -> Seq<Batch<F>> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1@)) }
pub proof fn l_bview_at<F: PrimeField>(s: Seq<(ConstraintDensity, Vec<Constraint<F>>)>, k: ConstraintDensity)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures im_has(bview(s), k) <==> im_has(s, k), im_has(s, k) ==> im_ix(bview(s), k) == im_ix(s, k) && im_val(bview(s), k) == im_val(s, k)@
{
    let t = bview(s);
    if im_has(t, k) { let a = im_ix(t, k); assert(im_at(t, k, a)); assert(im_at(s, k, a)); }
    if im_has(s, k) { let a = im_ix(s, k); assert(im_at(s, k, a)); assert(im_at(t, k, a)); let b = im_ix(t, k); assert(im_at(t, k, b)); assert(s[b].0 == k); if a < b { assert(s[a].0 != s[b].0); } if b < a { assert(s[b].0 != s[a].0); } }
}
// one more constraint, on the real map
pub proof fn l_bat_step<F: PrimeField>(s: Seq<(ConstraintDensity, Vec<Constraint<F>>)>, c: Constraint<F>, v: Vec<Constraint<F>>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0,
        v@ == if im_has(s, c.density) { im_val(s, c.density)@.push(c) } else { seq![c] }
    ensures bview(im_put(s, c.density, v)) == bat_put(bview(s), c)
{ l_bview_at(s, c.density); if im_has(s, c.density) { let a = im_ix(s, c.density); assert(im_at(s, c.density, a)); } assert(bview(im_put(s, c.density, v)) =~= bat_put(bview(s), c)); }
// every group holds constraints of the instance, of the group's density
pub open spec fn bat_of<F: PrimeField>(b: Seq<Batch<F>>, p: spec_fn(Constraint<F>) -> bool) -> bool { forall|d: int, j: int| 0 <= d < b.len() && 0 <= j < b[d].1.len() ==> p(#[trigger] b[d].1[j]) && b[d].1[j].density == b[d].0 }
pub proof fn l_bat_all<F: PrimeField>(cs: Seq<Constraint<F>>, n: int, p: spec_fn(Constraint<F>) -> bool)
    requires 0 <= n <= cs.len(), forall|i: int| 0 <= i < n ==> p(#[trigger] cs[i])
    ensures bat_of(bat(cs, n), p), forall|i: int, j: int| 0 <= i < j < bat(cs, n).len() ==> (#[trigger] bat(cs, n)[i]).0 != (#[trigger] bat(cs, n)[j]).0,
        forall|d: int| 0 <= d < bat(cs, n).len() ==> (#[trigger] bat(cs, n)[d]).1.len() > 0
    decreases n
{
    if n > 0 {
        l_bat_all(cs, n - 1, p); let b = bat(cs, n - 1); let c = cs[n - 1]; let t = bat(cs, n);
        if im_has(b, c.density) { assert(im_at(b, c.density, im_ix(b, c.density))); l_im_put(b, c.density, im_val(b, c.density).push(c)); } else { l_im_put(b, c.density, seq![c]); }
        assert forall|d: int, j: int| 0 <= d < t.len() && 0 <= j < t[d].1.len() implies p(#[trigger] t[d].1[j]) && t[d].1[j].density == t[d].0 by {
            if d < b.len() && j < b[d].1.len() { assert(t[d].1[j] == b[d].1[j]); } else { assert(t[d].1[j] == c); }
        }
    }
}
// ---- values ----
pub open spec fn vanish<F: PrimeField>(x: F, om: F, a: int, b: int) -> F decreases b - a { if b <= a { F::f1() } else { vanish(x, om, a, b - 1).fmul(fsub(x, fpow(om, (b - 1) as nat))) } }
// 1 over the polynomial that vanishes on the rows a dense constraint covers: all of the domain but the first start_at rows and those from rows-span on
pub open spec fn dense_inv<F: PrimeField>(x: F, n: int, rows: int, d: DenseConstraint) -> F {
    let om = dgen::<F>(lg2(n)); fsub(fpow(x, n as nat), F::f1()).finv().fmul(vanish(x, om, 0, d.start_at as int)).fmul(vanish(x, om, rows - d.span, n)) }
pub open spec fn den_inv<F: PrimeField>(x: F, n: int, rows: int, d: ConstraintDensity) -> F { match d { ConstraintDensity::Dense(t) => dense_inv(x, n, rows, t), _ => F::f0() } }
pub open spec fn adj<F: PrimeField>(e: int, ab: (F, F), x: F) -> F { if e <= 0 { ab.0 } else { fpow(x, e as nat).fmul(ab.0).fadd(ab.1) } }
pub open spec fn bsum<F: PrimeField>(b: Seq<Constraint<F>>, a: Asg<F>, p: int, ch: Seq<(F, F)>, o: int, x: F, n: int) -> F decreases n {
    if n <= 0 { F::f0() } else { bsum(b, a, p, ch, o, x, n - 1).fadd(cval(b[n - 1], a).fmul(adj(p - b[n - 1].degree, ch[o + n - 1], x))) } }
pub open spec fn flat<F: PrimeField>(b: Seq<Batch<F>>, d: int) -> int decreases d { if d <= 0 { 0 } else { flat(b, d - 1) + b[d - 1].1.len() } }
pub open spec fn csum<F: PrimeField>(b: Seq<Batch<F>>, a: Asg<F>, p: int, n: int, rows: int, ch: Seq<(F, F)>, x: F, d: int) -> F decreases d {
    if d <= 0 { F::f0() } else { csum(b, a, p, n, rows, ch, x, d - 1).fadd(bsum(b[d - 1].1, a, p, ch, flat(b, d - 1), x, b[d - 1].1.len() as int).fmul(den_inv(x, n, rows, b[d - 1].0))) } }
pub open spec fn bterm<F: PrimeField>(b: BoundaryConstraint<F>, a: Asg<F>, p: int, n: int, ab: (F, F), x: F) -> F {
    fsub(a(b.register, one_mask::<F>()), b.value->Some_0).fmul(adj(p - 1, ab, x)).fmul(fsub(x, fpow(dgen::<F>(lg2(n)), b.at_row as nat)).finv()) }
pub open spec fn bndsum<F: PrimeField>(g: F, bs: Seq<BoundaryConstraint<F>>, a: Asg<F>, p: int, n: int, ch: Seq<(F, F)>, x: F, k: int) -> F decreases k {
    if k <= 0 { g } else { bndsum(g, bs, a, p, n, ch, x, k - 1).fadd(bterm(bs[k - 1], a, p, n, ch[k - 1], x)) } }
pub open spec fn max_deg<F: PrimeField>(cs: Seq<Constraint<F>>, n: int) -> int decreases n { if n <= 0 { 1 } else { imax(max_deg(cs, n - 1), cs[n - 1].degree as int) } }
// the composition polynomial's value at x: constraint groups over their divisors plus boundary quotients
pub open spec fn gcomp<F: PrimeField>(p: InstanceProperties<F>, a: Asg<F>, cc: Seq<(F, F)>, bc: Seq<(F, F)>, x: F) -> F {
    let b = bat(p.constraints@, p.constraints@.len() as int); let m = max_deg(p.constraints@, p.constraints@.len() as int); let n = np2(p.num_rows as int);
    bndsum(csum(b, a, m, n, p.num_rows as int, cc, x, b.len() as int), p.boundary_constraints@, a, m, n, bc, x, p.boundary_constraints@.len() as int) }
// ---- instances a prover or verifier can be built for ----
pub open spec fn reads_ok<F: PrimeField>(n: int) -> Rd<F> { |r: Register, s: StepDifference<F>| r is Register && reg_of(r) < n && s is Mask }
pub open spec fn dense_ok(d: ConstraintDensity, rows: int) -> bool { d matches ConstraintDensity::Dense(t) && t.start_at + t.span <= rows }
pub open spec fn bnd_ok<F: PrimeField>(b: BoundaryConstraint<F>, n: int) -> bool { b.register is Register && reg_of(b.register) < n && b.value is Some }
