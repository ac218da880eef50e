//@@ fn src/polynomials/mod.rs Polynomial::distribute_powers ret=r
requires worker.wf()
ensures final(self).same_domain(old(self)), final(self).coeffs@ == powered(old(self).coeffs@, g)
//@@ endfn
