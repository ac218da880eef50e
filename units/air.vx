// ---- constraints: real types ----
//@@ item src/air/mod.rs Register
//@@ item src/air/mod.rs DenseConstraint
//@@ item src/air/mod.rs RepeatedConstraint
//@@ item src/air/mod.rs SparseConstraint
//@@ item src/air/mod.rs ConstraintDensity
//@@ item src/air/constraint.rs StepDifference
//@@ item src/air/constraint.rs UnivariateTerm
//@@ item src/air/constraint.rs PolyvariateTerm
//@@ item src/air/constraint.rs ConstraintTerm
//@@ item src/air/constraint.rs Constraint
//@@ item src/air/constraint.rs BoundaryConstraint
//@@ fn src/air/mod.rs DenseConstraint::new ret=r
requires span >= 1
ensures r.start_at == starting_at, r.span == span
//@@ endfn
//@@ fn src/air/mod.rs DenseConstraint::default ret=r
ensures r.start_at == 0, r.span == 1
//@@ endfn
//@@ fn src/air/mod.rs RepeatedConstraint::new ret=r
requires span >= 1, interval >= 2
ensures r.start_at == starting_at, r.span == span, r.interval == interval
//@@ endfn
//@@ fn src/air/mod.rs RepeatedConstraint::default ret=r
ensures r.start_at == 0, r.span == 1, r.interval == 2
//@@ endfn
//@@ fn src/air/mod.rs SparseConstraint::new ret=r
requires at_rows@.len() > 0
ensures r.rows@ == at_rows@
//@@ endfn
