//@@ item src/iop/trivial_coset_combiner.rs TrivialCombiner
//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::get_for_natural_index ret=r generics="<F: PrimeField>"
requires natural_index < leafs@.len()
ensures *r == leafs@[natural_index as int]
//@@ endfn
//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::get_for_tree_index ret=r generics="<F: PrimeField>"
requires tree_index < leafs@.len()
ensures *r == leafs@[tree_index as int]
//@@ endfn
//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::tree_index_into_natural_index ret=r generics="<F: PrimeField>"
ensures r == tree_index
//@@ endfn
//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::natural_index_into_tree_index ret=r generics="<F: PrimeField>"
ensures r == natural_index
//@@ endfn
