//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::get_coset_for_natural_index ret=r generics="<F: PrimeField>"
requires domain_size > 1, is_p2(domain_size as int), natural_index < domain_size
ensures r@ == sp_coset(natural_index as int, domain_size as int)
//@@ begin
  proof { lemma_half(natural_index as int, domain_size as int); }
//@@ endfn
//@@ fn src/iop/trivial_coset_combiner.rs TrivialCombiner::get_coset_for_tree_index ret=r generics="<F: PrimeField>"
requires domain_size > 1, is_p2(domain_size as int), natural_index < domain_size
ensures r@ == sp_coset(natural_index as int, domain_size as int)
//@@ endfn
