//@@ fn src/fri/mod.rs NaiveFriIop::verify_proof ret=r impl="FriIop"
//@@ subst "Self::Proof" => "FRIProof<F>"
requires F::NUM_BITS < 256
ensures r == Ok::<bool, SynthesisError>(true) <==> fri_accepts(*proof, natural_element_index as int, expected_value)
//@@ endfn
