#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the file stays consistent).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
W = "cfg(hodor_verif) re-exports of crate-private items with an explicit worker count"
p("C01", "Evaluation domains are the exact 2-power subgroups",
  "Asking for an evaluation domain of any 64-bit size either returns the domain whose size is the smallest power of two not below the request, with the matching exponent and a generator whose multiplicative order is exactly that size, or returns an error. It returns an error exactly when that size exceeds the largest 2-power subgroup of the field or does not fit in 64 bits. It never hangs or panics.",
  ["inputs", "configurations"], "every requested size in 0..2^64 and every prime field with 2-adicity S",
  "Tests only build a handful of small domains over one field; the boundary sizes (0, 1, 2^S, 2^S+1, above 2^63) and other fields are never tried and the order of the generator is never checked.",
  ["src/domains/mod.rs"], [("Domain::new_for_size", "src/domains/mod.rs")],
  observe=["Domain::new_for_size result"])
p("C02", "FRI coset and next-domain index maps pair x with -x",
  "For every power-of-two domain of size N >= 2 and every index below N, the coset of an index is exactly the two distinct ascending indices i and i+N/2 mod N, whose domain elements are negatives of each other. The next-domain map sends both members of a coset, and no other index, to the same index below N/2, which is the index of the squared domain element in the squared domain. The coset map used for oracle queries agrees with the coset map of the domain.",
  ["inputs"], "every domain size 2^k with k>=1, every natural index below it",
  "One FRI test walks a 16-element domain; nothing states the algebraic relation between indices and domain elements for every size and index.",
  ["src/domains/mod.rs", "src/iop/trivial_coset_combiner.rs"],
  [("Domain::coset_for_natural_index_and_size", "src/domains/mod.rs"), ("Domain::index_and_size_for_next_domain", "src/domains/mod.rs"), ("TrivialCombiner::get_coset_for_natural_index", "src/iop/trivial_coset_combiner.rs")])
p("C03", "Every FFT computes the discrete Fourier transform",
  "For every vector of 2^k field elements and every primitive 2^k-th root w, the transform leaves at position i exactly the sum over j of a_j*w^(i*j). The result is the same for the serial and the parallel algorithm, for every number of workers and every worker hint, and for the radix-2, radix-4 and decimation-in-time variants on the sizes they accept.",
  ["inputs", "configurations", "schedules"], "every coefficient vector of power-of-two length, every primitive root, every worker count, every interleaving of the spawned tasks (they own disjoint slices)",
  "Tests compare three serial implementations with each other at 2^20 (one random vector) and never compare with the definition, other sizes, or worker counts different from the machine's.",
  ["src/fft/fft.rs", "src/fft/radix4_fft/mod.rs", "src/fft/dit_fft/mod.rs", "src/fft/mod.rs", "src/polynomials/mod.rs"],
  [("serial_fft", "src/fft/fft.rs"), ("parallel_fft", "src/fft/fft.rs"), ("best_fft", "src/fft/fft.rs"), ("Polynomial::fft", "src/polynomials/mod.rs")], hook=W)
p("C04", "Inverse and coset transforms are exact inverses",
  "For every polynomial of 2^k coefficients and every worker count, evaluating on the domain and interpolating back returns the same coefficients, and interpolating then evaluating returns the same values. The coset transforms evaluate at generator-shifted points g*w^i (with the field's multiplicative generator or the caller's generator) and their inverses undo them exactly. The size, root and inverse constants carried by a polynomial always belong to its domain.",
  ["inputs", "configurations"], "every coefficient/value vector of power-of-two length, every nonzero coset generator, every worker count",
  "Existing tests use round trips incidentally on tiny inputs on one machine's worker count; equality for all inputs needs the orthogonality argument.",
  ["src/polynomials/mod.rs", "src/fft/mod.rs"],
  [("Polynomial::ifft", "src/polynomials/mod.rs"), ("Polynomial::coset_fft", "src/polynomials/mod.rs"), ("Polynomial::icoset_fft", "src/polynomials/mod.rs"), ("distribute_powers", "src/fft/mod.rs")], hook=W)
p("C05", "Low-degree extension equals direct evaluation",
  "For every polynomial of 2^k coefficients, every power-of-two blow-up factor that fits the field and every worker count, each low-degree-extension routine (filtering, multi-coset, naive multi-coset and their coset versions) succeeds and returns at position i the value of the polynomial at w^i (or at g*w^i for the coset versions), w being the generator of the enlarged domain.",
  ["inputs", "configurations", "schedules"], "every polynomial, blow-up factor and worker count",
  "The LDE tests compare one random polynomial at one blow-up factor and only with the worker count of the test machine; the work split depends on the worker count.",
  ["src/polynomials/mod.rs", "src/fft/lde.rs"],
  [("Polynomial::lde_using_multiple_cosets", "src/polynomials/mod.rs"), ("Polynomial::filtering_lde", "src/polynomials/mod.rs"), ("serial_lde", "src/fft/lde.rs"), ("parallel_lde", "src/fft/lde.rs")], hook=W)
p("C06", "Polynomial arithmetic is the stated pointwise operation",
  "Adding, scaled adding, subtracting, multiplying, negating, scaling, adding a constant, squaring and raising to a power change each coefficient or value of a polynomial to exactly the result of that field operation, leave every other position and the domain data unchanged, and do so for every length and worker count. Evaluating a polynomial at a point, or a coefficient slice at consecutive powers, returns exactly the sum of coefficient times power.",
  ["inputs", "configurations", "schedules"], "every pair of operands of admissible sizes, every scalar, exponent and worker count",
  "No unit test exercises these operations directly; chunk boundaries depend on length and worker count.",
  ["src/polynomials/mod.rs", "src/utils/poly.rs"],
  [("Polynomial::{add,sub,mul}_assign", "src/polynomials/mod.rs"), ("Polynomial::evaluate_at", "src/polynomials/mod.rs"), ("mul_add_polynomials", "src/utils/poly.rs"), ("evaluate_at_consequitive_powers", "src/utils/poly.rs")], hook=W)
p("C07", "Batch inversion inverts every value or reports failure",
  "Batch inversion of a value vector succeeds exactly when no value is zero, and then replaces every value by its field inverse. When some value is zero it returns an error and leaves all values as they were. This holds for every length and worker count.",
  ["inputs", "configurations"], "every value vector (including ones containing zeros) and worker count",
  "The test inverts 1..=n for powers of two up to 128 with the machine's worker count; zeros, and chunk splits with a shorter last chunk, are not covered.",
  ["src/polynomials/mod.rs"], [("Polynomial::batch_inversion", "src/polynomials/mod.rs")], hook=W)
p("C08", "Interpolation and vanishing polynomials are exact",
  "Interpolating any two or more points with distinct abscissas returns exactly as many coefficients as points, and the polynomial takes every prescribed value. Building a polynomial from a nonempty list of roots returns the monic product of (X - root) over all of them, with multiplicity, for every worker count.",
  ["inputs", "configurations"], "every point list with distinct abscissas, every nonempty root list, every worker count",
  "Neither routine has a direct test with more than a few points, and the root products are merged per worker chunk.",
  ["src/utils/poly.rs", "src/polynomials/mod.rs"], [("interpolate", "src/utils/poly.rs"), ("Polynomial::from_roots", "src/polynomials/mod.rs")], hook=W)
p("C09", "Construction, padding and trimming preserve the polynomial",
  "Building a polynomial from coefficients or values keeps them in order, pads with zeros to the next power of two and attaches that domain's constants, or fails when no such domain exists. Padding by a factor or to a size accepts exactly the admissible power-of-two sizes, keeps existing entries, appends zeros and updates the domain constants; a refusal leaves the polynomial as it was. Trimming to a degree zeroes exactly the entries above that degree and keeps the size.",
  ["inputs"], "every coefficient vector, factor, target size and degree",
  "Padding and trimming are only used inside longer tests with fixed sizes.",
  ["src/polynomials/mod.rs"], [("Polynomial::from_coeffs/from_values", "src/polynomials/mod.rs"), ("Polynomial::pad_by_factor/pad_to_size", "src/polynomials/mod.rs"), ("Polynomial::trim_to_degree", "src/polynomials/mod.rs")])
p("C10", "Merkle oracle: complete and binding",
  "For every power-of-two number (at least two) of leaves, every worker count and every index, the query produced for that index carries that index, the committed leaf value and a path of log2(size) digests, and it verifies against the root. For a given root and index, a path of that length for any other leaf value can only verify if it exhibits a collision of the hash function or of the leaf encoding; out-of-range queries are refused.",
  ["inputs", "configurations"], "every leaf vector of power-of-two size, every index, every worker count, every alternative value and path",
  "The test checks 64 leaves once and only the honest path; no test shows that a wrong value, index or path is rejected.",
  ["src/iop/blake2s_trivial_iop.rs"],
  [("Blake2sIopTree::create", "src/iop/blake2s_trivial_iop.rs"), ("Blake2sIopTree::get_path", "src/iop/blake2s_trivial_iop.rs"), ("Blake2sIopTree::verify", "src/iop/blake2s_trivial_iop.rs"), ("TrivialBlake2sIOP::query/verify_query", "src/iop/blake2s_trivial_iop.rs")])
p("C11", "Digest-to-field conversion is total and canonical",
  "For every field whose elements fit in fewer than 256 bits and every 32-byte digest, converting a Merkle root or transcript output to a field challenge succeeds, keeps only the low CAPACITY bits of the digest read big-endian into the element's limbs, and never panics. Leaf encoding is injective.",
  ["inputs", "configurations"], "every digest value and every supported prime field (number of limbs, spare bits)",
  "Tests use two fields; limb-boundary capacities are never exercised.",
  ["src/iop/blake2s_trivial_iop.rs", "src/transcript/mod.rs"], [("Blake2sLeafEncoder::interpret_hash", "src/iop/blake2s_trivial_iop.rs"), ("Blake2sTranscript::get_challenge", "src/transcript/mod.rs")])
p("C12", "Transcript is a deterministic function of everything absorbed",
  "At every point of every history of absorptions and challenges, a challenge is a function of the ordered concatenation of all bytes absorbed so far (raw bytes, fixed-width big-endian field elements, and every challenge previously output). Drawing a challenge is itself absorbed, so consecutive challenges come from different states; a clone behaves independently and identically.",
  ["histories"], "every sequence of commit_bytes / commit_field_element / get_challenge_bytes / get_challenge calls",
  "No test checks the transcript in isolation; a forgotten or reordered absorption silently weakens Fiat-Shamir and passes every honest-prover test.",
  ["src/transcript/mod.rs"], [("Blake2sTranscript", "src/transcript/mod.rs")])
p("C13", "Constraint algebra denotes polynomial expressions",
  "Building constraints and terms with the public operators (conversion from a register, addition and subtraction of terms and scalars, multiplication by a scalar or a term, powers, step differences) yields an object whose value on every assignment of field values to (register, step) pairs is the corresponding combination of the operand values, as long as degrees fit 64 bits. A constraint's recorded degree stays the maximum of the degrees of its terms, and a polynomial term's recorded degree the sum of the powers of its factors.",
  ["programs", "inputs"], "every expression tree over the public operators, every assignment of register values",
  "No test evaluates a constraint built by the operators on arbitrary assignments.",
  ["src/air/constraint.rs"], [("Add/Sub/AddAssign/SubAssign for Constraint", "src/air/constraint.rs")])
p("C14", "Satisfaction check is exact",
  "The satisfaction check accepts a witness exactly when the witness has one full-length column per register, every boundary constraint holds at its row, and every constraint holds at every step its density covers.",
  ["inputs", "programs"], "every constraint system, density and witness",
  "Tests check one satisfied Fibonacci trace and a few broken ones; not every row/density/boundary combination.",
  ["src/arp/per_register/mod.rs", "src/arp/density_query.rs", "src/arp/mappings.rs"], [("is_satisfied", "src/arp/per_register/mod.rs"), ("DenseConstraintQuery", "src/arp/density_query.rs")])
p("C15", "Witness interpolation reproduces the trace",
  "For every number of trace rows, the witness polynomials take the trace value of each register at each power of the column domain's generator, with rows beyond the trace padded so that the result is one polynomial per register on a common power-of-two domain.",
  ["inputs", "configurations"], "every row count, register count and witness",
  "Tests only use traces whose row count is a power of two.",
  ["src/arp/per_register/mod.rs"], [("calculate_witness_polys", "src/arp/per_register/mod.rs")])
p("C16", "FRI folding halves the degree identically in every form",
  "For every polynomial, blow-up factor, final size and challenge sequence, each FRI layer built from values equals the evaluation on the squared domain of the polynomial even(X) + challenge*odd(X) built from coefficients. The values-based and coefficient-based provers, given the values of the same polynomial, produce the same commitments, challenges, layers, roots and final coefficients, for every worker count.",
  ["inputs", "configurations"], "every low-degree polynomial, blow-up factor, number of output coefficients, worker count",
  "One test folds a 4-coefficient polynomial; agreement for all inputs is an algebraic identity tests cannot settle.",
  ["src/fri/fri_on_values.rs", "src/fri/mod.rs", "src/fri/query_producer.rs"], [("proof_from_lde_by_values", "src/fri/fri_on_values.rs"), ("proof_from_lde_through_coefficients", "src/fri/mod.rs")], hook=W)
p("C17", "FRI verification accepts honest proofs and checks every link",
  "A FRI proof produced by the prover for a polynomial of the claimed degree verifies for every query index the verifier admits, for every blow-up factor and number of output coefficients. Verification returns true only if every supplied query has the expected index and a valid Merkle path under its round's root, the first-round value equals the value expected from the oracle, each round's value equals the fold of the previous round's pair under that round's challenge, the numbers of rounds and of final coefficients fit the claimed degree, and the last round agrees with the final coefficients.",
  ["inputs", "histories"], "every proof object, query index and expected value; every polynomial, blow-up factor and number of output coefficients",
  "The tests verify honest proofs for two parameter sets; no test tampers with a proof and larger final polynomials are not verified.",
  ["src/fri/verifier.rs", "src/fri/query_producer.rs"], [("verify_proof_queries", "src/fri/verifier.rs"), ("verify_prototype", "src/fri/verifier.rs"), ("produce_proof", "src/fri/query_producer.rs")])
p("C18", "Work splitting covers every element exactly once",
  "For every number of elements and every number of workers, splitting work yields a positive chunk size, the consecutive chunks cover every element exactly once, and the reported number of tasks equals the number of chunks. The logarithm helpers return the floor of the base-2 logarithm for every admissible positive integer.",
  ["inputs", "configurations"], "every element count, every worker count, every integer below 2^63 for the logarithm",
  "Tests run only with the worker count of the machine and log2_floor is checked on ten values.",
  ["src/fft/multicore.rs", "src/utils/mod.rs"], [("Worker::get_chunk_size/get_num_spawned_threads", "src/fft/multicore.rs"), ("log2_floor", "src/utils/mod.rs")], hook=W)
p("C19", "Query index derivation stays in range and uses the digest",
  "Deriving a query index from challenge bytes takes the last eight bytes as a big-endian integer modulo the LDE domain size, steps to the next index when that is a multiple of the blow-up factor and again when it is even (wrapping around). For every challenge of at least eight bytes the result is below the domain size, it depends on nothing else, and on every even domain it is odd, so the queried point never lies on the unextended domain.",
  ["inputs"], "every challenge byte string, every power-of-two LDE domain size",
  "Only honest end-to-end runs exercise it.",
  ["src/verifier/mod.rs", "src/prover/mod.rs"], [("bytes_to_challenge_index", "src/verifier/mod.rs")])
p("C20", "Quadratic extension arithmetic is the field Fp[u]/(u^2-3)",
  "Addition, subtraction, negation, doubling, multiplication, sparse multiplication, squaring and the norm on the quadratic extension used by the square-root experiment agree with polynomial arithmetic modulo u^2-3 (3 is a quadratic non-residue of the base field) for every pair of elements. Inversion fails exactly on zero and otherwise returns the element whose product with the input is one.",
  ["inputs"], "every pair of extension elements",
  "One benchmark-style test uses it on random inputs and does not pass reliably.",
  ["src/experiments/square_root_calculator/fp2.rs"], [("Fq2 Field impl", "src/experiments/square_root_calculator/fp2.rs")], hook=W)
p("C21", "VDF traces follow the recurrence",
  "For every starting value and number of operations the trace written by a VDF experiment is the sequence of iterated squares (cubes) of the start, it satisfies the constraint system returned with it, that system's boundary constraints fix the start and the claimed output, and every trace satisfying the system has exactly those values in the two state registers.",
  ["inputs"], "every starting value and number of operations",
  "Tests use one input and one step count.",
  ["src/experiments/vdf.rs", "src/experiments/cubic_vdf.rs"], [("VDF::into_arp", "src/experiments/vdf.rs"), ("CubicVDF::into_arp", "src/experiments/cubic_vdf.rs")], hook="cfg(hodor_verif) re-exports of the crate-private experiments")
p("C22", "Precomputed root tables contain the stated powers",
  "For every domain and worker count, the precomputed tables contain w^i for every i below the domain size, g*w^i for the multiplicative generator g, and w^(-i) for every i below half of the domain size, and have exactly those lengths.",
  ["inputs", "configurations"], "every domain (size at least 2) and worker count",
  "No direct test.",
  ["src/precomputations/mod.rs"], [("PrecomputedOmegas::new_for_domain", "src/precomputations/mod.rs")], hook=W)
p("C23", "Trace description to ARP remapping preserves meaning",
  "Translating a traced constraint system into a register system keeps every constraint's polynomial, density and degree, every register's identity, every boundary constraint and every row's value, for every number of program counter, working, auxiliary and constant registers. Turning that system into one over witness polynomials replaces every reference to a later step by a mask such that, for every row, the masked constraint evaluated on the witness polynomials at the row's power of the domain generator is the original constraint on that row.",
  ["programs", "inputs"], "every traced system",
  "Only one traced program (Fibonacci) is used.",
  ["src/arp/mod.rs", "src/arp/per_register/mod.rs", "src/arp/mappings.rs"], [("TestTraceSystem::into_arp", "src/arp/mod.rs"), ("ARPInstance::from_instance/route", "src/arp/per_register/mod.rs"), ("remap_univariate_term", "src/arp/mappings.rs")], hook=W)
p("C24", "Honest proofs verify end to end",
  "For every satisfiable constraint system and satisfying witness admitted by the API, the prover's proof is accepted by the verifier built from the same parameters.",
  ["programs", "inputs", "configurations"], "every satisfiable instance and parameter choice",
  "Three instances are run end to end.",
  ["src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/mod.rs", "src/ali/per_register/deep.rs"], [("Prover::prove", "src/prover/mod.rs"), ("Verifier::verify", "src/verifier/mod.rs")], hook=W)
p("C25", "The verifier accepts exactly the proofs that satisfy its equations, and never panics",
  "For every instance and every proof object, however malformed, verification terminates without a panic, and answers that the proof is valid exactly when: the numbers of roots, queries and masked evaluations are those of the instance; the roots entering the transcript are the roots the two FRI proofs are about; the FRI proofs claim the degrees and the blow-up factor of the instance; every witness and composition opening is at the index drawn from the transcript, with a path of full length under its root; and the values of H1 and H2 computed from the openings, the claimed evaluations and the drawn challenges, by the formulas of the protocol, are the ones the two FRI proofs prove at that index.",
  ["inputs", "configurations"], "every instance and every proof value, including wrong lengths, indices, paths, degrees and factors",
  "No test gives the verifier a malformed proof; three honest proofs are checked.",
  ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/iop/blake2s_trivial_iop.rs", "src/ali/per_register/mod.rs"], [("Verifier::verify", "src/verifier/mod.rs"), ("Verifier::new", "src/verifier/mod.rs"), ("verify_proof_queries", "src/fri/verifier.rs")], hook=W)
p("C26", "The composition polynomial is the one the protocol defines",
  "For every instance and every tuple of witness polynomials, building the prover's instance succeeds exactly when the domains exist in the field and no denominator vanishes on the coset it works on, and the polynomial G then returned has as many coefficients as the constraint domain (next power of two of the largest degree, at least one, times the trace domain) and equals, at every point of the coset, the sum over all groups of constraints with the same density of (sum of constraint value times degree adjustment with two fresh challenges) divided by the product over the rows the group covers, plus the same for every boundary constraint (of degree one). The challenges are drawn from the transcript in that order, two per constraint, and none besides.",
  ["programs", "inputs", "configurations"], "every instance (also without constraints, with several boundary constraints, with constant constraints), every witness polynomial, every transcript state and worker count",
  "Tests compute the polynomial for one or two constraints over four rows and compare it with nothing; several constraints per group, several groups and several boundary constraints never occur together.",
  ["src/ali/per_register/mod.rs", "src/ali/mod.rs"], [("ALIInstance::from_arp", "src/ali/per_register/mod.rs"), ("ALIInstance::calculate_g", "src/ali/per_register/mod.rs")], hook=W)
p("C27", "The DEEP quotients are the ones the protocol defines",
  "For every instance, committed witness extensions and composition extension, the DEEP step draws the out-of-domain point and one challenge per masked register from the transcript (and nothing else); it fails exactly when the point, or its product with a mask, lies in the domain it divides over; otherwise the returned claimed evaluations are the witness polynomials at the masked points in the order of the masks and the composition polynomial at the point, and at every point x of the extended domains H1(x) is the sum over the masks of challenge * (f(x) - f(z*w^s)) / (x - z*w^s) and H2(x) is (g(x) - g(z)) / (x - z).",
  ["inputs", "configurations"], "every instance, all values of the committed extensions, every transcript state and worker count",
  "The tests run it on the Fibonacci instance only and compare the result with nothing.",
  ["src/ali/per_register/deep.rs"], [("ALIInstance::calculate_deep", "src/ali/per_register/deep.rs")], hook=W)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
