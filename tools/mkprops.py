#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                  **({"observe_at": observe} if observe else {}), "hook_needed": None}})
B="src/ami_base.hpp"; K="src/ami_base_construct.cpp"; E="src/ami_base_evaluate.cpp"; O="src/ami_base_optimize.cpp"
T="src/ami_base_terms.cpp"; TE="src/ami_base_terms_evaluate.cpp"; TO="src/ami_base_terms_optimize.cpp"

prop("C01","Array-form result equals the exact Matsubara sum",
 "Constructing the S/P/R arrays for a product of Green's functions and evaluating them yields, in exact arithmetic, the value of the nested Matsubara sum of that product (the sum over all internal frequencies at inverse temperature beta, for fermionic internal lines), times the overall prefactor. This holds for simple poles and for poles of any multiplicity, for a fermionic and for a bosonic external line, and for any number of external frequencies.",
 ["inputs"],"every integrand (number of lines, frequency and energy coefficients), every set of non-degenerate energies, external frequencies, beta and prefactor",
 "The only end-to-end numeric test evaluates one fourth-order integrand at one parameter point against a stored number.",
 [K,E],[("construct",K),("update_gprod_general",K),("evaluate/star/cross/dot/fermi",E)],["return value of evaluate on the arrays written by construct"])
prop("C02","Term-form result equals the exact Matsubara sum",
 "Constructing the list of terms for a product of Green's functions and evaluating it yields, in exact arithmetic, the value of the nested Matsubara sum of that product times the prefactor, and therefore the same value as the array form. Each term on its own contributes its sign times the product of its Green's functions times the product of its Fermi/Bose factors.",
 ["inputs"],"every integrand, every set of non-degenerate energies, external frequencies, beta and prefactor",
 "One test compares term form and array form at one point of one integrand with tolerance 1e-8.",
 [T,TE],[("construct (terms)",T),("integrate_step/terms_general_residue/take_term_derivative",T),("evaluate_term/eval_fprod",TE)],["return value of evaluate on the terms written by construct"])
prop("C03","Factorized array evaluation equals the plain evaluation",
 "For arrays produced by construction, evaluating through the factorized form of the final Green's-function products returns, in exact arithmetic, exactly the value of the plain array evaluation with the same parameters, including the overall prefactor. If the factorized tables are empty the plain evaluation is used.",
 ["inputs"],"every integrand, every energies/frequencies/beta and every prefactor, not only 1",
 "The optimized results are computed in a test but never compared with anything.",
 [O,E],[("factorize_Rn/reduce_rref",O),("optimized_star",E)],["return value of the eight-argument evaluate"])
prop("C04","Factorized term evaluation equals the plain evaluation",
 "For terms produced by construction, evaluating through the factorized form returns, in exact arithmetic, exactly the value of the plain term evaluation with the same parameters, including the overall prefactor. If the factorized tables are empty the plain evaluation is used.",
 ["inputs"],"every integrand, every energies/frequencies/beta and every prefactor, not only 1",
 "The optimized term result is computed in a test but never compared with anything.",
 [TO,TE,O],[("factorize_terms",TO),("evaluate (terms, unique_g, Rref, Eval_list)",TE)],["return value of the six-argument evaluate"])
prop("C05","Results are linear in the overall prefactor",
 "For every way of evaluating a result (array, factorized array, terms, factorized terms, single term, on-the-fly), multiplying the external prefactor by c multiplies the returned value by c, and a prefactor of zero returns zero. With no integrations the value is the prefactor times the plain product of Green's functions.",
 ["inputs"],"every prefactor (zero and negative included) and every evaluator, integrand and parameter point",
 "Every test leaves the prefactor at its default of 1.",
 [E,TE],[("eval_gprod",E),("optimized_star",E),("evaluate",TE)],["return value of each evaluate overload, evaluate_term, evaluate_otf"])
prop("C06","Pole search is complete, distinct and correctly counted",
 "Searching a product of Green's functions for poles in one frequency returns each distinct pole exactly once, with the location that makes the denominators of all its Green's functions vanish identically, its multiplicity equal to the number of those Green's functions and their positions listed in order. Every Green's function that depends on the frequency belongs to exactly one returned pole, except that zero-energy poles located at an odd number of frequencies are left out when dropping Matsubara poles is enabled; an index outside the frequency list returns no pole.",
 ["inputs"],"every product, every coefficient assignment with frequency coefficients 0 and +-1, every frequency index, both settings of the drop switch",
 "Tests count the poles of one integrand with all lines distinct; multiplicities, locations, sign-flipped lines and the drop rule are never looked at.",
 [K],[("find_poles",K),("pole_equiv",K)],["returned list of poles"])
prop("C07","One summation step is the exact residue sum",
 "Summing one internal frequency of an arbitrary product of Green's functions yields signs, poles and residual products whose combined value is the exact residue sum over that frequency: simple poles and poles of any multiplicity, including derivatives of the Fermi/Bose factor, in both the array and the term form. Lines that do not depend on the frequency pass through unchanged, and the factors of a term from earlier summations are kept.",
 ["inputs","histories"],"every intermediate product that can arise (arbitrary coefficients), so by induction any number of summation steps",
 "Derivative tests only count output entries for a first derivative of two integrands; no test checks the sign, factorials or higher multiplicity.",
 [K,T],[("simple_residue/get_simple_sign",K),("evaluate_general_residue/get_starting_sign/reduce_gprod/take_derivative_gprod/update_G_pole",K),("integrate_step/terms_general_residue/take_term_derivative",T)],["arrays after update_gprod_general, terms after integrate_step"])
prop("C08","Fermi/Bose derivatives of every order are exact",
 "The statistical function returns, in exact arithmetic, the m-th derivative with respect to energy of 1/(sigma*exp(beta*E)+1) for every order m, both statistics, every beta and every real or complex energy. Its combinatorial ingredients (factorial, binomial and derivative coefficients) are exact integers.",
 ["inputs"],"every derivative order (within the integer range), every beta, energy and statistics",
 "Tests compare orders 0, 1, 2 and 5 at one energy and beta = 1, where powers of beta are invisible.",
 [E,K],[("fermi_bose",E),("frk/binomialCoeff",E),("factorial",K)],["return value of fermi_bose, frk, binomialCoeff, factorial"])
prop("C09","Pole statistics follow the parity of fermionic frequencies",
 "The statistical factor of a pole is the Fermi function when the pole sits at an even number of fermionic frequencies and the (sign-reversed) Bose function when it is odd, evaluated at the pole energy with the pole's number of derivatives. The external frequency counts as fermionic for the fermionic graph types and as bosonic for the particle-hole, particle-particle and force graph types.",
 ["inputs","configurations"],"every pole (frequency and energy coefficients, derivative order), every graph type whose integration lines are all fermionic, every energies and beta",
 "No test calls the pole evaluation directly and every end-to-end test uses the default graph type.",
 [E],[("fermi_pole",E),("get_energy_from_pole",E)],["return value of fermi_pole"])
prop("C10","Regulator and drop switches act exactly as documented",
 "The energy regulator moves the energy of a statistical factor away from zero by exactly its value (in the direction of the energy's sign, upward at zero) and has no effect when it is zero; it does not enter the Green's functions. Dropping derivatives zeroes exactly the factors that carry a derivative; dropping bosonic divergences zeroes exactly the Bose factors at zero energy; with both off nothing is dropped.",
 ["inputs","configurations"],"every pole, regulator value, energy (including exactly zero) and switch setting",
 "No test sets the regulator or any switch.",
 [E,B],[("fermi_pole",E),("eval_gprod",E)],["return value of fermi_pole and of the evaluators"],
 [("drop_der / drop_bosonic_diverge / drop_matsubara_poles","behaviour switches",B)])
prop("C11","Results do not depend on history and inputs stay intact",
 "Construction, factorization and evaluation give the same outcome whether the object and the output containers are fresh or have been used before for a different problem. They do not modify their inputs: the integrand, the parameters, the external variables and, during evaluation, the constructed tables.",
 ["histories"],"every earlier use of the same object and containers, every prior content of the output containers",
 "Tests use fresh objects and containers and never look at inputs afterwards.",
 [K,T,O,E,TE],[("construct clears its outputs",K),("construct (terms) clears its output",T),("factorize_Rn clears its outputs",O),("overflow flag reset",E)],["outputs and inputs after repeated calls"])
prop("C12","On-the-fly evaluation is exact at degenerate energies",
 "On-the-fly evaluation equals the plain evaluation whenever no energies coincide. When numerically equal energies make the constructed expression singular, it returns the finite value that construction with those energies identified symbolically would give, and it leaves the caller's arrays unchanged.",
 ["inputs"],"every integrand and every pattern of coinciding energy values, including coincidences that only appear at intermediate summation steps or between lines of opposite orientation",
 "No test calls the on-the-fly evaluation.",
 [E],[("evaluate_otf/detect_otf_trigger",E),("get_triggers/find_equal_values",E)],["return value of evaluate_otf"])
prop("C13","Comparison predicates are exact",
 "Comparing two poles or two Green's functions reports equality exactly when all energy and frequency coefficients and their counts agree. The sign-aware comparison reports equivalence exactly when one Green's function is plus or minus the other for the same species, and returns that sign; comparing two factorized products reports equality exactly when they contain the same factors with the same repetitions in any order, with the two sign products.",
 ["inputs"],"every pair of poles, Green's functions (any coefficients and lengths) and factor lists",
 "Five tests compare hand-picked pairs; sign, species and order are never tested.",
 [K,O],[("pole_equiv/g_equiv",K),("g_struct_equiv/pair_v_equiv",O)],["returned flag and sign"])
prop("C14","Factorization is faithful and non-redundant",
 "Factorizing a list of products yields a list of unique Green's functions no two of which are equal up to sign, and a list of unique products no two of which contain the same factors. Every original product is represented exactly once, by a unique product made of the same Green's functions up to the recorded overall sign.",
 ["inputs"],"every list of products of Green's functions, repeated and sign-flipped factors and reordered products included",
 "The factorized tables are never inspected by a test.",
 [O,TO],[("factorize_Rn/reduce_rref/pair_v_equiv/g_struct_equiv",O),("factorize_terms/convert_terms_to_ri",TO)],["unique_g, Rref, Eval_list"])
prop("C15","Frequency derivative of a factorized result is exact",
 "Differentiating a factorized expression replaces it by the factorized form of its exact derivative with respect to the external (last) frequency, for products with any number of factors, repeated factors and any sign of the external frequency. Products that do not depend on that frequency disappear.",
 ["inputs"],"every factorized expression, energies and frequencies",
 "No test calls it.",
 [O],[("derivative_opt",O)],["value of the factorized evaluation before and after"])
prop("C16","Large contributions always raise the overflow flag",
 "Whenever the real or imaginary part of any contribution summed in an evaluation exceeds the precision cutoff, the overflow flag is set after that evaluation. Each full evaluation (array, factorized array, terms, factorized terms, on-the-fly) starts from a cleared flag, so a flag from an earlier evaluation never survives it.",
 ["inputs","histories"],"every set of contributions and every flag history, every cutoff",
 "No test reads the flag.",
 [E,TE],[("star/optimized_star/fermi_bose set the flag",E),("evaluate_term",TE)],["overflow_detected after evaluate"],
 [("overflow_detected","numerical overflow seen in the last evaluation",B)])
prop("C17","Constructed tables are structurally coherent",
 "After construction there is one S and P layer and one additional R layer per summation, each with one group per product of the previous R layer, S and P groups of equal size, and one product in the next layer per S/P entry in the same order. After a summation no product in later layers depends on that frequency, every recorded pole names it, and the species label of each surviving Green's function is the one it was given.",
 ["inputs"],"every integrand and number of summations",
 "Tests only compare the number of final products with the number of terms for one integrand.",
 [K,T],[("update_gprod_general",K),("update_G_pole",K),("integrate_step",T)],["R, P and S arrays, terms"])
prop("C18","Result is invariant under reordering and relabelling",
 "Permuting the Green's functions of an integrand, flipping the overall sign of a Green's function's coefficients together with the prefactor's sign, or permuting which internal frequency is summed first leaves the evaluated result unchanged in exact arithmetic. The same holds for relabelling the list of energies consistently.",
 ["inputs"],"every integrand, permutation and parameter point",
 "Every test uses one fixed ordering.",
 [K,E,T,TE],[("construct/evaluate",K)],["return value of evaluate"])
prop("C19","Complex energies and frequencies are handled exactly",
 "Green's-function products, pole energies and full results are the exact complex-valued expressions of complex energies and frequencies, real and imaginary parts both. For real energies, conjugating all external frequencies conjugates the result.",
 ["inputs"],"every complex value of energies, frequencies",
 "Tests use real energies, and two stored digits strings for one imaginary frequency.",
 [E,TE],[("eval_gprod/get_energy_from_pole/get_energy_from_g",E),("star/dot/cross",E)],["return values"])
prop("C20","No invalid memory access, uninitialised read or crash",
 "For every well-formed input (coefficient lists of consistent length, at least as many independent lines as summations) construction, factorization, differentiation and all evaluators finish without out-of-range access, use of indeterminate values, integer division by zero or an exception. A pole search with an index beyond the frequency list is refused with an empty result.",
 ["inputs"],"every well-formed integrand, including integrands where a summation finds no pole at all",
 "Tests exercise a handful of integrands without any checker.",
 [K,E,O,T,TE],[("loop bounds, empty-layer guards in evaluate",E),("find_poles index guard",K)],["absence of faults"])
prop("C21","Multiprecision build computes the same function",
 "The library built with multiprecision support returns, in exact arithmetic, the same values as the default build for term, factorized-term and factorized-array evaluation, and applies the same overflow rule.",
 ["configurations","inputs"],"every integrand and parameter point, both build configurations",
 "The multiprecision build is compiled but no test runs it.",
 [E,TE],[("eval_gprod_mp/evaluate_term_mp/optimized_star under BOOST_MP",E)],["return values in both builds"])
prop("C22","Python module gives the same results as the C++ library",
 "Constructing, factorizing and evaluating through the Python module gives the same tables and values as the C++ calls with the same arguments, and containers filled by a call are visible to the caller.",
 ["inputs"],"every call sequence through the module",
 "No test imports the module.",
 ["pyami_src/pyami_wrapper.cpp"],[("pybind11 bindings","pyami_src/pyami_wrapper.cpp")],["values seen from Python"])
prop("C23","Statistical functions saturate instead of failing",
 "In IEEE double arithmetic the Fermi function and its derivatives return finite values for every finite real energy and every positive inverse temperature whose power occurring in the derivative is representable, however large beta*|E| is: tending to 0 or 1 for the function and to 0 for the derivatives. The Bose function does the same for every energy whose exponential differs clearly from one. The same holds for the statistical factor of a pole.",
 ["inputs"],"every magnitude of beta*E, overflow and underflow of the exponential included",
 "Tests use beta*E = 2 only.",
 [E],[("fermi_bose",E),("fermi_pole",E)],["return value of fermi_bose and fermi_pole"])
prop("C24","Array-algebra operators combine factors position by position",
 "The elementwise product of signs and statistical factors keeps shape and multiplies matching entries; the cross product expands each left entry with exactly its own right group in order; the final contraction sums each factor times the value of its own Green's-function product. None of them drops, duplicates or reorders an entry, for any group sizes including empty ones.",
 ["inputs"],"every shape (group counts and sizes) and all entries",
 "Only exercised through one end-to-end number.",
 [E],[("dot/cross/star/fermi",E)],["returned arrays and sum"])
prop("C25","Summing step by step equals the one-call construction",
 "Summing the internal frequencies one at a time through the single-step functions (array form and term form) gives the nested sum taken in the order in which the frequencies were summed, for every order of frequency indices: each step appends one layer and leaves the earlier layers as they were. In index order the result is identical to the one-call construction; a construction stopped after fewer summations gives the partial sum and can be continued. When the sums converge absolutely every order gives the same value.",
 ["inputs","histories"],"every integrand, every order of summation, every stopping point, all energies/frequencies/beta and prefactors",
 "No test sums out of order or continues a partial construction.",
 [K,T],[("update_gprod_general (int_index/array_index)",K),("integrate_step",T)],["arrays and terms after each step, value of their evaluation"])
prop("C26","Diagnostic and reserved settings do not change results",
 "Verbose output and the settings kept for bookkeeping or future releases (interaction and dispersion labels, declared type of the external frequency, zero-external marker, number of external variables, spectral width, species labels of lines) never change a constructed table, a returned value or the overflow flag of any construction, plain, factorized or on-the-fly evaluation; species labels only travel with their lines and keep lines of different species from being merged in factorization.",
 ["inputs","configurations"],"every value of those settings together with every integrand and parameter point",
 "Tests run with default settings only.",
 [B,K,E,O,T,TE],[("verbose branches",E),("verbose branches (terms)",TE),("ami_parms/ami_vars",B)],["tables, values and flag of two runs that differ only in those settings"])
prop("C27","Splitting, converting and building objects keep every part",
 "Splitting a term with respect to a pole's frequency puts every line and every factor unchanged and in order into exactly one of the two parts (those without the frequency into the inert part, which keeps the sign; the active part has sign one) and leaves the term as it was. Collecting the products of a list of terms keeps them in order, replacing earlier contents. The simple-pole step agrees with the general step whenever every pole is simple. Constructors store exactly their arguments and the documented defaults.",
 ["inputs"],"every term, list of terms, product with simple poles, and every argument value",
 "split_term and update_gprod_simple are not called by any test; constructors are only used in passing.",
 [T,TO,K,B],[("split_term",T),("convert_terms_to_ri",TO),("update_gprod_simple/find_signs",K),("constructors",B)],["output arguments and constructed objects"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
