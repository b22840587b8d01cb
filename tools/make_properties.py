"""Writes properties.jsonl (kept as a script so that the texts are readable)."""
import json
import os

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


CI = "cqcpy/ci_utils.py"
CC = "cqcpy/cc_equations.py"

prop("C01", "Determinant strings obey the fermionic excitation algebra",
     "Exciting an occupation string from orbital i to orbital a returns exactly what the operator "
     "a+_a a_i does to the determinant: nothing when it annihilates it, otherwise the new string "
     "with the parity sign of the occupied orbitals passed over, and for i = a the string itself "
     "with sign +1 when it is occupied. The original string is never changed, equality of strings "
     "is equality of their occupations, and the level (diff) of two strings is the number of "
     "orbitals in which they differ.",
     ["histories", "inputs"],
     "For every string length and occupation, every pair (i, a), and every sequence of excitations "
     "applied to the results of earlier ones.",
     "The tests excite a handful of strings once and check one or two signs; the algebra is about "
     "all 2^n strings and all chains of excitations, where a wrong parity only shows for some "
     "relative order of i, a and the occupied orbitals.",
     [CI], [("string excitation with parity", CI + ":Dstring"),
            ("difference count", CI + ":level, diff")],
     ["Dstring.excite", "Dstring.__eq__", "level", "diff"])

prop("C02", "String and basis generators list every excitation exactly once",
     "The generators of single to quadruple excitation strings and of the spin-resolved, "
     "spin-orbital and vibrational CI bases return exactly the set of configurations of the "
     "requested excitation ranks from the reference, with no duplicate and no omission. A basis "
     "that contains the reference has it first, and the singles basis omits it when asked to.",
     ["inputs", "configurations"],
     "For every number of orbitals, electrons (per spin), reference occupation pattern, excitation "
     "order and number of modes, including cases with too few electrons or holes.",
     "The tests compare list lengths or a few strings for one or two sizes, and no test looks at the "
     "quadruples; completeness is a statement about all sizes and occupation patterns.",
     [CI], [("nested generators", CI + ":s_strings..q_strings, s_pstrings, d_pstrings"),
            ("bases", CI + ":ucis_basis..vcisd_basis")],
     ["s_strings", "d_strings", "t_strings", "q_strings", "u*_basis", "g*_basis", "v*_basis"])

prop("C03", "CI matrix elements equal the second-quantized Hamiltonian",
     "The matrix element between any two determinants with equal particle numbers is "
     "<bra|H|ket> of the second-quantized Hamiltonian built from the one- and two-electron integrals "
     "passed in, plus the scalar constant when bra and ket are the same determinant and not "
     "otherwise. This holds for the alpha/beta routine (integrals <pq|rs> per spin block) and for "
     "the spin-orbital routine, for any excitation rank between the determinants.",
     ["inputs", "configurations"],
     "For every pair of determinants of every size and filling, and all integrals <pq|rs> = <qp|sr>, "
     "hermitian or not, real or complex, with every constant.",
     "Tests only compare CI ground-state energies with another code for one small molecule; a sign "
     "error for one relative order of holes and particles, or a wrong constant, is invisible there.",
     [CI], [("Slater-Condon cases", CI + ":ci_matrixel, gci_matrixel")],
     ["ci_matrixel", "gci_matrixel"])

prop("C04", "Operators applied to CI vectors act as their matrices in the basis",
     "Applying a single excitation, two successive excitations (same or opposite spin) or the "
     "Hamiltonian to a CI vector gives, for every basis state, the sum over the vector of the "
     "operator's matrix elements; components that leave the basis are dropped and everything else is "
     "kept with its sign. The vector and basis passed in are left unchanged, so any sequence of such "
     "applications composes like the product of the truncated operators.",
     ["histories", "inputs", "configurations"],
     "For every basis (complete or truncated, in any order), every real or complex vector, all orbital "
     "indices including coinciding ones, and every sequence of operator applications.",
     "Tests apply one operator to one vector for a few indices; signs and dropped components for all "
     "index patterns and repeated application are out of their reach.",
     [CI], [("operator application", CI + ":s_on_vec..sasb_on_vec"),
            ("Hamiltonian application", CI + ":H_on_vec, gH_on_vec")],
     ["s_on_vec", "sa_on_vec", "sb_on_vec", "d_on_vec", "da_on_vec", "db_on_vec", "sasb_on_vec",
      "H_on_vec", "gH_on_vec"])

prop("C05", "CI coefficients made from amplitudes are those of exp(T1+T2)|0>",
     "Converting singles and doubles amplitudes into CI coefficients returns, in the order of the "
     "library's CI basis of the requested order, the coefficients of exp(T1+T2) acting on the "
     "reference determinant, complete through that order. This holds for alpha/beta amplitudes and "
     "for spin-orbital amplitudes, with the reference occupation of the basis given or left out, and "
     "orders outside 1 to 4 are refused with an exception.",
     ["inputs", "configurations"],
     "For every number of occupied and virtual orbitals per spin, every order from 1 to 4, and all "
     "antisymmetric amplitudes, real or complex.",
     "Tests use two-electron or zero-T1 cases at low order; the many product terms (T1^2 T2, T2^2, "
     "mixed spin) with their combinatorial factors only matter together for larger systems.",
     [CI], [("amplitude products", CI + ":makeCfromT, gmakeCfromT")],
     ["makeCfromT", "gmakeCfromT"])

prop("C06", "Spin-block and spin-orbital tensors convert into each other faithfully",
     "Building a spin-orbital tensor from alpha, beta and alpha-beta blocks puts every element at its "
     "spin-orbital position (alpha before beta within occupied and within virtual), makes two-body "
     "amplitudes and integrals antisymmetric with the right sign in all mixed-spin blocks (symmetric "
     "for energy denominators), and puts zero wherever spin is not conserved. Extracting the spin "
     "blocks from a spin-orbital tensor returns exactly the elements at those positions, so a round "
     "trip reproduces the blocks.",
     ["inputs", "configurations"],
     "For all numbers of occupied and virtual orbitals of each spin (equal or not, including zero), "
     "and all real or complex block contents.",
     "Tests check equations that happen to use converted tensors for two or three fixed sizes; most "
     "mixed-spin blocks of the integrals are never looked at and never with complex entries.",
     ["cqcpy/spin_utils.py"],
     [("block placement and transposes", "cqcpy/spin_utils.py:*_to_spin"),
      ("block extraction", "cqcpy/spin_utils.py:*_to_spatial")],
     ["F_to_spin", "F_to_spatial", "T1_to_spin", "T1_to_spatial", "T2_to_spin", "T2_to_spatial",
      "D2_to_spin", "int_to_spin", "int_to_spin2", "int_to_spin_block", "int_to_spatial"])

prop("C07", "Occupied/virtual blocks tile the two-electron tensor",
     "Splitting a four-index tensor into occupied/virtual blocks assigns to each named block exactly "
     "the elements whose four indices are occupied or virtual as its name says, each axis being split "
     "at its own number of occupied orbitals. The full splitting produces all sixteen blocks and the "
     "short one the nine symmetry-unique blocks, and a tensor whose dimensions do not match the given "
     "counts is refused.",
     ["inputs", "configurations"],
     "For all tensors and all (possibly different, possibly zero) occupied and virtual counts per axis.",
     "Tests only use equal splittings of all four axes through other functions, so a block taken from "
     "the wrong axis range goes unnoticed.",
     ["cqcpy/ov_blocks.py"],
     [("block slicing", "cqcpy/ov_blocks.py:make_two_e_blocks, make_two_e_blocks_full"),
      ("containers", "cqcpy/ov_blocks.py:one_e_blocks, two_e_blocks, two_e_blocks_full")],
     ["make_two_e_blocks", "make_two_e_blocks_full", "one_e_blocks", "two_e_blocks"])

prop("C08", "Correlation energies are the expectation value of the dressed Hamiltonian",
     "The coupled-cluster energy functions return <0|exp(-T) H exp(T)|0> - <0|H|0> for the given "
     "amplitudes, Fock and two-electron blocks, in the spin-orbital, unrestricted and restricted "
     "conventions. The pieces are its parts linear in the doubles, linear in the singles and bilinear in "
     "(one or two sets of) singles, and the second-order energies the part linear in all amplitudes.",
     ["inputs", "configurations"],
     "For all orbital counts (per spin), all amplitudes and integrals, real or complex, hermitian or "
     "not.",
     "Tests compare energies of converged or symmetric amplitudes, where a wrong factor or transposed "
     "block can cancel; all amplitudes and non-symmetric blocks are needed.",
     ["cqcpy/cc_energy.py"], [("energy contractions", "cqcpy/cc_energy.py")],
     ["cc_energy", "mp2_energy", "ucc_energy", "ump2_energy", "rcc_energy", "cc_energy_d",
      "cc_energy_s1", "cc_energy_s2", "cc_energy_s2_a"])

prop("C09", "Spin-orbital CC amplitude equations are the projected dressed Hamiltonian",
     "The spin-orbital CCSD functions (plain and intermediate-based) return exactly "
     "<mu| exp(-T) H exp(T) |0> for every single and double excitation mu; the CCD functions do so "
     "with T = T2, and the linearized ones keep the terms linear in T. All of them work for any "
     "amplitudes, any Fock matrix (including occupied-virtual blocks that are not each other's "
     "transpose) and any antisymmetric integrals.",
     ["inputs", "configurations"],
     "For all occupied and virtual counts, amplitudes, Fock matrices and antisymmetric integrals, all "
     "real or all complex, not necessarily hermitian.",
     "The tests compare the two implementations with each other for one random symmetric system, so a "
     "common error, or one that needs F_ov different from F_vo, survives.",
     [CC], [("term-by-term equations", CC + ":_S_S.._D_SSSS"),
            ("intermediates", CC + ":_Stanton, _Stanton_ccd")],
     ["ccsd_simple", "ccsd_stanton", "ccd_simple", "ccd_stanton", "lccsd_simple", "lccd_simple"])

prop("C10", "Unrestricted CCSD equations equal the spin blocks of the spin-orbital ones",
     "The unrestricted CCSD function returns, for every spin block of singles and doubles, "
     "<mu| exp(-T) H exp(T) |0> for the spin-orbital system denoted by the alpha, beta and alpha-beta "
     "tensors. The alpha-beta integrals are an arbitrary four-index tensor: no symmetry between the "
     "two electrons or between bra and ket is used.",
     ["inputs", "configurations"],
     "For all orbital counts per spin (equal or not, including none of one spin), and all amplitudes, "
     "Fock matrices and integrals.",
     "One random system with fixed sizes is compared through a symmetric Fock matrix; terms that vanish "
     "or coincide for those inputs are not distinguished.",
     [CC], [("unrestricted intermediates", CC + ":_u_Stanton")], ["uccsd_stanton"])

prop("C11", "Restricted CCSD equations equal the closed-shell spin-orbital ones",
     "The restricted CCSD function returns the alpha singles and alpha-beta doubles of "
     "<mu| exp(-T) H exp(T) |0> for the closed-shell system in which both spins share the given spatial "
     "amplitudes, Fock matrix and integrals.",
     ["inputs", "configurations"],
     "For all occupied and virtual counts and all pair-symmetric amplitudes and integrals, all real or "
     "all complex, hermitian or not.",
     "Compared only with the unrestricted function for one random symmetric system, which shares much "
     "of its structure and symmetric inputs.",
     [CC], [("restricted intermediates", CC + ":_r_Stanton")], ["rccsd_stanton"])

prop("C12", "Ring and ladder CCD equations are their Riccati equations",
     "The ladder doubles function returns V + (pp) T + T (hh) + T (hp) T over particle and hole pairs, "
     "and the ring function returns V + W T + T W + T K T over particle-hole pairs, with the blocks "
     "taken from the antisymmetric integrals passed in and no further term.",
     ["inputs", "configurations"],
     "For all occupied and virtual counts, antisymmetric integrals and amplitudes, all real or all complex.",
     "No test calls these two functions with a reference to compare to.",
     [CC], [("diagram subsets", CC + ":_D_D_ladder, _D_D_ring, _D_DD_ladder, _D_DD_ring")],
     ["ccd_ladder_simple", "ccd_ring_simple"])

prop("C13", "Spin-orbital Lambda equations are the derivative of the CC Lagrangian",
     "Every spin-orbital Lambda function (plain, optimized, with precomputed intermediates, and "
     "Stanton-Gauss) returns <0|(1 + L) [exp(-T) H exp(T), tau_mu] |0> for each single and double "
     "excitation mu, and the CCD one the doubles part for T1 = L1 = 0. Intermediates computed once for "
     "given amplitudes and integrals serve any number of Lambda iterations.",
     ["inputs", "histories", "configurations"],
     "For all occupied and virtual counts, all T and L amplitudes, Fock matrices and antisymmetric "
     "integrals, all real or all complex, hermitian or not.",
     "Implementations are compared with each other for one random symmetric system; the defining "
     "derivative is never evaluated.",
     [CC], [("term-by-term Lambda", CC + ":_LS_*, _LD_*"),
            ("factorized Lambda", CC + ":_Lambda_opt, _Lambda_opt_int, _Lambda_Stanton, lambda_int")],
     ["ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_opt_int", "ccsd_lambda_stanton",
      "lambda_int", "ccd_lambda_simple"])

prop("C14", "Unrestricted and restricted Lambda equations equal the spin-orbital ones",
     "The unrestricted Lambda function returns every spin block, and the restricted one the alpha "
     "singles and alpha-beta doubles, of <0|(1 + L) [exp(-T) H exp(T), tau_mu] |0> for the spin-orbital "
     "system denoted by their arguments.",
     ["inputs", "configurations"],
     "For all orbital counts per spin (including none of one spin), and all T, L, Fock and two-electron "
     "tensors of the respective symmetry, all real or all complex.",
     "The tests compare one random system with symmetric Fock matrices; hundreds of spin-blocked terms "
     "are only distinguished by general inputs.",
     [CC], [("unrestricted Lambda", CC + ":_uccsd_Lambda_opt"),
            ("restricted Lambda", CC + ":_rccsd_Lambda_opt")],
     ["uccsd_lambda_opt", "rccsd_lambda_opt"])

prop("C15", "Spin-orbital CC density matrices are the normal-ordered expectation values",
     "Every block of the one- and two-particle reduced density matrices, from the plain and from the "
     "optimized functions, equals <0|(t + L) exp(-T) {operators} exp(T)|0> with the operators "
     "normal-ordered relative to the reference, each element separately and antisymmetrized where the "
     "operators are. t is the weight of the reference, 1 by default.",
     ["inputs", "configurations"],
     "For all occupied and virtual counts and all T and L amplitudes, all real or all complex, and any weight t "
     "where it can be given.",
     "Tests compare plain with optimized functions and contract blocks with random tensors to one "
     "number; common errors and errors orthogonal to the contraction survive.",
     [CC], [("density contractions", CC + ":ccsd_1rdm_*, ccsd_2rdm_*")],
     ["ccsd_1rdm_*", "ccsd_2rdm_*"])

prop("C16", "Unrestricted and restricted CC density matrices are spin blocks of the same",
     "Each block returned by the unrestricted density-matrix functions is the corresponding spin block "
     "of <0|(t + L) exp(-T) {operators} exp(T)|0>, and each restricted one the alpha or alpha-beta "
     "block for the closed-shell system, element by element.",
     ["inputs", "configurations"],
     "For all orbital counts per spin (including none of one spin), all T and L of the respective "
     "symmetry, all real or all complex, and any weight t where it can be given.",
     "Tests contract unrestricted blocks to a single number per block type and compare restricted with "
     "unrestricted functions, so compensating or common errors survive.",
     [CC], [("spin-blocked densities", CC + ":uccsd_1rdm_*, uccsd_2rdm_*"),
            ("closed-shell densities", CC + ":rccsd_1rdm_*, rccsd_2rdm_*")],
     ["uccsd_1rdm_*", "uccsd_2rdm_*", "rccsd_1rdm_*", "rccsd_2rdm_*"])

prop("C17", "Molecular integrals are the transformed Coulomb integrals in their notation",
     "Integrals in chemist's notation return (pq|rs) and in physicist's notation <pq|rs> = (pr|qs) for "
     "the orbital coefficient sets in the order they are passed; antisymmetrized variants subtract the "
     "exchange partner of the same four orbitals. Spin-orbital variants return these over the "
     "alpha-then-beta orbitals of each axis with zero wherever the spins do not match, for any four "
     "coefficient sets per spin.",
     ["inputs", "configurations"],
     "For any molecule and basis, any real coefficient matrices (four different ones, different numbers "
     "of columns, alpha different from beta), direct or via a mean-field object of either kind.",
     "Tests transform with one coefficient matrix for all four indices, where permuting the arguments "
     "changes nothing.",
     ["cqcpy/integrals.py"],
     [("integral transformation wrappers", "cqcpy/integrals.py:get_chem..get_phys_antiu"),
      ("mean-field dispatch", "cqcpy/integrals.py:get_physu_all_gen, get_phys_gen")],
     ["get_chem", "get_chem_anti", "get_phys", "get_phys_anti", "get_chemu", "get_chem_antiu",
      "get_phys_antiu", "get_chemu_all", "get_chem_antiu_all", "get_physu_all", "get_phys_antiu_all",
      "get_physu_all_gen", "get_phys_antiu_all_gen", "get_phys_gen"])

prop("C18", "Periodic and k-point integrals conserve momentum and their notation",
     "The periodic counterparts return the same quantities as the molecular ones for the cell's Coulomb "
     "integrals, with complex conjugation of the bra orbitals. With k-points an integral is zero unless "
     "the four momenta are conserved for its notation, exchange partners carry the momenta of their "
     "orbitals, and the full k-point tables hold the transformed core Hamiltonian and, for each "
     "(kp, kq, kr), the integrals with the momentum-conserving fourth k-point in the requested "
     "notation.",
     ["inputs", "configurations"],
     "For any cell, k-point set and quadruple of k-points (conserving or not), any coefficient matrices "
     "including complex and mutually different ones, antisymmetrized or not, both notations.",
     "Tests compare one gamma-point or one k-mesh case with pyscf through symmetric coefficient sets; "
     "non-conserving quadruples and different coefficients per index are not exercised.",
     ["cqcpy/integrals.py"],
     [("gamma-point wrappers", "cqcpy/integrals.py:get_chem_sol..get_physu_all_sol"),
      ("k-point wrappers", "cqcpy/integrals.py:get_chem_solk, get_phys_solk, get_solk_integrals")],
     ["get_chem_sol", "get_phys_sol", "get_chemu_sol", "get_chem_antiu_sol", "get_phys_antiu_sol",
      "get_chemu_all_sol", "get_physu_all_sol", "get_chem_solk", "get_phys_solk",
      "get_solk_integrals"])

prop("C19", "Integral block objects hold exactly the requested spin-orbital blocks",
     "A block object built from a mean-field object stores, for code 0 all nine antisymmetrized "
     "spin-orbital blocks and for codes 1 to 9 exactly the one block of that number, and its flags say "
     "which. Orbitals with a nonzero occupation number (wherever they stand) are the occupied ones and "
     "the others virtual, alpha before beta, for restricted and unrestricted, molecular and periodic "
     "references.",
     ["inputs", "configurations"],
     "For every code, every occupation pattern (including unequal spins, non-aufbau, partial), every "
     "coefficient matrix, molecule or cell.",
     "Tests build all blocks for one closed-shell molecule in aufbau order; codes and occupation "
     "patterns are not enumerated.",
     ["cqcpy/integrals.py"], [("block selection", "cqcpy/integrals.py:eri_blocks")],
     ["eri_blocks"])

prop("C20", "Fermi-Dirac occupations are accurate and complementary everywhere",
     "Occupations equal 1/(1 + exp(beta (e - mu))) and their complements 1 minus that, both to a "
     "relative accuracy of 1e-10 (each with its own small tail resolved) and an absolute one of 1e-14, for "
     "all temperatures and energies with no overflow. The vector functions apply them elementwise for any "
     "number of levels. kT in hartree converts to kelvin with 315775 K per hartree, within a relative 1e-5.",
     ["inputs"],
     "For all inverse temperatures beta > 0, chemical potentials and energies, from the degenerate to "
     "the classical regime and across any internal change of formula.",
     "Tests tabulate twenty points; the formula changes with the size of the argument and those "
     "boundaries and the tails between the tabulated points are not covered.",
     ["cqcpy/ft_utils.py"], [("regimes", "cqcpy/ft_utils.py:fermi_function, vfermi_function, ff, ffv")],
     ["fermi_function", "vfermi_function", "ff", "ffv", "HtoK"])

prop("C21", "Grand potentials are -log(1+exp(-x))/beta with the matching beta-derivative",
     "With x = beta (e - mu), beta times the zeroth-order grand potential of a level equals "
     "-log(1 + exp(-x)) within 1e-13 (1 + |x|), and for x > 20 also within a relative 1e-6; beta^2 times "
     "the derivative function equals log(1 + exp(-x)) + x/(1 + exp(x)) within 1e-13 (1 + |x|), and for "
     "|x| > 20 also within a relative 1e-6. The vector functions apply these elementwise to each set of "
     "levels they are given.",
     ["inputs"],
     "For all beta > 0, mu and energies, in all regimes and across internal changes of formula.",
     "Finite differences at a few points per regime cannot see the boundaries nor the small tails.",
     ["cqcpy/ft_utils.py"],
     [("regimes", "cqcpy/ft_utils.py:grand_potential0, dgrand_potential0, GP0, uGP0, dGP0")],
     ["grand_potential0", "dgrand_potential0", "GP0", "uGP0", "dGP0"])

prop("C22", "Energy denominators and block-diagonal matrices have every element in place",
     "The denominator functions return the sum of the virtual energies minus the sum of the occupied "
     "energies of each index combination, with one index per energy in virtual-first order, for one set "
     "of energies and for separate alpha and beta sets. The block-diagonal function places two matrices "
     "of any shapes on the diagonal and zeros elsewhere.",
     ["inputs", "configurations"],
     "For all numbers of levels (equal or different, zero included), energies, and rectangular matrices, "
     "real or complex.",
     "Only used indirectly with random energies in one shape; a swapped spin or index is symmetric "
     "there.",
     ["cqcpy/utils.py"], [("broadcasted sums", "cqcpy/utils.py:D1, D2, D2u"),
                          ("assembly", "cqcpy/utils.py:block_diag")],
     ["D1", "D2", "D2u", "block_diag"])

prop("C23", "Random tensor factories produce the symmetries they stand for",
     "Every random Fock matrix, integral set, amplitude, Lambda amplitude and denominator has the shape "
     "of its arguments and exactly the permutational symmetry of what it stands for: symmetric Fock "
     "blocks, integrals and doubles antisymmetric in each pair (or only symmetric under exchange of the "
     "two electrons and of bra and ket, where the factory makes plain integrals), consistent across "
     "blocks cut from one tensor. Elements not related by the symmetry are not forced equal or zero.",
     ["inputs", "configurations"],
     "For all orbital counts (per spin and per axis, including zero and unequal), grid sizes and states "
     "of the random generator.",
     "Tests use these factories as inputs and never check them; a lost symmetry weakens or falsifies "
     "every comparison made with them.",
     ["cqcpy/test_utils.py"],
     [("in-place (anti)symmetrization", "cqcpy/test_utils.py:make_random_*")], ["make_random_*"])

prop("C24", "Boson occupation strings follow ladder operators",
     "Raising a mode of a vibrational string adds one quantum to that mode only, lowering removes one or "
     "returns nothing when the mode is empty, and lowering undoes raising. The original string is never "
     "changed and strings are equal exactly when their occupations are.",
     ["histories", "inputs"],
     "For every number of modes, every occupation and every sequence of raise and lower operations on "
     "the results of earlier ones.",
     "One or two strings are raised in the tests; lowering an empty mode and long histories are not.",
     [CI], [("ladder operations", CI + ":Pstring")], ["Pstring.raize", "Pstring.lower"])

prop("C25", "Results never depend on, nor disturb, earlier calls or shared arguments",
     "No function changes any array, block container, string, basis or vector passed to it, and a call "
     "returns the same values whatever calls were made before it, also when calls share argument objects "
     "or the caller overwrites the results of earlier amplitude, Lambda, density, conversion-to-spin or "
     "amplitude-to-spatial calls in place. Precomputed Lambda intermediates are not changed by using them.",
     ["histories", "schedules"],
     "For every sequence of calls to the library's deterministic functions over shared argument objects, "
     "with results overwritten by the caller between calls.",
     "Each test makes a couple of calls on fresh data; aliasing and in-place updates of inputs only show "
     "in longer histories with shared objects.",
     [CC, CI, "cqcpy/cc_energy.py", "cqcpy/spin_utils.py", "cqcpy/utils.py"],
     [("copies before in-place accumulation", CC + ": .copy() of leading terms"),
      ("copies in string operations", CI + ": occ.copy()")],
     ["all public functions"])

prop("C26", "CC iterations from any representation stay on the same trajectory",
     "Iterating amplitude and Lambda updates (new amplitudes made element by element from the old ones and "
     "their residuals) with the spin-orbital, intermediate-based, unrestricted or restricted functions "
     "produces at every step the same amplitudes and energies, related by the spin conversions, when "
     "started from the same closed- or open-shell system. The implementation may be changed at any step, "
     "and the trajectory is that of the dressed Hamiltonian.",
     ["histories", "configurations"],
     "For every system, start amplitudes, number of iterations and choice of implementation at each "
     "step.",
     "Tests compare single evaluations; agreement along whole iteration histories with implementations "
     "mixed step by step and conversions in between is not looked at.",
     [CC, "cqcpy/cc_energy.py", "cqcpy/spin_utils.py"],
     [("equivalent implementations", CC + ": ccsd_*, uccsd_*, rccsd_*"),
      ("conversions", "cqcpy/spin_utils.py")],
     ["ccsd_simple", "ccsd_stanton", "uccsd_stanton", "rccsd_stanton", "*_lambda_*", "*_to_spin",
      "*_to_spatial"])

prop("C27", "Energies, residuals, Lambda and densities derive from one Lagrangian",
     "Weight times energy plus Lambda amplitudes contracted with the amplitude residuals equals the "
     "Hamiltonian contracted with the one- and two-particle density matrices for the same amplitudes and "
     "reference weight. The Lambda residuals are the derivatives of energy plus Lambda times residuals with "
     "respect to the amplitudes. Both hold for spin-orbital (singles and doubles or doubles only), "
     "unrestricted and closed-shell functions, away from solutions too.",
     ["inputs", "configurations"],
     "For all Hamiltonians, amplitudes, Lambda amplitudes, directions of change, reference weights and "
     "numbers of orbitals, real or complex, converged or not.",
     "Tests look at a few of these functions at a time and for one size, mostly by comparing two "
     "implementations with each other; that they all come from one functional is tested nowhere.",
     [CC, "cqcpy/cc_energy.py"],
     [("energies", "cqcpy/cc_energy.py"), ("residuals", CC + ": ccsd_*, uccsd_stanton, rccsd_stanton"),
      ("Lambda residuals", CC + ": *_lambda_*"), ("densities", CC + ": *_1rdm_*, *_2rdm_*")],
     ["cc_energy", "ucc_energy", "rcc_energy", "ccsd_*", "ccd_*", "uccsd_*", "rccsd_*"])

prop("C28", "Renaming, rescaling or mixing orbitals only transforms the results alike",
     "Reordering occupied or virtual orbitals, multiplying an orbital by a sign, phase or power of two, "
     "adding one orbital to another of its kind (with the inverse change of the conjugate indices), or "
     "exchanging the spins in the arguments of energy, residual, Lambda and density functions leaves every "
     "scalar as it was and transforms every returned tensor in the same way as the arguments.",
     ["histories", "inputs"],
     "For every sequence of such changes, every class of orbitals and every system.",
     "Tests use one choice of orbitals; code that treats an index position, a diagonal, a sign or "
     "one spin specially agrees with them.",
     [CC, "cqcpy/cc_energy.py"],
     [("tensor contractions", CC), ("energies", "cqcpy/cc_energy.py")],
     ["cc_energy*", "mp2_energy", "ccsd_*", "ccd_*", "uccsd_*", "rccsd_*"])

prop("C29", "Separate systems described together keep their own results",
     "When systems that do not interact are put into one set of orbitals in any order, energies are the "
     "sums of theirs, amplitude residuals are theirs and zero between them, and Lambda residuals and "
     "density matrices restricted to one of them are its own; one-body quantities between them are zero.",
     ["inputs", "configurations"],
     "For every number of systems (copies of one, one-spin ones), every interleaving of their orbitals and "
     "all amplitudes.",
     "No test has systems composed of parts; terms that are not connected, or that depend on the number of "
     "orbitals, do not show for a single system.",
     [CC, "cqcpy/cc_energy.py"],
     [("connected contractions", CC), ("energies", "cqcpy/cc_energy.py")],
     ["cc_energy*", "mp2_energy", "ccsd_*", "ccd_*", "uccsd_*", "rccsd_*"])

prop("C30", "CI and coupled-cluster functions describe the same state",
     "Multiplying the CI vector made from amplitudes through quadruples by the Hamiltonian gives, for the "
     "reference, singles and doubles, the exponential of the amplitudes applied to reference energy plus "
     "coupled-cluster energy and residuals for the same amplitudes and integrals. The vector vanishing "
     "beyond its energy multiple there is thus the same condition as vanishing residuals.",
     ["inputs", "configurations"],
     "For all integrals, amplitudes and numbers of occupied and virtual orbitals of each spin, in the "
     "spin-resolved and in the general-spin basis.",
     "The tests of CI and of coupled-cluster code never meet, apart from the two-electron case.",
     [CI, CC, "cqcpy/cc_energy.py"],
     [("cluster expansion", CI + ": makeCfromT, gmakeCfromT"), ("sigma vectors", CI + ": H_on_vec, gH_on_vec"),
      ("residuals", CC)],
     ["makeCfromT", "gmakeCfromT", "ucisdtq_basis", "gcisdtq_basis", "H_on_vec", "gH_on_vec", "cc_energy",
      "ucc_energy", "ccsd_simple", "ccsd_stanton", "uccsd_stanton"])

prop("C31", "Describing a system by holes instead of electrons changes nothing",
     "Calling empty orbitals occupied and occupied ones empty, for both spins or (unrestricted) for one of "
     "them, with amplitudes and normal-ordered Hamiltonian rewritten accordingly, leaves coupled-cluster "
     "and second-order energies as they are. Residuals, Lambda residuals and density matrix blocks are "
     "rewritten in the same way: each index of an exchanged orbital moves between the first and the second "
     "half of the indices, with a minus sign per pair.",
     ["inputs", "configurations"],
     "For all amplitudes, Lambda amplitudes, Fock and interaction tensors (vanishing ones included) and all "
     "numbers of occupied and virtual orbitals, for spin-orbital, unrestricted and closed-shell functions.",
     "Tests never exchange the roles of occupied and virtual orbitals; terms with particle lines and terms "
     "with hole lines are written separately and are compared only with another implementation.",
     [CC, "cqcpy/cc_energy.py"],
     [("particle and hole terms of residuals", CC + ": ccsd_*, ccd_*, lccsd_simple, uccsd_stanton, rccsd_stanton"),
      ("Lambda residuals", CC + ": ccsd_lambda_*, uccsd_lambda_opt, rccsd_lambda_opt"),
      ("density blocks", CC + ": *_1rdm_*, *_2rdm_*")],
     ["cc_energy", "ucc_energy", "rcc_energy", "ccsd_simple", "ccsd_stanton", "uccsd_stanton", "rccsd_stanton",
      "ccsd_lambda_opt", "uccsd_lambda_opt", "rccsd_lambda_opt", "ccsd_2rdm_bjai", "uccsd_2rdm_bjai"])

prop("C32", "Results for a sum of Hamiltonians or of Lambda amplitudes are the sums",
     "Energies, residuals and Lambda residuals of all coupled-cluster methods are linear in the Fock and "
     "interaction tensors: the result for a sum is the sum of the results for its terms, even if each term "
     "has only some of the occupied/virtual blocks. Lambda residuals and density matrices are of first "
     "degree in the Lambda amplitudes, and linearised methods and second-order energies in the "
     "cluster amplitudes, singles or doubles vanishing or not.",
     ["inputs", "configurations"],
     "For all Hamiltonians and ways to split them into blocks, all amplitudes including vanishing ones, and "
     "all numbers of orbitals, for spin-orbital, unrestricted and closed-shell functions.",
     "Tests use one full random or Hartree-Fock Hamiltonian; the contribution of a single block, or what "
     "happens when others are exactly zero, is never looked at.",
     [CC, "cqcpy/cc_energy.py"],
     [("residuals", CC + ": ccsd_*, ccd_*, lccsd_simple, uccsd_stanton, rccsd_stanton"),
      ("Lambda residuals", CC + ": ccsd_lambda_*, uccsd_lambda_opt, rccsd_lambda_opt"),
      ("density blocks", CC + ": *_1rdm_*, *_2rdm_*"), ("energies", "cqcpy/cc_energy.py")],
     ["cc_energy", "ucc_energy", "rcc_energy", "mp2_energy", "ccsd_simple", "ccsd_stanton", "lccsd_simple",
      "uccsd_stanton", "rccsd_stanton", "ccsd_lambda_opt", "uccsd_lambda_opt", "rccsd_lambda_opt",
      "ccsd_1rdm_ai", "uccsd_1rdm_ai", "rccsd_1rdm_ai"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
