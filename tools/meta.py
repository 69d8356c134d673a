#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Conserved quantities form an abelian group, type-erased or not",
     "Every conserved quantity (integers, integers modulo N, and their direct products) obeys the abelian group laws: the operation is associative and commutative, has a neutral element, and each element has an inverse that cancels it; equality, ordering, distance and printing agree with the represented value, and values of modulo-N groups are always stored reduced. The type-erased quantity gives the same results as the concrete one, its copies are independent values, and combining quantities of different kinds is refused without changing anything.",
     ["inputs", "programs"], "all kinds of quantities, all elements (whole group for small N, boundary values otherwise), all short programs of operations",
     "The tests check a few products of a few values; the laws quantify over all triples of elements and all kinds.",
     ["include/Conserved/quantity.h", "include/Conserved/Composite/quantity_impl.h", "include/Conserved/Composite/cquantity.h", "sources/any_quantity.cpp", "sources/groups.cpp"],
     [("group operation and inverse of integers, C<N> and composites", "include/Conserved/quantity.h"), ("type erased value with clone on copy", "sources/any_quantity.cpp")],
     ["results of *, *=, inverse, ==, <, distance, fmt of quantities"])
prop("C02", "The container of conserved quantities behaves as a vector of values",
     "The type-erased container of conserved quantities has exactly the contents a vector of values would have after any sequence of constructions, insertions, erasures, resizings, assignments, swaps, grouped permutations and conversions from a concrete container. Copies are independent, iteration in both directions visits every element once, out of range access is reported, and values of another kind are refused with the container left unchanged.",
     ["histories"], "all histories of container operations with all positions and ranges up to a depth, from empty, kindless and filled containers",
     "The tests run a handful of fixed sequences; the guarantee is about every history, including ones starting from a default constructed container.",
     ["include/Conserved/Composite/cquantity.h", "include/Conserved/Composite/quantity_vector_impl.h", "sources/any_quantity.cpp"],
     [("virtual container interface over a std::vector of concrete quantities", "include/Conserved/Composite/quantity_vector_impl.h"), ("type erasing wrapper and its iterators", "include/Conserved/Composite/cquantity.h")],
     ["contents, size, comparison and exceptions of any_quantity_vector"])
prop("C03", "Block storage is a sorted map with unique keys through every history",
     "The flat associative map that stores tensor blocks always iterates in strictly increasing key order and agrees with an ordinary ordered map after any sequence of insertions (with any hint), erasures, look-ups, copies, swaps and moves. Inserting a range or merging another map keeps the destination's elements, calls the collision handler exactly once for each key present in both, with the destination's value first, and calls the no-collision handler exactly once on each newly inserted element and on nothing else; a map merged by reference is left unchanged.",
     ["histories", "inputs"], "all pairs of key sets over a small key universe, all ways to merge, all unsorted sequences with repetitions, all histories of single element operations with every hint",
     "The tests merge a handful of fixed maps; the merge algorithm's branches depend on the relative position of every pair of keys.",
     ["include/blockTensor/flat_map.h"],
     [("in-place backward merge of two sorted ranges", "include/blockTensor/flat_map.h insert"), ("hinted binary search", "include/blockTensor/flat_map.h use_hint")],
     ["iteration, find, at, size, handler calls"])
prop("C04", "Every block tensor operation produces a valid block tensor",
     "Every constructor, factory and operation on block tensors produces a tensor whose blocks are allowed by the selection rule (the quantities of its sections combine to it), have exactly the sizes their sections announce, have keys within range and in increasing order, and share one dtype. An operation that would break this (forbidden block, wrong block size, incompatible shape, wrong rank) is refused with an exception and leaves the tensor as it was.",
     ["programs", "inputs"], "all programs of tensor operations up to a depth over a menu of leg structures, selection rules and block subsets",
     "Tests check the invariant on a few final tensors; it must survive every composition of operations on every block structure.",
     ["include/blockTensor/btensor.h", "sources/btensor.cpp"],
     [("selection rule check of block access", "sources/btensor.cpp block, throw_bad_tensor, check_tensor"), ("shape checks of binary operations", "sources/btensor.cpp add_tensor_check, check_product_compat")],
     ["blocks, sections, selection rule, exceptions"],
     [("block list", "sorted map from section indices to dense block", "include/blockTensor/btensor.h"), ("section sizes and quantities", "structure of every dimension", "include/blockTensor/btensor.h")])
prop("C05", "Block tensor arithmetic equals dense arithmetic",
     "Addition, subtraction, multiplication and division of block tensors, with a scalar or another tensor, broadcasting included, in place or not and with temporaries, give the tensor whose dense form is the same operation applied to the dense forms; absent blocks count as zeros. So do scaling coefficients, powers, square roots, absolute values, sums, element-wise comparisons and closeness tests. Element-wise products, quotients, powers and comparisons of two tensors only combine blocks stored in both, everything else is zero; the selection rule of products and quotients is the combination of the operands' rules, and operands whose structure is incompatible are refused.",
     ["inputs", "configurations"], "all pairs of block tensors over a menu of leg structures, selection rules and every subset of present blocks, all operations and spellings",
     "Tests use random tensors with all the blocks present; which blocks are missing in which operand decides the code path.",
     ["sources/btensor.cpp", "include/blockTensor/btensor.h", "include/blockTensor/flat_map.h"],
     [("merge of block lists with collision handlers", "sources/btensor.cpp add, sub"), ("broadcast over missing or size one dimensions", "sources/btensor.cpp mul, div, pow")],
     ["to_dense of results"])
prop("C06", "Tensor contraction equals dense contraction",
     "Contracting two block tensors over any choice of compatible dimensions, including none of them, and batched or plain matrix multiplication, give the tensor whose dense form is the contraction of the dense forms, with the remaining dimensions in order and the combined selection rule. Contraction of dimensions whose sections do not match (sizes or opposite quantities) is refused.",
     ["inputs", "configurations"], "all pairs of tensors up to rank 3 over a menu of legs, all ordered choices of contracted dimensions, all subsets of present blocks, all selection rules",
     "Tests contract a few random tensors with all blocks present.",
     ["sources/btensor.cpp"], [("block matching by sorted contracted indices", "sources/btensor.cpp tensordot"), ("compatibility check", "sources/btensor.cpp check_product_compat")],
     ["to_dense of results, exceptions"])
prop("C07", "Permutation and reshaping of block tensors only move elements",
     "Permuting or transposing dimensions, grouping consecutive dimensions into one, undoing a grouping, and removing dimensions of size one give tensors holding the same elements at the positions prescribed by the same operation on the structure: the dense form of a permutation is the permuted dense form, and grouping then undoing it is the identity. In place and by-value forms agree and the selection rule is preserved.",
     ["inputs", "configurations"], "all permutations, all groupings of dimensions, all subsets of blocks, over a menu of leg structures",
     "Tests reshape a few tensors in a few ways.",
     ["sources/btensor.cpp"], [("permutation of keys, sections and quantities", "sources/btensor.cpp permute"), ("reshape by overcut or merge of sections", "sources/btensor.cpp reshape, reshape_as, squeeze")],
     ["to_dense, sections, quantities"])
prop("C08", "Slicing and sub-tensor assignment touch exactly the selected elements",
     "Selecting one element in some dimensions and whole dimensions in the others gives the sub-tensor with exactly the selected elements and the selection rule compensated for the removed dimensions, without altering the source; assigning a sub-tensor in such a place changes exactly the selected part of the destination. Structure extraction with the same arguments gives the same structure.",
     ["inputs", "configurations"], "every choice of element or full dimension for every dimension, with or without kept dimensions, all subsets of blocks",
     "Tests slice one or two tensors.",
     ["sources/btensor.cpp"], [("slice of blocks by fixed indices", "sources/btensor.cpp basic_create_view, basic_index_put_, shape_from")],
     ["to_dense, sections, selection rule"])
prop("C09", "Operations leave their operands unchanged and results do not share storage",
     "A block tensor operation that is not in place leaves every operand exactly as it was, and modifying its result afterwards never changes an operand (views documented as sharing storage excepted); an in-place operation changes only the tensor it is called on. Copies behave as torch tensors do: a copied tensor's structure is independent.",
     ["programs"], "every operation with every operand category, followed by in-place modification of the result",
     "Tests look at the result only.",
     ["sources/btensor.cpp", "include/blockTensor/btensor.h", "sources/MPT.cpp"], [("cloning of blocks present in a single operand", "sources/btensor.cpp add, sub")],
     ["to_dense of operands before and after"])
prop("C10", "Conversion between block tensors and dense tensors is faithful",
     "The dense form of a block tensor holds each block at the position of its sections and zeros elsewhere; building a block tensor from a dense one keeps exactly the elements allowed by the selection rule (above the requested cutoff) so that converting back gives the input with forbidden elements zeroed, and the selection rule found for a dense tensor is the one of its content. Factories (zeros, ones, full, random, identity) fill exactly the allowed blocks with the announced values and options.",
     ["inputs", "configurations"], "all leg structures of a menu, all selection rules, all subsets of non zero blocks, all factories",
     "Tests convert a few tensors.",
     ["sources/btensor.cpp"], [("block extraction and assembly", "sources/btensor.cpp to_dense, from_basic_tensor"), ("factories", "sources/btensor.cpp, include/blockTensor/btensor.h")],
     ["to_dense, blocks, selection rule"])
prop("C11", "Conjugation and quantity shifts keep the tensor and its conservation law",
     "Conjugating a block tensor, inverting its quantities, or shifting the quantities of a dimension changes the labels in the announced way, keeps the elements (up to complex conjugation), and adjusts the selection rule so the same blocks stay allowed; doing the inverse operation gives back the original. A tensor contracted with its own conjugate over all dimensions gives its squared norm.",
     ["inputs", "configurations"], "all leg structures of a menu, all shifts, all dimensions, real and complex",
     "Tests check one or two instances.",
     ["sources/btensor.cpp"], [("inverse of the quantities and of the selection rule", "sources/btensor.cpp inverse_cvals, conj, cval_shift")],
     ["to_dense, quantities, selection rule"])
prop("C12", "Singular value decomposition reconstructs, is isometric and conserves",
     "The singular value decomposition of a dense or block tensor, over any split of its dimensions, gives factors whose product is the tensor, isometries on both sides and non negative singular values equal to those of the dense matrix (zeros of sectors without stored blocks may be left out). The full decomposition, and the one without singular vectors, give the same values. The factors of a block tensor are valid block tensors that share compatible bond quantities, whichever blocks are present.",
     ["inputs", "configurations"], "all leg structures of a menu, all splits, all selection rules, all subsets of present blocks",
     "Tests decompose a few random tensors with every block present.",
     ["sources/btensor_linalg.cpp", "sources/LinearAlgebra.cpp", "include/LinearAlgebra.h", "include/blockTensor/LinearAlgebra.h"],
     [("grouping of blocks in independent matrices", "sources/btensor_linalg.cpp"), ("reshape to matrix and back", "sources/LinearAlgebra.cpp")],
     ["reconstruction, isometry, spectrum"])
prop("C13", "Hermitian eigendecomposition reconstructs and conserves",
     "The eigendecomposition of a hermitian dense or block matrix, or of a tensor grouped as one, gives eigenvalues equal to those of the dense matrix (zeros of sectors without stored blocks may be left out) and orthonormal eigenvectors that reconstruct the tensor, and its block factors are valid block tensors. Tensors that are not square, or whose selection rule connects different sectors, are refused.",
     ["inputs", "configurations"], "all leg structures of a menu, all block patterns of hermitian tensors",
     "Tests decompose a few random tensors.",
     ["sources/btensor_linalg.cpp", "sources/LinearAlgebra.cpp"], [("diagonal block eigensolver", "sources/btensor_linalg.cpp eigh"), ("dense eigensolver wrapper", "sources/LinearAlgebra.cpp eigh")],
     ["reconstruction, orthonormality, spectrum"])
prop("C14", "Truncated decompositions keep the largest values within tolerance and bounds",
     "A truncated decomposition keeps the values of largest magnitude, never more than the maximum, never fewer than the minimum when that many non zero ones exist, and otherwise discards as many as possible while the norm (of the requested order) of what is discarded does not exceed the tolerance; block tensors keep values equal to the smallest kept one together. The kept factors are the matching columns of the untruncated ones, so the reconstruction error is exactly the norm of the discarded values.",
     ["inputs", "configurations"], "all spectra from a menu (ties and zeros included) spread over blocks in every way, all tolerances at and between the thresholds, all minimum and maximum sizes, norms of order 1, 2 and 3",
     "Tests truncate one or two spectra.",
     ["sources/btensor_linalg.cpp", "sources/LinearAlgebra.cpp"], [("cumulative tail norm and size bounds", "sources/LinearAlgebra.cpp truncate, compute_last_index"), ("truncation across blocks", "sources/btensor_linalg.cpp truncate_impl")],
     ["kept values, reconstruction error"])
prop("C15", "Tensor trains keep their physical content when the gauge moves",
     "Moving the orthogonality centre of a matrix product state to any site, in any sequence of moves, never changes the state it represents, makes every site it passes over isometric towards the new centre (left-isometric when the centre moves right over it, right-isometric when it moves left), so that after a pass over the whole chain the state is canonical about its centre, and records the new centre; moving outside the chain is refused and changes nothing. No copy of the state is affected. Constructing a matrix product state or operator, by any constructor, from tensors that do not fit together (wrong ranks, bond sizes or conserved quantities, centre outside the chain) is refused, and anything that fits is accepted as given. Coalescing the bonds of a block matrix product operator keeps the operator it represents.",
     ["histories", "inputs"], "all sequences of centre moves up to a depth, all chain lengths up to 4, all small tensor shapes, dense and quantity conserving",
     "Tests do a few moves on one random state.",
     ["include/MPT.h", "sources/MPT.cpp"], [("QR/SVD based centre moves", "sources/MPT.cpp move_oc"), ("constructor checks", "sources/MPT.cpp check_ranks, check_one")],
     ["dense state vector, isometry of sites, centre index"])
prop("C16", "Contraction of tensor trains equals dense overlaps and expectation values",
     "Contracting two matrix product states, with or without an operator between them and with or without edge tensors, gives the overlap or matrix element computed from the dense vectors and matrices, however the bonds of the two chains are sectioned and ordered and wherever the chains record their quantum number; states of different sectors have no overlap. At every bond, the two site operator applied to the two site state between the contracted rests of the chain gives the same number as the whole chain. The states and the operator are left unchanged.",
     ["inputs", "configurations"], "all chain lengths up to 4, all bond size patterns of a menu, dense and quantity conserving, all cut positions",
     "Tests compare a few numbers on random states.",
     ["include/MPT.h", "sources/MPT.cpp", "sources/dmrg.cpp"], [("site by site contraction", "sources/MPT.cpp contract"), ("environments", "sources/dmrg.cpp compute_left_env, compute_right_env, generate_env")],
     ["contracted numbers and tensors"])
prop("C17", "DMRG returns an energy and a state that agree",
     "The ground state search returns the energy expectation value of the state it leaves behind (up to the weight the requested truncation removes), and that state is normalised, has its orthogonality centre where it says it is and where it was asked to be, has bonds within the requested limits, and stays in the quantum number sector of the initial state; the Hamiltonian is unchanged. This holds for any initial state in canonical form and any position of its centre, normalised or not, for random initial states of any sector the chain has, for any Hamiltonian on two or more sites, real or complex, and for any sweep limit, none included (the energy is then that of the initial state). Null initial states, states of another length than the Hamiltonian and chains of less than two sites are refused with an exception.",
     ["configurations", "inputs"], "all models of a menu, chain lengths 2 to 5, all initial product states and centre positions, all sweep limits and bond limits of a menu, dense and conserving",
     "Tests run one model from one random state to convergence.",
     ["sources/dmrg.cpp", "include/dmrg.h"], [("sweep and two site update", "sources/dmrg.cpp"), ("environment updates", "sources/dmrg.cpp")],
     ["returned energy, <psi|H|psi>, norm, isometries, bond sizes, sector"])
prop("C18", "DMRG energy is variational and converges to the exact ground state",
     "The energy found is never below the exact ground state energy of the sector, never above the energy of the initial state, and without a binding limit on bond dimension reaches the exact ground state energy of small chains from any initial state that is not orthogonal to it; the energy never increases from one sweep to the next as long as nothing is truncated. The quantity conserving and plain implementations agree sweep by sweep. The two by two eigenvalue problem and the Lanczos step each update is made of give the lowest eigenvalue with a normalised eigenvector, and the exact next Lanczos vector and matrix elements.",
     ["configurations", "inputs"], "all models of a menu with parameters of both signs, chain lengths 2 to 5, all initial product states of a sector",
     "Tests compare one or two known energies.",
     ["sources/dmrg.cpp", "sources/LinearAlgebra.cpp", "sources/models.cpp"], [("two site Lanczos step", "sources/dmrg.cpp two_sites_update, eig2x2Mat")],
     ["energy versus exact diagonalisation"])
prop("C19", "DMRG logging and options report what the run did",
     "A logger passed to the ground state search is called in the announced order: once before the first sweep with the options, once per iteration with its number, energy and state, once at the end with the number of the last iteration, the returned energy and the final state; the number of iterations is explained by the reported energies, the convergence criterion and the sweep limit. The loggers of the library record what happened, and the choice of the logger does not change the result. A logger that throws leaves the Hamiltonian as it was and a state in canonical form. The energy is differentiable with respect to what the options ask for and nothing else, with the derivative that finite differences give, and the gradient tracking of the Hamiltonian and of the state is as it was before. Options accept and report the documented values.",
     ["configurations", "histories"], "all models, sweep limits, chain lengths and initial states of a menu, all loggers, a failure at every call of the logger, all combinations of tracked inputs and gradient options",
     "Tests print logs without looking at them.",
     ["include/dmrg_logger.h", "include/dmrg_options.h", "sources/dmrg.cpp"], [("logger call-backs", "include/dmrg_logger.h")],
     ["sequence of logger calls"])
prop("C20", "Model Hamiltonians and local operators equal their textbook matrices",
     "The Heisenberg Hamiltonian -J sum S.S and the Hubbard Hamiltonian - sum (c^dagger c + h.c.) + U n_up n_dn - mu N, plain or quantity conserving, have dense matrices equal to their definition for every length from a single site on and every coupling, given as a number or as a tensor of any type; the conserving ones accept every physical index whose quantities the model conserves, have neutral sites that fit together, and refuse the others. The spin and fermion operators are the documented matrices, the fermions obey the canonical anticommutation relations, and their conserving versions have the same content with the selection rule of what they change. The derivatives of the plain models with respect to their couplings are right. Chains without sites and couplings that are not scalars are refused.",
     ["inputs", "configurations"], "all chain lengths up to 5 (6 in the thorough tier), couplings of both signs, zero, very small and very large included, menus of physical indices over Z, C2, C3 and ZxC2",
     "Tests compare lengths 2 or 3 with one coupling.",
     ["sources/models.cpp", "sources/operators.cpp", "include/models.h", "include/operators.h"], [("matrix product operator of each model", "sources/models.cpp"), ("local operators", "sources/operators.cpp")],
     ["dense matrix of the operator"])
prop("C21", "Random tensor trains have the requested shape and sector",
     "Whatever the values drawn by the random generator, a random quantity conserving matrix product state exists exactly when its sector does (a sector that no configuration of the sites reaches is refused, any other is never refused), and then it has the requested length, physical indices with the requested sections and quantities, the requested element type, edges of size one and bonds not exceeding the requested size, is a valid chain, has all its amplitudes in the requested sector and a non zero norm; the same seeds give the same state. Plain random states have the requested length, physical dimensions, bonds and element type. Chains without bonds are refused and chains without sites are empty or refused.",
     ["configurations", "inputs", "schedules"], "all draws of the generator for lengths up to 4 (5 in the thorough tier) and bond dimensions up to 3, all the sectors of each chain and those next to them, a menu of physical indices over Z, C2, C3 and ZxC2",
     "Tests build one or two random states from one seed.",
     ["sources/MPT.cpp", "include/MPT.h"], [("random chain construction", "sources/MPT.cpp random_MPS, random_bMPS"), ("random strings of sections", "sources/MPT.cpp generate_random_string")],
     ["shapes, quantities, norm"])
prop("C22", "Dense tensor helpers match their definitions",
     "The helpers on lists of dimensions (joining, slicing, reversing, products) and the scaled and accumulated contraction of dense tensors (beta times the accumulator plus alpha times the contraction, returned, in place or into an output) give the value of their documented formula for every rank, every choice of contracted dimensions, every scaling and every layout of the accumulator in memory, leave everything else unchanged and refuse dimensions and accumulators that do not fit; the solver of two by two hermitian matrices returns the lowest eigenvalue and a normalised eigenvector of every such matrix, dense or quantity conserving, whatever the scale of its elements.",
     ["inputs"], "all ranks up to 3, all dimension pairings, all scalings of a menu, contiguous and strided accumulators, all two by two matrices over a menu of elements of very different sizes",
     "Tests cover a single pairing.",
     ["sources/tensorgdot.cpp", "include/tensorgdot.h", "include/dimension_manip.h", "sources/dimension_manip.cpp", "sources/dmrg.cpp"], [("reduction to a matrix product with accumulation", "sources/tensorgdot.cpp")],
     ["returned tensors"])
prop("C23", "Tensor trains are faithful sequences of tensors",
     "The chains of tensors (states, operators and general chains, plain or quantity conserving) are sequences: after any history of insertions, removals, resizes, writes, copies, moves, assignments, swaps, conversions of the elements to another type and conversions between the classes, a chain has exactly the tensors a list edited in the same way has, in the same order, through every way to read it; each operation returns the position or the element it announces, leaves its arguments, the copies and the originals alone, and copying, moving, assigning, swapping and converting carry the orthogonality centre along.",
     ["histories"], "all histories of two operations (three in the thorough tier) with all their arguments on chains of up to four tensors, from all lengths up to three and all centres",
     "Tests check the length of three chains after construction.",
     ["include/MPT.h"], [("sequence interface of the chains", "include/MPT.h vector_lift"), ("copies, swaps and conversions", "include/MPT.h MPS, bMPS, MPO, bMPO, MPT, bMPT")],
     ["content of the chain through its public interface"])
prop("C24", "Printed forms show the whole value",
     "The text of a conserved quantity, through any spelling of the quantity and of the printing, names each of its groups and charges, so that different quantities of a kind have different texts; the text of a dense tensor is torch's for the line length asked for (80 by default), without braces, for every shape, content and element type, and printing always ends; the text of a block tensor has its rank, selection rule, sections, sizes and quantities and then every block it stores with its place, in order, and nothing else; the text of a property is that of its value. Options that a type does not have are refused.",
     ["inputs", "configurations"], "all elements of a menu of groups and composite quantities, tensors of rank up to 4 over a menu of shapes, contents and element types and all line lengths up to 20 (200 in the thorough tier) and a menu of larger ones, all subsets of the blocks of a menu of block tensors",
     "Tests print values without looking at the text.",
     ["include/torch_formatter.h", "include/Conserved/quantity.h", "include/Conserved/Composite/quantity_impl.h", "include/Conserved/Composite/cquantity.h", "include/blockTensor/btensor.h", "include/property.h"], [("text of dense tensors", "include/torch_formatter.h"), ("text of block tensors", "include/blockTensor/btensor.h fmt::formatter"), ("text of quantities", "include/Conserved/Composite/quantity_impl.h")],
     ["formatted text"])

GROUP = {}
CLAIMED = json.load(open(os.path.join(V, "harness", "config.json")))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json"))) if os.path.exists(os.path.join(V, "tools", "notes.json")) else {}
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "explicit-state model checking of the implementation: stateless depth-first enumeration of every choice sequence (structures, operands, operations, arguments) within bounds, each execution run on the real code and compared step by step with an independent reference model",
                       "level": "model_checking", "level_note": NOTES.get(i, "exhaustive within the bounds listed in DESIGN.md; nothing is sampled"),
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "QTT_VERIF", "enable": "no hook is used: the harnesses only call the public interface", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": "see DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
