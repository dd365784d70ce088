#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
	assert len(title) <= 80, (id, len(title))
	a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
	if state:
		a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
	P.append({"id": id, "title": title, "statement": statement,
		"quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

STABLE = "The stable tests only exercise the multiprecision matrix helper on small square matrices; nothing there reaches this code. "

prop("C01", "Implicit form denotes exactly its eliminated state-space system",
	"For every specialized implicit form built from matrices J,K,L,M,N,P,Q,R,S of consistent sizes, the coefficient matrix Z is [[-J,M,N],[K,P,Q],[L,R,S]], each of the nine matrices reads back as the one given, and the state-space system it reports (in double and in exact arithmetic) is A=K.inv(J).M+P, B=K.inv(J).N+Q, C=L.inv(J).M+R, D=L.inv(J).N+S. "
	"The reported dimensions (intermediate variables, states, outputs, inputs) are those of the matrices, including the case without intermediate variables, and inconsistent sizes are refused with ValueError.",
	["inputs"], "all dimensions l,n,p,q and all coefficient values",
	STABLE + "The SIF tests sample random square-ish sizes numerically and cannot cover all dimensions and block positions.",
	["fixif/SIF/SIF.py", "fixif/func_aux/mpf_matrix_lt_inverse.py", "fixif/func_aux/mpf_matrix_fmul.py", "fixif/func_aux/mpf_matrix_fadd.py"],
	[("elimination of J", "SIF._build_AZtoDZ, SIF.to_dSSexact"), ("block layout of Z", "SIF._build_Z and the J..S getters"), ("size check", "_check_dimensions")])

prop("C02", "Everything derived from coefficients follows every coefficient change",
	"After any sequence of reads and assignments of the coefficient matrices of an implicit form (whole matrix or one block, values or exactness flags) or of similarity transforms of a state-space system, every derived quantity that is read (eliminated state-space, associated error, variable and input filters, Gramians) is the one a freshly built object with the current coefficients would report, and the exactness flags read whole or block by block are the ones last stored. "
	"No earlier cached result survives a change that affects it.",
	["histories", "inputs"], "all interleavings of reads, writes and cache fills",
	STABLE + "Stale caches need a read, then a write, then another read of a different quantity; tests build objects once and never mutate them.",
	["fixif/SIF/SIF.py", "fixif/LTI/dSS.py", "fixif/SIF/Realization.py"],
	[("coefficient setters rebuild derived data", "SIF property setters, SIF._build_fromZ"), ("lazy caches", "SIF.Hu/Hepsilon/Hzeta, dSS.Wo/Wc/H2norm/calc_DC_gain/WCPG")],
	[("_Z,_dZ", "coefficients and their exactness flags", "SIF"), ("_dSS,_invJ,_M1,_M2,_N1,_N2,_Hu,_Hepsilon,_Hzeta", "derived data", "SIF"), ("_Wo,_Wc,_H2norm,_DC_gain,_WCPG", "derived data", "dSS")])

prop("C03", "Error, variable and sensitivity filters match the implicit form",
	"For every implicit form: the roundoff-error filter is (A, [K.inv(J), I, 0], C, [L.inv(J), 0, I]); the input-to-variables filter is (A, B, [inv(J).M; A; C], [inv(J).N; B; D]); the variable-observation filter outputs intermediate variables, states and outputs; and the error-injection form adds one unit input per row. "
	"The matrices handed to the sensitivity measures, and the form with approximated coefficients, have the dimensions and values these definitions imply, for any number of inputs and outputs.",
	["inputs"], "all dimensions l,n,p,q (p and q different) and coefficients",
	STABLE + "Only SISO or square samples are ever run, on which transposed or swapped blocks can still conform.",
	["fixif/SIF/SIF.py", "fixif/SIF/SIF_sensibility.py", "fixif/SIF/SIF_tilde_error.py"],
	[("error/input filters", "SIF._build_M1M2N1N2, SIF.Hu, SIF.Hepsilon"), ("extended forms", "SIF.Hzeta, SIF.computeDeltaSIF")])

prop("C04", "Direct, state-space and delta structures keep the filter they are built from",
	"For every filter order and coefficients, each direct-form I, direct-form II (plain and transposed), state-space and rho-direct-form II realization is an implicit form with unit lower-triangular J whose input-output behaviour is that of the source filter. "
	"Every option combination offered (transposition, operators, delta implementation) preserves this.",
	["inputs", "configurations"], "all orders, coefficients and option combinations",
	STABLE + "Structure tests compare a few random filters within a tolerance and skip most option combinations.",
	["fixif/Structures/DirectForms/DFI.py", "fixif/Structures/DirectForms/DFII.py", "fixif/Structures/State_Space/State_Space.py", "fixif/Structures/rhoDFIIt/rhoDFIIt.py"],
	[("structure factories", "makeDFI, makeDFII, makeSS, makeRhoDFII")])

prop("C05", "Structure registry: every advertised option is accepted and honoured",
	"Every registered structure has a unique name; every option it advertises is a parameter of its factory and of its acceptance test, the value listed first is the default used when the option is omitted, and enumerating all structures of a filter yields exactly the option combinations its acceptance test admits. "
	"Every factory returns a mapping the realization constructor accepts, and an unknown structure name or option is refused with an error.",
	["configurations"], "all registered structures, options and option values",
	STABLE + "Tests loop over what the enumeration yields; an option that is silently dropped or a combination never produced is invisible to them.",
	["fixif/Structures/Structure.py", "fixif/Structures/__init__.py", "fixif/LTI/Filter.py", "fixif/SIF/Realization.py", "fixif/Structures/LGS_LCW/LGS_LCW.py", "fixif/Structures/rhoDFIIt/rhoDFIIt.py"],
	[("registry", "Structure.__init__, makeRealization, iterAllStructures, iterStructures"), ("factories", "make*/accept* functions")])

prop("C06", "State-space composition and conversion are block-exact",
	"For systems of any state, input and output dimensions: the series product, sum and difference of two state-space systems, selection of input/output channels, similarity transform, DC gain and conversion to multiple precision produce exactly the matrices of the standard definitions, with the first operand's output connected where the definition says. "
	"Operands whose dimensions do not fit the operation are refused, and operands whose dimensions do fit are accepted.",
	["inputs"], "all dimensions and matrices",
	STABLE + "dSS tests sample random dimensions through tolerance checks on a few Markov parameters.",
	["fixif/LTI/dSS.py", "fixif/LTI/dSSmp.py"],
	[("composition", "dSS.__mul__, __add__, __sub__, __getitem__, similarity, calc_DC_gain"), ("size check", "dSS._check_dimensions")])

prop("C07", "Transfer-function algebra and conversions act on powers of the delay",
	"For transfer functions with any numerator and denominator lengths, sum, difference and product (with another transfer function or with a number on either side) are those of rational functions of the unit delay: leading zero coefficients (pure delays) are kept and coefficients are aligned on the lowest power of the delay. "
	"The denominator is normalised to a unit leading coefficient together with the numerator, and conversion to state-space (both canonical forms, for a filter of order one or more) denotes the same filter.",
	["inputs"], "all numerator and denominator lengths and values",
	STABLE + "dTF tests use equal-length random coefficients without leading zeros, where the misalignment cannot show.",
	["fixif/LTI/dTF.py", "fixif/LTI/dTFmp.py"],
	[("rational algebra", "dTF.__add__/__sub__/__mul__ and reflected forms"), ("conversion", "dTF.to_dSS")])

prop("C08", "Gramians, norms and gains satisfy one set of equations",
	"Whatever solver is selected or available, the observability Gramian solves A'.W.A + C'.C = W and the controllability Gramian solves A.W.A' + B.B' = W; both H2-norm formulas (through either Gramian) are dimensionally valid for any number of inputs and outputs and denote the same norm; an unknown solver name is refused. The DC gain is C.inv(I-A).B+D and the worst-case gain is asked for the system's own A,B,C,D. "
	"A solver failure surfaces as the documented exception, not as an unrelated one or a stale value.",
	["inputs", "configurations"], "all systems, all solver selections, with and without the optional solver",
	STABLE + "The optional solver and the fallback branches never run in the test environment.",
	["fixif/LTI/dSS.py"],
	[("Lyapunov solvers", "dSS.calc_Wo, dSS.calc_Wc"), ("norms", "dSS.H2norm")])

prop("C09", "Exact multiprecision operations never round",
	"Operations documented as exact (matrix sum, difference, product, lower-triangular inverse, conversion of doubles, integer representation, exact implicit-form elimination, sum, difference and exact simulation of multiprecision state-spaces, conversion of a multiprecision transfer function to state-space) return the mathematically exact result whatever the ambient working precision: every arithmetic step is carried out exactly or at a precision established beforehand.",
	["inputs", "configurations"], "all operand values and all ambient precisions",
	"Rounding only shows for particular operand exponents and ambient precisions; the stable tests compare random doubles at the default precision.",
	["fixif/func_aux/MPFMatrix.py", "fixif/func_aux/mpf_matrix_fadd.py", "fixif/func_aux/mpf_matrix_fsub.py", "fixif/func_aux/mpf_matrix_fmul.py", "fixif/func_aux/mpf_matrix_lt_inverse.py", "fixif/func_aux/mpf_poly_mult.py", "fixif/func_aux/mp_poly_product.py", "fixif/func_aux/python2mpf_matrix.py", "fixif/LTI/dSSmp.py", "fixif/LTI/dTFmp.py"],
	[("exact arithmetic", "calls to the exact add/sub/mul/dot primitives of mpmath")])

prop("C10", "Multiprecision matrix operations compute the right entries for any shape",
	"For all conforming, possibly rectangular operands, each multiprecision matrix operation (sum, difference, product, exact variants, lower-triangular inverse, polynomial product, conversion to and from doubles, comparison) returns a matrix of the mathematically right shape with every entry equal to its defining formula; no entry is skipped, duplicated or read out of range.",
	["inputs"], "all shapes and entries",
	"The stable tests only use square matrices of equal sizes, on which swapped dimensions are invisible.",
	["fixif/func_aux/MPFMatrix.py", "fixif/func_aux/mpf_matrix_fadd.py", "fixif/func_aux/mpf_matrix_fsub.py", "fixif/func_aux/mpf_matrix_fmul.py", "fixif/func_aux/mpf_matrix_lt_inverse.py", "fixif/func_aux/mpf_to_numpy.py", "fixif/func_aux/mpf_poly_mult.py", "fixif/func_aux/python2mpf_matrix.py", "fixif/func_aux/mp_poly_product.py"],
	[("index loops", "the entry loops of each function")])

prop("C11", "Unsuitable operands are refused with the documented exception",
	"Every public numeric operation that checks its operands (type, squareness, conforming dimensions, unit diagonal, single-input single-output, known option) refuses exactly the unsuitable ones and does so by raising ValueError: building the error itself never fails, and a check on one operand dimension is against the dimension the operation actually needs.",
	["inputs"], "all operand types and shapes",
	"Error paths are not exercised by the stable tests; an error message that itself fails only shows on the unsuitable input.",
	["fixif/func_aux/MPFMatrix.py", "fixif/func_aux/mpf_matrix_fadd.py", "fixif/func_aux/mpf_matrix_fsub.py", "fixif/func_aux/mpf_matrix_fmul.py", "fixif/func_aux/mpf_matrix_lt_inverse.py", "fixif/LTI/dSS.py", "fixif/LTI/dTF.py", "fixif/LTI/dSSmp.py", "fixif/LTI/dTFmp.py", "fixif/LTI/Gabarit.py", "fixif/SIF/SIF.py", "fixif/SIF/Realization.py", "fixif/Structures/Structure.py"],
	[("argument checks", "the raise statements of the public functions")])

prop("C12", "Operations never modify the objects they are given",
	"Arithmetic, conversions, analyses and constructors of the matrix, LTI, SIF and Structures layers leave every argument (matrices, coefficient lists, filters, option mappings) exactly as the caller passed it. "
	"The result of an arithmetic operation, a conversion, a channel selection or a constructor shares no array or list with its arguments, and an object keeps no array assigned to one of its properties, so later changes to one never show in the other. "
	"Only operations whose purpose is mutation (assignments, in-place transforms, a caller-supplied information mapping, filling a cache) change their own object.",
	["histories", "inputs"], "all call sequences on shared objects",
	"Tests use each operand once; damage to an operand or an aliased buffer is only visible when it is reused.",
	["fixif/func_aux", "fixif/LTI", "fixif/SIF", "fixif/SoP", "fixif/Structures"],
	[("defensive copies", "constructors and arithmetic methods")])

prop("C13", "Ambient numeric state is restored on every exit",
	"No library call leaves the process-wide working precision, numeric display options or working directory different from what it found, on normal return, on any error raised, and while a generator is suspended or when it is abandoned, and none reseeds the process-wide random generator unless its caller gives it a seed.",
	["inputs", "fault_sequences"], "all entry points, all normal and exceptional exits",
	"Leaks need a failing call followed by an unrelated computation; no test inspects ambient state.",
	["fixif/LTI/dSSmp.py", "fixif/LTI/dTFmp.py", "fixif/LTI/dSS.py", "fixif/func_aux", "fixif/LTI/Filter.py", "fixif/LTI/Gabarit.py"],
	[("save/restore of working precision", "dSSmp and dTFmp conversions")])

prop("C14", "Multiprecision systems mirror their definitions",
	"For multiprecision state-space and transfer-function objects of any dimensions: construction, sum, difference, and conversions to and from double precision and between the two representations (dSSmp.to_dTFmp, dTFmp.to_dSSmp, to_dSS, to_dTF, dSS.to_dSSmp, dTF.to_dTFmp) use the standard formulas, with every coefficient computed from the right operands and a numerator shorter than the denominator (or the converse) padded with zeros.",
	["inputs"], "all dimensions, coefficients and lengths",
	STABLE + "Tests run default options on a few random SISO systems within a tolerance.",
	["fixif/LTI/dSSmp.py", "fixif/LTI/dTFmp.py"],
	[("formulas", "dSSmp.__add__/__sub__/to_dTFmp, dTFmp.to_dSSmp/__init__")])

prop("C15", "Generated algorithms compute a realization in a valid order",
	"For every realization, the algorithm produced as text, as LaTeX or as C computes every intermediate variable before it is used, then outputs and states, each exactly once, from the coefficients of its own row; states are updated in place only when no later row needs the old value, and otherwise through temporaries copied back for every state. "
	"Each computed sum contains exactly the non-zero coefficients of its row, with their own variables and values.",
	["inputs", "configurations"], "all sizes, sparsity patterns, and output options",
	STABLE + "The generation tests compare stored text for two fixed realizations.",
	["fixif/SIF/Realization_algorithms.py", "fixif/SIF/Realization_implementation.py", "fixif/SoP/SoP.py", "fixif/SoP/VarName.py", "fixif/SIF/templates/algorithmLaTeX_template.tex", "fixif/SIF/templates/implementCdouble_template.c"],
	[("row order", "R_algorithm._algorithmCore, R_implementation.makeModule, the templates"), ("in-place criterion", "SIF.isPnut")])

prop("C16", "Generated files, their templates and their callers agree",
	"Every placeholder of every template is supplied by the code that fills it and every supplied value is used; every resource the code opens exists at the path it computes; the compiled function is called with the parameter types, order, count and return type with which it is generated, for single and multiple inputs, outputs and states; and data exchanged with external tools is written and read in the same element order.",
	["configurations", "inputs"], "all template/caller pairs and all realization sizes",
	STABLE + "A mismatch shows only for particular sizes or when an external tool is present.",
	["fixif/SIF/Realization_implementation.py", "fixif/SIF/Realization_algorithms.py", "fixif/SIF/Realization_FxP.py", "fixif/SIF/templates", "fixif/LTI/Gabarit.py", "fixif/LTI/dSSmp.py", "fixif/func_aux/sollya_matrix_print.py", "fixif/func_aux/sollya_matrix_to_numpy.py", "fixif/func_aux/mpf_matrix_to_sollya.py"],
	[("rendering", "render calls and templates"), ("foreign call", "R_implementation.runCdouble")])

prop("C17", "Every name the library uses exists where it is used",
	"In every function of the library, every variable read is bound on all paths that reach it, every imported or third-party name, attribute and keyword argument exists in the supported environment or is guarded as optional, every internal call matches the parameters of the function it reaches, and every text format has as many fields as values, so no operation fails with a name, attribute or parameter error merely by being reached.",
	["inputs", "configurations"], "all functions and paths, reached by tests or not",
	"Python resolves names only when a line runs, and most lines are never run by the stable tests.",
	["fixif"],
	[("imports and definitions", "every module of the package")])

prop("C18", "Random filters are reproducible and honour the requested bounds",
	"The same seed (including zero) and arguments always give the same random filter, the name recorded in a generated filter rebuilds that filter, orders and dimensions lie within the requested ranges (with even/odd constraints honoured), and omitting the seed is supported. "
	"Sparsity masks remove entries with the stated probabilities and a mask is drawn again exactly when it removes everything; each filter of a random series has its own seed and the series honours the bounds, types and probabilities asked for.",
	["inputs", "configurations"], "all seeds, bounds and probabilities",
	STABLE + "Defects show for seed 0, omitted seeds, extreme probabilities or single-element matrices only.",
	["fixif/LTI/Butter.py", "fixif/LTI/Elliptic.py", "fixif/LTI/Gabarit.py", "fixif/LTI/Filter.py", "fixif/LTI/dSS.py", "fixif/LTI/dTF.py"],
	[("seeding", "random_Butter, random_Elliptic, random_Filter, random_Gabarit"), ("masks", "random_dSS")])

prop("C19", "A filter keeps its two representations consistent",
	"A filter built from coefficients, from a transfer function or from a state-space reports the same system through either representation, converts at most once and only when needed, reports its order and numbers of inputs and outputs correctly for both kinds, and refuses incomplete (missing) construction arguments and transfer-function views of multi-channel systems.",
	["inputs", "histories"], "all construction forms and read orders",
	STABLE + "Tests build filters one way and read one representation.",
	["fixif/LTI/Filter.py", "fixif/LTI/Butter.py", "fixif/LTI/Elliptic.py"],
	[("lazy conversion", "Filter.dSS, Filter.dTF"), ("construction", "Filter.__init__")])

prop("C20", "Frequency specifications constrain every band on both sides",
	"Every band of a specification yields its lower and upper bound exactly once with the band's own edges and gains (a stop band at zero decibels included), lowpass, highpass, bandpass and bandstop shapes map to the documented band sequences, and the check of a filter against a specification succeeds only if no band is violated on either side.",
	["inputs"], "all band sets, gains and margins",
	STABLE + "Gabarit tests need an external tool and use generic gains.",
	["fixif/LTI/Gabarit.py", "fixif/LTI/gabarit.sol"],
	[("band bounds", "Band and Gabarit classes")])

prop("C21", "Fixed-point formats come from the bounds that justify them",
	"For every realization, the most significant bit of each variable is derived from the worst-case gain from the inputs to that very variable times the input bound, and each least significant bit from the worst-case gain from that variable's error to the outputs and the output error budget, with the right gain matrix row, column and rounding direction for any numbers of inputs and outputs. "
	"Quantization yields a new realization and leaves the original unchanged.",
	["inputs"], "all sizes, bounds and budgets",
	STABLE + "The external gain library is absent from the test environment, so this code never runs.",
	["fixif/SIF/Realization_FxP.py", "fixif/SIF/Realization.py"],
	[("format computation", "R_FxP methods"), ("quantization", "Realization.quantize")])

prop("C22", "Simulations follow the system recurrences sample by sample",
	"For every input sequence, simulating an implicit form (SIF.simulate) or a multiprecision state-space (dSSmp.simulate, exact or rounded, from any initial state, and dSSmp.simulate_rounded) yields, at each time, the output computed from the state before the update and the input at that time, with the state advanced exactly once per sample and no sample skipped; inputs with the wrong number of channels are refused.",
	["inputs", "histories"], "all lengths, inputs, dimensions and initial states",
	STABLE + "Simulation tests check a single output length within tolerance.",
	["fixif/SIF/SIF.py", "fixif/LTI/dSSmp.py"],
	[("recurrence loops", "simulate methods")])

prop("C23", "Imported block diagrams keep every block equation",
	"Importing a block diagram turns every gain, sum, delay, constant connection, input and output port into the equation the block denotes (signs, repeated connections, delay lengths and port numbers included), and the assembled coefficient blocks hold each equation coefficient in the row of its variable and the column of its operand. "
	"Expansion of nested subsystems neither loses nor merges connections, cascades of sums and gains are kept whole, and a diagram with an algebraic loop, an unknown block or a missing parameter is refused.",
	["programs", "inputs"], "all diagrams made of the supported blocks",
	STABLE + "One sample diagram is imported, and its result is not compared with anything.",
	["fixif/Structures/Simulink/Simulink.py", "fixif/Structures/Simulink/blocks.py", "fixif/Structures/Simulink/diagram.py", "fixif/Structures/Simulink/sif.py"],
	[("block equations", "blocks.py"), ("assembly", "sif.py")])

prop("C24", "Iterative constructions make progress and terminate",
	"Every data-driven loop of the library (reduction of zero states, retry of random draws, expansion of diagrams, search over word-lengths) changes the state its exit depends on in every iteration, the counters that bound a loop get closer to their bound on every path, no draw that can never be accepted is kept while others are drawn again, and no function calls itself on all its paths. The reduction of a state-space ends and keeps its response.",
	["inputs"], "all arguments, all loops not bounded by a range or a finite sequence",
	STABLE + "Non-termination only occurs for particular ranks or probabilities.",
	["fixif/LTI/dSS.py", "fixif/LTI/Gabarit.py", "fixif/SIF/Realization_FxP.py", "fixif/Structures/Simulink/diagram.py", "fixif/func_aux"],
	[("while loops", "dSS.simplify, random_dSS, diagram expansion")])

prop("C25", "Reported operation counts and structure predicates match coefficients",
	"For a realization built from its coefficients, the reported numbers of multiplications and additions are those of the sums the realization needs (non-trivial coefficients; non-zero coefficients minus one per row, unit diagonal excluded), a coefficient counts as trivial only when it is zero or a power of two within the tolerance, and the strict-lower-part predicate is true exactly when the state matrix has a non-zero entry below its diagonal.",
	["inputs"], "all coefficient patterns",
	STABLE + "No test checks counts against an independent enumeration.",
	["fixif/SIF/SIF.py"],
	[("counts", "SIF.nbOp, isTrivial, SIF.isPnut")])

prop("C26", "Worst-case gains are numerically guaranteed",
	"Every worst-case peak gain and every frequency-specification verdict reported is a reliable enclosure at the requested precision.",
	["inputs"], "all systems",
	"Needs external certified libraries and a bound on numerical error.",
	["fixif/LTI/dSS.py", "fixif/LTI/wcpg.sol", "fixif/LTI/gabarit.sol"],
	[("external libraries", "WCPG, Sollya")])

prop("C27", "Lattice and wave realizations keep the filter they are built from",
	"For every filter order and coefficients, each Li-Gevers-Sun, Li-Chu-Wu and lattice wave realization has the input-output behaviour of its source filter.",
	["inputs"], "all orders and coefficients",
	"Orthogonal-transform recurrences over floating-point numbers; sampled tests cannot cover all orders.",
	["fixif/Structures/LGS_LCW/LGS_LCW.py", "fixif/Structures/LWDF/LWDF.py"],
	[("orthogonal realizations", "LGS_LCW, LWDF")])

if __name__ == '__main__':
	out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
	with open(out, 'w') as f:
		for p in P:
			f.write(json.dumps(p) + "\n")
	print(len(P), "properties")
