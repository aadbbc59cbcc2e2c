"""Regenerate properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = ["inputs"]


def P(pid, title, statement, over, qtext, why, files, mech, observe, technique, note):
    return dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note)


PROPS = [
 P("C01", "Lattice Green's functions are the exact local propagators of their lattice",
   "For every lattice and every complex frequency off the spectrum, the lattice Green's function equals the"
   " Brillouin-zone (or density-of-states) average of the resolvent for that half-bandwidth and those lattice"
   " parameters. It is analytic and causal on each half plane (Im G has the opposite sign of Im z), symmetric under"
   " conjugation, decays like 1/z, and scales with the half-bandwidth. This holds up to the band edges and van Hove"
   " points, far away from the band, and for every scalar/array form of the argument.",
   IN, "all complex frequencies, half-bandwidths, coordination numbers / scales, argument shapes",
   "Tests sample a bounded box with one or two half-bandwidths; branch-cut choices, series switches and"
   " cancellations live in thin regions (edges, van Hove points, large |z|, other half plane, scaled units).",
   ["gftool/lattice/*.py", "gftool/__init__.py"],
   [("closed forms in elliptic integrals and branch choices", "gftool/lattice/*.py: gf_z")],
   ["gf_z of each lattice module and the top-level aliases"],
   "runtime monitor: independent Brillouin-zone oracle plus analyticity/causality trace checks on hostile inputs",
   "Exploration: every executed point is compared with an independent Brillouin-zone average or an analytic"
   " identity; nothing is claimed for points never executed. Trusts numpy, mpmath and the written dispersions."),
 P("C02", "Lattice DOS is the spectral function of its lattice",
   "For every lattice the density of states is non-negative, vanishes outside of the band, equals -Im G/pi on the real"
   " axis, and reproduces the Brillouin-zone average of any resolvent (in particular it integrates to the spectral"
   " weight of the dispersive bands). It scales with the half-bandwidth, is symmetric for bipartite lattices, and"
   " agrees with its multi-precision counterpart, for integer and real energies in every argument form.",
   IN, "all real energies incl. integers, edges, van Hove neighbourhoods; all half-bandwidths; all array forms",
   "Tests integrate a few fixed half-bandwidths and compare selected points; support, edges, integer energies and"
   " scaled singular points are only sampled.",
   ["gftool/lattice/*.py"], [("piecewise closed forms", "gftool/lattice/*.py: dos, dos_mp")],
   ["dos and dos_mp of each lattice module"],
   "runtime monitor: double-exponential quadrature of the observed DOS against Brillouin-zone resolvents; pointwise"
   " spectral identity",
   "Exploration over random energies/half-bandwidths; quadrature limits the integral oracle to 1e-6..1e-7."),
 P("C03", "Tabulated DOS moments are the moments of the lattice",
   "For every lattice and half-bandwidth, the moments returned for any requested orders are the moments of its density"
   " of states: the Brillouin-zone averages of powers of the dispersion. They generate the high-frequency expansion of"
   " the Green's function and equal the numerical moments of the DOS; unknown orders are refused rather than"
   " approximated.",
   IN, "all supported orders in any shape/order/repetition, all half-bandwidths",
   "Tests compare a few low orders against quadrature with loose tolerance for one half-bandwidth.",
   ["gftool/lattice/*.py"], [("moment tables / closed forms", "gftool/lattice/*.py: dos_moment")],
   ["dos_moment of each lattice module"],
   "runtime monitor: moments recomputed from the dispersion, tail of the observed Green's function",
   "Exploration; all tabulated orders are compared, so order coverage is complete up to the tables' end."),
 P("C04", "Statistics functions are exact over their whole domain",
   "The Fermi function, its derivative and inverse, the Bose function, and the fermionic/bosonic Matsubara frequencies"
   " equal their mathematical definitions for every real or complex energy and every inverse temperature, without"
   " overflow or loss of relative accuracy. The Padé frequencies and residues of any order are positive, ordered,"
   " of the requested number, and give the partial-fraction expansion of the Fermi function whose error vanishes with"
   " the order.",
   IN, "real/complex/integer energies from 1e-300 to 1e6, beta over many decades, all index arrays, Padé orders",
   "Tests use bounded energies with loose tolerance; overflow regimes, complex arguments, and orders are infinite"
   " families.",
   ["gftool/statistics.py"], [("stable logistic / expm1 forms, companion eigenproblem", "gftool/statistics.py")],
   ["fermi_fct, fermi_fct_d1, fermi_fct_inv, bose_fct, matsubara_frequencies(_b), pade_frequencies"],
   "runtime monitor: 50-digit mpmath oracle on each observed value; partial-fraction identity for Padé frequencies",
   "Exploration against a 50-digit reference."),
 P("C05", "Pole representation is consistent across z, tau, real time, moments",
   "For any poles and residues (scalars, lists or batches) the pole Green's function in complex frequency, its"
   " derivative, imaginary time, retarded time, the moments and the occupation all describe the same spectral"
   " function sum_j r_j delta(e-e_j). They equal their mathematical definition for every frequency, time and"
   " temperature including extremes, satisfy the (anti)periodic boundary conditions, and the object interface returns"
   " the same as the functions.",
   IN, "poles, residues, batch shapes, beta over decades, frequencies and times, list/int/scalar forms",
   "Tests use a few random poles and one temperature scale; overflow, broadcasting and bosonic forms are infinite"
   " families.",
   ["gftool/basis/pole.py", "gftool/__init__.py", "gftool/fourier.py"],
   [("gufuncs pole_gf_*", "gftool/basis/_pole.py")],
   ["pole_gf_z, pole_gf_d1_z, pole_gf_tau, pole_gf_tau_b, pole_gf_ret_t, pole_gf_moments, PoleGf, PoleFct"],
   "runtime monitor: mpmath/explicit-sum oracle and boundary-condition checkers on observed values",
   "Exploration against explicit sums in higher precision."),
 P("C06", "Pole fits honour their constraints and are optimal",
   "Fitting poles to moments, to Matsubara data or to imaginary-time data returns a representation that exactly"
   " reproduces the requested high-frequency moments (and the occupation, where requested). Among all residues on the"
   " same poles meeting those constraints it minimizes the weighted squared deviation from the data, for every batch"
   " shape, weight and moment count.",
   IN, "data (consistent and noisy), moments, number of poles, weights, batch shapes, beta",
   "Tests check a few well-conditioned samples; optimality and constraints are for-all statements over data.",
   ["gftool/basis/pole.py", "gftool/linalg.py"], [("equality constrained least squares", "gftool/linalg.py: lstsq_ec")],
   ["gf_from_moments, gf_from_z, gf_from_tau, PoleGf.from_*"],
   "runtime monitor: constraint residual and KKT optimality of each observed fit",
   "Exploration; optimality is decided per observed fit by the normal equations on the constraint null space."),
 P("C07", "Matsubara Fourier transforms invert and reproduce known functions",
   "Transforming between Matsubara frequencies (or Padé frequencies) and imaginary time reproduces the exact"
   " counterpart for every function with a pole representation, within the accuracy documented for the method, and is"
   " linear, batch-wise and consistent with supplied moments or fits. Forward and backward transformation are mutually"
   " inverse, for fermions and bosons, for all Green's functions real in imaginary time.",
   IN, "spectral functions, beta, grid sizes, moments supplied, fit sizes, batch shapes",
   "Tests use a handful of sizes and pole sets; grid parity, boundary points, moments and batches form an infinite"
   " family.",
   ["gftool/fourier.py"], [("FFT with tail/pole subtraction", "gftool/fourier.py")],
   ["iw2tau, iw2tau_dft(_soft), tau2iv(_dft,_ft_lin), tau2iw(_dft,_ft_lin), izp2tau, tau2izp"],
   "runtime monitor: exact pole reference, exact discrete sums, linearity and round-trip checkers",
   "Exploration; discretized transforms are compared with an exact evaluation of the documented discrete formula."),
 P("C08", "Laplace transforms of retarded time data are the documented transforms",
   "For every time grid and every frequency in the upper half plane, the trapezoidal, Simpson and linear-spline"
   " transforms equal the documented quadrature of the data, independent of batch shape and evaluation strategy. The"
   " extrapolating variants (Padé, Hermite-Padé, linear-prediction-z) reproduce exactly functions inside their"
   " approximation class; bad grids are refused.",
   IN, "time data, grids, frequencies incl. 0 and large, batch shapes",
   "Tests sample a few functions; quadrature weights, grid parity and batch axes are infinite families.",
   ["gftool/fourier.py"], [("tt2z family", "gftool/fourier.py")],
   ["tt2z, tt2z_trapz, tt2z_simps, tt2z_lin, tt2z_pade, tt2z_herm2, tt2z_lpz"],
   "runtime monitor: exact quadrature sums / exponentials in the approximation class as oracle",
   "Exploration against independent re-evaluation of the documented formula."),
 P("C09", "Densities from Matsubara data and the root search are correct",
   "The occupation computed from Matsubara (or Padé) data of any pole-type Green's function converges to the exact"
   " occupation within the reported error scale, with or without potential, for scalar, batched and matrix input. The"
   " chemical-potential search returns a root of the occupation mismatch for every monotone occupation function and"
   " never silently returns a non-root.",
   IN, "spectral functions, potentials (scalar/vector/matrix), beta, moments, monotone occupation functions",
   "Tests use a few fixed lattices and temperatures.",
   ["gftool/density.py", "gftool/__init__.py"], [("tail-corrected sums, bracketing search", "gftool/density.py")],
   ["density_iw, density, density_error, density_error2, check_convergence, chemical_potential"],
   "runtime monitor: exact occupations of known spectra as oracle; trace checker of root search evaluations",
   "Exploration."),
 P("C10", "CPA solutions satisfy the coherent-potential condition",
   "For every converged coherent-potential solution, the concentration-averaged component Green's function equals the"
   " lattice Green's function of the effective medium, component Green's functions are those of each local level in"
   " that medium, and the result is causal and reduces to the exact limits (one component, identical components,"
   " atomic limit). The fixed-occupation solver additionally yields the requested occupation.",
   IN, "concentrations, local levels, frequencies, lattices, starting guesses, occupations, batch shapes",
   "Tests check few fixed parameters.",
   ["gftool/cpa.py"], [("fixed-point / root solve", "gftool/cpa.py")],
   ["solve_root, solve_fxdocc_root, gf_cmpt_z, self_root_eq, self_fxdpnt_eq"],
   "runtime monitor: self-consistency residual and causality of each observed solution",
   "Exploration."),
 P("C11", "BEB solutions satisfy the matrix self-consistency",
   "For every converged Blackman-Esterling-Berk solution, the local matrix Green's function equals the component"
   " average of the effective medium with the given relative hoppings, is causal, and the component-diagonal result"
   " reduces to the CPA for equal hoppings and to independent alloys/the clean lattice in the exact limits.",
   IN, "concentrations, levels, hopping matrices (full and deficient rank), frequencies, batch shapes",
   "Tests check few fixed parameters.",
   ["gftool/beb.py"], [("singular-value / eigen decomposition of the hopping", "gftool/beb.py")],
   ["solve_root, gf_loc_z, self_root_eq, restrict_self_root_eq"],
   "runtime monitor: self-consistency residual, causality and CPA limit of each observed solution",
   "Exploration."),
 P("C12", "Matrix decompositions reconstruct functions of matrices exactly",
   "For every (batched) diagonalizable matrix the decomposition reconstructs the matrix, and functions applied to the"
   " eigenvalues reconstruct the corresponding matrix function (inverse, shifted inverse, powers) in full and diagonal"
   " form. Hermitian, general and unitary-type decompositions agree where they overlap, keep their ordering"
   " guarantees, and the closed form for two-by-two inverses equals matrix inversion.",
   IN, "matrices (hermitian, general, batched, degenerate), eigenvalue functions, requested forms",
   "Tests use few random matrices and shapes.",
   ["gftool/matrix.py"], [("eig/eigh/svd wrappers, einsum reconstruction", "gftool/matrix.py")],
   ["Decomposition, UDecomposition, decompose_mat, decompose_gf, decompose_sym, construct_gf, gf_2x2_z"],
   "runtime monitor: direct linear algebra as oracle for each observed decomposition", "Exploration."),
 P("C13", "Padé continuation is exact on rational data; averaging keeps its rules",
   "A Padé approximant built from any set of points interpolates these points and reproduces every rational function"
   " of matching degree anywhere in the complex plane, for every batch shape and number of coefficients. Averaged"
   " continuation equals mean and standard deviation over exactly the approximants accepted by the validity and kind"
   " rules, refuses when none is left, and filters reject exactly what they document.",
   IN, "sample points, values, kinds/degree ranges, filters, batch shapes, evaluation points",
   "Tests check a few functions; index arithmetic between coefficients and approximant degrees is for all ranges.",
   ["gftool/pade.py"], [("Thiele recursion, iterators and averagers", "gftool/pade.py")],
   ["coefficients, masked_coefficients, calc_iterator, Averager, Mod_Averager, averaged, avg_no_neg_imag, filters"],
   "runtime monitor: exact rational oracle, event log of accepted approximants compared with an independent average",
   "Exploration."),
 P("C14", "Padé and Hermite-Padé approximants match the series they are built from",
   "For every power series, the (robust, least-squares, quadratic) Padé forms have the requested degrees, are"
   " normalized as documented, and their error begins only beyond the order the coefficients determine. Evaluated"
   " approximants reproduce rational (or square-root) functions of matching type everywhere on the branch of the"
   " series; the robust version reduces the degrees for rational functions of lower degree and still reproduces them.",
   IN, "series coefficients (real, complex, degenerate), degrees, evaluation points",
   "Tests use a few known functions.",
   ["gftool/hermpade.py"], [("Toeplitz solves, SVD deflation, branch selection", "gftool/hermpade.py")],
   ["pade, pade_lstsq, pader, hermite2, hermite2_lstsq, Hermite2"],
   "runtime monitor: Taylor-order checker and exact functions in the class as oracle", "Exploration."),
 P("C15", "Pole-fitting continuation recovers pole functions",
   "For Matsubara-type data of every finite sum of simple poles, the pole continuation reproduces the data and returns"
   " the poles and residues, honouring requested asymptotic degree, weights and moments. The"
   " reported number of poles and asymptotic coefficients are consistent with the data.",
   IN, "pole sets, sampling points, weights, degrees, moments",
   "Tests use single examples.",
   ["gftool/polepade.py"], [("least squares numerator/denominator + SVD", "gftool/polepade.py")],
   ["poles, zeros, residues_ols, asymptotic, number_poles, continuation"],
   "runtime monitor: known pole functions as oracle, optimality residual of observed fits", "Exploration."),
 P("C16", "Linear prediction continues sums of damped exponentials",
   "For data that is a finite sum of exponentials, the covariance method's prediction coefficients continue the"
   " series to any length exactly; Burg's coefficients are those of Burg's recursion and always stable. Prediction"
   " keeps the given data and obeys the recursion for every batch shape. The stabilized prediction never amplifies:"
   " its modes are bounded while decaying modes are unchanged.",
   IN, "exponential sums, orders, horizons, batch shapes, stable flag",
   "Tests use single examples.",
   ["gftool/linearprediction.py"], [("PCoeff fits, companion matrix", "gftool/linearprediction.py")],
   ["pcoeff_covar, pcoeff_burg, predict, companion"],
   "runtime monitor: analytic continuation of the exponential sum as oracle; boundedness monitor", "Exploration."),
 P("C17", "Constrained least squares solves the constrained problem",
   "For every full-rank system the equality-constrained least-squares solution satisfies the constraints exactly and"
   " minimizes the residual among all vectors doing so, for one or several right-hand sides, and without constraints"
   " equals ordinary least squares with the given cut-off. The orthogonal complement of every stacked matrix is"
   " orthonormal, orthogonal to the input and completes it to the full space.",
   IN, "matrices, right-hand sides, ranks, batch shapes, cut-offs",
   "Tests use few random systems.",
   ["gftool/linalg.py"], [("SVD null-space method", "gftool/linalg.py")],
   ["lstsq_ec, orth_compl"],
   "runtime monitor: constraint and KKT residual of each observed solution", "Exploration."),
 P("C18", "SIAM Green's functions agree with exact diagonalization of the star",
   "For every set of bath levels, hoppings and on-site energy, the non-interacting impurity Green's function in"
   " frequency and in real time (greater, lesser, retarded), the hybridization function and the Hamiltonian matrix"
   " describe the same star-geometry model. They match exact diagonalization at any temperature and batch shape,"
   " including degenerate and decoupled levels.",
   IN, "bath parameters, beta, times, frequencies, batch shapes, dtypes",
   "Tests use few examples.",
   ["gftool/siam.py"], [("eigen-decomposition of the arrowhead matrix", "gftool/siam.py")],
   ["gf0_loc_z, gf0_loc_ret_t, gf0_loc_gr_t, gf0_loc_le_t, hybrid_z, hamiltonian_matrix"],
   "runtime monitor: independent diagonalization as oracle", "Exploration."),
 P("C19", "Closed-form interacting Green's functions match exact references",
   "The Hubbard dimer Green's function, the Hubbard-I self-energy and the surface Green's function equal exact"
   " many-body/matrix references for all interaction strengths, hoppings, fillings and frequencies (scalars, arrays,"
   " broadcast), and satisfy the Dyson equation, particle-hole symmetry and causality.",
   IN, "interaction, hopping, frequency, occupation, layer parameters",
   "Tests compare single parameter sets.",
   ["gftool/__init__.py"], [("closed forms", "gftool/__init__.py")],
   ["hubbard_dimer_gf_z, hubbard_I_self_z, surface_gf_zeps"],
   "runtime monitor: Fock-space diagonalization and finite-chain inversion as oracle", "Exploration."),
 P("C20", "Public functions are pure, deterministic, re-entrant and element-wise",
   "No public function changes its arguments, global numerical state or module state; the same call always returns"
   " the same result up to rounding, whatever was called (or failed) before and, for functions not based on mpmath's"
   " global context, from however many threads at once. Evaluating a batch equals evaluating each element separately,"
   " independent of memory layout.",
   ["inputs", "histories", "schedules"], "call histories, thread interleavings, memory layouts, read-only inputs",
   "Tests run single-threaded, once, in a fixed order on fresh writable arrays.",
   ["gftool/**/*.py"], [("vectorized functions without shared state", "gftool/**/*.py")],
   ["every exported function"],
   "runtime monitor: argument/global-state snapshots around each call, replay of histories under other orders and"
   " threads, comparison of logs",
   "Exploration of histories and schedules; data races visible only as wrong results or mutated state."),
 P("C21", "Retarded-time lattice Green's functions transform to the frequency ones",
   "The retarded-time Green's function of a lattice equals the Fourier integral of its density of states for every"
   " time (short, long, negative, scalar, list or array), half-bandwidth and centre (as tested: given in multiples of"
   " the half-bandwidth); it starts at -i, vanishes for negative times and is the inverse Laplace transform of the"
   " frequency Green's function.",
   IN, "times over many decades, half-bandwidths, centres, argument forms",
   "Tests compare a few times with loose tolerance.",
   ["gftool/lattice/bethe.py", "gftool/lattice/box.py"], [("Bessel / sinc closed forms", "gf_ret_t")],
   ["bethe.gf_ret_t, box.gf_ret_t"],
   "runtime monitor: high-precision Fourier integral oracle", "Exploration."),
 P("C22", "Zero-pole and rational representations evaluate the same function",
   "A rational function given by zeros, poles and amplitude evaluates to amplitude*prod(z-zeros)/prod(z-poles) for"
   " every argument and batch shape, and its reciprocal and rational-polynomial form describe the same function.",
   IN, "zeros, poles, amplitudes, batch shapes, arguments",
   "Tests evaluate few samples.",
   ["gftool/basis/__init__.py"], [("ZeroPole, RatPol", "gftool/basis")],
   ["ZeroPole, RatPol"],
   "runtime monitor: extended-precision products as oracle", "Exploration."),
 P("C23", "Invalid input is refused as documented, valid input never is",
   "Inputs documented as invalid (inconsistent sizes, too few data for the requested degree, more constraints than"
   " unknowns, asymmetric matrices, non-equidistant times, wrong half plane, non-positive bosonic poles, unknown"
   " moments, unsolvable root problems) raise the documented exception instead of returning numbers, whichever element"
   " of a batch is invalid. Inputs up to that boundary are accepted in every scalar or array form."
   " Optional arguments left out have their documented default, by keyword and by position alike.",
   IN, "invalid and boundary inputs of every documented error condition; valid inputs in all forms",
   "Tests trigger few of the documented errors and mostly with float arrays.",
   ["gftool/**/*.py"], [("argument checks", "gftool/**/*.py")], ["functions documenting Raises"],
   "runtime monitor: exception contract checker on hostile calls", "Exploration."),
 P("C24", "Bethe derivatives and inverse are consistent with the Green's function",
   "The first and second derivative of the Bethe Green's function are the derivatives of that function and the inverse"
   " returns the frequency belonging to a Green's function value, for every frequency off the band including very large"
   " ones, half-bandwidth and precision. The Hilbert transform of each lattice is its Green's function; the Bethe"
   " lattice of finite coordination interpolates between the chain and infinite coordination.",
   IN, "complex frequencies, half-bandwidths, coordination numbers",
   "Tests use numeric differences in a bounded box.",
   ["gftool/lattice/bethe.py", "gftool/lattice/bethez.py"],
   [("closed forms", "gf_d1_z, gf_d2_z, gf_z_inv")],
   ["gf_d1_z, gf_d2_z, gf_z_inv, hilbert_transform"],
   "runtime monitor: mpmath derivative oracle and round trips", "Exploration."),
 P("C25", "Multi-precision functions reach the working precision",
   "The multi-precision lattice functions return results accurate to the precision currently set (up to the"
   " conditioning next to a singular energy), for every energy or frequency and every half-bandwidth, not merely to"
   " double precision, and leave the global precision unchanged.",
   ["inputs", "configurations"], "working precisions, energies, half-bandwidths",
   "Tests compare with double precision values.",
   ["gftool/lattice/*.py"], [("mpmath closed forms", "dos_mp, gf_z_mp")],
   ["dos_mp of each lattice module, sc.gf_z_mp"],
   "runtime monitor: self-validation at doubled precision and independent high-precision integrals", "Exploration."),
 P("C26", "Units drop out; transforms and fits are linear",
   "A change of the unit of energy (inverse temperature and time accordingly) rescales every closed-form result, every"
   " transform, and every fit with given width by the corresponding power of that unit: no fixed absolute energy, time"
   " or amplitude scale enters. Fourier and Laplace transforms, densities, predictions, and least-squares fits are"
   " linear in their data (including the moments), also for noise; the amplitude of the data drops out of prediction"
   " coefficients and Padé denominators.",
   IN, "all units and amplitudes between 2^-100 and 2^100, all data, all arguments",
   "Tests use parameters of order one; absolute thresholds and cut-offs only act in other units, and non-linear"
   " shortcuts only on data tests do not draw.",
   ["gftool/**/*.py"], [("homogeneity of the closed forms, linear maps", "gftool/*.py")],
   ["lattice functions, statistics, poles, transforms, siam, models, cpa/beb equations, matrix, linalg, polepade"],
   "runtime monitor: metamorphic oracle on pairs of executions (power-of-two units, superposition)",
   "Exploration; iterative solvers and default-width fits have documented absolute tolerances and are not part of it."),
 P("C27", "Results depend on argument values, not on number types or byte order",
   "Every public function returns the same numbers (up to the rounding of the less precise type) whether a value is"
   " passed as integer or float (Python scalar, NumPy scalar or array), in single or double precision, in native or"
   " swapped byte order, as real or as complex number with zero imaginary part, or in extended precision; a number"
   " type it cannot handle is refused with a TypeError instead of being truncated silently.",
   IN, "all public functions, all subsets of their arguments, all supported number types",
   "Tests draw double precision data; results allocated with the type of an argument, integer arithmetic and silent"
   " casts only act on data of other types, e.g. read from files or typed as integers.",
   ["gftool/**/*.py"], [("result allocation, type promotion", "gftool/*.py")],
   ["all functions of the call catalogue"],
   "runtime monitor: metamorphic oracle on pairs of executions with converted arguments",
   "Exploration over a catalogue of functions; single precision with a tolerance of 1e-2, ill-conditioned non-linear"
   " fits are excluded from single precision; extended precision is compared to double accuracy only."),
]


def main():
    done, missing = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
            have = os.path.exists(os.path.join(HERE, "gfmon", "props", p["id"].lower() + ".py"))
            (done if have else missing).append(p)
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in done],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet (in progress)"} for p in missing],
        "notes": "All checks import gftool from /repo's working tree; no hooks in /repo are needed. Replay a violation"
                 " with `bash check.sh <ID> --replay <path>`.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print("claimed", [p["id"] for p in done])


main()
