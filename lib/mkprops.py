"""Writes properties.jsonl (the list is kept here to be editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Untruncated runs give the exact many-body spectrum in every symmetry",
  "When no state is discarded, the energies, quantum numbers and multiplicities reported for a chain equal those of the exact diagonalisation of the Hamiltonian described by the input file. This holds for every supported symmetry type, channel count and chain variant (spin-polarised, 2x2-polarised, rung-coupled, superconducting), and the reported degeneracies add up to the dimension of the Hilbert space.",
  ["inputs", "configurations"],
  "for every symmetry type, number of channels, chain length, set of chain coefficients and seed for which no truncation takes place",
  "The engine tests compare a handful of stored runs of a few symmetry types with reference files produced by the same code; the matrix-element tables of most symmetry types and channel counts are never compared with anything independent, and here the engine is not built at all.",
  ["c++/sym-*.cc", "c++/symmetry/coefnew", "c++/symmetry.hpp", "c++/core.hpp", "c++/nrg-general.hpp", "c++/coef.hpp", "c++/read-input.hpp", "c++/mk_sym.hpp", "c++/recalc.hpp"],
  [("Hamiltonian construction per invariant subspace", "c++/core.hpp, sym-*.cc make_matrix"), ("irreducible matrix elements recalculated after each step", "c++/symmetry.hpp recalc_irreducible, symmetry/coefnew"), ("input parsing", "c++/read-input.hpp")],
  [("eigenspectrum", "map from invariant subspace to eigenvalues", "c++/eigen.hpp DiagInfo")],
  ["energies.nrg", "absolute_energies.dat", "annotated.dat"])
p("C02", "Thermodynamic output equals the canonical averages of the spectrum",
  "At the temperature of a chain with no discarded states, the reported charge and spin moments, energy, heat capacity, free energy and entropy equal the canonical averages of the exact spectrum, with every multiplet weighted by its full degeneracy. The same holds for thermodynamic expectation values of user-defined operators.",
  ["inputs", "configurations"], "for every symmetry type, chain length, coefficient set and temperature scale of an untruncated run",
  "Tests pin the numbers of a few runs to stored output; a wrong degeneracy factor or operator in another symmetry type, or a wrong moment, is invisible.",
  ["c++/measurements.hpp", "c++/symmetry.hpp", "c++/sym-*.cc", "c++/params.hpp", "c++/nrg-general.hpp", "c++/outfield.hpp"],
  [("weighted traces over the shell spectrum", "c++/measurements.hpp calculate_TD"), ("degeneracy and quantum-number operators", "c++/sym-*.cc calculate_TD, mult")],
  observe=["td", "tdfdm", "custom", "customfdm"])
p("C03", "Untruncated spectral functions and Green's functions are exact",
  "For a chain with no discarded states every algorithm for dynamical quantities yields the exact Lehmann representation: each excitation appears with its exact weight and frequency, on the real axis up to the documented binning and on the Matsubara axis exactly. Different algorithms, operator kinds (fermionic, spin, quadrupolar, singlet) and symmetry types describing the same system agree.",
  ["inputs", "configurations"], "for every algorithm, operator kind, symmetry type and chain without truncation, at every temperature",
  "Stored reference curves cover a few algorithm/symmetry pairs and were generated by the same code; correctness of the weights (Clebsch-Gordan factors, signs, fermionic/bosonic statistics, density matrix) has no independent oracle in the tests.",
  ["c++/algo_FT.hpp", "c++/algo_DMNRG.hpp", "c++/algo_FDM.hpp", "c++/algo_CFS.hpp", "c++/dmnrg.hpp", "c++/oprecalc.hpp", "c++/spectral.hpp", "c++/spectrum.hpp", "c++/bins.hpp", "c++/matsubara.hpp"],
  [("per-shell accumulation of transition weights", "c++/algo_*.hpp calc"), ("spin factors", "c++/symmetry.hpp specdens_factor"), ("reduced density matrices", "c++/dmnrg.hpp")],
  observe=["spec_*.bin", "*.dat spectral files"])
p("C04", "Density matrices and spectral weight stay normalised under truncation",
  "Whatever states are truncated, the density matrix of every shell has trace one, the weights of all shells in the full density matrix add up to one, and the total weight of a complete-basis spectral function equals the exact equal-time expectation value (one for a canonical fermion). Retained and discarded states together count every state of the full chain exactly once.",
  ["inputs", "configurations"], "for every truncation setting, temperature, symmetry type and chain length",
  "Sum rules must hold for all truncations; the tests only compare digits of some runs, so an error that shifts weight between shells can be absorbed in a reference file.",
  ["c++/dmnrg.hpp", "c++/store.hpp", "c++/algo_FDM.hpp", "c++/algo_CFS.hpp", "c++/nrg-general.hpp"],
  [("shell weights of the full density matrix", "c++/dmnrg.hpp calc_ZnD, fdm weights"), ("backward iteration", "c++/dmnrg.hpp calc_densitymatrix_iterations")],
  observe=["spec_FDM_*.bin weights", "spec_CFS_*.bin weights", "log of shell weights"])
p("C05", "Truncation keeps exactly the states the parameters ask for",
  "After every step the retained states are the lowest ones in energy across all subspaces: no discarded state lies below a retained one and near-degenerate states are never split. The number retained obeys the requested fixed count, energy window with minimum and maximum, and safeguard parameters, and everything is retained where the parameters say so.",
  ["inputs", "configurations"], "for every spectrum and every setting of the truncation parameters",
  "It must hold for all spectra and parameter combinations, including ties at the cut, one-state limits and the safeguard bound; stored runs exercise one or two settings.",
  ["c++/truncation.hpp", "c++/eigen.hpp", "c++/step.hpp", "c++/nrg-general.hpp"],
  [("highest retained energy", "c++/truncation.hpp highest_retained_energy"), ("per-subspace truncation", "c++/eigen.hpp truncate_prepare/perform")],
  observe=["energies.nrg", "subspaces.dat", "log"])
p("C06", "Each step builds exactly the subspaces its retained parents generate",
  "In every step the invariant subspaces are those reachable from the retained subspaces of the previous step by adding one site, no more and no fewer, and the dimension of each is the sum of the retained counts of its contributing parents. Nothing outside the allowed quantum numbers appears and no allowed combination is lost.",
  ["histories", "configurations"], "for every history of truncations and every symmetry type",
  "The bookkeeping must be right for every pattern of kept states along a run; tests compare only final numbers of fixed runs.",
  ["c++/core.hpp", "c++/subspaces.hpp", "c++/symmetry.hpp", "c++/sym-*.cc", "c++/nrg-general.hpp"],
  [("subspace enumeration and ancestor ranges", "c++/subspaces.hpp, c++/nrg-general.hpp / core.hpp"), ("triangle inequality", "c++/sym-*.cc triangle_inequality")],
  observe=["subspaces.dat", "energies.nrg"])
p("C07", "Partial diagonalisation retries until every needed state is computed",
  "When only a part of the eigenvalues of each subspace is computed, a step is repeated with more states until the retained set could not have been changed by the states that were left out. The results of such a run equal those of full diagonalisation for every retained state.",
  ["inputs", "configurations"], "for every spectrum, initial fraction, restart factor and truncation setting",
  "Whether the retry triggers depends on where the uncomputed eigenvalues lie; the tests only run spectra where one outcome occurs.",
  ["c++/diag.hpp", "c++/core.hpp", "c++/truncation.hpp", "c++/nrg-general.hpp", "c++/eigen.hpp"],
  [("not-enough detection and restart loop", "c++/truncation.hpp, c++/core.hpp do_diag")],
  observe=["energies.nrg", "log restart messages"])
p("C08", "Results do not depend on the computational strategy",
  "The physical output is independent of how it is computed: diagonalisation routine, thread count, parallel splitting, MPI process count, eigenvector storage mode and substep site-addition give the same output up to rounding.",
  ["configurations", "schedules"], "for every combination of strategy settings on the same problem",
  "The combinations and the schedules of threads and processes cannot be enumerated by fixed reference runs; most strategies are never run by tests.",
  ["c++/diag.hpp", "c++/diag_serial.hpp", "c++/diag_openmp.hpp", "c++/diag_mpi.hpp", "c++/recalc.hpp", "c++/blas_gemm.hpp", "c++/core.hpp", "c++/params.hpp"],
  [("strategy selection", "c++/nrg-general.hpp select_diag_engine; c++/diag.hpp"), ("parallel loops over subspaces", "c++/diag_openmp.hpp, c++/diag_mpi.hpp")],
  observe=["energies.nrg", "td", "spectra"])
p("C09", "Distributed diagonalisation hands out every subspace exactly once",
  "In a distributed run each subspace is diagonalised exactly once, its result is stored under its own quantum numbers whatever the order of worker replies, no task is lost, and every worker terminates when the master does, on success as well as on failure of a worker.",
  ["schedules", "fault_sequences"], "for every number of workers, order of message arrival and worker failure",
  "Message orders are nondeterministic; tests, when run at all, see one order.",
  ["c++/diag_mpi.hpp", "c++/nrg-lib.cc"],
  [("master/worker protocol", "c++/diag_mpi.hpp"), ("worker loop", "c++/nrg-lib.cc run_nrg_slave")],
  observe=["message trace", "exit status", "energies.nrg"])
p("C10", "Success is reported only for complete runs",
  "A run writes its completion marker and exits with status zero only if every requested stage finished and every output was written; on any failure (bad input, unreadable or unwritable file, full disk) it terminates with a nonzero status, says why, and leaves no completion marker from this run. ",
  ["fault_sequences", "inputs"], "for every single failing file operation and every malformed input",
  "Faults at each file operation are not injected by tests.",
  ["c++/nrg-lib.cc", "c++/nrg.cc", "c++/nrg-general.hpp", "c++/output.hpp", "c++/io.hpp", "c++/read-input.hpp"],
  [("top-level error handling", "c++/nrg.cc, c++/nrg-lib.cc"), ("checked streams", "c++/io.hpp, c++/output.hpp")],
  observe=["exit status", "DONE file", "stderr"])
p("C11", "Checkpoint files appear atomically",
  "If the process is killed at any moment, every checkpoint file visible under its final name is complete: it is never a partial or mixed file.",
  ["crash_points"], "for every file operation at which the process may be killed",
  "Crash points are not explored by tests.",
  ["c++/eigen.hpp", "c++/operators.hpp", "c++/store.hpp", "c++/workdir.hpp"],
  [("write to temporary then rename", "c++/eigen.hpp DiagInfo::save, c++/operators.hpp DensMatElements::save")],
  observe=["work directory after the kill"])
p("C12", "A damaged or missing checkpoint is never used silently",
  "If a checkpoint file that a later stage needs is missing, truncated, or does not match, the run fails with an error instead of continuing with partial data. No result derived from such a file is reported as complete.",
  ["fault_sequences"], "for every checkpoint file and every truncation length",
  "Tests load only intact files.",
  ["c++/eigen.hpp", "c++/operators.hpp", "c++/dmnrg.hpp", "c++/io.hpp"],
  [("transactional load", "c++/eigen.hpp DiagInfo::load, c++/operators.hpp load")],
  observe=["exit status", "DONE", "stderr"])
p("C13", "Temporary files live in a private directory that is always cleaned up",
  "Every run uses its own fresh work directory below the requested location, concurrent runs never share one, nothing is written or deleted outside it except the documented outputs, and it is gone after every orderly termination, including termination by an error. Checkpoints are removed or kept as requested.",
  ["schedules", "configurations", "fault_sequences"], "for every location setting, concurrent schedule and error exit",
  "It involves concurrent processes and failing runs.",
  ["c++/workdir.hpp", "c++/nrg-lib.cc", "c++/dmnrg.hpp", "c++/params.hpp"],
  [("unique directory creation and removal", "c++/workdir.hpp")],
  observe=["file system"])
p("C14", "The parameter file is interpreted by its documented grammar",
  "Each parameter takes the value given in the parameter section, or its default; values are parsed completely, and unknown or repeated names, malformed values and missing sections are rejected or reported as documented. Settings in other sections, comments and white space never change a result.",
  ["inputs"], "for every parameter file",
  "The input grammar is unbounded; tests use well-formed files.",
  ["c++/params.hpp", "c++/misc.hpp", "tools/common/parser.hpp"],
  [("parser", "c++/misc.hpp parser"), ("parameter table", "c++/params.hpp")],
  observe=["log of parameters", "exit status", "results"])
p("C15", "Binning and energy-window patching conserve spectral weight",
  "Each transition is counted exactly once in a patched spectrum: windows of neighbouring shells overlap with weights that sum to one, and positive and negative frequencies are treated alike. Depositing a weight in the frequency bins preserves the total and never moves it beyond the two adjacent bins.",
  ["inputs", "configurations"], "for every patching scheme, discretisation parameter, chain length and excitation energy in the covered range",
  "It is a statement over all energies and patching parameters.",
  ["c++/spectrum.hpp", "c++/bins.hpp", "c++/spectral.hpp", "c++/algo_FT.hpp"],
  [("windowing functions", "c++/spectrum.hpp"), ("bin deposit", "c++/bins.hpp")],
  observe=["spec_*.bin"])
p("C16", "Merging binary spectra conserves weight and order",
  "The tools that merge raw binary spectra of several calculations produce one strictly ascending grid in which each frequency occurs once with the sum of all contributions divided by the number of calculations; no weight is lost, duplicated or moved. Moments, Matsubara values and broadened curves derived from them are those of the merged spectrum.",
  ["inputs"], "for every set of input files, interleaving of grids and duplicates",
  "The set of grids is unbounded; tests use a few files.",
  ["tools/binavg/binavg.cc", "tools/mats/mats.cc", "tools/specmoments/specmoments.cc", "tools/broaden/broaden.cc", "tools/bw/bw.cc"],
  [("merge of sorted frequency lists", "tools/*/ merge"), ("normalisation by the number of calculations", "tools/*/")],
  observe=["tool outputs"])
p("C17", "Text averages are pointwise means on the union of the grids",
  "Averaging tabulated curves gives, at every point of the union of the abscissae of the inputs, the mean of the inputs interpolated there; every abscissa appears once, blocks and columns are never mixed.",
  ["inputs"], "for every set of files with arbitrary interleaved grids",
  "Interleavings of grids and block structures are unbounded.",
  ["tools/intavg/intavg.cc", "tools/tdavg/tdavg.cc", "tools/common/linint.hpp", "tools/common/basicio.hpp"],
  [("mesh union and interpolation", "tools/intavg/intavg.cc, tools/tdavg/tdavg.cc")], observe=["tool outputs"])
p("C18", "Template expressions evaluate by ordinary algebra",
  "Arithmetic in templates (precedence, associativity, unary signs, functions, parameters, chain coefficients, lists and matrices) evaluates as in ordinary algebra, and when a template is instantiated everything outside the expressions is copied unchanged and every placeholder is filled with the value it stands for. Invalid expressions, undefined names, divisions by zero, indices out of range and inconsistent templates are reported with an error status and never pass as a result.",
  ["inputs", "programs"], "for every template and parameter set",
  "The expression language is unbounded; tests evaluate a few templates.",
  ["tools/matrix/matrix.cc", "tools/matrix/parser.yy", "tools/matrix/parser.cc", "tools/matrix/matrix.ll", "tools/instantiate/instantiate.cc", "tools/instantiate/matrix_evaluator.hpp"],
  [("grammar", "tools/matrix/parser.yy"), ("evaluator", "tools/instantiate/instantiate.cc")], observe=["stdout", "exit status"])
p("C19", "The tridiagonalisation reproduces the star Hamiltonian exactly",
  "The chain coefficients produced from a discretised bath reproduce it: the tridiagonal matrix has the moments and spectral measure of the discretised hybridisation function, for each band sign structure. Tables written by one run can be read back to give the same result.",
  ["inputs", "configurations"], "for every discretised bath, chain length and precision",
  "All baths cannot be enumerated; tests compare stored tables.",
  ["tools/nrgchain/nrgchain.cc", "c++/tridiag.hpp"],
  [("Lanczos recursion in extended precision", "tools/nrgchain/nrgchain.cc, c++/tridiag.hpp")], observe=["xi.dat", "zeta.dat", "theta.dat"])
p("C20", "Tools reject missing, short or inconsistent input",
  "A tool given missing, empty, truncated or inconsistent input terminates with a nonzero status and a message and writes no result that looks complete.",
  ["inputs", "fault_sequences"], "for every tool and every truncation or removal of one of its inputs",
  "Error paths are mostly untested and their number grows with inputs.",
  ["tools/*/*.cc", "tools/common"],
  [("input checks", "tools/*")], observe=["exit status", "stderr", "outputs"])
p("C21", "Numerical helper tools satisfy their exact identities",
  "The helper tools for diagonalisation, integration, basis rotation and Hilbert-type transforms return results that satisfy the defining identities of the operation (spectrum with right power sums and characteristic polynomial, exact integrals of interpolants, products of matrices) for every input and option combination.",
  ["inputs", "configurations"], "for every matrix or table and option combination",
  "Tests pin a few outputs.",
  ["tools/diag/diag.cc", "tools/integ/integ.cc", "tools/unitary/unitary.cc", "tools/bw/bw.cc", "tools/kk/kk.cc", "tools/hilb/hilb.cc"],
  [("LAPACK driver", "tools/diag/diag.cc"), ("quadrature", "tools/integ/integ.cc")], observe=["stdout"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
