"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {  # id -> (technique, level, note)
 "C01": ("TLA+ specification FreeChain solved with TLC; conformance: the engine's multiplets against the specification's, all symmetry types", "model_checking",
         "exact within the explored problems: every symmetry type and channel count (QS-4ch with one site), polarised, 2x2, rung-coupled, superconducting, substep, complex variants, randomised Krawtchouk chains with decoupled seeds; short chains"),
 "C02": ("TLA+ specification FreeChain (many-body states with their charges, energy-resolved traces of observables); conformance: td, tdfdm, custom, customfdm of the engine against the canonical averages of the specification", "model_checking",
         "every symmetry type and channel count (U1 with three channels only with decoupled sites), multi-level seeds with random symmetric operators, global spin/charge/isospin operators, substeps, projections, scaled input, superconducting and spin-rotated chains; Boltzmann factors are applied to the integer spectra in double precision (tolerance 2e-8)"),
 "C03": ("TLA+ specification FullDensity (levels of the chain with the level of the seed each derives from); conformance: delta peaks, Matsubara functions, conductance and susceptibility curves of every algorithm against the Lehmann representation", "model_checking",
         "every symmetry type and channel count (U1 to QSC3, real and complex), every operator kind the type implements (singlets of both parities, doublets, spin triplets, orbital triplets, quadruplets), cross-correlators, random integer reduced matrix elements on decoupled multi-multiplet seeds; FT and DMNRG are exact only for a single step and are checked there without the weight at zero frequency, which lies outside their energy window"),
 "C04": ("TLA+ specification FullDensity (truncation of the chain shell by shell, invariants on the complete basis: no state lost or counted twice); conformance: traces, thermodynamics, expectation values and spectral weights of FDM and CFS runs against the specification", "model_checking",
         "every symmetry type and channel count up to three, real and complex, polarised, scaled energies; random truncation energies, with and without keeping the first step; all operator kinds; the total weights follow from the weights of the individual excitations, which are compared one by one"),
 "C05": ("TLA+ specification NRGRun (Truncation rule); trace validation with TLC of recorded runs: every step's retained set against the rule", "model_checking",
         "recorded runs of nine symmetry types with every truncation parameter varied (count, energy window, minimum, safeguard, keepall, last step) plus the repository's example calculations; round-off ties within 1e-7 are not distinguished"),
 "C06": ("TLA+ specification NRGRun (Clebsch-Gordan series of retained parents and site multiplets); trace validation with TLC of recorded truncated runs", "model_checking",
         "all symmetry types and channel counts, truncated chains of 2-5 sites with random retained sets, substeps, and the repository's example calculations (first 18 steps in the quick tier)"),
 "C07": ("TLA+ specification PartialDiag (attempts, retry rule, agreement with complete diagonalisation); trace validation with TLC of recorded attempts", "model_checking",
         "random multi-subspace chains of nine symmetry types, dsyevr/zheevr, ratios 1/16-3/4, restart factors 1.25-4, all truncation parameters; each partial run is compared with the complete run of the same problem step by step until the retained sets may legitimately differ"),
 "C16": ("TLA+ specification Merge (record-by-record merge, conservation invariants, moments, filters); replay of its behaviours into binavg, specmoments, mats, broaden, bw", "model_checking",
         "exhaustive over pairs of short files (sampled in the quick tier) and random files up to 11 x 20 records, frequency tables with neighbouring doubles, subnormals, signed zero; the numbers derived from the specification's merged spectrum (Matsubara sums, kernels) are evaluated in double precision"),
 "C17": ("TLA+ specification TextAvg (exact rational interpolation on the union grid, invariants); replay into intavg and tdavg", "model_checking",
         "random tables with shared and separate abscissae including zero, reference subtraction, several columns and blocks, comments, unordered rows"),
 "C18": ("TLA+ specifications Expr (operator-precedence machine) and Template (template instantiation); replay of all token strings and of random templates into matrix and instantiate", "model_checking",
         "all token strings up to length 5 (7 for the arithmetic core; 6 in the thorough tier), long random expressions, both evaluators, malformed lists, indices out of range, division by zero; single-channel templates of three symmetry types with one inconsistency each"),
}
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    pass
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in TECH and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, l, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no sound check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
