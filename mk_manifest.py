#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection"
D = {
 "C01": ("memory-content and environment faults", "Seeded histories re-executed under several heap/stack/object contents, placements and clocks must be bit-identical, files included. Reads of indeterminate memory that influence no returned or written value are not seen."),
 "C02": ("call interleavings of points with hostile neighbours", "Every (non-hostile) point of a seeded interleaving is re-run alone and must agree within solver tolerance; differences are only excused where the independent reference shows that the trial does not converge."),
 "C03": ("seeded histories with rejected trials, twin runs and a reference model", "Committed state may move at updates only, rejected trials must leave no trace (twin run) and stresses and committed variables must follow the independent reference model."),
 "C04": ("seeded thread switches at basic-block edges", "Objects driven by simulated threads with control handed over at arbitrary basic blocks must return bit for bit what they return alone. Sequentially consistent interleavings only."),
 "C05": ("file-system fault injection", "All results must equal those of the fault-free twin; benign faults must be invisible, later outputs complete."),
 "C06": ("crash and torn-write injection with restart", "Records parsed against queries after every call; after crashes at sampled I/O events the files must be prefixes that keep all completed records, and a restarted run must start afresh. Data handed to write() is taken as durable."),
 "C07": ("seeded histories, parsed snapshots against a reference model, twin without snapshots", "Field arrays compared with the fields of the independent model within print and solver precision."),
 "C08": ("allocation-failure injection", "Sampled allocations fail once, several times or for good; the process may stop or the call may throw, otherwise everything returned must equal the twin. Built with and without assertions."),
 "C09": ("guard-page heap, leak and handle accounting under faults", "Heap and argument-array overruns, use after release, double release, leaks, growth and open files in seeded histories; index errors inside fixed arrays through trapping index checks."),
 "C10": ("refinement against an independent finite element model over seeded histories", "Stress within about 2e-6 of the stress scale, tangent within 6e-4 of the stiffness wherever the reference shows a converged, differentiable solution."),
 "C11": ("invalid and diverging trials injected, twin runs", "Points must agree with the run in which the bad trials were never made; excused only where the reference shows no convergence."),
 "C12": ("work budget in simulated time, recorded convergence against a reference Newton iteration", "Bounded number of executed basic blocks per call; recorded counts and residuals checked against the rule that ends a solve and against the reference."),
 "C13": ("twin runs through both interfaces", "Bit-identical results and files; re-constructed micro-structures against a fresh process."),
 "C14": ("seeded histories around the threshold against the library's own linear tangent and a reference model", "The decision is recomputed exactly; answers must be bit-close to the linear one or be the full solution."),
 "C17": ("twin runs that differ only in what is observed", "Reads after every call against rare, partial, repeated and reordered reads with records, snapshots and repeated homogenisations left out: bit for bit, or within solver tolerance where the reference shows convergence."),
 "C18": ("twin runs that differ only in superseded, repeated and reordered settings", "Results of every homogenisation must agree between a history, the history without replaced strains, with all strains imposed again and the caller's arrays overwritten, and with the points set in another order; and follow the reference model."),
 "C19": ("work accounting in simulated time over repeated steps", "Basic blocks of library code, allocations, file operations and bytes of the same call in later rounds may not exceed those of the first two rounds by more than a quarter and a small constant. Work inside the C++ library is not counted."),
 "C20": ("process state monitored around every call, the same history in varied host processes, file faults", "Every call leaves the observed process state as it was; a twin in another host (locale, stream flags, environment, signals, umask, directory, errno, floating-point status) returns and writes the same bytes. State outside the observed list is not seen."),
 "C21": ("invariants over recorded committed variables along seeded histories", "Isochoric plastic strain, monotone hardening that matches the committed increment, zero where nothing may yield, constant without update; within print precision. Needs the record of committed variables, so points are recorded one at a time."),
}
m = {
 "version": 1,
 "setup_cmd": "for k in dbg fast rel san; do ./build.sh $k || exit 1; done",
 "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo/src unchanged and interpose at link time", "source_commits": []},
 "checks": [{
  "property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
  "evidence_file": "evidence/%s.json" % p,
  "technique": T + ": " + t, "level": "exploration", "level_note": n} for p, (t, n) in D.items()],
 "not_applicable": [
  {"property": "C15", "reason": "The sparse kernels are pure functions of matrix, right-hand side and start vector: no schedule, clock, I/O, fault or history to simulate. (Their effect on results is covered through C10.)"},
  {"property": "C16", "reason": "The phase of a cell is a pure geometric function of the configuration; nothing to schedule or to fail. (Written phases are compared in C07.)"},
 ],
 "notes": "Plans found to violate a property are minimised, written to out/<property>/replay.plan and re-executed in a fresh process before they are reported; './check replay FILE' repeats one.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
