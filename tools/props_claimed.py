"""Which properties are claimed: id -> (specification, extra, assurance)."""
S = {
 "C01": ("QPIP.tla", "", "Every recorded verdict is compared with residuals recomputed exactly from the problem data by the specification; model checking covers all instances of a finite family through convergence. Trusts: TLC, the exact-number module (self-checked by NumTest), the harness's reading of public results."),
 "C02": ("QPIP.tla", "", "Each recorded state at every budget is checked exactly; sampled problems, exhaustive small family in the model."),
 "C03": ("QPIP.tla", "", "Each recorded iteration from arbitrary interior states is compared with the exactly solved Newton system, with round-off bounds derived from the conditioning of the reduced system."),
 "C04": ("QPIP.tla", "", "Every log entry of runs at every budget is compared with exact norms and the specified barrier schedule."),
 "C05": ("QPIP.tla", "", "Converged points of well-posed problems are compared with the exact minimiser found by active-set enumeration; the specified algorithm itself is shown to converge on a finite family."),
}
NA = {p: "not built yet" for p in ["C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]}
for p, note in (("C07", "Each recorded candidate and estimate is compared with the exact retraction and the merit recomputed from the recorded residual values; all control histories of the model to depth 3 (quick) or 5 are replayed into the solver."),
                ("C08", "Every iteration's admissible exits are computed by the specification from recorded errors; verdicts, counts and callbacks are compared; all control histories of the model are replayed."),
                ("C09", "Damping and mode of every recorded iteration are recomputed from the parameters; the subproblem is checked to use it; all control histories are replayed."),
                ("C10", "Step lengths are recomputed (backtracking, quadratic, cubic) with error bounds; classification sets are computed exactly; all control histories are replayed."),
                ("C11", "The required penalty is recomputed from the recorded multipliers or the exact quadratic model at every iteration."),
                ("C12", "The subproblem is rebuilt exactly from the recorded linearisations and its minimiser computed by active-set enumeration or the KKT system; eigenvalue statistics are judged by exact inertia."),
                ("C13", "Every evaluated candidate is checked exactly against every bound, from feasible and infeasible starting points."),
                ("C14", "The returned point of generated linear problems is compared with the exact constrained minimiser.")):
    S[p] = ("NLS.tla", "", note); NA.pop(p, None)
S["C06"] = ("NullSpace.tla", "", "Verdict decided by exact inertia of the reduced cost; the exposed point checked against the exact optimality conditions; all problems of a finite integer family (enumerated by TLC) and random histories are solved by one reused solver object."); NA.pop("C06", None)
S["C15"] = ("Residual.tla", "", "All index lists and operation sequences of a finite family (enumerated by TLC, checked there against the dense normal equations) plus random ones are executed on exactly representable data and compared bit for bit, including all memory that must stay untouched."); NA.pop("C15", None)
S["C16"] = ("Bounds.tla", "", "All short histories over a finite set of numbers (enumerated by TLC) and random ones with adjacent doubles around the bound are executed and compared with exact arithmetic."); NA.pop("C16", None)
S["C17"] = ("Reuse.tla", "", "All call sequences of the model to length 2 (quick) or 3, and longer random ones, are executed on one object, on fresh objects and again under other memory contents; TLC keeps the map from inputs to outcomes and compares bit for bit."); NA.pop("C17", None)
S["C18"] = ("Report.tla", "", "Statistics and the four variants of the text report are compared token by token with the specified report for all small logs (enumerated by TLC) and random ones with extreme numbers."); NA.pop("C18", None)
S["C19"] = ("Report.tla", "", "Documents are written, parsed and read back; every field is compared bit for bit with the specified normal form of the original, for all small logs (enumerated by TLC) and random ones with extreme numbers."); NA.pop("C19", None)
S["C20"] = ("Tracing.tla, Scopes.tla", "", "All interleavings of the model's schedules are replayed into the real collector through a controlled mutex, under a race detector and at full speed; documents and scopes are compared with the specification."); NA.pop("C20", None)
S["C21"] = ("Inputs.tla", "", "All single and pairwise deviations of the parameters and all short call sequences of the model, plus enumerated malformed shapes and indices, are passed to the code under AddressSanitizer; every outcome is compared with the specified verdict."); NA.pop("C21", None)
S["C23"] = ("QPIP.tla", "", "The guess is computed exactly and compared with what the first recorded iteration says of it (four residual norms, barrier value, first step); warm starts and the ways of writing a guess are compared bit for bit; guesses far outside the bounds, repeated and conflicting bounds, warm-start chains; the guess rules are invariants of the exact model."); NA.pop("C23", None)
S["C24"] = ("Failures.tla", "", "The model enumerates every point of failure and refutes four wrong ways of handling it; in the real code each call of each recorded run is made to throw, and TLC compares what surfaced, the estimate held and the next run with the run without failure."); NA.pop("C24", None)
S["C22"] = ("Independent.tla", "", "The model enumerates interleavings at user calls and nestings of jobs and refutes six kinds of hidden sharing; its words are replayed with real threads that take turns, with jobs started inside user functions, and freely under ThreadSanitizer; TLC compares each job's calls and result with the same job alone."); NA.pop("C22", None)
S["C25"] = ("Solve.tla", "", "The specified algorithm is run to its end by TLC on every instance of a finite family (well-posed ones converge, three built-in defects are refuted) and its outcomes are compared with the real solver's; thousands of random problems with known solutions are classified by the specification (exact optimality, conditioning, curvature) and their results judged.")
S["C26"] = ("Observe.tla", "", "TLC runs every small solve unwatched and under every set of observers and requires the watched run to be the unwatched one (four leaking observers are refuted); every recorded solve is repeated under eight ways of watching in three builds and the specification compares calls, log, verdict, estimate and what the observers were told, bit for bit.")
S["C27"] = ("Cut.tla", "", "TLC runs every small solve with all exits far away and, in lock step, with each exit setting drawn in, and requires the second to be the first one cut short (four leaking settings are refuted); every recorded solve is repeated under each exit setting, placed at and next to the values met along the run, and the specification compares calls, log and estimate with the full run, bit for bit.")
