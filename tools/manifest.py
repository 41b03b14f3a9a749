"""Writes MANIFEST.json from the table of checks below (maintenance tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLC trace validation of the real code against an explicit TLA+ specification"
TRUST = " Trusts TLC, the numeric override java/Num.java (40-digit arithmetic behind the numerals of Num.tla), clang and Eigen, and the recording harness."
CHECKS = {
 "Q01": (TV + " (Admm, QpCert); TLC model checking of the algorithm (MCAdmm)", "Algorithm: the KKT certificate is an invariant of Admm at success, checked exhaustively on small QPs and settings. Code: every generated complete solve is matched with the certificate computed in the specification at 40 digits; generated inputs, not all inputs."),
 "Q02": (TV + " (Admm/AdmmTrace), iteration by iteration", "Each recorded iterate of the real solver is one Iterate step of the specification, within a forward error bound."),
 "Q03": (TV + " (Admm/AdmmTrace): weights, linear system and adaptation", "Recorded linear systems and penalty changes are those of the specification's Weight/Adapt actions."),
 "Q04": (TV + " (Admm/AdmmTrace): status, counters, residuals; TLC model checking", "Runs limited to 1, 2, ... iterations are matched against the machine: test schedule, status, residuals."),
 "Q05": ("TLC-enumerated reuse histories (Instance) replayed into the real solver, outcomes validated by TLC against the memoryless specification", "All histories of up to 3 (thorough 4) solves over 3 problems x 3 variants x pattern reuse are enumerated by TLC; a seeded sample (thorough: up to 2000 per group) is replayed on every storage variant."),
 "Q06": (TV + " (Admm/AdmmTrace): every storage/triangle/scalar variant follows the one machine", "The same problem is replayed through dense/sparse, half/full triangle, single/double precision; each must follow the same specification behaviour and system matrix."),
 "Q07": (TV + " (Scaling/ScalingTrace): histories of scaling and unscaling; TLC model checking of the round trip and of the equivalence of solutions (MCScaling)", "Recorded compute/unscale histories of the identity and Ruiz preconditioners on generated data are matched entry by entry with the scaling by the factors they report; model checking shows that any such scaling round-trips and preserves KKT points."),
 "P01": (TV + " (Spectral/SpectralTrace); TLC model checking of the tables (MCSpectral)", "Definition: nodes, differentiation matrix, weights and Lagrange basis defined in the specification independently of the closed formulas; their exactness is model-checked for all orders up to the bound and all monomials. Code: every table, integral, derivative and interpolant recorded from the real classes per order and scalar type is matched at 40 digits."),
 "P02": (TV + " (Spectral/SpectralTrace); TLC model checking of discrete orthogonality (MCSpectral)", "Recorded products, derivatives, basis values, coefficients and projections are matched with the polynomial arithmetic of the specification; generated inputs."),
 "P03": (TV + " (CubicSpline/CubicSplineTrace): histories of assignments and queries", "Recorded histories of the real spline are behaviours of the CubicSpline machine; poisoned neighbouring segments show which coefficients are read."),
 "D01": (TV + " (Jet, Nlp/NlpTrace); TLC model checking of the derivative rules against central differences (MCJet)", "The specification carries value, gradient and Hessian of generated straight-line programs by its own second-order rules; every overload of the real problem class is recorded at generated points, into dirty outputs, repeatedly, and matched."),
 "O01": (TV + " (Ocp/OcpTrace); TLC model checking of the transcription (MCOcp)", "Time grid, residuals and path constraints recorded from real ContinuousOCP instances (several shapes, dense and sparse, generated problem functions of x, u, p, d and t, histories of horizon changes) are matched with the transcription machine; exactness of the transcription itself is model-checked on small shapes."),
 "O02": (TV + " (Ocp/OcpTrace); TLC model checking of exact integration (MCOcp)", "Cost values recorded over histories of horizon changes are matched with the specification's quadrature, for generated running and terminal costs."),
 "O03": (TV + " (Ocp/OcpTrace, second-order jets); TLC model checking against central differences (MCOcp)", "Every first-derivative overload is recorded at generated trajectories and multipliers, over histories into persistent matrices, and matched with derivatives the specification computes by its own rules."),
 "O04": (TV + " (Ocp/OcpTrace, second-order jets); TLC model checking against central differences (MCOcp)", "Every second-derivative overload is recorded and matched entry by entry, including structural zeros."),
 "O05": (TV + " (Ocp/OcpTrace): long evaluation histories into reused matrices, dense and sparse", "The specification is memoryless: each recorded evaluation of a history must equal it, so results that depend on storage or on earlier calls are rejected."),
 "O06": (TV + " (Ocp/OcpTrace, BlockBfgs); TLC model checking of the update (MCBlockBfgs)", "Recorded sequences of sparse updates are matched with the damped rank-two update on the block pattern; symmetry, secant condition and definiteness of the update are model-checked over all small integer steps."),
 "S01": (TV + " (Sqp/SqpTrace); TLC model checking of the solver loop (MCSqp)", "Complete solves of generated problems with scripted and real subproblem answers are recorded at the subproblem boundary and matched with the machine: norms, violation, cost, counters, status, callbacks."),
 "S02": (TV + " (Sqp/SqpTrace over Jet/Ocp/QuasiNewton)", "Every subproblem handed to the preconditioner and the inner solver is matched with the linearisation the specification computes at the recorded iterate (second-order jets; damped update or exact Hessian), dense and sparse, NLP and transcribed OCP, three preconditioners."),
 "S03": (TV + " (Sqp/SqpTrace); TLC model checking of the line search (MCSqp)", "The recorded next iterate and multipliers must be the Step of the specification for the recorded subproblem answer; where the decrease test is decided by rounding both outcomes are accepted."),
 "S04": (TV + " (QuasiNewton/QuasiNewtonTrace); TLC model checking of symmetry, secant equations, definiteness and the hereditary property (MCQuasiNewton)", "Recorded sequences of updates on fixed, dynamic and embedded matrices are matched with the updates of the specification and, independently, with their characterising conditions."),
 "S05": ("TLC-enumerated histories of the filter (Filter/MCFilter) replayed into the real filter; " + TV + " (FilterTrace)", "All histories up to the bound are model-checked for the filter's guarantees; enumerated and long generated histories of the real filter are matched with the machine, including the exact boundary of the margin."),
 "S06": ("TLC-enumerated reuse histories (Instance) replayed into the real NLP solver, outcomes validated by TLC against the memoryless specification", "Histories over 3 problems x 3 variants (settings, guess, continuation) are enumerated by TLC; every solve of a sampled history must have the outcome of a fresh object. Solves that a perturbation of a few rounding units changes are left out."),
 "M01": (TV + " (Mpc/MpcTrace): histories of setters and getters; TLC model checking of the facade (MCMpc)", "Recorded histories of the real MPC facade are behaviours of the Mpc machine: each setter changes exactly the documented part of the bounds, guess or parameters; generated histories on several shapes."),
 "M02": (TV + " (Mpc/MpcTrace over Spectral); TLC model checking of the time accessors (MCMpcTime)", "Trajectory accessors by node and by time are matched with the interpolation of the specification for trajectories set into the real object, several horizons and starts; exactness of the interpolation is model-checked."),
 "M03": (TV + " (Mpc/MpcTrace over Ocp): certificate of the solved problem", "Complete MPC solves of generated problems: a reported success must satisfy initial condition, bounds, collocation residual and path constraints as the specification evaluates them; generated inputs."),
 "C01": (TV + " (Functors/FunctorsTrace over Ocp, Jet and Spectral)", "Histories of evaluations of the real functors (dense and sparse dynamics, cost with gradient and Hessian, node-wise functions; Chebyshev and Legendre; both AutoDiffScalar classes; both constructors) are matched with the memoryless specification; generated functions, trajectories and intervals."),
 "L01": (TV + " (Lqr/LqrTrace); TLC model checking of the Newton iteration with any and with the best step length (MCRiccati)", "Returned solutions and gains for generated systems and weights are matched with the Riccati equation, symmetry, definiteness and closed-loop stability (decided by inertia in the specification); that Newton steps from a stabilising start stay stabilising is model-checked on small systems."),
 "L02": (TV + " (Lqr/LqrTrace); TLC model checking of the back-substitution (MCLyap)", "Results for generated matrices of every shape, rank and scale are matched with their defining equations at 40 digits."),
 "N01": (TV + " (Adapter/AdapterTrace over Jet and Ocp): callback histories; TLC model checking of the multiplier bookkeeping and of histories (MCAdapter)", "Histories of setters, guesses and runs are driven through the real adapter by a stand-in for Ipopt that follows its documented callback protocol (Ipopt is not installed); every answer is matched with the problem in force as the specification evaluates it. Arrays are guarded; orders of callbacks, points and multipliers are generated."),
 "N02": (TV + " (QpBackend/QpBackendTrace): histories of solves; TLC model checking of the object's life cycle (MCQpBackend)", "Stand-ins for OsqpEigen and qpmad keep their documented rules (data copied when initialised, updates only while initialised); after each solve of a generated history the data they hold is matched with the program of the call, and what the adapter reports with what the stand-in returned."),
 "A01": (TV + " (AutoDiff/AutoDiffTrace over Jet); TLC model checking of the jet calculus the traces are judged by (MCJet: ring and chain rules, symmetry, inverse functions)", "Generated programs over all operators and functions run on fixed, dynamic, single-precision and nested scalars; values, gradients and Hessians are matched with the jets of the specification at 40 digits. Points keep away from kinks and poles; pow is first order only (it does not compile for nested scalars)."),
}
NOT = {
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    na = []
    for i in ids:
        if i not in CHECKS:
            na.append(dict(property=i, reason=NOT.get(i, "Check not built yet.")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="NONE", enable="No hooks: the checks bind through the public API and the library's template extension points.", source_commits=[]),
             checks=[dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                          technique=CHECKS[i][0], level="model_checking", level_note=CHECKS[i][1] + TRUST) for i in ids if i in CHECKS],
             not_applicable=na,
             notes="TLA+ with TLC; specifications in spec/, harnesses in harness/, machinery in tools/. Genuine defects and their repairs: known_findings.txt and DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
