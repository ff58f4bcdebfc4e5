"""Writes MANIFEST.json from the table of properties."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("reference-model monitor over random static trees", "independent 4x4-matrix composition of the given transforms"),
 "C02": ("reference-model monitor over random moving trees", "independent lerp/SQUAD interpolation and time-base model"),
 "C03": ("reference-model monitor over trees with event-based frames", "zero-order-hold model written from the property"),
 "C04": ("reference-model monitor plus metamorphic layout monitor", "independent transform model; layouts compared pairwise"),
 "C05": ("metamorphic law monitors (inverse, transitivity, isometry)", "the laws themselves"),
 "C06": ("xarray metadata monitor and differential monitor", "ndarray call of the same request, label model"),
 "C07": ("purity monitor: byte snapshots of inputs and repeated queries", "bytes and values recorded before the call"),
 "C08": ("model-based history monitor of registry and trees", "dictionary + forest model stepped with every operation"),
 "C09": ("reference-model and analytic-motion monitors", "finite-difference model and analytic derivatives"),
 "C10": ("analytic-motion, convergence and invariance monitors", "analytic angular velocity of generated motions"),
 "C11": ("analytic rigid-body kinematics monitor", "analytic twists and exact static formulas"),
 "C12": ("algebraic law monitors against rotation matrices", "independent Hamilton product and rotation matrices"),
 "C13": ("optimality and equivariance monitors", "independent eigen-decomposition, objective comparison"),
 "C14": ("reference-model monitor over angles, orders and layouts", "product of rotation matrices"),
 "C15": ("reference-model and equivariance monitors", "independent SQUAD, analytic constant-rate rotation"),
 "C16": ("definition and round-trip monitors", "ISO formulas evaluated independently"),
 "C17": ("optimality monitors with perturbation probes", "Horn's quaternion method, residual comparison"),
 "C18": ("generated-file replay monitor", "the values the exporter model wrote"),
 "C19": ("recorded-bag history monitor with recording ROS stand-ins", "the list of written messages"),
 "C20": ("publisher trace monitor with recording ROS stand-ins and controlled schedules", "message-sequence specification; independent tf2 model"),
 "C21": ("artist inspection monitor", "coordinates of the drawn matplotlib artists"),
 "C22": ("controlled thread scheduler and stress with result comparison", "sequential results of the same calls"),
 "C23": ("filter probe-signal monitors", "pass/stop band, linearity and jump specifications"),
 "C25": ("metamorphic monitor of incomplete against complete data", "independent model of the complete data plus the set of results that need a missing sample"),
 "C26": ("differential monitor of processes with hidden packages", "results of the same calls with all packages, and the list of what each feature needs"),
 "C27": ("differential monitor of equivalent calls", "the result of the plain call"),
 "C28": ("metamorphic monitor of changed units, clocks and world frames", "exact scaling laws (factors are powers of two)"),
 "C24": ("fault-injecting request monitor with state snapshots", "documented rejection, registry/tree snapshots"),
}
checks = [{
    "property": k,
    "quick_cmd": f"python3 check.py {k}",
    "thorough_cmd": f"python3 check.py {k} --tier thorough",
    "evidence_file": f"evidence/{k}.json",
    "technique": f"runtime monitoring: {t}",
    "level": "exploration",
    "level_note": "Held on every monitored execution of the seeded random and "
                  f"hostile workload (counts in the evidence file); oracle: {o}. "
                  "Nothing is claimed about executions that were not driven. "
                  "Trusts numpy, scipy, numpy-quaternion"
                  + (" and the ROS stand-ins in rbmv/fakeros.py." if k in
                     ("C19", "C20") else "."),
} for k, (t, o) in T.items()]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks: all monitoring happens at the public API boundary, "
                    "with sys.settrace, and with stand-ins for the ROS client "
                    "libraries. Known findings: known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
