import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "explicit-state exploration of substitution chains on the real code + exhaustive input-lattice/form/history/abort enumeration against a reference model",
 "C02": "explicit-state exploration of anisotropic substitution chains on the real code + exhaustive lattice/history enumeration against a reference model",
 "C04": "exhaustive phase-permutation/bound-order exploration + exhaustive lattice/form/history enumeration against a reference model",
 "C08": "explicit-state exploration of rotation words on the real code + exhaustive lattice/history enumeration against a reference model",
 "C10": "explicit-state exploration of layer-stack rewriting words + exhaustive lattice/history enumeration against a reference model",
 "C16": "exhaustive exploration of pressure-element words for range warnings + lattice/form/history enumeration against a reference model",
 "C20": "exhaustive exploration of log-sample words and QI method-call words on the real object against a reference model",
 "C21": "exhaustive exploration of call histories (all words to the depth bound, all function pairs) and of all abort points of the real code",
 "C22": "exhaustive enumeration of (function, argument subset, array form) and input lattices on the real code, judged against its own element-wise scalar calls",
 "C23": "stateless model checking: all two-thread source-line interleavings up to the preemption bound under a controlled scheduler",
}
D = "bounded-exhaustive exploration of input lattices, argument forms, call histories and abort points of the real code against an independent reference model"
N = "Exhaustive within the finite spaces recorded in the evidence file (lattice alphabets and deviation bound, form alphabet, history words, abort points%s); trusts the reference models in mc/specs, IEEE double arithmetic and the stated tolerances; values between lattice points are not covered."
checks = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    extra = {"C23": ", schedules with at most 2 preemptions"}.get(i, ", machine words" if i in T else "")
    checks.append(dict(property=i, quick_cmd="bash run.sh " + i, thorough_cmd="VERIF_TIER=thorough bash run.sh " + i,
                       technique="model checking: " + T.get(i, D), level="model_checking", level_note=N % extra))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
               notes="No hooks in /repo. Every check imports rockphypy from /repo's working tree (pure Python, nothing to build)."), open(V + "/MANIFEST.json", "w"), indent=1)
