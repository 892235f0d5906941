"""python check.py <property> | --all | --replay FILE      (environment: VERIF_TIER, VERIF_SEED, VP_REPO)"""
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))      # the tree under test, before any installed copy
sys.dont_write_bytecode = True
T0 = time.time()


def fatal(prop, msg):
    """the package cannot even be imported / lacks the function: that is a violation of every property"""
    rep = os.path.join(HERE, "evidence", "replays", "%s.json" % prop)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    json.dump(dict(property=prop, violations=[dict(fn="package", kind="import", msg=msg)]), open(rep, "w"), indent=1)
    write_evidence(prop, dict(states=1, transitions=1, traces_validated_against_impl=0, samples=[msg], exhaustive=False), 1, [])
    print(msg)
    print("VIOLATION property=%s replay=%s" % (prop, rep))
    sys.exit(1)


def write_evidence(prop, cov, nviol, assumptions):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    d = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
             coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=nviol)
    p = os.path.join(HERE, "evidence", "%s.json" % prop)
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def jobs_for(prop):
    from mc.core import Spec
    from mc.machines import MACHINES
    fns = list(Spec.registry)
    own = [fn for fn in fns if prop in Spec.registry[fn].props]
    jobs = []
    if prop == "C21":
        jobs = [("H", fn) for fn in fns] + [("A", fn) for fn in fns] + [("K", fn) for fn in fns]
        n = len(fns)
        jobs += [("P", a, min(a + 5, n)) for a in range(0, n, 5)]
        jobs += [("M", i, k) for i, m in enumerate(MACHINES) if m[1] == "QI session words" for k in range(m[2])]
    elif prop == "C22":
        jobs = [(k, fn) for fn in fns for k in "LSON"]
    elif prop == "C23":
        n = len(fns)
        jobs = [("T", fn) for fn in fns] + [("X", a, min(a + 2, n)) for a in range(0, n, 2)]
    else:
        jobs = [(k, fn) for fn in own for k in "LSONKHA"]
    jobs += [("M", i, k) for i, m in enumerate(MACHINES) if m[0] == prop for k in range(m[2])]
    slow = {fn for fn in fns if Spec.registry[fn].slow}
    jobs.sort(key=lambda j: 0 if j[0] == "M" else (1 if j[1] in slow else 2))     # long jobs first
    return jobs


PROP = None


class Sentinel(Warning):
    pass


def quiet():
    """every warning is ignored, by filters that no other code would install (so that a filter left behind is visible)"""
    warnings.resetwarnings()
    for c in (Warning,) + tuple(Warning.__subclasses__()):
        if c is not Sentinel:
            warnings.filterwarnings("ignore", message=".?", category=c)
    warnings.simplefilter("ignore", Sentinel)


def run_job(job):
    from mc import calls, explore, forms, history, machines, pristine, threads
    from mc.core import Spec
    quiet()
    # nothing a job prints may be mistaken for a verdict
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    if PROP in ("C21", "C22", "C23") and job[0] != "M":
        pristine.start()
    try:
        k = job[0]
        if k == "M":
            prop, name, parts, f = machines.MACHINES[job[1]]
            res = explore.Res(name)
            f(res, job[2], parts)
            return res
        if k in "PX":
            specs = list(Spec.registry.values())
            return (history.explore_P if k == "P" else threads.explore_TX)(specs, job[1], job[2])
        f = dict(L=explore.explore_L, S=forms.explore_S, O=forms.explore_O, N=forms.explore_N, K=calls.explore_K, H=history.explore_H, A=history.explore_A, T=threads.explore_T)[k]
        return f(Spec.registry[job[1]])
    finally:
        pristine.stop()


def label(job):
    from mc.machines import MACHINES
    if job[0] == "M":
        return "machine '%s' part %d" % (MACHINES[job[1]][1], job[2])
    return "explorer %s on %s" % (job[0], job[1] if len(job) == 2 else job[1:])


def check(prop):
    global PROP
    PROP = prop
    warnings.simplefilter("ignore")
    try:
        import rockphypy                   # noqa
    except BaseException as e:             # noqa
        fatal(prop, "the package cannot be imported: %s: %s" % (type(e).__name__, e))
    want = os.path.realpath(os.environ.get("VP_REPO", "/repo")) + os.sep
    if not os.path.realpath(rockphypy.__file__).startswith(want):
        print("harness error: rockphypy was imported from %s, not from %s" % (rockphypy.__file__, want))
        sys.exit(2)                        # says nothing about the property
    try:
        import mc.allspecs                 # noqa
        from mc import findings, machines, runner
        from mc.core import THOROUGH, Spec
        from mc.explore import Res
    except (ImportError, AttributeError) as e:
        fatal(prop, "the specifications do not bind to the package: %s: %s" % (type(e).__name__, e))
    for fn, s in Spec.registry.items():
        if prop in s.props or prop in ("C21", "C22", "C23"):
            try:
                s.impl(), s.raw()
            except AttributeError as e:
                fatal(prop, "public function %s is missing: %s" % (fn, e))
    jobs = jobs_for(prop)
    tmo = float(os.environ.get("VP_JOB_TIMEOUT", "3600" if THOROUGH else "400"))
    total = Res(prop)
    per, notrun, viols = {}, [], []
    patience = float(os.environ.get("VP_PATIENCE", "1e9" if THOROUGH else "600"))     # go on this long once there is a violation
    work = runner.run(jobs, run_job, tmo, T0 + (10 ** 9 if THOROUGH else 780))
    for job, st, out, sec in work:
        if viols and time.time() - T0 > patience:
            notrun.append("everything after " + label(job))
            work.close()
            break
        if os.environ.get("VP_VERBOSE"):
            print("%-50s %s %.1f" % (label(job), st, sec), file=sys.stderr)
        if st == "res":
            total.merge(out)
            e = per.setdefault(job[0], dict(jobs=0, states=0, transitions=0, traces=0, skipped=0))
            e["jobs"] += 1
            for k in ("states", "transitions", "traces", "skipped"):
                e[k] += getattr(out, k)
            viols += [dict(v, job=list(job)) for v in out.viols]
        elif st == "notrun":
            notrun.append(label(job))
        elif st == "timeout":
            viols.append(dict(fn=str(job[1]), kind="timeout", msg="%s did not terminate within %d s" % (label(job), tmo), job=list(job)))
        elif st == "died":
            viols.append(dict(fn=str(job[1]), kind="died", msg="%s: the process died" % label(job), job=list(job)))
        else:
            viols.append(dict(fn=str(job[1]), kind="error", msg="%s raised %s" % (label(job), out[0]), job=list(job), trace=out[1]))
    names = dict(L="input lattices", S="argument forms", O="structured-argument forms", N="integer scalar forms", K="ways of writing a call", H="call histories", A="abort points",
                 P="cross-function histories", T="thread schedules", X="cross-function thread schedules", M="state machines")
    cov = dict(states=total.states, transitions=total.transitions, traces_validated_against_impl=total.traces,
               samples=total.samples[:12], exhaustive=not notrun and not viols,
               explorers={names[k]: v for k, v in sorted(per.items())}, undefined_or_out_of_domain=total.skipped,
               functions=sorted({j[1] for j in jobs if j[0] not in "MPX"}), jobs=len(jobs), jobs_not_run=notrun,
               known_findings={k: v for k, v in total.known.items()},
               bounds={k: v for k, v in list(total.info.items())[:400]})
    write_evidence(prop, cov, len(viols), [
        "IEEE double arithmetic of this machine; comparison tolerance per function (default rtol 1e-9)",
        "reference models in mc/specs are transcriptions of the published equations named in the docstrings",
        "exhaustive within the stated lattices, forms, words, abort points and schedules; values between lattice points are not covered"])
    for kid, n in sorted(total.known.items()):
        f = findings.LISTED[kid]
        if f["property"] == prop:
            print("KNOWN-FINDING: property=%s %s (%s; %d values)" % (prop, f["what"], kid, n))
    print("property=%s states=%d transitions=%d traces=%d jobs=%d wall=%.1fs" % (prop, total.states, total.transitions, total.traces, len(jobs), time.time() - T0))
    if notrun:
        print("not explored within the time limit: %d jobs" % len(notrun))
    rep = os.path.join(HERE, "evidence", "replays", "%s.json" % prop)
    if viols:
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, "w") as f:
            json.dump(dict(property=prop, tier=os.environ.get("VERIF_TIER", "quick"), violations=viols[:20]), f, indent=1, default=str)
        for v in viols[:5]:
            print("  %s: %s" % (v["fn"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0


def replay(path):
    """re-run exactly the jobs that reported the violations of a replay file"""
    global PROP
    d = json.load(open(path))
    PROP = d["property"]
    os.environ["VERIF_TIER"] = d.get("tier", "quick")
    import mc.allspecs                     # noqa
    from mc import runner
    jobs = []
    for v in d["violations"]:
        if "job" in v and tuple(v["job"]) not in jobs:
            jobs.append(tuple(v["job"]))
    bad = 0
    for job, st, out, sec in runner.run(jobs, run_job, 3600, T0 + 10 ** 9):
        if st != "res" or out.viols:
            bad += 1
            print(label(job), st, [v["msg"] for v in out.viols] if st == "res" else out)
    if bad:
        print("VIOLATION property=%s replay=%s" % (PROP, path))
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))
