"""bugtool.py build|check [id-regex]: make /verif/seeded/<id> from tools/bugdefs*.py; check runs the property's check on a patched copy"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
for f in sorted(glob.glob(V + "/tools/bugdefs*.py")):
    exec(compile(open(f).read(), f, "exec"))
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\nfrom rockphypy import *\n\n\ndef ok(got, want, rtol=1e-7):\n    got, want = np.asarray(got), np.asarray(want)\n    assert got.shape == want.shape and np.allclose(got, want, rtol=rtol, atol=1e-12, equal_nan=True), (got, want)\n\n\n"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nS=$(mktemp -d); export MPLCONFIGDIR="$S"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\n"$PY" "$(dirname "$0")/demo.py"; rc=$?\nrm -rf "$S"\nexit $rc\n'
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def copy(b):
    d = tempfile.mkdtemp(prefix="bug_" + b["id"] + "_")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
    if b["edits"]:
        subprocess.check_call(["git", "init", "-q", d]); subprocess.check_call("git -C %s add -A && git -C %s -c user.email=a -c user.name=a commit -qm base" % (d, d), shell=True)
    for f, old, new in b["edits"]:
        p = d + "/rockphypy/" + f
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        rx = re.compile(r"[ \t]*\n(?:[ \t]*\n)*".join(re.escape(l.rstrip()) for l in old.split("\n")))
        if len(rx.findall(s)) != 1:                      # again without regard to blanks and line comments
            def loose(l):
                t = l.rstrip()
                return re.escape(t[:len(t) - len(t.lstrip())]) + r"[ \t]*".join(re.escape(c) for c in t.lstrip() if c not in " \t")
            ls = old.split("\n")
            rx = re.compile(r"[ \t]*(?:#[^\n]*)?\n(?:[ \t]*\n)*".join(loose(l) for l in ls))
        if len(rx.findall(s)) != 1:
            shutil.rmtree(d)
            raise ValueError("%s: anchor in %s matches %d times" % (b["id"], f, len(rx.findall(s))))
        open(p, "w", newline="").write(rx.sub(lambda m: new, s))
    return d
def tests(d):
    x = d + "/junit.xml"
    subprocess.run(". /opt/vp/env.sh; cd %s; PYTHONPATH=%s /opt/venv/bin/pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s pytest" % (d, d, x), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as E
    bad = set(STABLE)
    for t in E.parse(x).iter("testcase"):
        if not len([c for c in t if c.tag in ("failure", "error", "skipped")]):
            bad.discard(t.get("classname") + "::" + t.get("name"))
    return bad
def demo(b, cwd):
    t = tempfile.mkdtemp()
    open(t + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n"); open(t + "/demo.sh", "w").write(SH)
    r = subprocess.run(["bash", t + "/demo.sh"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout
def build(b):
    try:
        d = copy(b)
    except ValueError as e:
        return False, str(e)
    try:
        if d:
            diff = subprocess.check_output(["git", "-C", d, "diff", "--no-color", "rockphypy"], text=False)
            bad = tests(d)
            r1, o1 = demo(b, "/repo"); r2, o2 = demo(b, d)
            good = not bad and r1 == 0 and r2 != 0
            if good:
                s = V + "/seeded/" + b["id"]; os.makedirs(s, exist_ok=True)
                open(s + "/patch.diff", "wb").write(diff)
                open(s + "/demo.py", "w").write(HEAD + b["demo"].strip("\n") + "\n"); open(s + "/demo.sh", "w").write(SH); os.chmod(s + "/demo.sh", 0o755)
                json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(s + "/meta.json", "w"), indent=1)
            return good, "" if good else "tests failing %s, demo clean %d, demo patched %d\n%s\n%s" % (sorted(bad)[:3], r1, r2, o1[-500:] if r1 else "", o2[-300:] if not r2 else "")
    finally:
        shutil.rmtree(d)
def check(b, props=None):
    d = copy(b)
    try:
        out = []
        for p in props or [b["prop"]]:
            r = subprocess.run(["bash", V + "/run.sh", p], env=dict(os.environ, VP_REPO=d, VP_WORKERS="8", VP_PATIENCE=os.environ.get("VP_PATIENCE", "0")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            m = [l for l in r.stdout.split("\n") if l.startswith("  ")]
            m = m or [l for l in r.stdout.split("\n") if "harness" in l]
            out.append((p, r.returncode, (m[0][:230] if m else r.stdout[-300:])))
        return out
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[2] if len(sys.argv) > 2 else ""
    bs = [b for b in BUGS if re.search(sel, b["id"]) and (sys.argv[1] == "build" or os.path.isdir(V + "/seeded/" + b["id"]))]
    ids = [b["id"] for b in BUGS]; assert len(ids) == len(set(ids))
    if sys.argv[1] == "build":
        with ThreadPoolExecutor(6) as ex:
            for b, (g, m) in zip(bs, ex.map(build, bs)):
                print(b["id"], "ok" if g else "REJECTED " + m, flush=True)
    else:
        n = 0
        for b in bs:
            for p, rc, m in check(b, sys.argv[3:] or None):
                n += rc == 1
                print("%-28s %s %s %s" % (b["id"], p, {1: "CAUGHT", 0: "MISSED"}.get(rc, rc), m.strip()), flush=True)
        print(n, "of", len(bs))
