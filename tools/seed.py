"""
Author planted bugs:  python3 tools/seed.py SPECS.py [ID...]

A spec file defines BUGS: a list of dict(id, property, needs, breaks, edits=[(file, old, new)],
demo=python source).  For each bug a scratch copy of /repo is patched, and the patch, the demo and
the meta file go to seeded/ID once: sources compile, demo passes on /repo and fails on the copy,
stable tests pass on the copy (--no-tests to skip).  Then tells whether the check of the property
reports it (quick tier).  Nothing in here is used by the checks.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLCONFIGDIR="/opt/venv/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# run with the tree to try as working directory
HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec "${PY:-/opt/venv/bin/python}" "$HERE/demo.py"
'''


def sh(cmd, cwd, timeout=900, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return r.returncode, r.stdout


def mine():
    out = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True)
    return {l.split()[0] for l in out.splitlines() if l.split(" ", 1)[1].startswith("fix:")}


MINE = mine()


def blame(path):
    out = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", path], text=True)
    return [l.split()[0].lstrip("^") for l in out.splitlines()]


def tests(copy):
    script = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {copy}\nexport PYTHONPATH={copy}")
    path = copy + ".test.sh"
    open(path, "w").write(script)
    out = copy + ".json"
    sh(["bash", path, out], copy)
    data = json.load(open(out))
    passed = set(data.get("passed", []))
    return sorted(STABLE - passed)


def process(bug, with_tests):
    id = bug["id"]
    copy = f"/tmp/seed/{id}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    report = []
    try:
        for file, old, new in bug["edits"]:
            p = os.path.join(copy, file)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{id}: BAD old text found {s.count(old)} times in {file}"
            open(p, "w").write(s.replace(old, new))
            compile(open(p).read(), p, "exec")
        diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
        for file in {e[0] for e in bug["edits"]}:
            owners, touched = blame(file), []
            zero = subprocess.check_output(["git", "-C", copy, "diff", "-U0", file], text=True)
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", zero, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                touched += owners[a - 1:a - 1 + n]
            if any(t in MINE for t in touched):
                report.append(f"WARNING {file} touches lines of fixes")
            if not touched:
                report.append(f"WARNING {file} only adds lines")
        folder = os.path.join(HERE, "seeded", id)
        os.makedirs(folder, exist_ok=True)
        open(folder + "/patch.diff", "w").write(diff)
        open(folder + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(folder + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(folder + "/demo.sh", 0o755)
        json.dump(dict(property=bug["property"], needs=bug["needs"],
                       what_it_breaks=bug["breaks"]), open(folder + "/meta.json", "w"), indent=1)
        a, out_a = sh(["bash", folder + "/demo.sh"], "/repo", 300)
        b, out_b = sh(["bash", folder + "/demo.sh"], copy, 300)
        ok = a == 0 and b != 0
        if not ok:
            report.append(f"DEMO {a} {b}\n{out_a[-800:]}\n{out_b[-300:]}")
        else:
            report.append("demo ok (%s)" % out_b.strip().splitlines()[-1][:110])
        if with_tests:
            broken = tests(copy)
            report.append("tests ok" if not broken else f"TESTS BROKEN {broken[:5]}")
        code, out = sh([HERE + "/check", bug["property"]], HERE, 900,
                       dict(ENV, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick",
                            PYTHONPATH=copy))
        lines = [l for l in out.splitlines() if l.startswith(bug["property"] + "/")]
        report.append(("CAUGHT " if code == 1 else f"MISSED({code}) ") +
                      (lines[0][:230] if lines else out[-200:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        for suffix in (".test.sh", ".json"):
            if os.path.exists(copy + suffix):
                os.unlink(copy + suffix)
    return f"{id}: " + "\n    ".join(report)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    space = {}
    exec(open(args[0]).read(), space)
    bugs = [b for b in space["BUGS"] if len(args) == 1 or b["id"] in args[1:]]
    with cf.ThreadPoolExecutor(5) as pool:
        for r in pool.map(lambda b: process(b, "--no-tests" not in sys.argv), bugs):
            print(r, flush=True)


main()
