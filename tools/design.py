"""
Rewrite the counts and rules of the oracles in DESIGN.md:  /opt/venv/bin/python tools/design.py
"""
import os, re, subprocess, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = """
import sys, importlib, json
sys.path.insert(0, %r)
import run
from lib import harness
import checks
for m in sorted({m for v in checks.INDEX.values() for m in v["modules"]}):
    importlib.import_module("checks." + m)
print("@@" + json.dumps({p: [[o.name, o.quick, o.thorough, o.rule] for o in os_]
                  for p, os_ in harness.ORACLES.items()}))
""" % HERE


def main():
    env = dict(os.environ, PYTHONPATH="/repo:" + HERE)
    out = subprocess.check_output([sys.executable, "-c", CODE], env=env, text=True, cwd=HERE)
    table = json.loads(out.split("@@")[1])
    path = f"{HERE}/DESIGN.md"
    text = open(path).read()
    for p, oracles in table.items():
        line = "Oracles (non-trivial rule): " + "; ".join(
            f"`{n}` {q}/{t} ({rule})" for n, q, t, rule in oracles) + "."
        new, k = re.subn(rf"(?ms)(^### {p} .*?)^Oracles \(non-trivial rule\):[^\n]*$",
                         lambda m: m.group(1) + line, text, count=1)
        assert k, p
        text = new
    open(path, "w").write(text)


main()
