"""
Run the quick check of its property on every planted bug, in scratch copies, and rewrite the
table of DESIGN.md:  python3 tools/table.py [WORKERS] [--write]
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs -->"


def one(id):
    meta = json.load(open(f"{HERE}/seeded/{id}/meta.json"))
    copy = f"/tmp/table/{id}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        r = subprocess.run(["git", "-C", copy, "apply", f"{HERE}/seeded/{id}/patch.diff"])
        if r.returncode:
            return id, meta, "PATCH DOES NOT APPLY"
        out = subprocess.run([f"{HERE}/check", meta["property"]], cwd=HERE, text=True,
                             env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT)
        names = re.findall(rf"^{meta['property']}/([\w-]+):", out.stdout, re.M)
        return id, meta, ", ".join(dict.fromkeys(names)) if out.returncode == 1 else "MISSED"
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    workers = int((sys.argv[1:2] or ["2"])[0])
    ids = sorted(os.listdir(f"{HERE}/seeded"))
    with cf.ThreadPoolExecutor(workers) as pool:
        rows = list(pool.map(one, ids))
    lines = [MARK, "", "| bug | property | caught by | needs |", "|---|---|---|---|"]
    for id, meta, by in rows:
        lines.append(f"| {id} | {meta['property']} | {by} | {meta['needs']} |")
        if by in ("MISSED", "PATCH DOES NOT APPLY"):
            print(id, by)
    path = f"{HERE}/DESIGN.md"
    text = open(path).read().split(MARK)[0].rstrip() + "\n\n" + "\n".join(lines) + "\n"
    if "--write" in sys.argv:
        open(path, "w").write(text)
    print(len(rows), "planted bugs")


main()
