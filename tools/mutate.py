"""
Mutation sweep:  python3 tools/mutate.py OUT.jsonl [--files REGEX] [--every N] [--start K] [--jobs J]

Makes small syntactic changes to the sources (in scratch copies of /repo), one at a time, and runs
the checks of the properties that concern the file until one of them reports a violation.  The
mutants that survive are looked at by hand: equivalent, outside every property, or a gap of the
checks.  Nothing in here is used by the checks.
"""
import ast, concurrent.futures as cf, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLCONFIGDIR="/opt/venv/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHRINK="1")
RELEVANT = [
    (r"gsp/io/command\.py", "P01 P03 P02 P04 P07 P11 P10"),
    (r"gsp/io/convert\.py", "P08 P02 P09 P05"),
    (r"gsp/io/json\.py", "P04 P09 P05 P10"),
    (r"gsp/io/(text|ansi)\.py", "P10 P13"),
    (r"gsp/io/mkdocs\.py", "P13"),
    (r"gsp/object\.py", "P06 P03 P01"),
    (r"gsp/core/svg\.py", "S01 R08"),
    (r"gsp/core/types\.py", "P08 R08 P04 P05 R03"),
    (r"gsp/core/list\.py|gsp_matplotlib/core/list\.py", "P12 R05 P11"),
    (r"gsp/core/", "P01 P09 P05 P11 P12"),
    (r"gsp/transform/measure", "T02 T01 R06 T05"),
    (r"gsp/transform/colormap", "T04 T03 P11"),
    (r"gsp/transform/out", "T05 T03 P11"),
    (r"gsp/transform/", "T01 T03 T02 T05 P11 P01 P05"),
    (r"gsp/visual/", "R03 R04 T05 R02 P01 P05 R01 R05 P11"),
    (r"gsp/__init__|gsp/log", "P01 P05"),
    (r"gsp_matplotlib/__init__", "P12 P09 P05 P08 R02"),
    (r"gsp_matplotlib/core/buffer", "P09 P12 P05 G03 P11 R04"),
    (r"gsp_matplotlib/core/(canvas|viewport)", "R06 R07 R04 T02 P05"),
    (r"gsp_matplotlib/visual/", "R02 R01 R03 R04 R05 R08 T05 P05"),
    (r"gsp_matplotlib/glm/ndarray/tracked", "G03 G02 G09 P05 R04"),
    (r"gsp_matplotlib/glm/ndarray/swizzle", "G02 G03 G09 G01"),
    (r"gsp_matplotlib/glm/ndarray/ragged", "G04 R05"),
    (r"gsp_matplotlib/glm/(vec|mat|ndarray)", "G09 G01 G02 R03"),
    (r"gsp_matplotlib/glm/shapes", "G08"),
    (r"gsp_matplotlib/glm/trackball", "G07"),
    (r"gsp_matplotlib/glm/", "G05 G06 G08 G07 R08"),
]
SKIP = r"light\.py|tracked_array\.py|vlist\.py|mesh\.py|log\.py"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}


def mutants(path, source):
    """ -> [(line, description, new source)] """

    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    raw = source.encode()
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    out = []

    def pos(line, col):
        return starts[line - 1] + col

    def span(node):
        return pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)

    def replace(node, text, what, a=None, b=None):
        if a is None:
            a, b = span(node)
        new = (raw[:a] + text.encode() + raw[b:]).decode()
        if new != source:
            try:
                compile(new, path, "exec")
            except SyntaxError:
                return
            out.append((node.lineno, what, new))

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()
    doc = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and \
                isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            doc.add(node.body[0])
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and "__main__" in text(node.test):
            skip |= set(ast.walk(node))
        if isinstance(node, ast.arg) and node.annotation:
            skip |= set(ast.walk(node.annotation))
        if isinstance(node, ast.Raise):
            skip |= set(ast.walk(node)) - {node}
    for node in ast.walk(tree):
        if node in doc or node in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = span(node.left)[1], span(node.comparators[0])[0]
            between = raw[a:b].decode()
            old, new = CMPS[type(node.ops[0])], CMP[type(node.ops[0])]
            if old in between:
                replace(node, between.replace(old, new, 1), f"{old} -> {new}", a, b)
        elif isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            between = raw[a:b].decode()
            old, new = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            replace(node, between.replace(old, new), f"{old} -> {new}", a, b)
            for v in node.values:
                replace(v, str(isinstance(node.op, ast.And)), f"drop {text(v)[:30]}")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                continue
            a, b = span(node.left)[1], span(node.right)[0]
            between = raw[a:b].decode()
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
                   ast.Mod: "%"}[type(node.op)]
            replace(node, between.replace(old, BIN[type(node.op)], 1),
                    f"{old} -> {BIN[type(node.op)]}", a, b)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            replace(node, "(" + text(node.operand) + ")", "unary operator dropped")
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                replace(node, str(not node.value), "constant negated")
            elif isinstance(node.value, (int, float)):
                replace(node, repr(node.value + 1), "constant + 1")
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            for v in ("True", "False"):
                if not (isinstance(node, ast.While) and v == "True"):
                    replace(node.test, v, f"condition {v}")
        elif isinstance(node, ast.Slice):
            for part in (node.lower, node.upper, node.step):
                if part is not None:
                    replace(part, "", "slice bound dropped")
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                if k.arg and k.arg != "__no_command__":
                    a, b = span(k)
                    c = raw[:a].decode().rstrip()
                    if c.endswith(","):
                        replace(k, "", f"argument {k.arg} dropped", len(c.encode()) - 1, b)
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "copy", "ravel", "lower", "strip") and not node.args:
                replace(node, text(node.func.value), f"{node.func.attr}() dropped")
            if len(node.args) == 2 and not any(isinstance(x, ast.Starred) for x in node.args):
                x, y = text(node.args[0]), text(node.args[1])
                replace(node, f"{y}, {x}", "arguments swapped", span(node.args[0])[0],
                        span(node.args[1])[1])
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and \
                not isinstance(getattr(node, "value", None), ast.Constant):
            replace(node, "pass", "statement dropped: " + text(node)[:40])
        elif isinstance(node, (ast.Break, ast.Continue)):
            replace(node, "pass", "jump dropped")
        elif isinstance(node, ast.Raise):
            replace(node, "pass", "raise dropped")
        elif isinstance(node, ast.Return) and node.value is not None:
            replace(node.value, "None", "returns None")
    return sorted(out, key=lambda m: m[0])


def run(job):
    k, path, line, what, new, checks = job
    copy = f"/tmp/mut/{k}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
    record = dict(k=k, file=path, line=line, what=what, killer=None)
    try:
        open(os.path.join(copy, path), "w").write(new)
        r = subprocess.run(["/opt/venv/bin/python", "-c", "import gsp, gsp_matplotlib"], cwd=copy,
                           env=dict(ENV, PYTHONPATH=copy), capture_output=True)
        if r.returncode:
            record["killer"] = "import"
            return record
        for prop, scale in [(c, "0.2") for c in checks] + [(c, "0.999") for c in checks]:
            try:
                r = subprocess.run([HERE + "/check", prop], cwd=HERE, timeout=400,
                                   env=dict(ENV, VERIF_REPO=copy, PYTHONPATH=copy,
                                            VERIF_SCALE=scale),
                                   capture_output=True, text=True)
            except subprocess.TimeoutExpired:
                record["killer"] = f"{prop} (timeout)"
                return record
            if r.returncode == 1:
                record["killer"] = prop
                record["how"] = [l for l in r.stdout.splitlines()
                                 if l.startswith(prop + "/")][:1]
                return record
            if r.returncode:
                record.setdefault("errors", []).append([prop, r.stdout[-300:] + r.stderr[-300:]])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return record


def main():
    args = sys.argv[1:]
    opt = lambda name, default: args[args.index(name) + 1] if name in args else default
    every, start = int(opt("--every", 1)), int(opt("--start", 0))
    covered = json.load(open(opt("--covered", "/dev/null"))) if "--covered" in args else None
    files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "gsp", "gsp_matplotlib"],
                                    text=True).split()
    jobs, n = [], 0
    done = set()
    if os.path.exists(args[0]):
        done = {json.loads(l)["k"] for l in open(args[0])}
    for path in files:
        if not path.endswith(".py") or re.search(SKIP, path) or \
                not re.search(opt("--files", ""), path):
            continue
        checks = next((c.split() for r, c in RELEVANT if re.search(r, path)), [])
        for line, what, new in mutants(path, open("/repo/" + path).read()):
            if covered is not None and path in covered and line not in covered[path]:
                continue
            n += 1
            if n % every == start and n not in done:
                jobs.append((n, path, line, what, new, checks))
    print(len(jobs), "mutants of", n, flush=True)
    if "--count" in args:
        return
    with cf.ThreadPoolExecutor(int(opt("--jobs", 3))) as pool, open(args[0], "a") as out:
        for r in pool.map(run, jobs):
            print(json.dumps(r), file=out, flush=True)


main()
