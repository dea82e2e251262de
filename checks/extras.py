"""
P11 (everything can be shown), P12 (lists), P13 (documentation blocks).
"""
import contextlib, io, json, linecache, os, re, shutil, tempfile
from lib.harness import oracle
from lib.script import *
from lib.common import *
from lib.draw import make, Stage
from checks.transforms import make_leaf, leaf, LEAVES, TLEAVES, T

# ------------------------------------------------------------------- P11
def numbers(text):
    return [int(x) for x in re.findall(r"\d+", text)]


@oracle("P11", "commands", st.fixed_dictionaries(dict(
        ops=history((), 10), converted=st.integers(0, 3), readonly=st.booleans(),
        bare=st.sampled_from([None, "", "core.Thing", "act"]), other=st.booleans())), 300, 8000,
        "three commands or more, or a converted argument")
def p11_commands(case, ctx):
    """ text of commands and queues, dump of a command """

    LOG.clear()
    calls = []
    gsp.io.register("Src", "Token")(lambda v: (calls.append(v), Token(v.payload))[1])
    it = Interpreter(ctx)
    for op in case["ops"]:
        it.step(op)
    queue = active()
    items = [o for o in it.objects if isinstance(o, Item)]
    for k in range(case["converted"] if items else 0):
        o = items[k % len(items)]
        o.t_second(k, Src(k))
        it.expected.append([type(o).__name__, "t_second", int(o.id),
                            {"w": k, "x": None, "z": "z"}])
    if case["other"]:
        gsp.io.queue(f"p11-{next(_serial)}")
        gsp.io.CommandQueue.active = queue if case["readonly"] else gsp.io.CommandQueue.active
    queue.readonly = case["readonly"]
    commands = [c for c in queue]
    parameters = [dict(c.parameters) for c in commands]
    objects = dict(Object.objects)
    n_active = len(active())
    lines = str(queue).split("\n")
    require(lines[-1] == "" and len(lines) == len(commands) + 2, "text of a queue does not "
            "list its commands", got=len(lines), want=len(commands) + 2)
    require(f'"{queue.name}"' in lines[0] and f"{len(commands)} command" in lines[0],
            "text of a queue: name and number of commands", got=lines[0])
    for c, line, (cls, method, oid, want) in zip(commands, lines[1:], it.expected):
        text = str(c)
        require(text in line, "text of a queue: order of the commands", got=line, want=text)
        # a creation command may be named after the class or after its public name
        require(re.search(rf"\b{cls}\b", text), "text of a command: class", got=text, want=cls)
        require(oid in numbers(text), "text of a command: object", got=text, want=oid)
        require(int(c.id) in numbers(text), "text of a command: number", got=text)
        create = method == "__init__" or "." in method
        require(create or re.search(rf"\b{method}\b", text), "text of a command: method",
                got=text, want=method)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            c.dump()
        shown = out.getvalue()
        require(re.search(rf"\b{cls}\b", shown) and oid in numbers(shown)
                and int(c.id) in numbers(shown)
                and (create or re.search(rf"\b{method}\b", shown)),
                "dump of a command", got=shown, want=(cls, oid, method))
        rows = re.findall(r"^ *\| (\S+): (.*)$", shown, re.M)
        require([r[0] for r in rows] == list(c.parameters), "dump of a command: parameters",
                got=shown, want=list(c.parameters))
        for key, kind in rows:
            value = c.parameters[key]
            name = type(value).__name__
            if method == "t_second" and key == "x":
                name = "Src"                            # not converted yet
            require(re.search(rf"\b{name}\b", kind), "dump of a command: type of a parameter",
                    key=key, got=kind, want=name)
    require(not calls, "showing a command converts its arguments")
    require([c for c in queue] == commands and all(
        set(p) == set(c.parameters) and all(c.parameters[k] is p[k] for k in p)
        for c, p in zip(commands, parameters)), "showing a command changes it")
    require(len(active()) == n_active and dict(Object.objects) == objects,
            "showing a command has side effects")
    queue.readonly = False
    # commands can be built without any call, possibly without method
    for number in (5, 17):
        c = gsp.io.Command("Thing", case["bare"], {"id": number, "x": 2.0})
        with contextlib.redirect_stdout(io.StringIO()) as out:
            c.dump()
        for text in (str(c), out.getvalue()):
            require("Thing" in text and {int(c.id), number} <= set(numbers(text)) and
                    (case["bare"] != "act" or "act" in text), "text of a command", got=text)
        require("float" in out.getvalue(), "dump of a command", got=out.getvalue())
    ctx.nontrivial(len(commands) >= 3 or bool(case["converted"] and items))


import itertools
_serial = itertools.count()


@oracle("P11", "objects", st.fixed_dictionaries(dict(
        leaves=st.lists(leaf, min_size=1, max_size=4), n=st.integers(1, 5), wide=st.booleans(),
        ops=st.lists(st.tuples(st.sampled_from(["+", "-", "*", "/", "neg", "chain", "copy"]),
                               st.integers(0, 12), st.integers(0, 12)).map(list), max_size=6),
        visual=st.sampled_from(["Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"]))),
        400, 12000, "at least two composed transforms")
def p11_objects(case, ctx):
    """ repr and str of objects of all kinds """

    n, wide = case["n"], case["wide"]
    rng = np.arange(1, n * 3 + 1, dtype=np.float64).reshape(n, 3) / 4
    variables = dict(dpi=96.0, wide=rng, flat=rng[:, 1].copy())
    values = []
    for spec in case["leaves"] + [dict(k="out", v=[1.0] * 12, unit="Pixel")]:
        values.append(make_leaf(spec, n, wide, variables)[0])
    values += [T.Pixel(), T.X(), T.Colormap("gray"), T.Accessor(None, "xy"), 3 * T.Inch(),
               T.X()(T.Out("wide")), T.Pixel()(0), T.Inch()(0.0), T.Millimeter()(1.5), T.Pixel()(7)]
    transforms = [v for v in values if isinstance(v, T.Transform)]
    composed = 0
    for op, i, j in case["ops"]:
        a, b = transforms[i % len(transforms)], values[j % len(values)]
        if op in "+-*/":
            t = {"+": lambda: a + b, "-": lambda: b - a, "*": lambda: a * b,
                 "/": lambda: b / a}[op]()
            if not isinstance(t, T.Transform):
                continue
        elif op == "neg":
            t = -a
        elif op == "copy":
            t = a.copy()
        else:
            chain = [T.X, T.Y, T.Colormap][j % 3]
            t = (chain("gray") if chain is T.Colormap else chain())(a)
        transforms.append(t)
        values.append(t)
        composed += 1
    stage = Stage()
    P = np.linspace(-1, 1, 36, dtype=np.float32).reshape(12, 3)
    if case["visual"] == "Segments":
        P = P.reshape(6, 2, 3)
    P = P.view(glm.ndarray.tracked)
    visual = make(case["visual"], P)
    data = gsp.io.convert([[1, 2], [3]], "List")
    values = gsp.io.convert([1, 2, 3], "Buffer")
    others = [stage.canvas, stage.viewports[0], visual, data, values,
              gsp.core.Buffer(2, np.dtype("f4"), bytes(8)), gsp.core.Color(0, .5, 1, 1),
              gsp.core.Matrix(np.eye(4)), gsp.core.Marker.star, gsp.core.LineCap.round,
              gsp.visual.Pixels(values, gsp.core.Color(0, 0, 0, 1)), gsp.core.Data("", 3)]
    # buffers over memory that is modified afterwards, shown or not
    memory = np.zeros((case["n"] + 1, 2), np.float32)
    source = memory[:, 0] if wide else memory[0]
    shown, twin = [gsp_matplotlib.core.Buffer(len(source), np.dtype("f4"), source.data)
                   for _ in range(2)]
    others += [shown]
    queue = active()
    before = len(queue)
    registered = dict(Object.objects)
    for o in transforms + others:
        for f in (repr, str):
            try:
                text = f(o)
            except Exception as exc:
                fail(f"{f.__name__} of a {type(o).__name__} raises {type(exc).__name__}: {exc}",
                     bound=type(getattr(o, "_buffer", None)).__name__)
            if f is str and isinstance(o, int):        # a plain number
                continue
            require(isinstance(text, str) and re.search(rf"\b{type(o).__name__}\b", text),
                    f"{f.__name__} does not tell the class", got=text, want=type(o).__name__)
        if isinstance(o, T.Transform):
            require(int(o.id) in numbers(text), "text of a transform: id", got=text,
                    want=int(o.id))
            if o.next is not None:
                require(int(o.next.id) in numbers(text), "text of a transform: next one",
                        got=text, want=int(o.next.id))
            elif isinstance(o.buffer, Object):
                require(int(o.buffer.id) in numbers(text), "text of a transform: its buffer",
                        got=text, want=int(o.buffer.id))
            elif isinstance(o.buffer, (int, float)):
                require(str(o.buffer) in text.replace(str(int(o.id)), "", 1),
                        "text of a transform: its value", got=text)
    text = repr(data)
    require(2 in numbers(text), "text of a list: number of items", got=text)
    text = repr(values)
    require(3 in numbers(text) and "int64" in text, "text of a buffer: count and type", got=text)
    require(len(queue) == before and dict(Object.objects).keys() == registered.keys(),
            "showing an object has side effects")
    memory += 3
    same(np.asarray(shown), np.asarray(twin), "content of a buffer that has been shown")
    ctx.nontrivial(composed >= 2)


# ------------------------------------------------------------------- P12
item = st.lists(st.integers(0, 40), max_size=5)


@oracle("P12", "lists", st.fixed_dictionaries(dict(
        items=st.lists(item, min_size=1, max_size=6),
        form=st.sampled_from(["sublists", "sublists", "sizes", "sizes", "int", "tracked"]),
        sub=st.sampled_from(["list", "tuple", "array"]), width=st.sampled_from([0, 0, 2, 3]),
        dtype=st.sampled_from(["<i4", "<i8", "|u1", "<f4"]),
        sizetype=st.sampled_from(["<i4", "<i8", "|u1", "<u2"]), step=st.integers(1, 4),
        edit=st.lists(st.tuples(st.integers(0, 30), st.integers(0, 99)).map(list), max_size=2),
        big=st.sampled_from([0, 0, 0, 2 ** 53, -2 ** 53, 2 ** 40]),
        replay=st.booleans(), again=st.booleans())), 500, 15000,
        "at least two items of different sizes, or an edited list")
def p12_lists(case, ctx):
    """ a list: consecutive parts of its data, before and after a replay """

    core = gsp_matplotlib.core
    width = case["width"]

    # integers that a float cannot hold
    exact = case["form"] == "sublists" or case["dtype"] == "<i8" and case["form"] != "tracked"
    big = case["big"] if exact else 0
    kind = np.int64 if big else np.float64
    if big:
        ctx.event("large integers")

    def element(k):
        k = k + big
        return k if not width else [k + j for j in range(width)]
    items = [[element(k) for k in part] for part in case["items"]]
    flat = [e for part in items for e in part]
    dt = np.dtype(case["dtype"])
    tail = (width,) if width else ()
    form = case["form"]
    source = None
    array = None
    if form == "sublists":
        wrap = {"list": list, "tuple": tuple,
                "array": lambda part: np.array(part).reshape((-1,) + tail)}[case["sub"]]
        source = [wrap(part) for part in items]
        L = gsp.io.convert(source, "List")
        if not flat:
            tail = ()
    else:
        if form == "tracked":
            with untracked():
                array = np.array(flat, np.float32).reshape((len(flat),) + tail)
            array = array.view(glm.ndarray.tracked)
            data = gsp.io.convert(array, "Buffer")
        else:
            raw = np.array(flat, dt).reshape((len(flat),) + tail)
            data = core.Buffer(len(flat), np.dtype((dt, tail)), memoryview(raw.tobytes()))
        if form == "int":
            L = core.List(data, case["step"])
            items = [flat[i:i + case["step"]] for i in range(
                0, len(flat) // case["step"] * case["step"], case["step"])]
        else:
            sizes = np.array([len(part) for part in items], case["sizetype"])
            L = core.List(data, core.Buffer(len(sizes), sizes.dtype,
                                            memoryview(sizes.tobytes())))
    if not isinstance(L, core.List):
        fail("not a list", got=type(L).__name__)

    def check(L, what):
        require(len(L) == len(items), f"{what}: number of items", got=len(L), want=len(items))
        got = list(L)
        require(len(got) == len(items), f"{what}: number of items found", got=len(got),
                want=len(items))
        for i, (g, w) in enumerate(zip(got, items)):
            g, w = np.asarray(g), np.array(w, kind).reshape((len(w),) + tail)
            require(g.shape == w.shape and g.tolist() == w.tolist(), f"{what}: item {i}", got=g,
                    want=w)
        whole_ = np.asarray(L)
        w = np.array(flat, kind).reshape((len(flat),) + tail)
        require(whole_.shape == w.shape and whole_.tolist() == w.tolist(), f"{what}: whole content",
                got=whole_, want=w)
    check(L, "list")
    if case["again"]:
        check(L, "list, enumerated again")
    # its data changes
    if form == "tracked" and flat:
        for i, v in case["edit"]:
            i %= len(flat)
            array[i] = v
            flat[i] = v if not width else [v] * width
            ctx.event("edited")
        at = 0
        for part in items:
            part[:] = flat[at:at + len(part)]
            at += len(part)
        check(L, "list whose data has been edited")
    elif form in ("sizes", "int") and flat and case["edit"]:
        step = np.dtype((dt, tail)).itemsize
        for i, v in case["edit"]:
            i %= len(flat)
            flat[i] = v if not width else [v] * width
            data.set_data(i * step, np.array(flat[i], dt).tobytes())
            ctx.event("content of the data set")
        if form == "int":
            items = [flat[i:i + case["step"]] for i in range(
                0, len(flat) // case["step"] * case["step"], case["step"])]
        else:
            at = 0
            for part in items:
                part[:] = flat[at:at + len(part)]
                at += len(part)
        check(L, "list whose data has been given another content")
    elif form == "sublists" and case["sub"] == "list":
        for i, v in case["edit"]:
            source[i % len(source)].append(element(v))
            items = [list(part) for part in source]
            flat = [e for part in items for e in part]
            tail = (width,) if width else ()
            L = gsp.io.convert(source, "List")
            check(L, "list converted again")
    if case["replay"]:
        oid = int(L.id)
        folder = tempfile.mkdtemp(prefix="verif-p12-")
        try:
            path = os.path.join(folder, "list.json")
            gsp.save(path)
            queue = gsp.load(path)
            queue.run(gsp_matplotlib)
        finally:
            shutil.rmtree(folder)
        R = Object.objects[oid]
        require(R is not L and isinstance(R, core.List), "the list has not been replayed")
        check(R, "replayed list")
        ctx.event("replayed")
    ctx.nontrivial(len({len(p) for p in items}) > 1 or bool(case["edit"]))


# ------------------------------------------------------------------- P13
STATEMENTS = [
    # source lines, commands issued
    (["c = gsp.core.Canvas({a}, {b}, 100.0)"], ["core.Canvas"]),
    (["gsp.core.Viewport(c, 0, 0, {a}, {b}, [0.0, 0.0, 0.0, 1.0])"], ["core.Viewport"]),
    (["gsp.core.Viewport(c,", "                  0, 0,", "                  {a}, {b},",
      "                  color=gsp.core.Color(0, 0, 0, 1))"], ["core.Viewport"]),
    (["# a comment: {a}"], []),
    ([""], []),
    (["<blank>"], []),                        # a line of one space
    (["for i in range(3):", "    # repeated", "    gsp.core.Canvas({a} + i, {b}, 72.0)"],
     ["core.Canvas"] * 3),
    (["if c:", "    c.render('file-{a}')", "", "text = '  {b}'"], ["Canvas/render"]),
    (["x = {a} * (1 +", "           {b})"], []),
    (["positions = gsp.core.Buffer({a}, np.dtype(np.float32))",
      "gsp.visual.Pixels(positions, colors=(0, 0, 0, 1))"], ["core.Buffer", "visual.Pixels"]),
    (["colormap = gsp.transform.Colormap('gray')"], ["transform.Colormap"]),
    (["x = {a}\t# a tab,\tthen text", "\ty = '\t{b}'".strip()], []),
    (["x = 'é ✓ {a}'  # ü"], []),
    (["if {a}:", "        x = 1     # more than usual"], []),
    (["x = 'a', \\", "    '%s %d', \"{{}}\""], []),
]


@oracle("P13", "blocks", st.fixed_dictionaries(dict(
        body=st.lists(st.tuples(st.integers(0, len(STATEMENTS) - 1), st.integers(1, 99),
                                st.integers(1, 99)).map(list), max_size=6),
        nest=st.sampled_from(["module", "module", "if", "function", "method"]),
        formats=st.sampled_from([None, ["ansi"], ["json"], ["ansi", "json"], ["json", "ansi"], []]),
        title=st.sampled_from([None, "T", "A title", 'é "q"']), before=st.integers(0, 3),
        after=st.sampled_from(["", "call", "comment", "blank"]), twice=st.booleans(),
        times=st.sampled_from([1] * 14 + [25]), failing=st.sampled_from([0, 0, 0, 1]), blank=st.integers(0, 1), tab=st.sampled_from([4, 2, 8]))), 300, 6000,
        "at least two statements that issue commands")
def p13_blocks(case, ctx):
    """ what a documentation block prints, for a generated script """

    nest, tab = case["nest"], case["tab"]
    prefix = {"module": [], "if": ["if True:"], "function": ["def example():"],
              "method": ["class Example:", " " * tab + "def example(self):"]}[nest]
    depth = len(prefix)
    body, methods = ["c = gsp.core.Canvas(10, 20, 100.0)"], ["core.Canvas"]
    for k, a, b in case["body"] * case["times"]:
        lines, issued = STATEMENTS[k]
        body += [line.format(a=a, b=b) for line in lines]
        methods += issued
    # the block starts with a blank line or a comment
    if case["blank"]:
        body = [""] + body
    if case["failing"]:                     # the block does not reach its end
        body.append("raise RuntimeError('stop')")
    args = [] if case["title"] is None else [f"title={case['title']!r}"]
    if case["formats"] is not None:
        args.append(f"formats={case['formats']!r}")
    pad = " " * tab
    script = ["import gsp, numpy as np", "from gsp.io import mkdocs"]
    script += ["gsp.core.Canvas(1, 1, 1.0)"] * case["before"]
    script += prefix
    block = [f"with mkdocs({', '.join(args)}):"] + [pad + line if line else "" for line in body]
    if depth:
        block.append("stop = True")
    script += [pad * depth + line if line else "" for line in block]
    script += {"module": [], "if": [], "function": ["example()"],
               "method": ["Example().example()"]}[nest]
    script += {"": [], "call": ["gsp.core.Canvas(2, 2, 2.0)"], "comment": ["# the end"],
               "blank": ["", ""]}[case["after"]]
    folder = tempfile.mkdtemp(prefix="verif-p13-")
    shown = []
    try:
        path = os.path.join(folder, "script.py")
        script = [" " if line.endswith("<blank>") else line for line in script]
        text = "\n".join(script) + ("\n" if case["after"] != "call" else "")
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        for _ in range(2 if case["twice"] else 1):
            linecache.checkcache(path)
            with contextlib.redirect_stdout(io.StringIO()) as out:
                try:
                    exec(compile(text, path, "exec"), {"__name__": "script"})
                    failed = False
                except RuntimeError as exc:
                    require(str(exc) == "stop", f"block: {exc}")
                    failed = True
            require(failed == bool(case["failing"]), "an exception raised in the block "
                    "does not go through", got=failed)
            shown.append(out.getvalue())
    finally:
        shutil.rmtree(folder)
        linecache.clearcache()
    formats = case["formats"] if case["formats"] is not None else ["ansi", "json"]
    for out in shown:
        head = out.split("\n")[0]
        title = "Example" if case["title"] is None else case["title"]
        require(head == f'??? example "{title}"', "title", got=head, want=title)
        sections = re.split(r'^    === "(\w+)"\n', out, flags=re.M)
        names = sections[1::2]
        want = ["PYTHON"] + ["TEXT"] * ("ansi" in formats) + ["JSON"] * ("json" in formats)
        require(names == want, "sections", got=names, want=want)
        content = {}
        for name, part in zip(names, sections[2::2]):
            m = re.fullmatch(r"        ``` \w+ [^\n]*\n(.*)        ```\n\s*", part, re.S)
            require(m is not None, f"section {name} is not a block of code", got=part)
            content[name] = [line[8:] if line.startswith(" " * 8) else line
                             for line in m.group(1).split("\n")]
        got = [line.rstrip() for line in content["PYTHON"]]
        want = ["" if line == "<blank>" else line.rstrip() for line in body]
        # blank lines at either end do not matter
        for lines in (got, want):
            while lines and not lines[0]:
                lines.pop(0)
            while lines and not lines[-1]:
                lines.pop()
        require(got == want, "source of the block", got=got, want=want, script=script)
        if "JSON" in content:
            try:
                commands = json.loads("\n".join(content["JSON"]))["commands"]
            except Exception as exc:
                fail(f"the JSON section is not JSON: {exc}", got=content["JSON"][:6])
            got = [c["method"] for c in commands]
            require(got == methods, "commands of the block (JSON)", got=got, want=methods)
            ids = [c["id"] for c in commands]
            require(ids == list(range(ids[0], ids[0] + len(ids))), "numbers of the commands",
                    got=ids)
            made = [c["parameters"]["id"] for c in commands if "." in c["method"]]
            require(made == list(range(1, len(made) + 1)), "ids of the objects", got=made)
        if "TEXT" in content:
            plain_text = re.sub("\033\\[[0-9;]*m", "", "\n".join(content["TEXT"]))
            got = re.findall(r'- METHOD: "(.*)"', plain_text)
            require(got == methods, "commands of the block (text)", got=got, want=methods)
            made = [int(i) for i in re.findall(r"- OBJECT_ID: (\d+)", plain_text)]
            require(made[:1] == [1], "ids of the objects (text)", got=made)
    if case["twice"]:
        a, b = [re.sub(r"\d{4}-\d\d-\d\dT[\d:.]+|\"timestamp\": *[\d.e+]+", "", s)
                for s in shown]
        require(a == b, "the same block does not print the same thing twice", first=a, second=b)
    ctx.nontrivial(sum(bool(STATEMENTS[k][1]) for k, _, _ in case["body"]) >= 2)
