"""
The same guarantees on large volumes: thousands of calls, commands, objects and
values (the other oracles explore small, intricate cases).
"""
import operator, random
from lib.synth import *
from lib.script import recorded, compare_commands, compare_log
from lib.harness import oracle, st
from lib.draw import *

T = gsp.transform
counts = st.sampled_from([130, 257, 513, 1025, 2049, 3000, 4097, 5003])
larges = st.sampled_from([513, 1025, 4097, 10007, 16385, 33000, 40961, 66000, 132000])
seeds = st.integers(0, 2 ** 16)


def base(**more):
    return st.fixed_dictionaries(dict(n=counts, seed=seeds, **more))


def big(**more):
    return st.fixed_dictionaries(dict(n=larges, seed=seeds, **more))


# ---------------------------------------------------------------- commands
def calls(case, rng):
    """ Many calls on few or many objects -> expected commands """

    objects, want = [], []
    new = rng.choice([0.02, 0.3, 0.8])
    for k in range(case["n"]):
        if not objects or rng.random() < new:
            if objects and rng.random() < 0.5:
                p = dict(grid=rng.choice(objects), size=k, tid=None)
                o = Special(p["grid"], k)
            else:
                p = dict(a=k, b=k / 4, name=str(k % 7))
                o = Item(**p)
            objects.append(o)
            name = CREATE[type(o).__name__]
        else:
            o, other = rng.choice(objects), rng.choice(objects)
            p = dict(a=k, other=other if rng.random() < 0.6 else None, values=None)
            o.update(k, other=p["other"])
            name = "update"
        want.append([type(o).__name__, name, int(o.id), {k: norm(v) for k, v in p.items()}])
    return objects, want


@oracle("P01", "volume", base(), 30, 600, "always (at least 130 commands)")
def p01_volume(case, ctx):
    """ every one of thousands of calls is recorded """

    _, want = calls(case, random.Random(case["seed"]))
    compare_commands(recorded(active().commands), want, "history of many calls")
    ids = [int(c.id) for c in active().commands]
    require(all(a < b for a, b in zip(ids, ids[1:])), "command ids do not increase")
    ctx.nontrivial()


@oracle("P03", "volume", base(), 30, 600, "always (at least 130 commands)")
def p03_volume(case, ctx):
    """ thousands of commands, many objects: each call is replayed on its object """

    _, want = calls(case, random.Random(case["seed"]))
    LOG.clear()
    Object.objects = {}
    active().run(BACKEND)
    compare_log(LOG, want, "replay of many calls")
    ctx.nontrivial()


@oracle("P04", "volume", base(), 20, 400, "always (at least 130 commands)")
def p04_volume(case, ctx):
    """ files of thousands of commands """

    import os, shutil, tempfile
    _, want = calls(case, random.Random(case["seed"]))
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, "scene.json")
        gsp.io.json.save(path)
        queue = gsp.io.json.load(path, gsp.io.queue("verif-volume"))
    finally:
        shutil.rmtree(folder)
    require(len(queue) == len(want), "commands loaded from a file", got=len(queue),
            want=len(want))
    LOG.clear()
    Object.objects = {}
    queue.run(BACKEND)
    compare_log(LOG, want, "replay of a long file")
    ctx.nontrivial()


@oracle("P06", "volume", st.fixed_dictionaries(dict(
        n=st.sampled_from([300, 1100, 5000, 17000, 40000, 70000]), seed=seeds)), 12, 150,
        "always (at least 300 objects)")
def p06_volume(case, ctx):
    """ many objects, some of which are not registered """

    rng = random.Random(case["seed"])
    objects = []
    registered = rng.random()
    with not_recording():
        for k in range(case["n"]):
            Object.record = rng.random() < registered
            o = Object()
            objects.append(o)
            if not Object.record:
                require(o.id not in Object.objects, "an object that is not recorded is registered")
            else:
                require(Object.objects.get(o.id) is o, "an object is not registered", id=o.id)
    Object.record = True
    ids = {int(o.id) for o in objects}
    require(len(ids) == len(objects), "objects share an id", objects=len(objects), ids=len(ids))
    require(len({int(OID()) for _ in range(case["n"])} - ids) == case["n"],
            "a new identifier is the one of an object")
    ctx.nontrivial()


@oracle("P07", "volume", base(queues=st.sampled_from([3, 20, 70, 150, 400])), 25, 400,
        "always (at least 130 commands)")
def p07_volume(case, ctx):
    """ many queues and many commands """

    rng = random.Random(case["seed"])
    Q = gsp.io.CommandQueue
    known = set(type(Q)._instances) if hasattr(type(Q), "_instances") else None
    names = [f"volume-{k}" for k in range(case["queues"])]
    queues = [Q(name) for name in names]
    for q in queues:
        q.readonly = False
        q.empty()
    item = None
    want = {name: [] for name in names}
    try:
        for k in range(case["n"]):
            i = rng.randrange(len(names))
            if k % 7 == 0:
                require(Q(names[i]) is queues[i], "a named queue is not unique", name=names[i])
                Q.active = queues[i]
                now = names[i]
            if item is None or k % 50 == 0:
                item = Item(k)
            else:
                item.move(k)
            want[now].append(k)
        for name, q in zip(names, queues):
            got = [c.parameters["a" if "kit" in c.methodname else "x"] for c in q.commands]
            require(Q(name) is q, "a named queue is not unique", name=name)
            require(got == want[name], "commands of a queue among many", got=len(got),
                    want=len(want[name]))
    finally:
        if known is not None:
            for name in set(type(Q)._instances) - known:
                del type(Q)._instances[name]
    ctx.nontrivial()


@oracle("P10", "volume", base(), 12, 200, "always (at least 130 commands)")
def p10_volume(case, ctx):
    """ text dumps of many commands """

    import re
    import gsp.io.text
    objects, _ = calls(dict(case, n=case["n"] // 2), random.Random(case["seed"]))
    before = list(active().commands)
    for name, module in (("ansi", gsp.io.ansi), ("text", gsp.io.text)):
        text = re.sub(r"\033\[[0-9]*m", "", module.dump())
        heads = [int(x) for x in re.findall(r"^(\d+)\. COMMAND", text, re.M)]
        require(heads == [int(c.id) for c in before], f"commands listed by a long {name} dump",
                got=len(heads), want=len(before))
        ids = [int(x) for x in re.findall(r"OBJECT_ID: (\d+)", text)]
        require(ids == [int(c.parameters["id"]) for c in before],
                f"objects listed by a long {name} dump")
    require(active().commands == before, "a dump changes the queue")
    ctx.nontrivial()


# ------------------------------------------------------------------ buffers
DTYPES = ["u1", "i2", "<i4", ">i4", "f2", "f4", "f8", "V4f4", "S"]


def content(case):
    rng = np.random.RandomState(case["seed"])
    n, k = case["n"], case["dtype"]
    if k == "V4f4":
        dt = np.dtype((np.float32, (4,)))
        return np.arange(n * 4, dtype=np.float32).reshape(n, 4), dt
    if k == "S":
        dt = np.dtype([("a", "<i4"), ("b", "f4")])
        A = np.zeros(n, dt)
        A["a"], A["b"] = rng.randint(0, 2 ** 31, n), rng.randint(-99, 99, n) / 8
        return A, dt
    dt = np.dtype(k)
    return rng.randint(0, 100, n).astype(dt), dt


@oracle("P09", "volume", big(dtype=st.sampled_from(DTYPES), late=st.booleans()), 40, 600,
        "more than 65536 bytes")
def p09_volume(case, ctx):
    """ large buffers: the file holds all their bytes """

    import os, shutil, tempfile
    A, dt = content(case)
    raw = A.tobytes()
    memory = memoryview(raw)
    if case["late"]:
        B = gsp_matplotlib.core.Buffer(case["n"], dt, None)
        cut = len(raw) // dt.itemsize // 3 * dt.itemsize
        B.set_data(0, memory[:cut])
        B.set_data(cut, memory[cut:])
    else:
        B = gsp_matplotlib.core.Buffer(case["n"], dt, memory)
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, "scene.json")
        gsp.io.json.save(path)
        queue = gsp.io.json.load(path, gsp.io.queue("verif-volume"))
    finally:
        shutil.rmtree(folder)
    Object.objects = {}
    queue.run(gsp_matplotlib)
    got = np.asarray(Object.objects[B.id])
    require(len(got) == case["n"] and got.dtype == A.dtype, "size and type of a large buffer",
            got=(len(got), got.dtype), want=(case["n"], A.dtype))
    require(got.tobytes() == raw, "content of a large buffer")
    ctx.nontrivial(len(raw) > 65536)


@oracle("P12", "volume", big(how=st.sampled_from(["int", "small", "mixed"]),
                             dtype=st.sampled_from(["u1", "u2", "i4", "i8"])), 40, 600, "always")
def p12_volume(case, ctx):
    """ lists of many items, of long items """

    rng = np.random.RandomState(case["seed"])
    n, B = min(case["n"], 40000), gsp_matplotlib.core.Buffer
    data = np.arange(n * 2, dtype=np.int32).reshape(-1, 2)
    dt = np.dtype((np.int32, (2,)))
    D = B(n, dt, data.tobytes())
    if case["how"] == "int":
        size = max(k for k in range(1, 400) if n % k == 0)
        sizes = [size] * (n // size)
        L = gsp_matplotlib.core.List(D, size)
    else:
        top = 9 if case["how"] == "small" else 255
        sizes = []
        while sum(sizes) < n:
            sizes.append(int(min(rng.randint(1, top + 1), n - sum(sizes))))
        it = np.dtype(case["dtype"])
        L = gsp_matplotlib.core.List(D, B(len(sizes), it, np.array(sizes, it).tobytes()))
    require(len(L) == len(sizes), "number of items of a long list", got=len(L), want=len(sizes))
    items = [np.asarray(x) for x in L]
    require([len(x) for x in items] == sizes, "sizes of the items of a long list")
    require(np.array_equal(np.concatenate(items), data), "items of a long list")
    ctx.nontrivial()


# --------------------------------------------------------------- transforms
def values(case, cols=None):
    rng = np.random.RandomState(case["seed"])
    shape = (case["n"], cols) if cols else case["n"]
    V = rng.randint(-4096, 4096, shape) / 16
    return V.astype(case["dtype"]) if "dtype" in case else V


def agree(got, want, what, rtol=1e-5, atol=1e-6):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    bad = ~np.isclose(got, want, rtol=rtol, atol=atol)
    if bad.any():
        k = tuple(int(i[0]) for i in np.nonzero(bad))
        fail(f"{what}: {int(bad.sum())} wrong values of {bad.size}", first=k, got=got[k],
             want=want[k])


kinds = st.sampled_from(["f4", "f8"])


@oracle("T01", "volume", big(dtype=kinds, op=st.sampled_from("+-*/"), swap=st.booleans(),
                             cols=st.sampled_from([2, 3, 4])), 60, 800, "always")
def t01_volume(case, ctx):
    """ expressions on large arrays """

    V = values(case, case["cols"])
    W = np.random.RandomState(case["seed"] + 1).randint(1, 99, V.shape).astype(V.dtype)
    f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
         "/": operator.truediv}[case["op"]]
    x, y = T.X(V), T.Y(W)
    if case["swap"]:
        agree(f(2.0, y).evaluate({}), f(2.0, W[:, 1]), "number and large array")
        agree((f(x, y) + x).evaluate({}), f(V[:, 0], W[:, 1]) + V[:, 0], "expression")
    else:
        agree(f(x, 4.0).evaluate({}), f(V[:, 0], 4.0), "large array and number")
        total, want = x, V[:, 0].astype(float)
        for k in range(case["seed"] % 30):              # a long sum
            total = total + (y if k % 2 else k + 0.5)
            want = want + (W[:, 1] if k % 2 else k + 0.5)
        agree(total.evaluate({}), want, "sum of many terms")
    ctx.nontrivial()


@oracle("T02", "volume", big(dtype=kinds, cols=st.sampled_from([2, 3]),
                             unit=st.sampled_from(["Pixel", "Point", "Inch", "Centimeter",
                                                   "Millimeter", "Meter"])), 60, 800, "always")
def t02_volume(case, ctx):
    """ measures of large arrays """

    V = values(case, case["cols"])
    unit = {"Pixel": 1, "Point": 96 / 72, "Inch": 96, "Centimeter": 96 / 2.54,
            "Millimeter": 96 / 25.4, "Meter": 9600 / 2.54}[case["unit"]]
    canvas = gsp_matplotlib.core.Canvas(120, 80, 96.0)
    got = np.asarray(getattr(T, case["unit"])()(V).evaluate({"canvas": canvas}))
    agree(got[:, :2], V[:, :2] * np.array([unit / 120, unit / 80]), f"{case['unit']} of many")
    ctx.nontrivial()


@oracle("T03", "volume", big(dtype=kinds, key=st.sampled_from("XYZWRGBA")), 60, 800, "always")
def t03_volume(case, ctx):
    """ components of large arrays, chains of many transforms """

    V, k = values(case, 4), case["key"]
    i = ("XYZW" if k in "XYZW" else "RGBA").index(k)
    agree(getattr(T, k)(V).evaluate({}), V[:, i], "component of a large array")
    S = np.zeros(len(V), [("p", V.dtype), ("q", V.dtype, (2,))])
    S["p"], S["q"] = V[:, 0], V[:, 1:3]
    agree(T.Accessor(S, "q").evaluate({}), V[:, 1:3], "field of a large array")
    t, depth = T.X(), 2 + case["seed"] % 12
    U = V.reshape(-1, 1, 1, 4)[:64]
    U = np.ones((16,) + (2,) * depth) * V[:16, :1].reshape(16, *[1] * depth)
    U = U * (1 + np.arange(2))
    for _ in range(depth - 1):
        t = T.X()(t)
    want = U[(slice(None),) + (0,) * depth]
    agree(t(U).evaluate({}), want, "chain of many transforms")
    agree(t.copy()(U).evaluate({}), want, "copy of a chain of many transforms")
    ctx.nontrivial()


@oracle("T04", "volume", big(dtype=kinds, name=st.sampled_from(["viridis", "gray", "magma"]),
                             limits=st.sampled_from([None, None, "min", "max", "both"]),
                             extreme=st.booleans()), 60, 800, "always")
def t04_volume(case, ctx):
    """ colours of many values, the extremes of which are rare """

    V = values(case)
    rng = np.random.RandomState(case["seed"] + 2)
    if case["extreme"]:
        i, j = rng.choice(len(V), 2, replace=False)
        V[i], V[j] = -999, 1500
    lo = -100.0 if case["limits"] in ("min", "both") else None
    hi = 90.0 if case["limits"] in ("max", "both") else None
    got = T.Colormap(case["name"], lo, hi)(V).evaluate({})
    a, b = V.min() if lo is None else lo, V.max() if hi is None else hi
    x = (V.astype(float) - a) / (float(b) - a)
    cmap = plt.get_cmap(case["name"])
    # within a colour of the table
    low, high = cmap(x - 1e-4), cmap(x + 1e-4)
    got = np.asarray(got)
    require(got.shape == (len(V), 4), "shape of colours", got=got.shape)
    ok = (np.abs(got - low).max(-1) < 1e-6) | (np.abs(got - high).max(-1) < 1e-6)
    require(ok.all(), f"{int((~ok).sum())} wrong colours of {len(V)}")
    ctx.nontrivial()


@oracle("T05", "volume", big(dtype=kinds, key=st.sampled_from(["x", "y", "zyx", "rgb", None])),
        60, 800, "always")
def t05_volume(case, ctx):
    """ large variables """

    V, k = values(case, 4), case["key"]
    out = T.Out("a" + ("." + k if k else ""))
    index = [("xyzw" if k[0] in "xyzw" else "rgba").index(c) for c in k] if k else [0, 1, 2, 3]
    got = np.asarray((out * 2.0).evaluate({"a": V, "b": V + 1}))
    agree(got.reshape(len(V), -1), V[:, index] * 2, "large variable")
    ctx.nontrivial()


# ------------------------------------------------------------------- arrays
@oracle("G01", "volume", big(dtype=kinds, source=st.sampled_from([2, 3, 4, "flat"]),
                             to=st.sampled_from([2, 3, 4])), 60, 800, "always")
def g01_volume(case, ctx):
    """ conversions of many vectors """

    to, s = case["to"], case["source"]
    f = {2: glm.to_vec2, 3: glm.to_vec3, 4: glm.to_vec4}[to]
    if s == "flat":
        V = values(case, to)
        want, V = V, V.ravel()
    else:
        V = values(case, s)
        if s == 4:
            V[:, 3] = 1 + np.arange(len(V)) % 7
        H = np.c_[V, np.zeros((len(V), 4 - s))] if s < 4 else V
        if s < 4:
            H[:, 3] = 1
        want = H if to == 4 else H[:, :to] / H[:, 3:] if s == 4 else H[:, :to]
    agree(f(V), want, f"{s} to vec{to}")
    ctx.nontrivial()


@oracle("G02", "volume", big(key=st.sampled_from(["x", "yx", "xyz", "zx", "bgr", "w", "wx"]),
                             value=st.booleans()), 60, 800, "always")
def g02_volume(case, ctx):
    """ components of many vectors """

    V = glm.vec4(case["n"])
    A = values(case, 4).astype(np.float32)
    V[...] = A
    k = case["key"]
    index = [("xyzw" if k[0] in "xyzw" else "rgba").index(c) for c in k]
    got = np.asarray(getattr(V, k))
    agree(got.reshape(len(A), -1), A[:, index], "swizzle of many vectors")
    new = A[::-1, :len(k)].copy() if case["value"] else 5.0
    if len(k) == 1 and case["value"]:
        new = new[:, 0]
    setattr(V, k, new)
    A[:, index] = np.asarray(new).reshape(len(A), -1) if case["value"] else 5.0
    agree(np.asarray(V), A, "writing a swizzle of many vectors")
    ctx.nontrivial()


@oracle("G03", "volume", big(steps=st.integers(1, 40)), 60, 800, "always")
def g03_volume(case, ctx):
    """ mirror of a large array, after many modifications """

    from checks.arrays import Mirror
    rng = random.Random(case["seed"])
    glm.ndarray.tracked.__tracker_class__ = Mirror
    Mirror.instances.clear()
    n = case["n"]
    A = glm.vec3(n)
    mirror = Mirror.instances[0]
    A[...] = np.arange(3 * n).reshape(n, 3) % 1000
    R = plain(A)
    for k in range(case["steps"]):
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        how, c = rng.randrange(6), rng.randrange(3)
        if how == 0:
            A[i] = R[i] = k
        elif how == 1:
            A[i:j + 1] += k + 1
            R[i:j + 1] += k + 1
        elif how == 2:
            A[i:j + 1:3, c] = R[i:j + 1:3, c] = k + 0.5
        elif how == 3:
            A[np.array([i, j])] = R[[i, j]] = -k
        elif how == 4:
            A[i:j + 1].x = R[i:j + 1, 0] = k
        else:
            A[j:][::-2] = R[j:][::-2] = k + 0.25
    agree(plain(A), R, "large array")
    got = np.frombuffer(bytes(mirror.bytes), np.float32).reshape(n, 3)
    agree(got, R, "mirror of a large array")
    ctx.nontrivial()


@oracle("G04", "volume", big(steps=st.integers(1, 30), how=st.sampled_from(
    ["lists", "arrays", "sizes", "int"])), 50, 700, "always")
def g04_volume(case, ctx):
    """ ragged arrays of many items """

    rng = random.Random(case["seed"])
    n = min(case["n"], 4097)
    lens = [rng.choice([1, 2, 3, 7, 130]) for _ in range(n)]
    if case["how"] == "int":
        lens = [rng.choice([1, 2, 3, 7, 130])] * n
    start = np.cumsum([0] + lens)
    parts = [np.arange(a, b, dtype=np.float64) for a, b in zip(start[:-1], start[1:])]
    flat = np.concatenate(parts)
    R = {"lists": lambda: glm.vlist([p.tolist() for p in parts]),
         "arrays": lambda: glm.vlist(list(parts)),
         "sizes": lambda: glm.vlist(flat.copy(), lens),
         "int": lambda: glm.vlist(flat.copy(), lens[0])}[case["how"]]()
    for k in range(case["steps"]):
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        if k % 2:
            R[i] = np.zeros(lens[i]) + k
            parts[i][...] = k
        else:
            want = np.concatenate(parts[i:j + 1])
            agree(R[i:j + 1], want, "slice of a long ragged array")
    require(len(R) == n, "number of items", got=len(R), want=n)
    bad = [i for i in range(n) if not np.array_equal(np.asarray(R[i]), parts[i])]
    require(not bad, f"{len(bad)} wrong items of {n}", items=bad[:5])
    agree(R.data, np.concatenate(parts), "data of a long ragged array")
    ctx.nontrivial()


# ---------------------------------------------------------------- renderings
@oracle("R04", "volume", st.fixed_dictionaries(dict(
        kinds=st.lists(st.sampled_from(KINDS), min_size=1, max_size=3), seed=seeds,
        steps=st.sampled_from([40, 70, 130]), viewports=st.integers(1, 2))), 30, 600, "always")
def r04_volume(case, ctx):
    """ many renderings of the same visuals: one drawing each, at its latest place """

    rng = random.Random(case["seed"])
    stage = Stage(viewports=case["viewports"])
    visuals, shown = [], {}
    for k, kind in enumerate(case["kinds"]):
        P, per = item_positions(kind, 3 + k, 3, [0.1 * k, -0.3, 0.2, 0.5, 0.4, -0.1])
        visuals.append((kind, P, per, make(kind, P, indices=3)))
    model = [None] * len(visuals)
    for step in range(case["steps"]):
        i, j = rng.randrange(len(visuals)), rng.randrange(case["viewports"])
        kw = {}
        if step < len(visuals) or rng.random() < 0.6:
            model[i] = affine([0, 0, rng.randrange(0, 360, 15), rng.choice([0.5, 1.0]),
                               rng.randrange(-8, 9) / 16, 0, 0])
            kw = dict(model=model[i])
        visuals[i][3].render(stage.viewports[j], **kw)
        shown[i, j] = model[i]
    for j in range(case["viewports"]):
        here = [i for i in range(len(visuals)) if (i, j) in shown]
        n = sum(len(expected_items(visuals[i][0], visuals[i][1], visuals[i][2],
                                   (None, None, None))) for i in here)
        items = stage.items(j)
        require(len(items) == n, "number of items after many renderings", got=len(items), want=n)
        for i in here:
            kind, P, per, _ = visuals[i]
            S = expected_items(kind, P, per, (shown[i, j], None, None))
            for k, w in enumerate(S):
                near = False
                for it in items:
                    at = it["at"][None] if kind in ITEMS1 and it["at"] is not None \
                        else it["vertices"][:per]
                    near |= at.shape == w[:, :2].shape and np.abs(at - w[:, :2]).max() < 1e-4
                require(near, f"{kind}: item {k} is not drawn at its latest place",
                        steps=case["steps"])
    ctx.nontrivial()


@oracle("R06", "volume", st.fixed_dictionaries(dict(
        n=st.sampled_from([12, 25, 40, 70]), seed=seeds, resize=st.booleans())), 16, 400, "always", shards=2)
def r06_volume(case, ctx):
    """ many viewports on a canvas """

    rng = random.Random(case["seed"])
    w, h, dpi = 160, 120, 64.0
    canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
    figure = plt.figure(plt.get_fignums()[-1])
    rects, viewports = [], []
    for k in range(case["n"]):
        x, y = rng.randrange(0, 100), rng.randrange(0, 80)
        vw, vh = rng.randrange(10, 50), rng.randrange(10, 40)
        pixels = rng.random() < 0.5
        args = (x, y, vw, vh) if pixels else (x / 160, y / 128, vw / 160, vh / 128)
        rects.append((args, pixels))
        color = [(k * 40 % 256) / 255, (k * 90 % 256) / 255, (k * 170 + 30) % 256 / 255, 1.0]
        viewports.append((gsp_matplotlib.core.Viewport(canvas, *args, color), color))
    if case["resize"]:
        w, h = 200, 100
        resize(figure, w / dpi, h / dpi)
    image = np.array(canvas.render(None)).astype(int)
    H, W = image.shape[:2]
    want = np.full((H, W, 4), -1)
    for (args, pixels), (v, color), ax in zip(rects, viewports, figure.axes):
        x, y, vw, vh = args if pixels else (args[0] * w, args[1] * h, args[2] * w, args[3] * h)
        same(ax.get_window_extent().extents, (x, y, x + vw, y + vh), "rectangle of a viewport "
             f"among {case['n']}", rtol=1e-5, atol=1e-2)
        same(v.size, (vw, vh), "size of a viewport among many", rtol=1e-5, atol=1e-2)
        rows, cols = h - 1 - np.arange(H), np.arange(W)
        near = ((rows > y - 2) & (rows < y + vh + 1))[:, None] & \
            ((cols > x - 2) & (cols < x + vw + 1))[None]
        inside = ((rows > y + 1) & (rows < y + vh - 2))[:, None] & \
            ((cols > x + 1) & (cols < x + vw - 2))[None]
        want[near] = -1
        want[inside] = np.round(np.array(color) * 255)
    known = want[..., 0] >= 0
    bad = np.abs(image[known] - want[known]).max(-1) > 3
    require(not bad.any(), f"{int(bad.sum())} pixels do not show the latest viewport there")
    ctx.nontrivial()


@oracle("R07", "volume", st.fixed_dictionaries(dict(
        w=st.integers(500, 3000), h=st.integers(500, 3000), dpi=st.integers(20, 400).map(float),
        seed=seeds)), 10, 120, "always")
def r07_volume(case, ctx):
    """ large images """

    w, h, dpi = case["w"], case["h"], case["dpi"]
    canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
    x, y = case["seed"] % (w // 2), case["seed"] * 7 % (h // 2)
    gsp_matplotlib.core.Viewport(canvas, x, y, w // 2, h // 2, [0.0, 0.5, 1.0, 1.0])
    image = np.array(canvas.render(None))
    require(image.shape[:2] == (h, w), "size of a large image", got=image.shape[:2], want=(h, w))
    mask = np.abs(image.astype(int) - [0, 128, 255, 255]).max(-1) <= 2
    rows, cols = np.nonzero(mask)
    box = cols.min(), h - 1 - rows.max(), cols.max() + 1, h - rows.min()
    require(np.abs(np.array(box) - [x, y, x + w // 2, y + h // 2]).max() <= 1
            and mask.sum() == (box[2] - box[0]) * (box[3] - box[1]),
            "rectangle in a large image", got=box, want=(x, y, x + w // 2, y + h // 2))
    ctx.nontrivial()
