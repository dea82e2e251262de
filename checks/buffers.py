"""Data types, buffer contents (P09) and end-to-end replay of scenes (P05)."""
import json, tempfile, shutil
from lib.harness import oracle
from lib.scene import *
from lib import fresh
from gsp.object import OID

# ------------------------------------------------------------------- P09
BASES = ["<f4", "<f8", "<f2", ">f4", ">f8", "<i4", "<i2", "|i1", "|u1", "<u2", "<u4", "<i8",
         "<u8", ">i4", ">u2", "|b1", "<U3", "|S4", "<c8", "<M8[s]", "<m8[ms]"]
NUMERIC = [b for b in BASES if b[1] in "fiub"]
names = st.text("abcxyzPQ_019 .-\u00e9(", min_size=1, max_size=6).filter(lambda s: not s[0].isdigit())


def dtypes(bases):
    base = st.sampled_from(bases)
    size = st.one_of(st.just(0), st.integers(2, 6), st.sampled_from([9, 10, 16, 27, 100]))
    field = st.tuples(base, size).map(list)
    return st.one_of(
        field.map(lambda f: dict(fields=None, item=f)),
        st.lists(st.tuples(names, base, size).map(list), min_size=1, max_size=5,
                 unique_by=lambda f: f[0]).map(lambda fs: dict(fields=fs, item=None)))


def make_dtype(spec):
    if spec["fields"] is None:
        base, size = spec["item"]
        return np.dtype((base, (size,))) if size else np.dtype(base)
    return np.dtype([(n, b, (s,)) if s else (n, b) for n, b, s in spec["fields"]])


@oracle("P09", "dtype-text", st.fixed_dictionaries(dict(dtype=dtypes(BASES))), 500, 20000,
        "structured or sub-array dtype")
def p09_dtype(case, ctx):
    dt = make_dtype(case["dtype"])
    text = gsp.io.convert(dt, "str")
    require(isinstance(text, str), "text form is not a string", got=text)
    back = gsp.io.convert(text, "dtype")
    require(isinstance(back, np.dtype) and back == dt and back.shape == dt.shape
            and back.names == dt.names and back.itemsize == dt.itemsize,
            "dtype does not survive its text form", dtype=dt, text=text, back=back)
    require(gsp.io.convert(back, "str") == text, "text form is not stable")
    if dt.names is None and dt.shape == ():
        for t in (dt.str, dt.name):
            if t.startswith(("str", "bytes", "void")):
                continue
            want = np.dtype(t)
            require(gsp.io.convert(t, "dtype") == want, "plain dtype name", name=t)
    ctx.nontrivial(dt.names is not None or dt.shape != ())


def contents(draw_bytes, dt, count):
    data = (draw_bytes * (dt.itemsize * count // max(1, len(draw_bytes)) + 1))
    return data[:dt.itemsize * count]


update = st.fixed_dictionaries(dict(
    offset=st.integers(0, 200), data=st.binary(min_size=1, max_size=16).map(bytes.hex),
    form=st.sampled_from(["memoryview", "memoryview", "array"])))


@oracle("P09", "buffer-json", st.fixed_dictionaries(dict(
        dtype=dtypes([b for b in BASES if b != "|b1"]), count=st.integers(1, 6),
        data=st.binary(min_size=1, max_size=24).map(bytes.hex),
        source=st.sampled_from(["bytes", "memoryview", "array-memoryview"]),
        core=st.booleans(), updates=st.lists(update, max_size=4),
        late=st.integers(0, 4))), 300, 8000, "at least one partial update")
def p09_buffer(case, ctx):
    """ bytes -> buffer -> updates -> JSON -> replay """

    dt = make_dtype(case["dtype"])
    n = case["count"]
    raw = bytearray(contents(bytes.fromhex(case["data"]), dt, n))
    if dt.kind == "U" or "U" in str(dt) or dt.kind in "mM" or "M8" in str(dt):
        raw = bytearray(b"a\0\0\0" * (len(raw) // 4)) if len(raw) % 4 == 0 and \
            (dt.kind == "U" or dt.base.kind == "U") else bytearray(len(raw))
    if case["source"] == "bytes":
        data = bytes(raw)
    elif case["source"] == "memoryview":
        data = memoryview(bytes(raw))
    else:
        keep = np.frombuffer(bytes(raw), np.ubyte).copy()
        data = memoryview(keep)
    core = gsp.core if case["core"] else gsp_matplotlib.core
    buffer = core.Buffer(n, dt, data)
    require(len(buffer) == n, "wrong buffer length")
    model = bytearray(raw)
    numeric = dt.names is None and dt.base.kind in "fiu"

    def check(b, what):
        A = np.asarray(b)
        require(A.dtype == dt.base and A.shape == (n,) + dt.shape, f"{what}: item type or "
                "count differs", got=(A.dtype, A.shape), want=(dt, n))
        require(A.tobytes() == bytes(model), f"{what}: content differs",
                got=A.tobytes(), want=bytes(model))
    if not case["core"]:
        check(buffer, "new buffer")
    for u in case["updates"] if numeric or dt.names is None and dt.base.kind == "S" else []:
        chunk = bytes.fromhex(u["data"])[:len(model)]
        offset = u["offset"] % (len(model) - len(chunk) + 1)
        arg = memoryview(chunk) if u["form"] == "memoryview" else memoryview(
            np.frombuffer(chunk, np.ubyte).copy())
        buffer.set_data(offset, arg)
        model[offset:offset + len(chunk)] = chunk
        if not case["core"]:
            check(buffer, "buffer after an update")
        ctx.nontrivial()
        ctx.event("update")
    path = _file()
    try:
        gsp.save(path)
        with open(path) as f:
            first = json.load(f)["commands"][0]["parameters"]
        require(first["count"] == n, "count in file", got=first["count"])
        oid = int(buffer.id)
        queue = gsp.load(path)
        queue.run(gsp_matplotlib)
        b = Object.objects[oid]
        require(len(b) == n, "length of the replayed buffer", got=len(b), want=n)
        check(b, "replayed buffer")
    finally:
        _drop(path)


_dirs = []


def _file():
    d = tempfile.mkdtemp(prefix="verif-p09-")
    return os.path.join(d, "scene.json")


def _drop(path):
    shutil.rmtree(os.path.dirname(path))


PLAIN = ["plain", "plain2", "columns", "mirror", "third", "struct", "list", "intlist", "tuple"]
ALLOC = ["vec2", "vec3", "vec4", "float", "ivec3", "dvec2", "ubyte", "plain", "plain2",
         "columns", "mirror", "third",
         "struct", "list", "intlist", "tuple"]
edit = st.fixed_dictionaries(dict(
    how=st.sampled_from(["item", "slice", "iadd", "view", "all", "reverse"]),
    i=st.integers(0, 9), v=st.integers(0, 100)))


@oracle("P09", "array-json", st.fixed_dictionaries(dict(
        alloc=st.sampled_from(ALLOC), n=st.integers(1, 7), seed=st.integers(0, 255),
        when=st.sampled_from(["before", "after"]), edits=st.lists(edit, max_size=4),
        part=st.sampled_from(["whole", "whole", "tail", "step", "computed", "copy"]))),
        300, 8000, "an array that is tracked, edited or partially used")
def p09_array(case, ctx):
    """ arrays given as buffers: converted, edited, saved, replayed """

    n, alloc = case["n"], case["alloc"]
    ramp = (np.arange(n * 16) * 7 + case["seed"]) % 101
    if alloc in PLAIN:
        A = {"plain": lambda: ramp[:n].astype(np.float32),
             "plain2": lambda: ramp[:3 * n].astype(np.float64).reshape(n, 3),
             # other layouts in memory: column by column, backward, one in two
             "columns": lambda: np.asfortranarray(
                 ramp[:3 * n].astype(np.float32).reshape(n, 3)),
             "mirror": lambda: ramp[:3 * n].astype(np.float32).reshape(n, 3)[::-1, ::-1],
             "third": lambda: ramp[:6 * n].astype(np.int32).reshape(n, 6)[:, ::2],
             "struct": lambda: np.array([(k, (k, 1)) for k in ramp[:n]],
                                        [("a", "<i4"), ("b", "<f4", (2,))]),
             "list": lambda: (ramp[:n] / 2).tolist(), "intlist": lambda: ramp[:n].tolist(),
             "tuple": lambda: tuple((ramp[:n] / 2).tolist())}[alloc]()
        source = A
        ctx.nontrivial(alloc in ("columns", "mirror", "third"))
    else:
        A = getattr(glm, alloc)(n)
        A[...] = ramp[:A.size].reshape(A.shape)
        source = {"whole": lambda: A, "tail": lambda: A[n // 2:], "step": lambda: A[::2],
                  "computed": lambda: A + A, "copy": lambda: A.copy()}[case["part"]]()
        ctx.nontrivial(case["part"] != "whole" or bool(case["edits"]))
    tracked = isinstance(A, glm.ndarray.tracked)
    live = tracked and case["part"] == "whole"
    B = None
    if case["when"] == "before":
        B = gsp.io.convert(source, "Buffer")
        if not live:
            frozen = np.array(np.asarray(source), subok=False)
    if tracked:
        for e in case["edits"]:
            i, v = e["i"] % n, e["v"]
            if e["how"] == "item":
                A[i] = v
            elif e["how"] == "slice":
                A[i:i + 3] = v
            elif e["how"] == "iadd":
                A += type(A.reshape(-1)[0].item())(1)
            elif e["how"] == "view":
                view = A[i:]
                view[0] = v
            elif e["how"] == "reverse":
                view = A[::-1]
                view[i:] = v
            else:
                A[...] = v
    if B is None:
        B = gsp.io.convert(source, "Buffer")
        frozen = None
    want = plain(source) if (live or case["when"] == "after" or not tracked
                             or case["part"] in ("computed", "copy")) else None
    if want is not None:
        got = np.asarray(B)
        require(got.dtype == want.dtype and got.shape == want.shape,
                "buffer does not have the array's type", got=(got.dtype, got.shape),
                want=(want.dtype, want.shape))
        require(got.tobytes() == want.tobytes(), "buffer does not have the array's content",
                got=got, want=want)
        require(len(B) == len(want), "wrong buffer length", got=len(B), want=len(want))
    oid = int(B.id)
    path = _file()
    try:
        gsp.save(path)
        queue = gsp.load(path)
        queue.run(gsp_matplotlib)
        R = Object.objects[oid]
        if want is not None:
            got = np.asarray(R)
            require(got.dtype == want.dtype and got.shape == want.shape,
                    "replayed buffer does not have the array's type",
                    got=(got.dtype, got.shape), want=(want.dtype, want.shape))
            require(got.tobytes() == want.tobytes(),
                    "replayed buffer does not have the array's content", got=got, want=want)
    finally:
        _drop(path)


# ------------------------------------------------------------------- P05
@oracle("P05", "scene-replay", st.fixed_dictionaries(dict(
        scene=scene, again=st.booleans(), api=st.sampled_from(["gsp", "json"]))),
        320, 8000, "at least one visual rendered from the replayed file (always)",
        shards=6)
def p05_scene(case, ctx):
    fresh.start()
    sc = Scene(case["scene"], ctx)
    if sc.edited and sc.snapshot_used:
        sc.rerender()
    folder = tempfile.mkdtemp(prefix="verif-p05-")
    try:
        path = os.path.join(folder, "scene.json")
        gsp.save(path)
        status, images = fresh.ask(dict(job="images", path=path, again=case["again"],
                                        api=case["api"],
                                        canvases=[int(c.id) for c in sc.canvases]))
    finally:
        shutil.rmtree(folder)
    want = sc.images()
    if status != "ok":
        fail(f"replay of the saved scene fails: {images}")
    for oid, image in want.items():
        got = images[oid]
        require(got.shape == image.shape, "replayed image has another size",
                got=got.shape, want=image.shape)
        if not np.array_equal(got, image):
            diff = (got != image).any(-1)
            fail("replayed image differs", canvas=oid, pixels=int(diff.sum()),
                 first=[int(v[0]) for v in np.nonzero(diff)])
    ctx.nontrivial()
