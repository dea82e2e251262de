"""
T01..T05: transforms, evaluated through their public interface.
"""
import tempfile, shutil
from lib import fresh
from lib.common import *
from lib.harness import oracle, st, TIER
from lib.draw import *

T = gsp.transform

# ------------------------------------------------------------------- T01
num = st.integers(-40, 40).map(lambda i: i / 8)
pos = st.integers(1, 40).map(lambda i: i / 8)

LEAVES = ["int", "float", "list", "tuple", "array", "rows", "tracked", "buffer",
          "X", "Y", "Z", "A", "field", "measure", "out", "chain", "iarray", "ibuffer",
          "irows", "iX", "iY"]
leaf = st.fixed_dictionaries(dict(
    k=st.sampled_from(LEAVES), v=st.lists(num, min_size=12, max_size=12),
    unit=st.sampled_from(["Pixel", "Inch", "Point", "Centimeter"])))
node = st.fixed_dictionaries(dict(
    op=st.sampled_from(["+", "-", "*", "/", "+", "-", "*", "neg"]),
    # -1: last value computed; b may also be a number
    a=st.one_of(st.integers(0, 30), st.just(-1)), b=st.one_of(
        st.integers(0, 30), st.just(-1), st.integers(-3, 5).map(lambda i: [i]),
        st.integers(-12, 20).map(lambda i: [i / 4])), swap=st.booleans()))
TLEAVES = ("X", "Y", "Z", "A", "field", "measure", "out", "chain", "iX", "iY")
UNIT = {"Pixel": lambda dpi: 1.0, "Inch": lambda dpi: dpi, "Point": lambda dpi: dpi / 72,
        "Centimeter": lambda dpi: dpi / 2.54, "Millimeter": lambda dpi: dpi / 25.4,
        "Meter": lambda dpi: dpi * 100 / 2.54, "Kilometer": lambda dpi: dpi * 1e5 / 2.54}


def make_leaf(spec, n, wide, variables):
    """ -> (operand, function giving its current value, mutable numpy array or None) """

    k, v = spec["k"], spec["v"]
    width = 3 if wide else 1
    data = np.resize(np.array(v, np.float32), (n, 3))
    flat = data if wide else data[:, 0].copy()
    if k == "int":
        return int(v[0]), lambda: int(v[0]), None
    if k == "float":
        return v[0], lambda: v[0], None
    if k in ("list", "tuple"):
        row = v[:3] if wide else [v[i % 12] for i in range(n)]
        value = row if k == "list" else tuple(row)
        return value, lambda: np.array(row), (row if k == "list" else None)
    if k == "array":
        A = flat.astype(np.float64)
        return A, lambda: A.copy(), A
    if k == "rows":                       # a single row, or a column
        A = np.array(v[:3]) if wide else np.array(v[:1])
        return A, lambda: A.copy(), A
    if k in ("iarray", "irows"):
        A = np.round(flat).astype(np.int64 if v[0] < 0 else np.int32)
        if k == "irows":
            A = A[0].copy() if wide else A[:1].copy()
        return A, lambda: A.copy(), A
    if k == "ibuffer":
        dt = np.dtype((np.int32, (3,))) if wide else np.dtype(np.int32)
        A = np.round(flat).astype(np.int32)
        B = gsp_matplotlib.core.Buffer(n, dt, memoryview(A.reshape(-1).view(np.ubyte)))
        return B, lambda: plain(B), B
    if k in ("iX", "iY"):
        index = "XY".index(k[1])
        M = np.round(np.resize(np.array(v), (n, 2))).astype(np.int32)
        if wide:
            M = M[:, None, :] + np.zeros((n, 3, 1), np.int32)
        return getattr(T, k[1])()(M), lambda: M[..., index].copy(), M
    if k == "tracked":
        A = glm.vec3(n) if wide else glm.float(n)
        A[...] = flat.reshape(A.shape)
        return A, lambda: plain(A), A
    if k == "buffer":
        dt = np.dtype((np.float32, (3,))) if wide else np.dtype(np.float32)
        A = flat.copy()
        B = gsp_matplotlib.core.Buffer(n, dt, memoryview(A.reshape(-1).view(np.ubyte)))
        return B, lambda: plain(B), B
    if k in "XYZA" and len(k) == 1:
        index = "XYZA".index(k)
        M = np.zeros((n, 4) + ((3,) if wide else ()), np.float32)
        M = np.resize(np.array(v, np.float32), (n, 4))
        if wide:
            M = M[:, None, :] + np.zeros((n, 3, 1), np.float32)
            M[:, 1] += 1
        return getattr(T, k)()(M), lambda: M[..., index].copy(), M
    if k == "field":
        S = np.zeros(n, [("a", "f4"), ("b", "f4", (3,))])
        S["a"], S["b"] = data[:, 0], data
        key = "b" if wide else "a"
        return T.Accessor(S, key), lambda: S[key].copy(), S
    if k == "measure":
        unit = spec["unit"]
        return (abs(v[0]) + 1) * getattr(T, unit)(), \
            lambda: (abs(v[0]) + 1) * UNIT[unit](variables["dpi"]), None
    if k == "out":
        return T.Out("wide" if wide else "flat"), \
            lambda: variables["wide" if wide else "flat"].copy(), None
    # chain: accessor of a colormap
    values = np.resize(np.array(v, np.float64), n)
    t = T.G(T.Colormap("viridis", -5.0, 5.0))(values)

    def value():
        c = plt.get_cmap("viridis")(np.clip((values + 5) / 10, 0, 1))[..., 1]
        return c[:, None] if wide else c
    if wide:
        return t, None, None
    return t, value, values


@oracle("T01", "expressions", st.fixed_dictionaries(dict(
        n=st.integers(1, 6), wide=st.booleans(), dpi=pos.map(lambda x: 20 * x),
        leaves=st.lists(leaf, min_size=2, max_size=6),
        nodes=st.lists(node, min_size=1, max_size=8), copy=st.booleans(),
        edit=st.tuples(st.integers(0, 11), num).map(list))), 1500, 60000,
        "at least two operators, at least one of them with a non transform operand",
        shards=3)
def t01_expressions(case, ctx):
    """ straight line programs of expressions; later ones use earlier ones """

    n, wide = case["n"], case["wide"]
    rng = np.arange(1, n * 3 + 1, dtype=np.float64).reshape(n, 3) / 4
    variables = dict(dpi=case["dpi"], wide=rng, flat=rng[:, 1].copy())
    values, refs, arrays, is_t = [], [], [], []
    for spec in case["leaves"] + [dict(k="out", v=[1.0] * 12, unit="Pixel")]:
        if wide and spec["k"] == "chain":
            spec = dict(spec, k="X")
        value, ref, mutable = make_leaf(spec, n, wide, variables)
        values.append(value)
        refs.append(ref)
        is_t.append(spec["k"] in TLEAVES)
        if mutable is not None:
            arrays.append(mutable)
    originals = [np.array(a) for a in arrays]
    mixed = ops = 0
    OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
           "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    transforms = [i for i in range(len(values)) if is_t[i]]
    for s in case["nodes"]:
        i = s["a"] % len(values)
        if isinstance(s["b"], list):                   # a number
            number = s["b"][0]
            i = transforms[s["a"] % len(transforms)]
            j = len(values)
            values.append(number)
            refs.append((lambda number: lambda: number)(number))
            is_t.append(False)
            if s["swap"]:
                i, j = j, i
        else:
            j = s["b"] % len(values)
        if s["op"] == "neg":
            i = transforms[s["a"] % len(transforms)]
            value = -values[i]
            ref = (lambda i: lambda: -np.asarray(refs[i](), dtype=np.float64))(i)
        else:
            if not is_t[i] and not is_t[j]:
                j = transforms[s["b"] % len(transforms)]
            value = OPS[s["op"]](values[i], values[j])
            ref = (lambda i, j, f: lambda: f(np.asarray(refs[i](), dtype=np.float64),
                                             np.asarray(refs[j](), dtype=np.float64)))(
                i, j, OPS[s["op"]])
            mixed += not (is_t[i] and is_t[j])
        ops += 1
        require(isinstance(value, T.Transform), "an expression with a transform is not a "
                "transform", expression=s, got=type(value).__name__)
        transforms.append(len(values))
        values.append(value)
        refs.append(ref)
        is_t.append(True)

    def verify(what):
        with np.errstate(all="ignore"):
            for i in transforms:
                want = np.asarray(refs[i](), np.float64)
                if not np.all(np.isfinite(want)):
                    ctx.event("not finite")
                    continue
                if np.abs(want).max(initial=0) > 1e7:    # out of the range of integers
                    ctx.event("large")
                    break
                got = np.asarray(values[i].evaluate(dict(variables)))
                same(np.broadcast_to(got, want.shape) if got.size == want.size else got,
                     want, f"{what}: value {i}", rtol=3e-5,
                     atol=2e-4 * (1 + np.abs(want).max(initial=0)), program=case["nodes"])
    verify("first evaluation")
    for a, b in zip(arrays, originals):
        require(np.array(a).tobytes() == b.tobytes(), "an operand has been modified", now=a,
                was=b)
    verify("second evaluation")
    if case["copy"]:
        ctx.event("copy")
        for i in transforms:
            values[i] = values[i].copy()
        verify("copies")
    if arrays:
        where, x = case["edit"]
        for a in arrays:
            if isinstance(a, Object):                   # a buffer
                t = np.asarray(a).dtype
                a.set_data(where % n * t.itemsize, np.array([x]).astype(t).tobytes())
            elif isinstance(a, list):
                a[where % len(a)] = x
            elif a.dtype.names:
                a["a"][where % n] = x
                a["b"][where % n] = x
            else:
                a[where % len(a)] = x
        ctx.event("operands edited")
        verify("operands edited in place")
    ctx.nontrivial(ops >= 2 and mixed >= 1)


shapes = st.lists(st.sampled_from([1, 1, 2, 3, 4, 0, 5]), max_size=3)


@oracle("T01", "shapes", st.fixed_dictionaries(dict(
        shape=shapes, a=st.integers(0, 7), b=st.integers(0, 7), cut=st.integers(0, 3),
        cut2=st.integers(0, 3), square=st.sampled_from([None, None, 2, 3, 4]),
        types=st.lists(st.sampled_from(["f4", "f8", "i4", "i8", "f2"]), min_size=2, max_size=2),
        op=st.sampled_from(["+", "-", "*", "/"]), plain=st.sampled_from(["", "a", "b"]),
        fine=st.booleans(),
        v=st.lists(st.integers(-20, 20), min_size=8, max_size=8))), 400, 15000,
        "operands of different shapes, or square ones", shards=2)
def t01_shapes(case, ctx):
    """ operands of any shapes that fit: element by element, as with arrays """

    full = [case["square"]] * 2 if case["square"] else case["shape"]

    def operand(mask, cut, dtype, shift):
        shape = [1 if mask >> i & 1 else d for i, d in enumerate(full)]
        if not case["square"]:
            shape = shape[min(cut, len(shape)):]
        elif mask < 5:
            shape = full
        size = int(np.prod(shape))
        values = np.resize(np.array(case["v"]), size + shift)[shift:] + 0.25 * (dtype[0] == "f")
        values = values.astype(dtype)
        if case["fine"] and dtype[1] == "8":            # all digits matter
            values = values / 3 if dtype[0] == "f" else values + (2 ** 25 + 1)
        return values.reshape(shape)
    A = operand(case["a"], case["cut"], case["types"][0], 0)
    B = operand(case["b"], case["cut2"], case["types"][1], 3)
    if case["op"] == "/":
        B = np.where(B == 0, 2, B).astype(B.dtype)
    f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
         "*": lambda a, b: a * b, "/": lambda a, b: a / b}[case["op"]]
    a, b = T.Out("a"), T.Out("b")
    if case["plain"] == "a":
        a = A
    elif case["plain"] == "b":
        b = B
    t = f(a, b)
    want = f(A, B)
    eps = float(np.finfo(want.dtype).eps) if want.dtype.kind == "f" else 0.0
    variables = dict(a=A.copy(), b=B.copy())
    for what in ("value", "second value"):
        got = np.asarray(t.evaluate(variables))
        same(got, want, what, rtol=4 * eps, atol=40 * eps, op=case["op"], a=A, b=B)
    require(variables["a"].tobytes() == A.tobytes() and variables["b"].tobytes() == B.tobytes(),
            "an operand has been modified")
    ctx.nontrivial(A.shape != B.shape or bool(case["square"]))


# ------------------------------------------------------------------- T02
UNITS = list(UNIT)
MVAL = st.fixed_dictionaries(dict(
    shape=st.sampled_from(["int", "float", "pair", "triple", "tuple2", "list3", "rows1", "rows2",
                           "rows3", "buffer3", "tracked2", "cube", "none"]),
    t=st.sampled_from([None, None, None, "f2", "f4", "i2", "i8", "u1"]),
    v=st.lists(st.integers(-64, 64).map(lambda i: i / 4), min_size=12, max_size=12)))


def measure_value(spec):
    v = spec["v"]
    k = spec["shape"]
    if spec["t"] and k not in ("buffer3", "tracked2", "none", "int", "float"):
        # values of another type
        value, ref = measure_value(dict(spec, t=None))
        if isinstance(value, np.ndarray):
            if spec["t"] == "u1":
                value = np.abs(value)
            value = value.astype(spec["t"])
            ref = value.astype(np.float64)
        return value, ref
    if k == "buffer3":
        A = np.array(v, np.float32).reshape(4, 3)
        return gsp_matplotlib.core.Buffer(4, np.dtype((np.float32, (3,))),
                                          A.tobytes()), A.astype(np.float64)
    if k == "tracked2":
        A = glm.vec2(6)
        A[...] = np.array(v).reshape(6, 2)
        return A, np.array(v).reshape(6, 2)
    value = {"int": lambda: int(v[0]), "float": lambda: float(v[0]),
             "pair": lambda: np.array(v[:2]), "triple": lambda: np.array(v[:3]),
             "tuple2": lambda: tuple(v[:2]), "list3": lambda: list(v[:3]),
             "rows1": lambda: np.array(v[:5]).reshape(5, 1),
             "rows2": lambda: np.array(v).reshape(6, 2),
             "rows3": lambda: np.array(v).reshape(4, 3),
             "cube": lambda: np.array(v).reshape(2, 2, 3), "none": lambda: None}[k]()
    return value, (1.0 if value is None else np.asarray(value, np.float64))


def measure_reference(value, pixels, width, height, sx, sy, flat):
    """ value (float64 array), pixels per unit -> normalised """

    value = np.asarray(value, np.float64)
    x, y, z = pixels * sx / width, pixels * sy / height, 0.0
    if flat:
        x = y = pixels
    if value.ndim == 0 or value.shape[-1] == 1:
        return value * x
    return value * np.array([x, y, z][:value.shape[-1]])


@oracle("T02", "normalisation", st.fixed_dictionaries(dict(
        unit=st.sampled_from(UNITS), value=MVAL,
        dpi=st.one_of(st.integers(10, 600), st.integers(80, 4800).map(lambda i: i / 8)),
        form=st.sampled_from(["mul", "rmul", "call"]),
        mode=st.sampled_from(["dpi", "canvas", "viewport"]),
        w=st.integers(1, 4000), h=st.integers(1, 4000), override=st.booleans(),
        resized=st.one_of(st.none(), st.tuples(st.integers(2, 24), st.integers(2, 24)).map(
            list)))), 700, 40000,
        "a measure with several components, or relative to a viewport")
def t02_normalisation(case, ctx):
    """ unit x value x reference frame, against the analytic conversion """

    unit = getattr(T, case["unit"])()
    value, ref = measure_value(case["value"])
    if value is None:
        m = unit
    elif case["form"] == "call" or isinstance(value, Object):
        m = unit(value)
    elif case["form"] == "mul":
        m = unit * value
    else:
        m = value * unit
    dpi, w, h = float(case["dpi"]), case["w"], case["h"]
    mode = case["mode"]
    pixels = UNIT[case["unit"]](dpi)
    if mode == "dpi":
        got = m.evaluate(dict(dpi=dpi))
        want = measure_reference(ref, pixels, 1, 1, 1, 1, True)
        got = np.asarray(got, np.float64)
        if np.ndim(want) and want.shape[-1] == 3:       # z is not judged
            got, want = got[..., :2], want[..., :2]
    elif mode == "canvas":
        canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
        variables = dict(canvas=canvas)
        size = (w, h)
        if case["override"]:
            size = variables["size"] = (w + 10, h + 3)
        got = m.evaluate(variables)
        want = measure_reference(ref, pixels, *size, 1, 1, False)
    else:
        w, h = 20 + w % 200, 20 + h % 200
        canvas = gsp_matplotlib.core.Canvas(w + 20, h + 20, dpi)
        fw, fh = 1.0, 1.0
        if case["override"]:
            fw, fh = 0.25 + w % 3 / 4, 0.25 + h % 3 / 4
            viewport = gsp_matplotlib.core.Viewport(canvas, 0.0, 0.0, fw, fh,
                                                    [1.0, 1.0, 1.0, 1.0])
            w, h = fw * (w + 20), fh * (h + 20)
        else:
            viewport = gsp_matplotlib.core.Viewport(canvas, 5, 5, w, h, [1.0, 1.0, 1.0, 1.0])
        figure = plt.figure(plt.get_fignums()[-1])
        if case["resized"]:
            # axes ranges are no longer the same
            m.evaluate(dict(viewport=viewport))
            a, b = [c / 8 for c in case["resized"]]
            resize(figure, a, b)
            if case["override"]:
                w, h = fw * a * dpi, fh * b * dpi
            ctx.event("resized")
        ax = figure.axes[-1]
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        got = m.evaluate(dict(viewport=viewport))
        want = measure_reference(ref, pixels, w, h, x1 - x0, y1 - y0, False)
        ctx.nontrivial()
    ctx.event(mode)
    same(got, want, f"{case['unit']} relative to {mode}", rtol=1e-5, atol=1e-9, given=ref)
    again = m.evaluate(dict(dpi=dpi)) if mode == "dpi" else None
    if again is not None:
        same(np.asarray(again, float)[..., :2] if np.ndim(again) else again, 
             np.asarray(got, float)[..., :2] if np.ndim(got) else got, "second evaluation")
    ctx.nontrivial(np.ndim(ref) > 0)


@oracle("T02", "same-length", st.fixed_dictionaries(dict(
        mm=st.integers(1, 10 ** 7),
        dpi=st.one_of(st.integers(10, 600), st.integers(80, 4800).map(lambda i: i / 8)), w=st.integers(1, 3000),
        h=st.integers(1, 3000), vec=st.booleans(), terms=st.lists(st.tuples(
            st.sampled_from(UNITS[1:]), st.integers(-50, 50)).map(list), max_size=4))),
        300, 10000, "always (every unit is compared)")
def t02_same_length(case, ctx):
    """ one length in all units; sums of lengths in mixed units """

    dpi = float(case["dpi"])
    canvas = gsp_matplotlib.core.Canvas(case["w"], case["h"], dpi)
    mm = case["mm"] / 16
    in_unit = {"Millimeter": mm, "Centimeter": mm / 10, "Meter": mm / 1000,
               "Kilometer": mm / 1e6, "Inch": mm / 25.4, "Point": mm / 25.4 * 72,
               "Pixel": mm / 25.4 * dpi}
    vec = np.array([1.0, 2.0, 3.0]) if case["vec"] else 1.0
    for variables in (dict(canvas=canvas), dict(dpi=dpi)):
        got = {u: getattr(T, u)()(vec * in_unit[u]).evaluate(variables) for u in UNITS}
        ref = got["Pixel"]
        for u in UNITS:
            same(got[u], ref, f"{mm} mm in {u}", rtol=1e-6)
    total, want = 0.0 * T.Pixel(), 0.0
    for u, k in case["terms"]:
        total = total + k * getattr(T, u)()
        want += k * UNIT[u](dpi)
    same(total.evaluate(dict(dpi=dpi)), want, "sum of lengths in several units",
         rtol=1e-6, atol=1e-6 * 50 * 4 * UNIT["Kilometer"](dpi))
    ctx.nontrivial()


@oracle("T02", "reuse", st.fixed_dictionaries(dict(
        unit=st.sampled_from(UNITS), value=MVAL, form=st.sampled_from(["mul", "call"]),
        dpi=st.lists(st.sampled_from([50.0, 72.0, 100.0, 96.5]), min_size=2, max_size=2),
        sizes=st.lists(st.integers(20, 300), min_size=4, max_size=4),
        steps=st.lists(st.tuples(st.sampled_from(
            ["dpi", "canvas", "viewport", "canvas", "viewport", "resize", "edit"]),
            st.integers(0, 1), st.integers(2, 24), st.integers(2, 24)).map(list),
            min_size=2, max_size=8))), 300, 12000,
        "two evaluations relative to different references, sizes or values")
def t02_reuse(case, ctx):
    """ the same measure, evaluated again and again """

    unit = getattr(T, case["unit"])()
    value, ref = measure_value(case["value"])
    if value is None:
        m = unit
    elif case["form"] == "call" or isinstance(value, Object):
        m = unit(value)
    else:
        m = unit * value
    canvases, viewports, figures = [], [], []
    for i in range(2):
        c = gsp_matplotlib.core.Canvas(case["sizes"][i], case["sizes"][2 + i], case["dpi"][i])
        canvases.append(c)
        figures.append(plt.figure(plt.get_fignums()[-1]))
        viewports.append(gsp_matplotlib.core.Viewport(c, 0.0, 0.0, 0.5, 0.75,
                                                      [1.0, 1.0, 1.0, 1.0]))
    sizes = [(float(case["sizes"][i]), float(case["sizes"][2 + i])) for i in range(2)]
    seen = set()
    for name, i, a, b in case["steps"]:
        dpi = case["dpi"][i]
        if name == "resize":
            resize(figures[i], a / 8, b / 8)
            sizes[i] = a / 8 * dpi, b / 8 * dpi
            ctx.event("resized")
            continue
        if name == "edit":
            x = float(a - 3 * b)
            if isinstance(value, Object):
                value.set_data(4 * (a % 12), np.array([x], np.float32).tobytes())
                ref = np.array(ref)
                ref.reshape(-1)[a % 12] = x
            elif isinstance(value, list):
                value[a % 3] = x
                ref = np.array(value)
            elif isinstance(value, np.ndarray):
                where = np.unravel_index(a % value.size, value.shape)
                value[where] = abs(x) if value.dtype.kind == "u" else x
                ref = np.array(value, np.float64)
            else:
                continue
            ctx.event("edited")
            continue
        w, h = sizes[i]
        pixels = UNIT[case["unit"]](dpi)
        if name == "dpi":
            got, want = m.evaluate(dict(dpi=dpi)), measure_reference(ref, pixels, 1, 1, 1, 1, True)
            got = np.asarray(got, float)
            if np.ndim(want) and want.shape[-1] == 3:
                got, want = got[..., :2], want[..., :2]
        elif name == "canvas":
            got = m.evaluate(dict(canvas=canvases[i]))
            want = measure_reference(ref, pixels, w, h, 1, 1, False)
        else:
            ax = figures[i].axes[-1]
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            got = m.evaluate(dict(viewport=viewports[i]))
            want = measure_reference(ref, pixels, w / 2, h * 0.75, x1 - x0, y1 - y0, False)
        same(got, want, f"{case['unit']} relative to {name} {i}", rtol=1e-5, atol=1e-9, given=ref,
             steps=case["steps"])
        seen.add((name, i, w, h, np.asarray(ref).tobytes()))
    ctx.nontrivial(len(seen) > 1)


# ------------------------------------------------------------------- T03
element = st.fixed_dictionaries(dict(
    i=st.integers(0, 30), name=st.sampled_from(["magma", "gray", "tab10"]), lim=st.booleans(),
    unit=st.sampled_from(["Pixel", "Inch", "Point"])))


def typed_chain(specs, cols):
    """ Choose each transform among those that can be applied to the previous result """

    out, state = [], cols                   # columns, or 0 for a vector
    for s in specs:
        if state == 0:
            choices = ["Colormap"]
        else:
            choices = list("XYZW"[:state]) + list("RGBA"[:state]) + \
                ["Accessor " + key for key in "xyzw"[:state] + "rgba"[:state]]
            if state == 2:
                choices += ["measure"] * 6
        k = choices[s["i"] % len(choices)]
        s = dict(s, k=k)
        if k == "Colormap":
            state = 4
        elif k != "measure":
            s["k"] = k.split()[0]
            s["key"] = key = k[-1].lower()
            s["index"] = ("xyzw" if key in "xyzw" else "rgba").index(key)
            state = 0
        out.append(s)
    return out


class Ambiguous(Exception):
    pass


def build_element(s):
    k = s["k"]
    if k == "measure":
        return getattr(T, s["unit"])()
    if k == "Colormap":
        return T.Colormap(s["name"], *([-1.0, 2.0] if s["lim"] else []))
    if k == "Accessor":
        return T.Accessor(None, s["key"])
    return getattr(T, k)()


def apply_element(s, value, dpi):
    k = s["k"]
    if k == "measure":
        return value * UNIT[s["unit"]](dpi)
    if k == "Colormap":
        lo, hi = (-1.0, 2.0) if s["lim"] else (value.min(), value.max())
        x = (value - lo) / (hi - lo) if hi > lo else np.zeros_like(value)
        cmap = plt.get_cmap(s["name"])
        p = x * cmap.N
        if np.any((np.abs(p - np.round(p)) < 2e-3) & (x > 1e-7) & (x < 1 - 1e-7)):
            raise Ambiguous                 # between two entries of the table
        return cmap(np.clip(x, 0, 1))
    return value[..., s["index"]]


BINDS = ["array", "tracked", "buffer", "list", "tuple", "f32"]


def bind_target(kind, data):
    if kind == "array":
        return data
    if kind == "f32":
        return data.astype(np.float32)
    if kind == "list":
        return data.tolist()
    if kind == "tuple":
        return tuple(map(tuple, data.tolist()))
    n, c = data.shape
    if kind == "buffer":
        return gsp_matplotlib.core.Buffer(n, np.dtype((np.float32, (c,))),
                                          data.astype(np.float32).tobytes())
    A = {2: glm.vec2, 3: glm.vec3, 4: glm.vec4}[c](n)
    A[...] = data
    return A


@oracle("T03", "chains", st.fixed_dictionaries(dict(
        cols=st.integers(2, 4), n=st.integers(1, 6),
        data=st.lists(st.integers(0, 64), min_size=24, max_size=24),
        chain=st.lists(element, min_size=1, max_size=6),
        assoc=st.lists(st.integers(0, 5), min_size=6, max_size=6),
        bind=st.sampled_from(BINDS), bind2=st.sampled_from(BINDS),
        edit=st.integers(0, 64), method=st.booleans())), 900, 40000,
        "a chain of at least two transforms", shards=2)
def t03_chains(case, ctx):
    """ any association of the calls of a chain, against function composition """

    specs = typed_chain(case["chain"], case["cols"])
    dpi = 100.0
    variables = dict(dpi=dpi)
    # 97 steps: not at the border of two colours, for tables of 256 or 10 entries
    data = np.array(case["data"][:case["n"] * case["cols"]], float).reshape(
        case["n"], case["cols"]) / 97
    data += (np.arange(data.size) ** 2 % 17).reshape(data.shape) * 0.00123
    data2 = data[::-1] * 0.5 + 0.01

    def reference(d, upto=None):
        value = d
        for s in specs[:upto]:
            value = apply_element(s, value, dpi)
        return value
    def compare(t, d, upto, what):
        got = t.evaluate(variables)
        try:
            want = reference(d, upto)
        except Ambiguous:
            ctx.event("not judged: between two colours")
            return
        same(got, want, what, rtol=1e-4, atol=1e-4, chain=[s["k"] for s in specs],
             assoc=case["assoc"])
    target = bind_target(case["bind"], data)
    kept = []                        # (description, transform, first, last or None for data)

    def build(i, j):
        """ transform applying specs[i:j]; j is after the data if j > len(specs) """
        # items are listed outermost first: specs reversed, then data
        if j - i == 1:
            t = target if i == len(specs) else build_element(specs[len(specs) - 1 - i])
            if i < len(specs):
                kept.append((t, i, j))
            return t
        cut = i + 1 + case["assoc"][(i + j) % 6] % (j - i - 1)
        left, right = build(i, cut), build(cut, j)
        t = left(right)
        kept.append((t, i, j))
        return t
    m = len(specs)
    whole = build(0, m + 1)
    if len(specs) > 1:
        ctx.nontrivial()

    def check(t, i, j, what, d=None):
        d = data if d is None else d
        # outermost i .. : elements specs[m-j : m-i], applied on the value of the inner ones
        if j == m + 1:
            compare(t, d, m - i, what)
    for t, i, j in kept:
        require(t.bound == (j == m + 1), "bound", chain=[s["k"] for s in specs], i=i, j=j,
                got=t.bound)
        check(t, i, j, "chain")
        if t.bound:
            raises(ValueError, lambda: t(data), "binding a bound transform")
    for t, i, j in kept:
        check(t, i, j, "chain after its use in others")
    # whatever it is bound to, a transform is bound once
    for t, i, j in kept:
        if j == m and specs[m - 1]["k"] == "measure":
            b = t(case["edit"] * 0.5 if case["method"] else case["edit"] % 2)
            require(b.bound and not t.bound, "bound to a number", number=case["edit"])
            raises(ValueError, lambda: b(data), "binding a bound transform")
            ctx.event("bound to a number")
    # unbound pieces can still be bound to something else
    unbound = [(t, i, j) for t, i, j in kept if j == m]
    for t, i, j in unbound:
        b = t(bind_target(case["bind2"], data2))
        compare(b, data2, m - i, "unbound chain bound to other data")
        require(not t.bound, "binding has bound the original")
        ctx.event("bound twice")
    copies = [(t.copy(), i, j) for t, i, j in kept]
    for c, i, j in copies:
        require(c.bound == (j == m + 1), "bound state of a copy")
        check(c, i, j, "copy")
    if case["method"] and m > 1:
        ctx.event("methods")
        inner = build_element(specs[0])
        inner.set_buffer(target)
        for s in specs[1:]:
            outer = build_element(s)
            outer.set_next(inner)
            inner = outer
        compare(inner, data, None, "chain made with set_next")
    if case["bind"] in ("array", "tracked", "f32", "list", "buffer"):
        with_edit = data.copy()
        x = with_edit[0, 0] = case["edit"] / 97
        if case["bind"] == "buffer":
            target.set_data(0, np.array([x], np.float32).tobytes())
        elif case["bind"] == "list":
            target[0][0] = x
        else:
            target[0, 0] = x
        ctx.event("edited " + case["bind"])
        for t, i, j in kept + copies:
            check(t, i, j, "after the bound array has been modified", with_edit)


@oracle("T03", "itself", st.fixed_dictionaries(dict(
        unit=st.sampled_from(["Pixel", "Point", "Inch", "Centimeter"]), deep=st.integers(1, 4),
        how=st.sampled_from(["chain", "+", "*", "-"]), x=st.integers(1, 40), dpi=st.sampled_from(
            [72.0, 100.0, 36.0]), then=st.sampled_from(["bind", "next", "nothing"]))), 300, 5000,
        "always")
def t03_itself(case, ctx):
    """ a transform used with itself, several times """

    T = gsp.transform
    per = {"Pixel": 1, "Point": case["dpi"] / 72, "Inch": case["dpi"],
           "Centimeter": case["dpi"] / 2.54}[case["unit"]]
    t = getattr(T, case["unit"])()
    x = case["x"] / 4
    variables = dict(dpi=case["dpi"])
    if case["how"] == "chain":
        whole = t
        for k in range(case["deep"]):
            whole = whole(t)
        whole_bound = whole(x)
        want = x * per ** (case["deep"] + 1)
    else:
        a = whole = t(x)
        want = b = x * per
        for k in range(case["deep"]):
            whole = {"+": lambda: whole + a, "*": lambda: T.Mul(whole, a),
                     "-": lambda: whole - a}[case["how"]]()
            want = {"+": want + b, "*": want * b, "-": want - b}[case["how"]]
        whole_bound = whole
        t = a
    same(whole_bound.evaluate(variables), want, f"{case['how']} with itself", rtol=1e-5,
         atol=1e-6)
    if case["then"] == "bind":
        t.set_buffer(99.0)
    elif case["then"] == "next":
        t.set_next(T.Inch()(3.0))
    if case["how"] == "chain":
        require(not whole.bound, "a chain is bound with the transform it is made of")
        same(whole(x).evaluate(variables), want, "chain with itself, modified afterwards",
             rtol=1e-5)
    same(whole_bound.evaluate(variables), want, f"{case['how']} with itself, modified afterwards",
         rtol=1e-5, atol=1e-6)
    ctx.event(case["how"])
    ctx.nontrivial()


@oracle("T03", "planes", st.fixed_dictionaries(dict(
        shape=st.lists(st.integers(1, 4), max_size=3), last=st.integers(1, 6),
        key=st.sampled_from("xyzwrgba"), generic=st.booleans(), then=st.booleans(),
        dtype=st.sampled_from(["f4", "f8", "i4", "u1"]), kind=st.sampled_from(
            ["array", "list", "fortran", "reversed"]))), 300, 5000,
        "data with more or fewer dimensions than two")
def t03_planes(case, ctx):
    """ an accessor takes a component of vectors, however they are arranged """

    T = gsp.transform
    key = case["key"]
    k = ("xyzw" if key in "xyzw" else "rgba").index(key)
    shape = tuple(case["shape"]) + (max(case["last"], k + 1),)
    data = (np.arange(int(np.prod(shape))) * 7 % 101).reshape(shape).astype(case["dtype"])
    given = {"array": lambda: data.copy(), "list": lambda: data.tolist(),
             "fortran": lambda: np.asfortranarray(data),
             "reversed": lambda: data[::-1].copy()[::-1]}[case["kind"]]()
    t = T.Accessor(None, key) if case["generic"] else getattr(T, key.upper())()
    want = np.take(data, k, axis=-1).astype(float)
    same(np.asarray(t(given).evaluate({}), float), want, f"component {key} of {shape}", rtol=1e-6)
    if case["then"]:
        p = t(given) * 2 + 1
        same(np.asarray(p.evaluate({}), float), want * 2 + 1, f"2 {key} + 1 of {shape}",
             rtol=1e-6)
    ctx.event(f"{len(shape)} dimensions")
    ctx.nontrivial(len(shape) != 2)


@oracle("T03", "fields", st.fixed_dictionaries(dict(
        fields=st.lists(st.tuples(st.sampled_from(["a", "b", "x", "y", "color", "xy", "X",
                                                   "Color", "a_1", "A"]),
                                  st.sampled_from(["f4", "i4", "f8", "u1"]),
                                  st.integers(1, 4)).map(list),
                        min_size=1, max_size=5, unique_by=lambda t: t[0]),
        n=st.integers(1, 6), seed=st.integers(0, 100), pick=st.integers(0, 4),
        form=st.sampled_from(["init", "call", "nested"]), buffer=st.booleans(),
        bad=st.sampled_from(["q", "hello", "zz", "R", "G"]))), 300, 10000,
        "a structured array with several fields")
def t03_fields(case, ctx):
    """ accessors on structured data, unknown keys, unbound accessors """

    dt = np.dtype([(name, t) if k == 1 else (name, t, (k,)) for name, t, k in case["fields"]])
    S = np.zeros(case["n"], dt)
    for i, (name, _, k) in enumerate(case["fields"]):
        S[name] = (np.arange(S[name].size).reshape(S[name].shape) * (i + 2) + case["seed"]) % 100
    name = case["fields"][case["pick"] % len(case["fields"])][0]
    source = S
    if case["buffer"]:
        source = gsp_matplotlib.core.Buffer(len(S), dt, S.tobytes())
    # X accesses the field "x", A the field "a", ...
    if case["form"] == "init":
        t = T.Accessor(source, name)
    elif name in ("x", "y", "a", "b") and case["form"] == "nested":
        t = {"x": T.X, "y": T.Y, "a": T.A, "b": T.B}[name](source)
    else:
        t = T.Accessor(None, name)(source)
    got = np.asarray(t.evaluate())
    require(got.shape == S[name].shape and np.array_equal(got, S[name]), "wrong field",
            field=name, got=got, want=S[name], dtype=dt)
    t2 = t.copy()
    require(np.array_equal(t2.evaluate({}), S[name]), "copy gives another field")
    sub = np.asarray(S[name])
    if sub.ndim == 2 and sub.shape[1] >= 2:
        y = T.Y(t)
        require(np.array_equal(y.evaluate({}), sub[:, 1]), "component of a field",
                got=y.evaluate({}), want=sub[:, 1])
        ctx.event("component of a field")
    raises((IndexError, ValueError), lambda: T.Accessor(np.zeros((3, 3)), case["bad"]).evaluate(),
           "unknown component")
    raises(ValueError, lambda: T.Accessor(None, name).evaluate(), "evaluating an unbound accessor")
    ctx.nontrivial(len(case["fields"]) > 1)


# ------------------------------------------------------------------- T04
CMAPS = ["magma", "viridis", "gray", "hot", "tab10", "RdBu", "jet", "Set3_r"]


def table_colors(name, x):
    """ Acceptable colours for relative positions x (float64): nearest entries """

    cmap = plt.get_cmap(name)
    N = cmap.N
    table = cmap(np.arange(N))
    pos = np.clip(x, 0, 1) * N
    lo = np.clip(np.floor(pos - 2e-3), 0, N - 1).astype(int)
    hi = np.clip(np.floor(pos + 2e-3), 0, N - 1).astype(int)
    return table[lo], table[hi]


def check_colors(got, name, x, what):
    got = np.asarray(got, float)
    a, b = table_colors(name, x)
    require(got.shape == a.shape, f"{what}: wrong shape", got=got.shape, want=a.shape)
    bad = ~(np.isclose(got, a, atol=1e-6).all(-1) | np.isclose(got, b, atol=1e-6).all(-1))
    if bad.any():
        where = tuple(int(i[0]) for i in np.nonzero(bad)) if bad.ndim else ()
        fail(f"{what}: wrong colour", colormap=name, at=where, position=x[where],
             got=got[where], want=a[where])


limit = st.one_of(st.none(), st.just(0.0), st.integers(-40, 40).map(lambda i: i / 4))


@oracle("T04", "colors", st.fixed_dictionaries(dict(
        name=st.sampled_from(CMAPS), name2=st.sampled_from(CMAPS), vmin=limit, vmax=limit,
        offset=st.sampled_from([0, 0, 0, 2 ** 25 + 1, -2 ** 26]),
        data=st.lists(st.integers(-400, 400), min_size=1, max_size=8),
        dtype=st.sampled_from(["f8", "f4", "i4", "u1"]),
        form=st.sampled_from(["array", "list", "buffer", "accessor", "operator", "2d", "tracked",
                              "measure", "out"]),
        steps=st.lists(st.sampled_from(["eval", "set", "copy", "edit", "rebind"]),
                       max_size=5))), 1200, 50000,
        "several distinct values, with at least one explicit limit", shards=2)
def t04_colors(case, ctx):
    """ colours against a lookup in the table of the colormap """

    data = np.array(case["data"], float) / 16
    dt = np.dtype(case["dtype"])
    if dt.kind in "iu":
        data = np.floor(np.abs(data) * 4) if dt.kind == "u" else np.floor(data)
    data = data.astype(dt)
    form, vmin, vmax = case["form"], case["vmin"], case["vmax"]
    if case["offset"] and dt.str[1:] in ("f8", "i4") and \
            form not in ("tracked", "measure") and vmin is None and vmax is None:
        data = data + dt.type(case["offset"])           # a small range of large values
        ctx.event("large values")
    variables = dict(dpi=1.0)
    cm = T.Colormap(case["name"], vmin, vmax)
    target = data

    def current():
        return np.asarray(target, float)
    if form == "array":
        t = cm(data)
    elif form == "list":
        target = data.astype(float)
        t = cm(target.tolist())
    elif form == "buffer":
        t = cm(gsp_matplotlib.core.Buffer(len(data), dt, data.tobytes()))
    elif form == "accessor":
        M = np.c_[data, data, data]
        target = M[:, 1]
        t = cm(T.Y(M))
    elif form == "operator":
        t = cm(T.Y(np.c_[data, data].astype(float)) * 1.0)
    elif form == "2d":
        target = data.reshape(1, -1)
        t = cm(target)
    elif form == "tracked":
        target = glm.float(len(data))
        target[...] = data
        t = cm(target)
    elif form == "measure":
        target = np.array(float(data[0]))
        t = cm(float(data[0]) * T.Pixel())
    else:
        variables["data"] = data
        t = cm(T.Out("data"))
    editable = form in ("array", "accessor", "2d", "tracked", "out")
    lims = [vmin, vmax]
    name = [case["name"]]

    def check(t, name, what):
        d = current()
        lo = d.min() if vmin is None else vmin
        hi = d.max() if vmax is None else vmax
        if lo > hi:
            return
        x = (d - lo) / (hi - lo) if hi > lo else np.zeros(d.shape)
        check_colors(t.evaluate(variables), name, x, what)
        ctx.nontrivial(len(set(case["data"])) > 1 and (vmin is not None or vmax is not None))
    live = [(t, name)]
    check(t, name[0], "colormap")
    for k, s in enumerate(case["steps"]):
        t, name = live[k % len(live)]
        if s == "set":
            t.set_colormap(case["name2"])
            name[0] = case["name2"]
        elif s == "copy":
            live.append((t.copy(), list(name)))
        elif s == "edit" and editable:
            view = target.reshape(-1) if form != "accessor" else target
            view[k % view.shape[0]] = (k * 7 + 3) % 11
        elif s == "rebind":
            u = T.Colormap(name[0], vmin, vmax)
            u2 = u(np.array([0.25, 0.75]))
            u3 = u(np.array([0.0, 1.0, 0.5]))
            require(len(u2.evaluate({})) == 2 and len(u3.evaluate({})) == 3
                    if (vmin is None or vmin <= 0) and (vmax is None or vmax >= 1) else True,
                    "a colormap bound twice")
        ctx.event(s)
        for t, name in live:
            check(t, name[0], f"after {s}")


LETTERS = "xyzw", "rgba"


@oracle("T03", "rewire", st.fixed_dictionaries(dict(
        n=st.integers(1, 4), v=st.lists(st.integers(-40, 40), min_size=6, max_size=12),
        steps=st.lists(st.tuples(
            st.sampled_from(["leaf", "op", "op", "wrap", "copy", "copy", "call", "rewire", "rewire",
                             "rewire"]),
            st.lists(st.integers(0, 11), min_size=8, max_size=8)).map(list),
            min_size=3, max_size=12))), 500, 20000,
        "a transform modified after it was copied or used in another one")
def t03_rewire(case, ctx):
    """ modifying a transform (operands, data, colormap) affects this transform only, be the
        others copied or built from it """

    n = case["n"]
    M = [np.resize(np.roll(case["v"], k), (n, 4)) / 8 + 0.0137 * (k + 1) for k in range(4)]
    OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}

    class Unclear(Exception):
        pass

    def value(node):
        kind = node[0]
        if kind == "number":
            return node[1]
        if kind == "data":
            return M[node[1]]
        if kind == "get":
            return value(node[2])[..., node[1]]
        if kind == "map":
            x = (value(node[2]) + 5.0) / 10.0
            edge = np.clip(x, 0, 1) * 256
            if (np.abs(edge - np.round(edge)) < 1e-5).any() and (x > 0).any() and (x < 1).any():
                raise Unclear()
            return plt.get_cmap(node[1])(np.clip(x, 0, 1))
        return OPS[node[1]](value(node[2]), value(node[3]))

    def leaf(a, b):
        key = b % 4
        return getattr(T, "XYZWRGBA"[b % 8])()(M[a % 4]), ["get", key, ["data", a % 4]]

    def clone(node):
        return [clone(x) if isinstance(x, list) else x for x in node]
    live = [leaf(0, 1)]
    rewired = related = False
    for name, p in case["steps"]:
        i, j = p[0] % len(live), p[1] % len(live)
        t, node = live[i]
        if name == "leaf":
            live.append(leaf(p[2], p[3]))
        elif name == "op":
            op = "+-*"[p[2] % 3]
            other, onode = live[j] if p[3] % 3 else ((p[4] - 5) / 4, ["number", (p[4] - 5) / 4])
            if p[5] % 2 and isinstance(other, float):
                live.append((OPS[op](other, t), ["op", op, onode, clone(node)]))
            else:
                live.append((OPS[op](t, other), ["op", op, clone(node), clone(onode)]))
            u, unode = live[-1]
            if op != "-" and "number" in (unode[2][0], unode[3][0]) and \
                    isinstance(u.left, T.Transform) != (unode[2][0] != "number"):
                unode[2:] = unode[:1:-1]             # x + t is stored as t + x
            related = True
        elif name == "wrap":
            cmap = T.Colormap(CMAPS[p[2] % 2], -5.0, 5.0)
            key = p[3] % 4
            u = getattr(T, "XYZWRGBA"[p[3] % 8])()(cmap)(t) if p[4] % 2 else \
                getattr(T, "XYZWRGBA"[p[3] % 8])()(cmap(t))
            live.append((u, ["get", key, ["map", CMAPS[p[2] % 2], clone(node)]]))
            related = True
        elif name == "copy":
            live.append((t.copy(), clone(node)))
            related = True
        elif name == "call":                   # binding a part without data
            unbound = getattr(T, "XYZWRGBA"[p[3] % 8])()
            a, b = unbound(M[p[2] % 4]), unbound(M[p[4] % 4])
            live += [(a, ["get", p[3] % 4, ["data", p[2] % 4]]),
                     (b, ["get", p[3] % 4, ["data", p[4] % 4]])]
        else:
            rewired = rewired or related
            rich = [x for x in live if x[1][0] == "op" or x[1][2][0] == "map"]
            if rich and p[1] % 3:
                t, node = rich[p[0] % len(rich)]
            for turn in p[2:]:
                if node[0] == "op":
                    side = 2 + turn % 2
                    if node[side][0] != "number" and turn % 3:
                        t, node = (t.left, t.right)[side - 2], node[side]
                        continue
                    if turn % 4 == 3:
                        new, nnode = leaf(turn, turn + 1)
                    else:
                        new = (turn - 5) / 2
                        nnode = ["number", new]
                    if node[5 - side][0] == "number" and nnode[0] == "number":
                        break
                    (t.set_left, t.set_right)[side - 2](new)
                    node[side] = nnode
                    ctx.event("operand")
                elif node[2][0] == "map":
                    if turn % 2:
                        t, node = t.next.next, node[2][2]
                        continue
                    t.next.set_colormap(CMAPS[turn % 4])
                    node[2][1] = CMAPS[turn % 4]
                    ctx.event("colormap")
                else:
                    t.set_buffer(M[turn % 4])
                    node[2] = ["data", turn % 4]
                    ctx.event("data")
                break
        for k, (t, node) in enumerate(live):
            try:
                want = np.broadcast_to(value(node), (n,))
            except Unclear:
                ctx.event("between two colours")
                continue
            got = np.broadcast_to(np.asarray(t.evaluate({})), (n,))
            same(got, want, f"transform {k} after {name}", rtol=1e-6,
                 atol=1e-6 * (1 + np.abs(want).max()), node=node)
        if len(live) > 12:
            break
    ctx.nontrivial(rewired)


# ------------------------------------------------------------------- T05
keys = st.one_of(st.text("xyzw", min_size=1, max_size=4), st.text("rgba", min_size=1, max_size=4))


@oracle("T05", "variables", st.fixed_dictionaries(dict(
        name=st.sampled_from(["screen[positions]", "a", "b"]), key=st.one_of(st.none(), keys),
        n=st.integers(1, 5), cols=st.integers(1, 4), seed=st.integers(0, 100),
        deep=st.booleans(), wide=st.sampled_from([None, None, 2 ** 30 + 1.0, 1e-60, 1e60]),
        bad=st.sampled_from(["xr", "q", "foo", "xyzq", "X", "xY", "R",
                                                    "RGBA"]))), 400, 15000,
        "a key with several letters")
def t05_variables(case, ctx):
    """ evaluation of a variable, its components, and misuse """

    n, c = case["n"], 4 if case["key"] else case["cols"]
    shape = (n, 2, c) if case["deep"] else (n, c)
    V = (np.arange(np.prod(shape)).reshape(shape) * 3 + case["seed"]) % 101 / 8
    if case["wide"]:                # beyond single precision
        V = (V + 1) * case["wide"]
    others = {"screen[positions]": V + 1, "a": V + 2, "b": V + 3}
    variables = dict(others)
    name, key = case["name"], case["key"]
    variables[name] = V
    out = T.Out(name + ("." + key if key else ""))
    for t in (out, out.copy(), out):
        got = np.asarray(t.evaluate(variables))
        if not key:
            want = V
        else:
            index = [("xyzw" if set(key) <= set("xyzw") else "rgba").index(k) for k in key]
            want = V[..., index]
            if len(key) == 1:
                got = got.reshape(want.shape) if got.size == want.size else got
        require(got.shape == want.shape and np.array_equal(got, want), "wrong value",
                variable=name, key=key, got=got, want=want)
    moved = dict(variables)
    moved[name] = V * 2 + 1
    got = np.asarray(out.evaluate(moved))
    require(np.array_equal(got.reshape(-1), np.asarray(
        want * 2 + 1).reshape(-1)), "value of a previous evaluation", variable=name)
    got = np.asarray((out * 2.0 + 1).evaluate(variables))
    require(np.allclose(got.reshape(-1), np.asarray(want * 2 + 1).reshape(-1)),
            "variable in an expression", got=got)
    raises(ValueError, lambda: T.Out("unknown").evaluate(variables), "unknown variable")
    raises(ValueError, lambda: T.Out("unknown.x").evaluate(variables), "unknown variable")
    raises(IndexError, lambda: T.Out(name + "." + case["bad"]).evaluate(variables),
           "unknown components")
    raises(ValueError, lambda: out(V), "binding a variable")
    raises(ValueError, lambda: out(T.X()), "chaining a variable")
    ctx.nontrivial(bool(key) and len(key) > 1)


coord = st.integers(-28, 28).map(lambda i: i / 32)
mview = st.tuples(st.integers(-8, 8).map(lambda i: i * 22.5), st.integers(-3, 3).map(
    lambda i: i * 22.5), st.integers(0, 3).map(lambda i: i * 30.0),
    st.sampled_from([0.5, 0.75, 1.0]), st.just(0.0), st.just(0.125), st.just(-0.25)).map(list)


@oracle("T05", "rendered", st.fixed_dictionaries(dict(
        visuals=st.lists(st.fixed_dictionaries(dict(
            kind=st.sampled_from(["Points", "Markers", "Pixels", "Markers", "Segments",
                                  "Paths", "Polygons"]),
            n=st.integers(1, 7), attr=st.sampled_from(["color", "size", "width", "angle"]),
            nv=st.integers(3, 8), P=st.lists(coord, min_size=42, max_size=42))), min_size=1, max_size=2),
        key=st.sampled_from("xyz"), cmap=st.sampled_from(["gray", "viridis"]),
        lim=st.booleans(), form=st.sampled_from(["out", "accessor", "expr"]),
        renders=st.lists(st.tuples(st.integers(0, 3), mview).map(list), min_size=1,
                         max_size=4))), 400, 8000,
        "at least three items with distinct values", shards=3)
def t05_rendered(case, ctx):
    """ attributes computed from the positions on screen, over several renderings """

    # Two viewports for each visual
    m = len(case["visuals"])
    stage = Stage(viewports=2 * m)
    ki = "xyz".index(case["key"])
    base = T.Out("screen[positions]." + case["key"])
    if case["form"] == "accessor":
        base = getattr(T, case["key"].upper())(T.Out("screen[positions]"))
    elif case["form"] == "expr":
        base = T.Out("screen[positions].xyz")
        base = getattr(T, case["key"].upper())(base * 1.0)
    cmap = T.Colormap(case["cmap"], *([-2.0, 3.0] if case["lim"] else []))
    shared = cmap(base)
    visuals = []
    for v in case["visuals"]:
        n, kind = v["n"], v["kind"]
        P = np.array(v["P"][:3 * n], np.float32).reshape(n, 3)
        P[:, 0] += np.arange(n) / 256                   # distinct positions
        kw = {}
        attr = v["attr"]
        if kind in ("Paths", "Polygons"):
            # one value per item: the mean of its vertices
            P = np.array(v["P"][:6 * n], np.float32).reshape(n, 2, 3)
            nv = v["nv"]
            P = np.concatenate([P] + [P[:, :1] + np.float32((2 + j) * (-1) ** j / 16)
                                      for j in range(nv - 2)], 1)
            P[:, :, 0] += np.arange(n)[:, None] / 256
            mean = T.Out(f"screen[{kind.lower()}].{case['key']}")
            if case["form"] != "out":
                mean = getattr(T, case["key"].upper())(T.Out(f"screen[{kind.lower()}]"))
            attr = "color" if attr == "color" else "width"
            kw = {("line" if kind == "Paths" else "fill"): cmap(mean)} if attr == "color" else \
                dict(width=mean * 0.5 + 3.0)
            kw["indices"] = nv if v["n"] % 2 else [nv] * n
            P = P.reshape(nv * n, 3)
        elif kind == "Segments":
            # one value per segment: its mean depth, as left by the rendering
            P = np.array(v["P"][:6 * n], np.float32).reshape(n, 2, 3)
            P[:, :, 0] += np.arange(n)[:, None] / 256
            depth = T.Out("screen[segments]")
            kw = dict(line=cmap(depth)) if attr == "color" else dict(width=depth * 0.5 + 3.0)
            attr = "color" if attr == "color" else "width"
        elif attr == "color" or kind == "Pixels":
            kw = dict(fill=shared)
            attr = "color"
        elif attr == "size":
            kw = dict(size=base * 10.0 + 100.0)
        elif attr == "angle" and kind == "Markers":
            kw = dict(angle=base * 45.0 + 10.0, types=gsp.core.Marker.heart)
        else:
            attr = "width"
            kw = dict(width=base * 0.5 + 3.0)
        visuals.append(dict(v=make(kind, P, **kw), P=P, kind=kind, n=n, attr=attr, nv=v["nv"]))
    drawn = {}
    for which, matrix in case["renders"]:
        which %= 2 * m
        view = affine(matrix)
        visuals[which % m]["v"].render(stage.viewports[which], view=view)
        drawn[which] = view
        if len({w % m for w in drawn}) < len(drawn):
            ctx.event("one visual in two viewports")
        for w, v in enumerate(visuals + visuals):
            if w not in drawn:
                require(not stage.items(w), "drawn without having been rendered")
                continue
            items = stage.items(w)
            require(len(items) == v["n"], "number of items", got=len(items), want=v["n"],
                    kind=v["kind"])
            S = project(v["P"], view=drawn[w])
            if v["kind"] in ("Paths", "Polygons"):
                S = S.reshape(-1, v["nv"], 3)
                value = S[:, :, ki].mean(1)
                where = S[:, :, :2].reshape(len(S), -1)
                at = [it["vertices"][:v["nv"]].reshape(-1) for it in items]
            elif v["kind"] == "Segments":
                value = -S[:, :, 2].mean(1)
                where = S[:, :, :2].reshape(len(S), 4)
                at = [it["vertices"].reshape(4) for it in items]
            else:
                value = S[:, ki]
                if ki == 2 and v["kind"] != "Pixels":
                    value = 1 - value               # depth is inverted
                where = S[:, :2]
                at = [it["at"] for it in items]
            lo, hi = (-2.0, 3.0) if case["lim"] else (value.min(), value.max())
            x = (value - lo) / (hi - lo) if hi - lo > 1e-5 else None
            for i in range(len(S)):
                near = [k for k in range(len(items))
                        if np.abs(at[k] - where[i]).max() < 1e-4]
                require(near, "an item is not drawn at its position", item=i, kind=v["kind"])
                if len([j for j in range(len(S)) if np.abs(where[j] - where[i]).max() < 1e-3]) > 1:
                    continue                        # several items at the same place
                it = items[near[0]]
                what = f"{v['attr']} of item {i} of {v['kind']}"
                if v["attr"] == "size":
                    same(it["size"], value[i] * 10 + 100, what, rtol=1e-4)
                elif v["attr"] == "width":
                    same(it["width"], value[i] * 0.5 + 3, what, rtol=1e-4)
                elif v["attr"] == "angle":
                    check_outline(it, gsp.core.Marker.heart, value[i] * 45 + 10, what)
                elif x is not None:
                    c = it["edge" if v["kind"] in ("Segments", "Paths") else "face"]
                    t = np.array([x[i] - 3e-4, x[i], x[i] + 3e-4])
                    want = plt.get_cmap(case["cmap"])(np.clip(t, 0, 1))
                    require(np.abs(want - c).max(1).min() < 1e-6, f"{what} does not come from "
                            "its own value", got=c, want=want[1], position=x[i])
            ctx.nontrivial(v["n"] >= 3 and len(set(np.round(value, 4))) >= 3)
            ctx.event(v["kind"] + " " + v["attr"])


@oracle("T05", "attributes", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["Points", "Markers"]), n=st.integers(1, 6),
        source=st.sampled_from(["sizes", "line_widths", "angles", "fill_colors"]),
        target=st.sampled_from(["fill_colors", "line_colors", "sizes", "line_widths", "angles"]),
        form=st.sampled_from(NUMBER_FORMS + ["single", "screen"]), later=st.booleans(),
        v=st.lists(st.integers(1, 80).map(lambda i: i / 4), min_size=6, max_size=6),
        w=st.lists(st.integers(1, 80).map(lambda i: i / 4), min_size=6, max_size=6),
        key=st.sampled_from("rgb"), P=st.lists(coord, min_size=18, max_size=18),
        chain=st.booleans())), 300, 6000,
        "an attribute computed from another one that is given per item", shards=2)
def t05_attributes(case, ctx):
    """ attributes computed from the other attributes of the visual """

    kind, n, source, target = (case[k] for k in ("kind", "n", "source", "target"))
    if kind == "Points":
        source = "sizes" if source == "angles" else source
        target = "sizes" if target == "angles" else target
    if source == target:
        target = "line_colors"
    P = np.array(case["P"][:3 * n], np.float32).reshape(n, 3)
    P[:, 0] += np.arange(n) / 256
    stage = Stage()
    names = dict(fill_colors="fill", line_colors="line", sizes="size", line_widths="width",
                 angles="angle")
    S = project(P)
    keep = None

    def given(values):
        """ source attribute -> (value, what it is for each item) """
        if source == "fill_colors":
            C = np.c_[np.array(values) / 20, 1 - np.array(values) / 20, 0.5 + 0 * np.array(values),
                      1 + 0 * np.array(values)]
            if case["form"] == "single":
                return gsp.core.Color(*C[0]), C[[0] * n]
            return C, C
        if case["form"] == "single":
            return values[0], np.array(values[:1] * n)
        if case["form"] == "screen":
            return T.Out("screen[positions].x") * 5.0 + 6.0, S[:, 0] * 5 + 6
        values = np.round(values) if case["form"] == "int" else np.array(values)
        return numbers(values, case["form"]), values

    value, each = given(case["v"][:n])
    if source == "fill_colors":
        out = T.Out("fill_colors." + case["key"])
        number = lambda each: each[:, "rgb".index(case["key"])] * 10
        expr = out * 10.0
    else:
        out, number, expr = T.Out(source), (lambda each: each), T.Out(source) * 1.0
    if target in ("fill_colors", "line_colors"):
        attr = T.Colormap("viridis", 0.0, 25.0)(expr if case["chain"] else
                                                out * 10.0 if source == "fill_colors" else out)
    else:
        attr = expr * 0.5 + 1.0
    kw = {names[source]: value, names[target]: attr, "types": gsp.core.Marker.heart}
    other = "width" if "width" not in kw else "size"
    kw.setdefault(other, 2.0)
    visual = make(kind, P, **kw)
    for again in range(3 if case["later"] else 1):
        if again == 2:
            value, each = given(case["w"][:n])
            visual.set_variable(source, value)
        visual.render(stage.viewports[0])
        order = unique_order(match(stage.items(), S.reshape(n, 1, 3), kind))
        want = number(each)
        for it, i in zip(stage.items(), order):
            if i is None:
                continue
            what = f"{target} of item {i} of {kind}, from its {source} ({case['form']})"
            if target in ("fill_colors", "line_colors"):
                t = want[i] / 25.0 + np.array([-3e-4, 0, 3e-4])
                c = it["face" if target == "fill_colors" else "edge"]
                C = plt.get_cmap("viridis")(np.clip(t, 0, 1))
                require(np.abs(C - c).max(1).min() < 1e-6, what, got=c, want=C[1],
                        rendering=again)
            elif target == "angles":
                check_outline(it, gsp.core.Marker.heart, want[i] * 0.5 + 1, what)
            else:
                same(it["size" if target == "sizes" else "width"], want[i] * 0.5 + 1, what,
                     rtol=1e-4)
    ctx.event(f"{source} -> {target}")
    ctx.nontrivial(n > 1 and case["form"] != "single" and len(set(np.round(want, 3))) > 1)


# ------------------------------------------------------------------- P05
@oracle("P05", "transform-replay", st.fixed_dictionaries(dict(
        n=st.integers(1, 5), dpi=pos.map(lambda x: 20 * x),
        leaves=st.lists(leaf, min_size=1, max_size=5),
        chains=st.lists(st.fixed_dictionaries(dict(
            cols=st.integers(2, 4), chain=st.lists(element, min_size=1, max_size=5),
            data=st.lists(st.integers(0, 64), min_size=20, max_size=20),
            bind=st.sampled_from(["array", "tracked", "buffer", "f32"]),
            how=st.sampled_from(["call", "call", "methods", "argument"]))),
            min_size=1, max_size=2),
        nodes=st.lists(node, min_size=1, max_size=6), copy=st.lists(st.booleans(), min_size=4,
                                                                    max_size=4),
        again=st.booleans(), api=st.sampled_from(["gsp", "json"]))), 300, 8000,
        "a chain of three transforms or more, or an operator on an operator", shards=4)
def p05_transforms(case, ctx):
    """ transforms evaluate to the same values once saved and replayed in another process """

    fresh.start()
    n = case["n"]
    rng = np.arange(1, n * 3 + 1, dtype=np.float64).reshape(n, 3) / 4
    variables = dict(dpi=case["dpi"], wide=rng, flat=rng[:, 1].copy())
    values, deep = [], []               # transforms, number of levels
    numbers = []
    for spec in case["leaves"]:
        if spec["k"] in ("list", "tuple", "rows", "irows"):
            spec = dict(spec, k="out")
        value, _, _ = make_leaf(spec, n, False, variables)
        if isinstance(value, T.Transform):
            values.append(value)
            deep.append(1)
        else:
            numbers.append(value)
    long = False
    for c in case["chains"]:
        specs = typed_chain(c["chain"], c["cols"])
        if specs[-1]["k"] in ("measure", "Colormap"):     # a vector in the end
            specs.append(dict(k="X", key="x", index=0, name="magma", lim=False, unit="Pixel"))
        data = np.array(c["data"][:n * c["cols"]], float).reshape(n, c["cols"]) / 64
        target = bind_target(c["bind"], data)
        elements = [build_element(s) for s in specs]
        if c["how"] == "argument" and specs[-1]["k"] in "XYZWRGBA" and len(specs) > 1:
            inner = elements[-2]
            for e in elements[-3::-1]:
                inner = inner(e)
            inner = inner(target)
            whole = type(elements[-1])(inner)
        elif c["how"] == "methods":
            whole = elements[0]
            whole.set_buffer(target)
            for e in elements[1:]:
                e.set_next(whole)
                whole = e
        else:
            whole = elements[-1]
            for e in elements[-2::-1]:
                whole = whole(e)
            whole = whole(target)
        ctx.event("chain " + c["how"])
        long |= len(specs) > 2
        values.append(whole)
        deep.append(1)
    OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
           "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    for k, s in enumerate(case["nodes"]):
        i = s["a"] % len(values)
        a, level = values[i], deep[i]
        if s["op"] == "neg":
            value = -a
        else:
            if isinstance(s["b"], list):
                b = s["b"][0]
            else:
                j = s["b"] % (len(values) + len(numbers))
                b = values[j] if j < len(values) else numbers[j - len(values)]
                level = max(level, deep[j] if j < len(values) else 0)
            if s["swap"]:
                a, b = b, a
            value = OPS[s["op"]](a, b)
        if case["copy"][k % 4]:
            value = value.copy()
        values.append(value)
        deep.append(level + 1)
    folder = tempfile.mkdtemp(prefix="verif-p05-")
    try:
        path = os.path.join(folder, "scene.json")
        gsp.save(path)
        status, found = fresh.ask(dict(
            job="transforms", path=path, again=case["again"], api=case["api"],
            transforms=[int(t.id) for t in values], variables=variables))
    finally:
        shutil.rmtree(folder)
    if status != "ok":
        fail(f"replay of the saved transforms fails: {found}")
    with np.errstate(all="ignore"):
        for i, t in enumerate(values):
            name, bound, got = found[int(t.id)]
            require(name == type(t).__name__, "a replayed transform has another type",
                    got=name, want=type(t).__name__)
            require(bound == t.bound, "a replayed transform is not bound as it was",
                    transform=name, got=bound)
            want = np.asarray(t.evaluate(dict(variables)), np.float64)
            if not np.all(np.isfinite(want)) or np.abs(want).max(initial=0) > 1e7:
                break
            same(got, want, f"replayed transform {i}", rtol=3e-4,
                 atol=1e-3 * (1 + np.abs(want).max(initial=0)), transform=name)
    ctx.nontrivial(long or max(deep) > 2)
