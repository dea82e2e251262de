"""
G01 conversions, G02 swizzles, G03 tracked arrays, G04 ragged arrays, G09 allocators.
"""
from lib.common import *
from lib.harness import oracle, st

eighth = st.integers(-400, 400).map(lambda i: i / 8)
whole = st.integers(0, 100).map(float)
DTYPES = {"f2": np.float16, "f4": np.float32, "f8": np.float64, "i4": np.int32, "i8": np.int64,
          "u1": np.uint8, "u4": np.uint32, "i2": np.int16}
TOL = {"f2": 4e-3, "f4": 1e-6, "f8": 1e-12}


def values_for(dtype, values, count, shape):
    V = np.resize(np.array(values, float), count).reshape(shape)
    k = np.arange(count).reshape(shape)
    V = V + (k % 5)                                     # not constant
    if dtype[0] in "iu":
        V = np.round(np.abs(V)) if dtype[0] == "u" else np.round(V)
        if dtype == "u1":
            V = V % 200
    return V % 3 > 0 if dtype == "b1" else V.astype(DTYPES[dtype])


# ------------------------------------------------------------------- G01
@oracle("G01", "conversions", st.fixed_dictionaries(dict(
        fn=st.sampled_from(["to_vec2", "to_vec3", "to_vec4", "as_vec2", "as_vec3", "as_vec4"]),
        n=st.integers(-1, 9), cols=st.sampled_from(["flat", "flat", 2, 3, 4, 2, 3, 4, 4, 1, 5, "flat?",
                                                   "cube"]),
        dtype=st.sampled_from([*DTYPES, "b1"]), out=st.sampled_from([None, None, None, *DTYPES]),
        form=st.sampled_from(["array", "list", "tuples", "tracked", "strided", "reversed",
                              "fortran", "readonly", "vec", "vec"]),
        w=st.lists(st.sampled_from([1.0, 0.5, 2.0, -1.0, 4.0, -0.25]), min_size=1, max_size=9),
        v=st.lists(st.one_of(eighth, whole), min_size=1, max_size=36), extra=st.integers(0, 11),
        tracking=st.booleans())), 5000, 100000,
        "a conversion that adds, drops or divides components, or that must fail", shards=3)
def g01_conversions(case, ctx):
    """ conversions against a numpy reference """

    N = int(case["fn"][-1])
    n, cols, dtype, out = case["n"], case["cols"], case["dtype"], case["out"]
    as_ = case["fn"][:2] == "as"
    n = max(n, 0) if n < 1 and cols in ("flat", 2, 3, 4) else max(n, 1)
    if cols == "flat":
        shape = (n * N,)
    elif cols == "flat?":
        shape = (max(1, case["extra"]),)
    elif cols == "cube":
        shape = (n, 2, N)
    else:
        shape = (n, cols)
    V = values_for(dtype, case["v"], int(np.prod(shape)), shape)
    drops = cols == 4 and N < 4
    if drops:
        w = np.resize(case["w"], n)
        V[:, 3] = w if dtype[0] == "f" else True if dtype == "b1" else np.maximum(1, np.abs(w).astype(int))
    given = V
    form = case["form"]
    if form == "list":
        given = V.tolist()
    elif form == "tuples":
        given = [tuple(r) for r in V.tolist()] if V.ndim == 2 else V.tolist()
    elif form == "strided":
        Z = np.zeros((2 * len(V),) + V.shape[1:], V.dtype)
        Z[1::2] = V
        given = Z[1::2]
    elif form == "reversed":
        given = V[::-1].copy()[::-1]
    elif form == "vec" and V.ndim == 2 and V.shape[1] in (2, 3, 4):
        with untracked():
            given = getattr(glm.ndarray, f"vec{V.shape[1]}")(len(V), dtype=V.dtype)
            given[...] = V
    elif form == "fortran":
        given = np.asfortranarray(V)
    elif form == "readonly":
        given = V.copy()
        given.flags.writeable = False
    elif form == "tracked":
        with untracked():
            given = V.copy().view(glm.ndarray.tracked)
    before = repr(given) if isinstance(given, list) else plain(given).tobytes()
    src = V if not isinstance(given, list) else np.array(given)
    want_dtype = DTYPES[out] if out else src.dtype
    # reference
    R = src.astype(np.float64)
    if as_:
        ok = R.size % N == 0
        R = R.reshape(-1, N) if ok else None
    elif R.ndim == 1:
        ok = len(R) % N == 0
        R = R.reshape(-1, N) if ok else None
    elif R.ndim == 2 and R.shape[1] in (2, 3, 4):
        ok, c = True, R.shape[1]
        if c == 4 and N < 4:
            R = R[:, :N] / R[:, 3:]
        elif c >= N:
            R = R[:, :N]
        else:
            fill = np.zeros((len(R), N - c))
            if N == 4:
                fill[:, -1] = 1
            R = np.concatenate([R, fill], axis=1)
    else:
        ok, R = False, None
    func = getattr(glm, case["fn"])
    args = (given,) if out is None else (given, DTYPES[out])
    with contextlib.nullcontext() if case["tracking"] else untracked():
        if not ok:
            raises((TypeError, ValueError), lambda: func(*args),
                   f"{case['fn']} of shape {src.shape}")
            ctx.event("refused")
            ctx.nontrivial()
            return
        got = func(*args)
    label = f"{case['fn']} of {src.dtype}{src.shape} to {out}"
    require(isinstance(got, np.ndarray) and got.shape == R.shape, label + ": shape",
            got=getattr(got, "shape", got), want=R.shape)
    require(got.dtype == np.dtype(want_dtype), label + ": dtype", got=got.dtype,
            want=want_dtype)
    if np.dtype(want_dtype).kind in "iub":
        if np.dtype(want_dtype).kind == "u" and (R < 0).any():
            return
        R = np.trunc(R)
        if np.dtype(want_dtype) == np.uint8 and (R > 255).any():
            return
        require(np.array_equal(plain(got).astype(float), R), label + ": values", got=plain(got),
                want=R)
    else:
        tol = max(TOL.get(np.dtype(want_dtype).str[1:], 1e-12), TOL.get(dtype, 0)
                  if src.dtype.kind == "f" else 0)
        same(plain(got), R, label, rtol=2 * tol, atol=tol)
    after = repr(given) if isinstance(given, list) else plain(given).tobytes()
    require(before == after, label + ": argument has been modified")
    # components of the result can be named
    same(plain(got.x).ravel(), plain(got)[:, 0], label + ": component x")
    if not as_:
        got[...] = 77 if np.dtype(want_dtype).kind != "u" else 7
        after = repr(given) if isinstance(given, list) else plain(given).tobytes()
        require(before == after, label + ": result shares the memory of the argument")
    elif out is None and V.size and form in ("array", "tracked") and src.dtype == V.dtype:
        require(np.may_share_memory(got, given), label + ": not a view")
        got[0, 0] = not got[0, 0] if dtype == "b1" else got[0, 0] + 1
        require(plain(given).ravel()[0] == plain(got)[0, 0], label + ": not a view")
    ctx.event(case["fn"])
    ctx.nontrivial(not as_ and cols not in ("flat", N))


# ------------------------------------------------------------------- G02
@oracle("G02", "read", st.fixed_dictionaries(dict(
        N=st.integers(2, 4), count=st.one_of(st.none(), st.integers(1, 6), st.tuples(
            st.integers(1, 3), st.integers(1, 3)).map(list)),
        key=st.text("xyzwrgbaq", min_size=1, max_size=5), dtype=st.sampled_from(
            ["f4", "f8", "i4", "u1"]), v=st.lists(whole, min_size=1, max_size=24),
        part=st.sampled_from(["all", "item", "slice", "reversed"]), tracking=st.booleans())),
        3000, 60000, "two letters or more", shards=2)
def g02_read(case, ctx):
    """ components read by name """

    N, key = case["N"], case["key"]
    with contextlib.nullcontext() if case["tracking"] else untracked():
        A = new_vec(N, case["count"], case["dtype"], case["v"])
        A = part_of(A, case["part"])
        sets = {2: ("xy", "ra"), 3: ("xyz", "rgb"), 4: ("xyzw", "rgba")}[N]
        which = [s for s in sets if set(key) <= set(s)]
        if not which:
            foreign = any(all(c not in s for s in sets) for c in key)
            if foreign:
                raises(AttributeError, lambda: getattr(A, key), f"component {key} of vec{N}")
                ctx.event("refused")
                ctx.nontrivial(len(key) > 1)
            return
        B = plain(A)
        want = np.stack([B[..., which[0].index(c)] for c in key], axis=-1)
        got = plain(getattr(A, key))
        if len(key) == 1 and got.shape == want.shape[:-1]:
            want = want[..., 0]
        same(got, want, f"vec{N}{B.shape}.{key}")
        require(np.array_equal(plain(A), B), "reading modifies the vector")
    ctx.nontrivial(len(key) > 1)


def new_vec(N, count, dtype, values):
    cls = {2: glm.ndarray.vec2, 3: glm.ndarray.vec3, 4: glm.ndarray.vec4}[N]
    c = tuple(count) if isinstance(count, list) else count
    A = cls(c, dtype=DTYPES[dtype])
    A[...] = values_for(dtype, values, A.size, A.shape)
    return A


def part_of(A, part):
    if A.ndim < 2 or part == "all":
        return A
    if part == "item":
        return A[len(A) // 2]
    if part == "slice":
        return A[len(A) // 2:]
    return A[::-1]


@oracle("G02", "write", st.fixed_dictionaries(dict(
        N=st.integers(2, 4), count=st.one_of(st.none(), st.integers(1, 6), st.tuples(
            st.integers(1, 3), st.integers(1, 3)).map(list)),
        letters=st.permutations([0, 1, 2, 3]), k=st.integers(1, 4), colors=st.booleans(),
        dtype=st.sampled_from(["f4", "f8", "i4"]), v=st.lists(whole, min_size=1, max_size=24),
        form=st.sampled_from(["number", "tuple", "column", "column1", "columns", "array",
                              "list", "self", "iadd", "view", "block", "rows", "row",
                              "rowlist", "one", "onelist"]),
        new=st.lists(whole, min_size=1, max_size=24),
        part=st.sampled_from(["all", "all", "item", "slice", "reversed"]),
        tracking=st.booleans())), 5000, 100000,
        "several vectors and several components", shards=3)
def g02_write(case, ctx):
    """ components written by name, against assignment element by element """

    N = case["N"]
    letters = [i for i in case["letters"] if i < N][:case["k"]]
    k = len(letters)
    sets = {2: ("xy", "ra"), 3: ("xyz", "rgb"), 4: ("xyzw", "rgba")}[N]
    key = "".join(sets[case["colors"]][i] for i in letters)
    with contextlib.nullcontext() if case["tracking"] else untracked():
        whole_ = new_vec(N, case["count"], case["dtype"], case["v"])
        A = part_of(whole_, case["part"])
        W = plain(whole_)
        form = case["form"]
        single = A.ndim == 1
        n = 1 if single else len(A)
        if form in ("row", "rowlist") and (A.ndim != 2 or n == k):
            form = "tuple"
        B = part_of(W, case["part"])                  # reference, view of W
        new = np.resize(np.array(case["new"]), n * k) + np.arange(n * k) % 7
        if form in ("one", "onelist") and A.ndim < 3:  # the same, as a row of an array
            value = new[:k].reshape(1, k) if form == "one" else [new[:k].tolist()]
            for j, i in enumerate(letters):
                B[..., i] = new[j]
        elif form == "number" or (A.ndim == 3 and form not in ("tuple", "self", "iadd", "view",
                                                               "block", "rows")):
            form, value = "number", float(new[0])
            for i in letters:
                B[..., i] = value
        elif form == "tuple" or (single and form not in ("list", "array", "self", "iadd", "view")):
            form, value = "tuple", tuple(float(x) for x in new[:k])
            if k == 1:
                value = value[0] if case["tracking"] else value
            for j, i in enumerate(letters):
                B[..., i] = new[j]
        elif single and form in ("list", "array"):
            value = new[:k].tolist() if form == "list" else new[:k]
            for j, i in enumerate(letters):
                B[i] = new[j]
        elif form in ("row", "rowlist"):               # one value per component
            value = new[:k] if form == "row" else new[:k].tolist()
            for j, i in enumerate(letters):
                B[..., i] = new[j]
        elif form in ("column", "column1", "list"):
            col = new[:n]
            value = {"column": col, "column1": col.reshape(n, 1), "list": col.tolist()}[form]
            for i in letters:
                B[..., i] = col
        elif form == "columns":
            value = tuple(new.reshape(k, n))
            for j, i in enumerate(letters):
                B[..., i] = new.reshape(k, n)[j]
        elif form in ("array", "block", "rows"):
            shape = A.shape[:-1] + (k,)
            value = np.resize(new, shape)
            for j, i in enumerate(letters):
                B[..., i] = value[..., j]
            if form == "rows":
                value = value.tolist()
        elif form in ("self", "view"):                 # exchange components
            rolled = letters[1:] + letters[:1]
            if form == "view" and k > 1:
                # same thing with a view of the memory that is written
                lo, hi = min(letters), max(letters) + 1
                if sorted(letters) != list(range(lo, hi)) or \
                        letters not in (list(range(lo, hi)), list(range(lo, hi))[::-1]):
                    return
                rolled = letters[::-1]
                value = A[..., lo:hi]
                if rolled[0] > rolled[-1]:
                    value = value[..., ::-1]
            else:
                value = getattr(A, "".join(sets[case["colors"]][i] for i in rolled))
            ref = B.copy()
            for i, j in zip(letters, rolled):
                B[..., i] = ref[..., j]
        else:
            value = None
            for i in letters:
                B[..., i] += 3
        if value is None:
            setattr(A, key, getattr(A, key) + 3)
        else:
            setattr(A, key, value)
        label = f"vec{N}{A.shape}.{key} = {form}"
        require(np.array_equal(plain(whole_), W), label, got=plain(whole_), want=W,
                part=case["part"])
    ctx.event(form)
    ctx.nontrivial(n > 1 and k > 1)


# ------------------------------------------------------------------- G03
class Mirror:
    """ Minimal tracker, as documented """

    instances = []

    def __init__(self, array):
        self.nbytes = array.nbytes
        self.bytes = bytearray(plain(array).tobytes())
        self.calls = 0
        Mirror.instances.append(self)

    def set_data(self, offset, data):
        data = bytes(data)
        if offset < 0 or offset + len(data) > self.nbytes:
            fail("signalled range is out of the array", offset=int(offset), size=len(data),
                 array=self.nbytes)
        self.bytes[offset:offset + len(data)] = data
        self.calls += 1


index = st.one_of(
    st.fixed_dictionaries(dict(k=st.just("int"), i=st.integers(-6, 6))),
    st.fixed_dictionaries(dict(k=st.just("slice"), a=st.integers(-5, 5), b=st.one_of(
        st.none(), st.integers(-5, 7)), s=st.sampled_from([1, 1, 2, 3, -1, -2]))),
    st.fixed_dictionaries(dict(k=st.sampled_from(["dots", "all"]))))
step03 = st.fixed_dictionaries(dict(
    view=st.lists(index, max_size=2), chain=st.lists(st.sampled_from(
        ["rev", "T", "half", "flat", "copy", "plus", "fancy", "self"]), max_size=2),
    op=st.sampled_from(["set", "set", "mask", "ints", "component", "components", "iadd", "isub",
                        "imul", "itruediv", "ifloordiv", "imod", "ipow", "row", "aug"]),
    key=st.lists(index, min_size=1, max_size=2), i=st.integers(0, 9),
    v=st.integers(-9, 9).map(float)))


def one_index(s, size):
    if s["k"] == "int":
        return s["i"] % size if s["i"] >= 0 else -(1 + (-s["i"]) % size)
    if s["k"] == "slice":
        return slice(s["a"], s["b"], s["s"])
    return Ellipsis if s["k"] == "dots" else slice(None)


def make_key(specs, A):
    key, dots = [], 0
    for d, s in enumerate(specs[:A.ndim]):
        if s["k"] == "dots":
            dots += 1
            if dots > 1 or d > 0:
                s = dict(k="all")
        if A.shape[d] == 0 and s["k"] == "int":
            s = dict(k="all")
        axis = d
        if dots and s["k"] == "int":
            # after an ellipsis: last axes
            axis = A.ndim - 1
            if len(specs[:A.ndim]) - d > 1 or A.shape[axis] == 0:
                s = dict(k="all")
        key.append(one_index(s, max(1, A.shape[axis])))
    return key[0] if len(key) == 1 else tuple(key)


def array03(kind, n, dtype):
    D, nd = DTYPES[dtype], glm.ndarray
    return {"scalar": lambda: nd.scalar(n, dtype=D), "vec2": lambda: nd.vec2(n, dtype=D),
            "vec3": lambda: nd.vec3(n, dtype=D), "vec4": lambda: nd.vec4(n, dtype=D),
            "vec3x2": lambda: nd.vec3((n, 2), dtype=D), "mat4": lambda: nd.mat4(n, dtype=D),
            "vec4()": lambda: nd.vec4(dtype=D), "mat3": lambda: nd.mat3(n, dtype=D),
            "tracked": lambda: nd.tracked((n, 3), D), "tracked3": lambda: nd.tracked((n, 2, 2), D),
            "fortran": lambda: nd.tracked((n, 3), D, order="F"),
            "view": lambda: np.zeros((n, 3), D).view(nd.tracked),
            "view2": lambda: np.zeros((n, 2), D).view(nd.vec2)}[kind]()


@oracle("G03", "mirror", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["scalar", "vec2", "vec3", "vec4", "vec3x2", "mat4", "vec4()",
                              "mat3", "tracked", "tracked3", "fortran", "view", "view2"]),
        n=st.one_of(*[st.integers(1, 5)] * 7, st.sampled_from([700, 3000])),
        dtype=st.sampled_from(["f4", "f8", "i4", "u1"]),
        steps=st.lists(step03, min_size=1, max_size=12))), 700, 40000,
        "a modification through a view", shards=3)
def g03_mirror(case, ctx):
    """ mirror kept by signals versus array, after each step """

    glm.ndarray.tracked.__tracker_class__ = Mirror
    Mirror.instances.clear()
    A = array03(case["kind"], case["n"], case["dtype"])
    mirrors = list(Mirror.instances)
    require(mirrors, "creating a tracked array does not create a tracker")
    mirror = mirrors[0]
    A[...] = np.arange(1, A.size + 1).reshape(A.shape) % 100
    R = np.array(plain(A))                              # reference

    def agree(what):
        require(np.array_equal(plain(A), R), "the array itself is wrong after " + what,
                got=plain(A), want=R)
        require(bytes(mirror.bytes) == R.tobytes(), "the mirror differs from the array after "
                + what, kind=case["kind"],
                bytes=[i for i, (a, b) in enumerate(zip(mirror.bytes, R.tobytes())) if a != b][:8])
    agree("the first assignment")
    through = False
    for s in case["steps"]:
        V, Q = A, R
        what = []
        if s["view"]:
            key = make_key(s["view"], A)
            V, Q = A[key], R[key]
            what.append(f"[{key}]")
            through = True
        if not isinstance(V, np.ndarray) or V.ndim == 0:
            V, Q = A, R
        alias = True
        for c in s["chain"]:
            if c == "rev":
                V, Q = V[::-1], Q[::-1]
            elif c == "T":
                V, Q = V.T, Q.T
            elif c == "half":
                V, Q = V[len(V) // 2:], Q[len(Q) // 2:]
            elif c == "flat":
                V, Q = V.reshape(-1), Q.reshape(-1)
            elif c == "copy":
                V, Q = V.copy(), Q.copy()
            elif c == "plus":
                V, Q = V + 1, Q + 1
            elif c == "fancy" and len(V):
                V, Q = V[[0, -1]], Q[[0, -1]]
            what.append("." + c)
        if not V.ndim or not V.size:
            continue
        alias = np.shares_memory(Q, R)
        if alias != np.shares_memory(V, A):
            continue                                    # reshape of a transposed view
        D = R.dtype.type
        value = D(abs(s["v"])) if R.dtype.kind == "u" else D(s["v"])
        op, i = s["op"], s["i"]
        op0 = op
        if op == "set" or op == "aug":
            key = make_key(s["key"], V)
            if op == "set":
                V[key] = value
                Q[key] = value
            else:
                V[key] += value
                Q[key] += value
        elif op == "mask":
            M = np.arange(V.size).reshape(V.shape) % (i % 3 + 2) == 0
            V[M] = value
            Q[M] = value
        elif op == "ints":
            idx = np.array([i % len(V), (i + 2) % len(V)])
            V[idx] = value
            Q[idx] = value
        elif op in ("component", "components"):
            letters = getattr(type(V), "swizzle", None)
            names = {2: "xy", 3: "xyz", 4: "xyzw"}
            if not isinstance(V, glm.ndarray.swizzle) or not letters \
                    or V.shape[-1] != len(letters[0]):
                V[...] = value
                Q[...] = value
            elif op == "component":
                setattr(V, names[V.shape[-1]][i % V.shape[-1]], value)
                Q[..., i % V.shape[-1]] = value
            else:
                V.yx = value
                Q[..., [0, 1]] = value
        elif op == "row":
            V[i % len(V)] = value
            Q[i % len(V)] = value
        else:
            if op == "itruediv" and R.dtype.kind != "f":
                op = "iadd"
            if op in ("itruediv", "ifloordiv", "imod") and value == 0:
                value = D(3)
            if op == "ipow":
                value = D(2)
                V %= D(7)
                Q %= D(7)
            name = f"__{op}__"
            out = getattr(V, name)(value)
            getattr(Q, name)(value)
            require(out is V, f"{op} does not return the array")
        agree("".join(what) + " " + op)
        ctx.event(op0)
    ctx.nontrivial(through)


@oracle("G03", "buffer", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["vec2", "vec3", "vec4", "mat4", "view2"]),
        n=st.integers(1, 5), dtype=st.sampled_from(["f4", "i4", "u1", "f8", "f2", "i2"]),
        steps=st.lists(step03, min_size=1, max_size=6))), 200, 6000,
        "always", shards=2)
def g03_buffer(case, ctx):
    """ GSP buffer of a tracked array: content follows, also as replayed elsewhere """

    A = array03(case["kind"], case["n"], case["dtype"])
    A[...] = np.arange(1, A.size + 1).reshape(A.shape) % 100
    R = np.array(plain(A))                              # reference
    buffer = gsp_matplotlib.tracked_to_Buffer(A)
    for s in case["steps"]:
        key = make_key(s["view"], A) if s["view"] else Ellipsis
        V, Q = A[key], R[key]
        if not isinstance(V, np.ndarray) or V.ndim == 0 or not V.size:
            V, Q = A, R
        for X in (V, Q):
            if s["op"] == "row":
                X[s["i"] % len(X)] = abs(s["v"])
            elif s["op"] == "iadd":
                X += A.dtype.type(1)
            else:
                X[make_key(s["key"], X)] = abs(s["v"])
        require(np.array_equal(plain(A), R), "the array itself is wrong", got=plain(A), want=R)
        got = plain(buffer)
        require(got.size == A.size and np.array_equal(got.reshape(A.shape), plain(A)),
                "buffer of a tracked array differs from the array", got=got, want=plain(A))
    # what has been recorded gives the same buffer elsewhere
    oid = int(buffer.id)
    queue = gsp.io.queue()
    queue.run(gsp_matplotlib)
    got = plain(Object.objects[oid])
    require(got.size == A.size and np.array_equal(got.reshape(A.shape), R),
            "replayed buffer of a tracked array differs from the array", got=got, want=R)
    ctx.nontrivial()


@oracle("G03", "dirty", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["scalar", "vec2", "vec3", "vec4", "vec3x2", "mat4", "tracked",
                              "tracked3", "fortran", "view", "view2"]),
        n=st.one_of(*[st.integers(1, 6)] * 7, st.sampled_from([700, 3000])),
        dtype=st.sampled_from(["f4", "f8", "u1"]),
        steps=st.lists(st.one_of(step03, st.fixed_dictionaries(dict(
            op=st.sampled_from(["clear", "clear", "clear view"])))), min_size=1, max_size=10))),
        1000, 40000, "at least two modifications between two clears", shards=2)
def g03_dirty(case, ctx):
    """ dirty region versus bytes modified since the last clear (no tracker) """

    glm.ndarray.tracked.__tracker_class__ = None
    A = array03(case["kind"], case["n"], case["dtype"])
    order = "F" if case["kind"] == "fortran" else "C"
    R = np.arange(A.size).reshape(A.shape, order=order)         # positions in memory
    A[...] = 1
    size = A.itemsize
    require(A.dirty == (0, A.nbytes), "a new array is not dirty", got=A.dirty)
    A.clear()
    touched, exact, count = set(), True, 0

    def agree(what):
        got = A.dirty
        if not touched:
            require(got is None, f"dirty region after {what}", got=got, want=None)
            return
        lo, hi = min(touched) * size, (max(touched) + 1) * size
        require(got is not None and 0 <= got[0] <= lo and hi <= got[1] <= A.nbytes,
                f"dirty region after {what} does not cover what is modified", got=got,
                want=(lo, hi), kind=case["kind"])
        if exact:
            require(tuple(got) == (lo, hi), f"dirty region after {what} is not the smallest",
                    got=got, want=(lo, hi), kind=case["kind"])
    agree("a clear")
    for s in case["steps"]:
        V, Q = A, R
        if s["op"] == "clear":
            A.clear()
            touched, exact, count = set(), True, 0
            agree("clear")
            continue
        if s["op"] == "clear view":
            A[...].view(glm.ndarray.tracked)[::-1].clear()
            touched, exact, count = set(), True, 0
            agree("clear of a view")
            continue
        if s["view"]:
            key = make_key(s["view"], A)
            V, Q = A[key], R[key]
        if not isinstance(V, np.ndarray) or V.ndim == 0:
            V, Q = A, R
        what = ""
        for c in s["chain"]:
            if c == "rev":
                V, Q = V[::-1], Q[::-1]
            elif c == "T":
                V, Q = V.T, Q.T
            elif c == "half":
                V, Q = V[len(V) // 2:], Q[len(Q) // 2:]
            elif c == "flat":
                V = V.view(glm.ndarray.tracked)
            elif c in ("copy", "plus"):
                V, Q = V + V.dtype.type(1), np.zeros((0,), int)
            what += "." + c
            if not V.ndim or not V.size:
                break
        if not V.ndim or not V.size:
            continue
        op, value, i = s["op"], A.dtype.type(3), s["i"]
        shared = len(Q) > 0
        if op in ("set", "aug"):
            key = make_key(s["key"], V)
            V[key] = value
            hit = Q[key] if shared else Q
        elif op == "mask":
            M = np.arange(V.size).reshape(V.shape) % (i % 3 + 2) == 0
            V[M] = value
            hit = Q[M] if shared else Q
            exact = exact and not (shared and M.any())
        elif op == "row":
            V[i % len(V)] = value
            hit = Q[i % len(V)] if shared else Q
        elif op == "iadd":
            V += value
            hit = Q
        elif op == "isub":
            V -= value
            hit = Q
        else:
            V[...] = value
            hit = Q
        hit = np.atleast_1d(hit).ravel().tolist()
        touched |= set(hit)
        count += bool(hit)
        agree(f"{s['view']}{what} {op}")
        ctx.event(op)
        if count > 1:
            ctx.nontrivial()


# ------------------------------------------------------------------- G04
step04 = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("get"), key=st.one_of(
        st.integers(-9, 9), st.tuples(st.one_of(st.none(), st.integers(-7, 7)), st.one_of(
            st.none(), st.integers(-7, 7)), st.sampled_from([None, 1, 2, 3, -1, -2])).map(list),
        st.fixed_dictionaries(dict(k=st.sampled_from(["list", "tuple", "array", "mask"]),
                                   i=st.lists(st.integers(-8, 8), min_size=1, max_size=5)))))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["number", "array", "one"]), key=st.one_of(
        st.integers(-9, 9), st.tuples(st.one_of(st.none(), st.integers(-7, 7)), st.one_of(
            st.none(), st.integers(-7, 7)), st.sampled_from([None, 1, 2, -1])).map(list),
        st.fixed_dictionaries(dict(k=st.sampled_from(["list", "tuple", "array", "mask"]),
                                   i=st.lists(st.integers(-8, 8), min_size=1, max_size=4,
                                              unique=True)))),
        v=st.integers(-99, 99).map(float))),
    st.fixed_dictionaries(dict(op=st.sampled_from(["iterate", "sizes", "data"]))))


@oracle("G04", "list", st.fixed_dictionaries(dict(
        sizes=st.lists(st.integers(0, 4), min_size=1, max_size=7),
        times=st.sampled_from([1, 1, 1, 1, 17, 60, 9000]), stype=st.sampled_from(
            ["i8", "i4", "u1", "u2", "i1", "u8"]), width=st.sampled_from(
            [None, None, 2, 3]), build=st.sampled_from(
            ["lists", "arrays", "vec", "sizes", "sizes-array", "equal", "tuple", "flat"]),
        dtype=st.sampled_from(["f4", "f8", "i4"]), steps=st.lists(step04, min_size=1,
                                                                  max_size=12))),
        2500, 60000, "an access to several items of different sizes", shards=2)
def g04_ragged(case, ctx):
    """ ragged array versus list of arrays """

    sizes, width, build = list(case["sizes"]), case["width"], case["build"]
    D = DTYPES[case["dtype"]]
    if build == "vec":
        width = width or 2
    if build == "equal":
        sizes = [max(1, sizes[0])] * len(sizes)
    if build == "flat":
        sizes = [max(1, sum(sizes))]
    if sum(sizes) == 0:
        return
    if case["times"] > 1 and build not in ("equal", "flat"):
        t = case["times"]
        sizes = [s * t if t < 99 and s * t < 120 or t > 99 and not width else s for s in sizes]
        if t > 99 and build == "sizes-array":
            case = dict(case, stype="i8")
    shape = (sum(sizes),) + (() if width is None else (width,))
    data = (np.arange(int(np.prod(shape))) % 100).reshape(shape).astype(D)
    cuts = np.cumsum([0] + sizes)
    ref = [data[a:b].copy() for a, b in zip(cuts[:-1], cuts[1:])]
    with untracked():
        if build in ("lists", "tuple"):
            if width is not None:
                nonempty = [s for s in sizes if s]
                if len(nonempty) != len(sizes):
                    return
            L = glm.vlist([r.tolist() for r in ref] if build == "lists" else
                          tuple(r.tolist() for r in ref))
        elif build == "arrays":
            L = glm.vlist([r.copy() for r in ref])
        elif build == "vec":
            cls = {2: glm.ndarray.vec2, 3: glm.ndarray.vec3}[width]
            items = []
            for r in ref:
                v = cls(len(r), dtype=D) if len(r) else np.zeros((0, width), D).view(cls)
                v[...] = r
                items.append(v)
            L = glm.vlist(items)
            require(isinstance(L.data, cls), "class of the items is lost", got=type(L.data))
        elif build == "equal":
            L = glm.vlist(data.copy(), sizes[0])
        elif build == "flat":
            L = glm.vlist(data.copy())
        else:
            L = glm.vlist(data.copy(), sizes if build == "sizes" else np.array(sizes, case["stype"]))
    several = False
    n = len(ref)

    def resolve(key):
        """ -> (key, list of item numbers, single), or None if out of range """

        if isinstance(key, int):
            if not -n <= key < n:
                return key, None
            return key, [key % n]
        if isinstance(key, list):
            s = slice(*key)
            return s, list(range(n))[s]
        idx = [i % n if i >= 0 else -(1 + (-i - 1) % n) for i in key["i"]]
        if key["k"] == "mask":
            mask = np.array([(i % 2 == 0) ^ (i in key["i"]) for i in range(n)])
            return mask, [i for i in range(n) if mask[i]]
        idx = list(dict.fromkeys(i % n for i in idx)) if True else idx
        k = {"list": list, "tuple": tuple, "array": np.array}[key["k"]](idx)
        return k, idx
    for s in case["steps"]:
        op = s["op"]
        if op == "get":
            key, items = resolve(s["key"])
            if items is None:
                raises(IndexError, lambda: L[key], f"item {key} among {n}")
                continue
            want = np.concatenate([ref[i] for i in items]) if items else data[:0]
            same(plain(L[key]), want, f"items {key} of {n}")
            several |= len({len(ref[i]) for i in items}) > 1
        elif op in ("number", "array", "one"):
            key, items = resolve(s["key"])
            if items is None:
                continue
            count = sum(len(ref[i]) for i in items)
            value = D(s["v"])
            if op == "array":
                value = (s["v"] + np.arange(count * (width or 1))).astype(D).reshape(
                    (count,) + shape[1:])
            elif op == "one":                       # all the values of these items
                value = np.full((1,) + shape[1:], value, D)
            L[key] = value
            pos = 0
            for i in items:
                ref[i][...] = value if op != "array" else value[pos:pos + len(ref[i])]
                pos += len(ref[i])
            several |= len({len(ref[i]) for i in items}) > 1
        elif op == "iterate":
            got = list(L)
            require(len(got) == n, "number of items when iterating", got=len(got), want=n)
            for i, g in enumerate(got):
                same(plain(g), ref[i], f"item {i} when iterating")
        elif op == "sizes":
            same(L.itemsize, sizes, "item sizes")
        require(len(L) == n, "number of items", got=len(L), want=n)
        whole_ = np.concatenate(ref)
        same(plain(L.data), whole_, "data after " + op)
        require(L.size == len(whole_), "size", got=L.size, want=len(whole_))
        ctx.event(op)
    ctx.nontrivial(several)


@oracle("G04", "partition", st.fixed_dictionaries(dict(
        n=st.integers(0, 20), itemsize=st.one_of(st.integers(1, 8), st.lists(
            st.integers(0, 6), min_size=1, max_size=6)))), 300, 5000, "always")
def g04_partition(case, ctx):
    """ impossible partitions are refused, others are done """

    n, itemsize = case["n"], case["itemsize"]
    data = np.arange(n)
    total_ok = n % itemsize == 0 if isinstance(itemsize, int) else sum(itemsize) == n
    if not total_ok:
        raises(ValueError, lambda: glm.vlist(data, itemsize), f"{n} elements by {itemsize}")
    else:
        L = glm.vlist(data, itemsize)
        sizes = [itemsize] * (n // itemsize) if isinstance(itemsize, int) else itemsize
        same(L.itemsize, sizes, "item sizes")
        require(len(L) == len(sizes), "number of items")
        at = 0
        for i, size in enumerate(sizes):
            same(plain(L[i]), np.arange(at, at + size), f"item {i}")
            at += size
    ctx.nontrivial()


@oracle("G04", "mixed", st.fixed_dictionaries(dict(
        items=st.lists(st.tuples(st.sampled_from(["i1", "u1", "i4", "i8", "f2", "f4", "f8",
                                                  "list", "floats"]),
                                 st.lists(st.integers(0, 100), max_size=4)).map(list),
                       min_size=1, max_size=5), tuple=st.booleans())), 500, 10000,
        "items of several types")
def g04_mixed(case, ctx):
    """ items of different types keep their values """

    items = []
    for k, v in case["items"]:
        v = [x / 4 for x in v] if k in ("f2", "f4", "f8", "floats") else v
        items.append(v if k in ("list", "floats") else np.array(v, k))
    first = items[0]
    ref = [np.array(i, float) for i in items]
    if not sum(map(len, ref)):
        return
    with untracked():
        L = glm.vlist(tuple(items) if case["tuple"] else items)
    require(len(L) == len(ref), "number of items", got=len(L), want=len(ref))
    same(L.itemsize, [len(r) for r in ref], "item sizes")
    same(plain(L.data), np.concatenate(ref), "values of items of several types",
         given=[k for k, _ in case["items"]])
    for i, r in enumerate(ref):
        same(plain(L[i]), r, f"item {i} among items of several types")
    require(items[0] is first and all(np.array_equal(a, b) for a, b in zip(items, ref)),
            "the items given are modified")
    ctx.nontrivial(len({k for k, v in case["items"]}) > 1)


@oracle("G04", "hollow", st.fixed_dictionaries(dict(
        sizes=st.lists(st.sampled_from([0, 0, 0, 1, 3]), max_size=6), width=st.sampled_from(
            [None, 2, 3]), stype=st.sampled_from(["i8", "i4", "u1", "u2"]),
        dtype=st.sampled_from(["f4", "f8", "i4"]), last=st.integers(0, 3))), 300, 5000,
        "items with no value")
def g04_hollow(case, ctx):
    """ lists made of few values, or none at all """

    sizes = case["sizes"] + [0] * case["last"]
    width, dtype = case["width"], DTYPES[case["dtype"]]
    shape = (sum(sizes),) + (() if width is None else (width,))
    data = np.arange(int(np.prod(shape))).reshape(shape).astype(dtype)
    with untracked():
        L = glm.vlist(data.copy(), np.array(sizes, case["stype"]))
    cuts = np.cumsum([0] + sizes)
    require(len(L) == len(sizes) and L.size == sum(sizes), "number of items, and of values",
            got=(len(L), L.size), want=(len(sizes), sum(sizes)))
    same(np.asarray(L.itemsize), np.array(sizes, int), "item sizes")
    got = list(L)
    require(len(got) == len(sizes), "number of items when iterating", got=len(got))
    for i, (a, b) in enumerate(zip(cuts[:-1], cuts[1:])):
        for item in (got[i], L[i], L[i - len(sizes)]):
            same(plain(item), data[a:b], f"item {i} of sizes {sizes}")
        L[i] = 50 + i
        data[a:b] = 50 + i
        same(plain(L.data), data, f"data after item {i} is set")
    same(plain(L[:]), data, "all the items")
    same(plain(L.data), data, "data")
    ctx.nontrivial(0 in sizes)


# ------------------------------------------------------------------- G09
ALLOC = {}
for _p, _d in (("b", np.uint8), ("i", np.int32), ("u", np.uint32), ("h", np.float16),
               ("", np.float32), ("d", np.float64)):
    for _k in (2, 3, 4):
        ALLOC[f"{_p}vec{_k}"] = (_d, (_k,))
        ALLOC[f"{_p}mat{_k}"] = (_d, (_k, _k))
ALLOC.update(byte=(np.int8, ()), ubyte=(np.uint8, ()), float=(np.float32, ()))


CLASSES = dict(scalar=(), vec2=(2,), vec3=(3,), vec4=(4,), mat2=(2, 2), mat3=(3, 3), mat4=(4, 4))


@oracle("G09", "memory", st.fixed_dictionaries(dict(
        name=st.sampled_from(sorted(CLASSES)), count=st.one_of(st.none(), st.integers(0, 6)),
        dtype=st.sampled_from(["f4", "f8", "f2", "i4", "u1", ">f4"]), skip=st.integers(0, 5),
        more=st.integers(0, 3), memory=st.sampled_from(["array", "bytearray", "bytes"]),
        order=st.sampled_from([None, "C", "F"]), write=st.booleans())), 500, 10000,
        "a part of the memory that does not start at its beginning")
def g09_memory(case, ctx):
    """ classes of vectors and matrices over a given memory """

    name, count, dtype = case["name"], case["count"], np.dtype(case["dtype"])
    tail = CLASSES[name]
    n = (1 if count is None else count) * int(np.prod(tail))
    values = (np.arange(case["skip"] + n + case["more"]) % 200).astype(dtype)
    memory = {"array": values, "bytearray": bytearray(values.tobytes()),
              "bytes": values.tobytes()}[case["memory"]]
    offset = case["skip"] * dtype.itemsize
    cls = getattr(glm.ndarray, name)
    if not n or offset and not case["more"] and offset >= values.nbytes:
        return
    order = case["order"] if count is not None and not tail else None
    with untracked():
        A = cls(count, dtype, memory, offset, order=order)
    want = values[case["skip"]:case["skip"] + n].reshape(
        (() if count is None else (count,)) + tail)
    if count is None:
        want = want.squeeze()
    require(isinstance(A, cls) and A.shape == want.shape and A.dtype == dtype,
            f"{name} over a memory: type", got=(type(A), A.shape, A.dtype),
            want=(want.shape, dtype))
    require(np.array_equal(plain(A), want), f"{name} over a memory: values", got=plain(A),
            want=want)
    require(A.flags.writeable == (case["memory"] != "bytes"), "writeable memory")
    if case["write"] and case["memory"] != "bytes":
        A[...] = 7
        now = np.frombuffer(memory, dtype)
        expected = values.copy() if case["memory"] != "array" else None
        if expected is not None:
            expected[case["skip"]:case["skip"] + n] = 7
            require(np.array_equal(now, expected), f"{name} over a memory: write", got=now,
                    want=expected)
        else:
            require((now[case["skip"]:case["skip"] + n] == 7).all()
                    and np.array_equal(now[case["skip"] + n:],
                                       (np.arange(len(now)) % 200).astype(dtype)[
                                           case["skip"] + n:]),
                    f"{name} over an array: write", got=now)
    ctx.event(name)
    ctx.nontrivial(case["skip"] > 0 and n > 1)


@oracle("G09", "allocators", st.fixed_dictionaries(dict(
        name=st.sampled_from(sorted(ALLOC)), count=st.one_of(st.none(), st.integers(0, 20), st.integers(0, 20),
                                                            st.sampled_from([300, 5000, 70000]),
                                                            st.tuples(st.integers(1, 4),
                                                                      st.integers(1, 4)).map(list)),
        v=st.lists(st.integers(0, 60).map(float), min_size=1, max_size=16),
        ops=st.lists(st.sampled_from(["+", "-", "*", "@", "T", "reshape", "sum", "max", "cmp",
                                      "astype", "copy", "min-axis", "neg", "abs", "concat",
                                      "item"]), max_size=5), tracking=st.booleans())),
        2500, 60000, "an array of several elements on which something is computed", shards=2)
def g09_allocators(case, ctx):
    """ allocation, and numpy operations on the result """

    name, count = case["name"], case["count"]
    dtype, tail = ALLOC[name]
    lead = () if count is None else tuple(count) if isinstance(count, list) else (count,)
    with contextlib.nullcontext() if case["tracking"] else untracked():
        func = getattr(glm, name)
        A = func() if count is None else func(lead if len(lead) > 1 else lead[0])
        other = func() if count is None else func(lead if len(lead) > 1 else lead[0])
        require(isinstance(A, np.ndarray), f"{name}: not an array", got=type(A))
        require(A.shape in (lead + tail, lead + (1,) if not tail and lead else lead + tail),
                f"{name}({count}): shape", got=A.shape, want=lead + tail)
        require(A.dtype == np.dtype(dtype), f"{name}: dtype", got=A.dtype, want=np.dtype(dtype))
        B = (np.resize(case["v"], A.size) + np.arange(A.size) % 3).reshape(A.shape).astype(dtype)
        A[...] = B
        other[...] = B[::-1] if B.ndim else B
        other[...] = 1
        require(np.array_equal(plain(A), B), f"{name}: does not read back what is written",
                got=plain(A), want=B)
        require(not np.shares_memory(A, other), f"{name}: storage is shared")
        for op in case["ops"]:
            got = want = None
            if op == "+":
                got, want = A + B, B + B
            elif op == "-":
                got, want = (A - B, B - B)
            elif op == "*":
                got, want = A * dtype(2), B * dtype(2)
            elif op == "@":
                if B.ndim == 0 or not tail and B.shape[-1] > 32:
                    continue
                if len(tail) == 2:
                    got, want = A @ B, B @ B
                else:
                    M = np.eye(B.shape[-1], dtype=dtype)[::-1]
                    got, want = A @ M, B @ M
            elif op == "T":
                got, want = A.T, B.T
            elif op == "reshape":
                got, want = A.reshape((A.size,)), B.reshape((A.size,))
            elif op == "sum":
                got, want = A.sum(), B.sum()
            elif op == "max":
                if not B.size:
                    continue
                got, want = A.max(), B.max()
            elif op == "cmp":
                got, want = A > 5, B > 5
            elif op == "astype":
                got, want = A.astype(np.float64), B.astype(np.float64)
                require(got.dtype == np.float64, f"{name}.astype: dtype", got=got.dtype)
            elif op == "copy":
                got, want = A.copy(), B.copy()
                require(not np.shares_memory(got, A), f"{name}.copy shares memory")
            elif op == "min-axis":
                if not B.size or B.ndim == 0:
                    continue
                got, want = A.min(axis=0), B.min(axis=0)
            elif op == "neg":
                if np.dtype(dtype).kind == "u":
                    continue
                got, want = -A, -B
            elif op == "abs":
                got, want = np.abs(A), np.abs(B)
            elif op == "concat":
                if B.ndim == 0:
                    continue
                got, want = np.concatenate([A, other]), np.concatenate([B, plain(other)])
            else:
                if not B.size or B.ndim == 0:
                    continue
                got, want = A[-1], B[-1]
            g, w = np.asarray(got), np.asarray(want)
            require(g.shape == w.shape and g.dtype == w.dtype and
                    np.array_equal(plain(g), w, equal_nan=g.dtype.kind == "f"),
                    f"{name}: {op} differs from numpy", got=plain(g), want=w)
            require(np.array_equal(plain(A), B), f"{name}: {op} modifies the array")
            ctx.event(op)
    ctx.nontrivial(A.size > 1 and bool(case["ops"]))
