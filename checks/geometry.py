"""
G05 elementary matrices, G06 projections and views, G07 trackball, G08 shapes and helpers.
"""
import itertools
from lib.common import *
from lib.harness import oracle, st
import shutil, tempfile
from gsp_matplotlib.glm import shapes

coord = st.one_of(st.integers(-1000, 1000).map(lambda i: i / 8), st.integers(-8, 8).map(float),
                  st.integers(-1000, 1000).map(float))
vec = st.lists(coord, min_size=3, max_size=3)
fine = st.lists(st.one_of(coord, st.integers(-1000, 1000).map(lambda i: i / 30)), min_size=3,
                max_size=3)
angle = st.one_of(st.integers(-24, 24).map(lambda i: i * 15.0), st.integers(-7200, 7200).map(
    lambda i: i / 10))
dtypes = st.sampled_from([None, None, "f4", "f8"])
D = {"f4": np.float32, "f8": np.float64}


def options(dtype, transpose):
    kw = {}
    if dtype:
        kw["dtype"] = D[dtype]
    if transpose is not None:
        kw["transpose"] = transpose
    return kw


def form(v, how):
    if how == "mixed":
        return [int(x) if x == int(x) else float(x) for x in v]
    if how == "ints" and all(x == int(x) for x in v):
        return np.array(v, np.int16)
    if how == "tuple":
        return tuple(v)
    if how == "list":
        return list(v)
    if how == "vec3":
        with untracked():
            A = glm.vec3()
            A[...] = v
            return A
    return np.array(v, float)


forms = st.sampled_from(["tuple", "list", "array", "vec3", "mixed", "ints"])


def exact(case, *forms):
    """ Whether both arguments and result are of double precision """

    return case["dtype"] == "f8" and not {"vec3", "ints"} & set(forms)


def take(M, what, dtype, transpose):
    """ Check type of a matrix, undo its transposition, return it as a plain float64 matrix """

    require(isinstance(M, np.ndarray) and M.shape == (4, 4), f"{what}: shape",
            got=getattr(M, "shape", M))
    require(M.dtype == (D[dtype] if dtype else np.float32), f"{what}: dtype", got=M.dtype,
            want=dtype or "f4")
    copy = plain(M).astype(float)
    M[...] = 77                         # a matrix belongs to the one who asked for it
    return copy.T if transpose else copy


def rigid(R, what, tol=1e-5):
    same(R[:3, :3] @ R[:3, :3].T, np.eye(3), f"{what}: not orthonormal", atol=tol)
    require(abs(np.linalg.det(R[:3, :3]) - 1) < 3 * tol, f"{what}: determinant is not 1",
            got=np.linalg.det(R[:3, :3]))
    same(R[3], [0, 0, 0, 1], f"{what}: last row", atol=1e-7)
    same(R[:3, 3], [0, 0, 0], f"{what}: translation", atol=1e-7)


def rodrigues(theta, axis):
    k = np.array(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    t = np.radians(theta)
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


# ------------------------------------------------------------------- G05
@oracle("G05", "translate-scale", st.fixed_dictionaries(dict(
        fn=st.sampled_from(["translate", "scale"]), v=fine, p=fine, dtype=dtypes, form=forms,
        transpose=st.sampled_from([None, False, True]))), 2000, 30000,
        "a vector with three different components")
def g05_translate(case, ctx):
    """ translation adds, scaling multiplies """

    v, p = np.array(case["v"]), np.array(case["p"])
    M = take(getattr(glm, case["fn"])(form(case["v"], case["form"]),
                                      **options(case["dtype"], case["transpose"])),
             case["fn"], case["dtype"], case["transpose"])
    got = M @ np.r_[p, 1]
    want = p + v if case["fn"] == "translate" else p * v
    same(got, np.r_[want, 1], case["fn"], rtol=1e-6, atol=1e-4)
    if exact(case, case["form"]):
        same(got, np.r_[want, 1], case["fn"] + " in double precision", rtol=1e-12, atol=1e-12)
    direction = M @ np.r_[p, 0]
    want = p if case["fn"] == "translate" else p * v
    same(direction, np.r_[want, 0], case["fn"] + " of a direction", rtol=1e-6, atol=1e-4)
    ctx.nontrivial(len(set(case["v"])) == 3)


@oracle("G05", "rotations", st.fixed_dictionaries(dict(
        fn=st.sampled_from(["xrotate", "yrotate", "zrotate", "rotate", "rotate"]), theta=angle,
        other=angle, axis=vec, length=st.sampled_from([None, None, "unit", "almost unit", "tiny", "huge"]),
        e=st.integers(-90, 90), p=vec, dtype=dtypes, form=forms,
        transpose=st.sampled_from([None, False, True]))), 3000, 60000,
        "an angle that is not a multiple of 90°")
def g05_rotations(case, ctx):
    """ rotations against Rodrigues' formula """

    fn, theta = case["fn"], case["theta"]
    axis = {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1]}.get(fn[0], case["axis"])
    if np.linalg.norm(axis) < 1e-3:
        return
    how = case["form"]
    if case.get("length") and fn == "rotate":
        axis = np.array(axis) / np.linalg.norm(axis)
        if case["length"] == "almost unit":
            axis = axis * (1 + case["e"] / 6000)
        if case["length"] in ("tiny", "huge"):
            axis = axis * 10.0 ** ((1 + abs(case["e"]) // 15) * (-1 if case["length"] == "tiny" else 1))
        axis = axis.tolist()
        how = "array" if how in ("ints", "mixed") else how
    kw = options(case["dtype"], case["transpose"])

    def make(t):
        if fn == "rotate":
            M = glm.rotate(t, form(axis, how), **kw)
        else:
            M = getattr(glm, fn)(t, **kw)
        return take(M, fn, case["dtype"], case["transpose"])
    R = make(theta)
    label = f"{fn}({theta}) about {axis}"
    rigid(R, label)
    same(R[:3, :3], rodrigues(theta, axis), label, atol=2e-6)
    if exact(case, how):
        same(R[:3, :3], rodrigues(theta, axis), label + " in double precision", atol=1e-10)
    # about the same axis, angles add
    same(make(case["other"]) @ R, make(theta + case["other"]), label + " composed", atol=1e-5)
    p = np.array(case["p"])
    q = R[:3, :3] @ p
    require(abs(np.linalg.norm(q) - np.linalg.norm(p)) <= 1e-5 * (1 + np.linalg.norm(p)),
            label + ": length is not preserved")
    ctx.event(fn)
    ctx.nontrivial(theta % 90 != 0)


@oracle("G05", "align", st.fixed_dictionaries(dict(
        u=vec, v=vec, how=st.sampled_from(["any", "any", "same", "opposite", "near", "nearly "
                                           "opposite", "axes"]),
        k=st.integers(1, 80).map(lambda i: i / 8), e=st.integers(-14, -1),
        dtype=dtypes, fu=forms, fv=forms, transpose=st.sampled_from([None, False, True]))),
        2500, 60000, "vectors that are (almost) parallel, or any two of them")
def g05_align(case, ctx):
    """ alignment is a rotation that maps one direction to the other """

    u, v, how = np.array(case["u"]), np.array(case["v"]), case["how"]
    fu, fv = case["fu"], case["fv"]
    if np.linalg.norm(u) < 0.1 or np.linalg.norm(v) < 0.1:
        return
    if how in ("same", "opposite"):
        v = u * case["k"] * (1 if how == "same" else -1)
    elif how in ("near", "nearly opposite"):
        d = np.cross(u, v)
        if np.linalg.norm(d) < 0.1:
            return
        d = d / np.linalg.norm(d) * np.linalg.norm(u) * 10.0 ** case["e"]
        v = (u + d) * (1 if how == "near" else -1)
        fu = fv = "array"
    elif how == "axes":
        I = np.concatenate([np.eye(3), -np.eye(3)])
        u, v = I[int(abs(u[0] * 8)) % 6], I[int(abs(v[0] * 8)) % 6]
    R = take(glm.align(form(u, fu), form(v, fv), **options(case["dtype"], case["transpose"])),
             "align", case["dtype"], case["transpose"])
    label = f"align {u.tolist()} to {v.tolist()}"
    rigid(R, label, 2e-5)
    got = R[:3, :3] @ u / np.linalg.norm(u)
    same(got, v / np.linalg.norm(v), label, atol=2e-5)
    if exact(case, fu, fv):
        same(got, v / np.linalg.norm(v), label + " in double precision", atol=1e-9)
    ctx.event(how)
    ctx.nontrivial()


# ------------------------------------------------------------------- G06
bound = st.integers(-80, 80).map(lambda i: i / 8)
near_far = st.tuples(st.integers(1, 40), st.integers(1, 200)).map(
    lambda t: [t[0] / 8, t[0] / 8 + t[1] / 4])
CORNERS = np.array(list(itertools.product([-1, 1], repeat=3)), float)
inner = st.lists(st.integers(0, 16).map(lambda i: i / 16), min_size=3, max_size=3)


@oracle("G06", "projections", st.fixed_dictionaries(dict(
        fn=st.sampled_from(["ortho", "frustum", "perspective"]), l=bound, r=bound, b=bound,
        t=bound, zs=near_far, fovy=st.one_of(st.integers(10, 150), st.integers(1, 178)).map(float),
        aspect=st.integers(2, 40).map(lambda i: i / 10), inner=inner, dtype=dtypes,
        ints=st.booleans(), transpose=st.sampled_from([None, False, True]),
        depth=st.sampled_from([None, None, "reversed", "behind"]))), 3000, 60000,
        "a volume that is not symmetric", shards=2)
def g06_projections(case, ctx):
    """ corners of the view volume go to the corners of the cube """

    fn, (n, f) = case["fn"], case["zs"]
    l, r, b, t = case["l"], case["r"], case["b"], case["t"]
    if case.get("depth") == "reversed":         # the far plane is at -1
        n, f = f, n
    elif case.get("depth") == "behind" and fn == "ortho":   # the volume goes on behind the eye
        n = -n
    kw = options(case["dtype"], case["transpose"])
    if fn == "perspective":
        t = np.tan(np.radians(case["fovy"] / 2)) * n
        r = t * case["aspect"]
        l, b = -r, -t
        M = glm.perspective(case["fovy"], case["aspect"], n, f, **kw)
    else:
        if abs(l - r) < 0.2 or abs(t - b) < 0.2:
            return
        if case["ints"]:
            l, r, b, t, n, f = [int(round(x)) for x in (l, r, b, t, n, f)]
            if n * f < 0:
                n, f = min(n, -1), max(f, 1)
            elif n < f:
                n = max(n, 1)
                f = max(f, n + 1)
            else:
                f = max(f, 1)
                n = max(n, f + 1)
            if l == r or b == t:
                return
        M = getattr(glm, fn)(l, r, b, t, n, f, **kw)
    label = f"{fn}({l}, {r}, {b}, {t}, {n}, {f})"
    M = take(M, label, case["dtype"], case["transpose"])
    tol = 1e-4 * (1 + (abs(l) + abs(r)) / abs(r - l) + (abs(t) + abs(b)) / abs(t - b)
                  + (abs(n) + abs(f)) / abs(f - n)) / 4
    if case["dtype"] == "f8":
        tol *= 1e-5
    for c in CORNERS:
        x = (l + r) / 2 + c[0] * (r - l) / 2
        y = (b + t) / 2 + c[1] * (t - b) / 2
        z = n if c[2] < 0 else f
        k = 1 if fn == "ortho" else z / n
        h = M @ [x * k, y * k, -z, 1]
        if fn != "ortho":
            require(h[3] > 0, label + ": w is not positive in front of the eye", got=h)
        same(h[:3] / h[3], c, label + f": corner {c.tolist()}", rtol=0, atol=tol)
    # inside
    a, bb, cc = case["inner"]
    z = n + (f - n) * cc
    k = 1 if fn == "ortho" else z / n
    x, y = l + (r - l) * a, b + (t - b) * bb
    h = M @ [x * k, y * k, -z, 1]
    same((h[:3] / h[3])[:2], [2 * a - 1, 2 * bb - 1], label + ": point inside", rtol=0, atol=tol)
    depth = h[2] / h[3]
    require(-1 - tol <= depth <= 1 + tol, label + ": depth of a point inside", got=depth)
    if fn == "ortho":
        require(abs(depth - (2 * cc - 1)) < tol, label + ": depth is not linear", got=depth,
                want=2 * cc - 1)
    ctx.event(fn)
    ctx.nontrivial(fn == "perspective" or (abs(l + r) > 0.1 and abs(t + b) > 0.1))


@oracle("G06", "lookat", st.fixed_dictionaries(dict(
        eye=vec, center=vec, up=vec, p=vec, default=st.booleans(), dtype=dtypes, form=forms,
        far=st.sampled_from([0, 0, 1, 10000.1, 123456.7]),
        transpose=st.sampled_from([None, False, True]))), 2000, 50000,
        "an up vector that is not orthogonal to the direction of view")
def g06_lookat(case, ctx):
    """ a view is rigid, the eye is the origin and looks down -z """

    eye, center, up = [np.array(case[k]) for k in ("eye", "center", "up")]
    if case.get("far"):                # far away from the origin
        eye, center = eye + case["far"], center + case["far"] * np.array([1, -1, 0.5])
        with untracked():
            eye, center = [form(x, case["form"]).astype(float) if case["form"] == "vec3" else x
                           for x in (eye, center)]
    kw = options(case["dtype"], case["transpose"])
    if case["default"]:
        center, up = np.zeros(3), np.array([0, 0, 1.0])
    d = center - eye
    if np.linalg.norm(d) < 0.5 or np.linalg.norm(up) < 0.1:
        return
    sine = np.linalg.norm(np.cross(d, up)) / np.linalg.norm(d) / np.linalg.norm(up)
    if sine < 0.02:
        return
    if case["default"]:
        M = glm.lookat(form(eye, case["form"]), **kw)
    else:
        M = glm.lookat(form(eye, case["form"]), form(center, case["form"]),
                       form(up, case["form"]), **kw)
    label = f"lookat({eye.tolist()}, {center.tolist()}, {up.tolist()})"
    M = take(M, label, case["dtype"], case["transpose"])
    R = np.eye(4)
    R[:3, :3] = M[:3, :3]
    rigid(R, label, 1e-4)
    same(M[3], [0, 0, 0, 1], label + ": last row", atol=1e-7)
    size = 1 + np.abs(eye).max()
    same(M @ np.r_[eye, 1], [0, 0, 0, 1], label + ": eye is not at the origin",
         atol=2e-5 * size)
    same(M @ np.r_[center, 1], [0, 0, -np.linalg.norm(d), 1], label + ": center is not ahead",
         rtol=1e-4, atol=1e-4 * (size + np.linalg.norm(d)))
    if exact(case, case["form"]) and case["form"] != "mixed":
        rigid(R, label + " in double precision", 1e-9)
        same(M @ np.r_[eye, 1], [0, 0, 0, 1], label + ": eye is not at the origin (in double "
             "precision)", atol=1e-9 * size)
        same(M @ np.r_[center, 1], [0, 0, -np.linalg.norm(d), 1], label + ": center is not "
             "ahead (in double precision)", atol=1e-9 * (size + np.linalg.norm(d)))
    u = M[:3, :3] @ (up / np.linalg.norm(up))
    require(abs(u[0]) < 1e-4 and u[1] > 0, label + ": up is not in the upper half plane", got=u)
    ctx.nontrivial(sine < 0.99)


@oracle("G06", "viewport", st.fixed_dictionaries(dict(
        x=bound, y=bound, w=st.integers(1, 2000), h=st.integers(1, 2000),
        d=st.integers(1, 64).map(lambda i: i / 4), dtype=dtypes, inner=inner,
        transpose=st.sampled_from([None, False, True]))), 1500, 30000, "always")
def g06_viewport(case, ctx):
    """ the cube goes to the rectangle """

    x, y, w, h, d = [case[k] for k in "xywhd"]
    M = take(glm.viewport(x, y, w, h, d, **options(case["dtype"], case["transpose"])),
             "viewport", case["dtype"], case["transpose"])
    a = np.array(case["inner"])
    got = M @ np.r_[2 * a - 1, 1]
    same(got, [x + a[0] * w, y + a[1] * h, a[2] * d, 1], f"viewport({x}, {y}, {w}, {h}, {d})",
         rtol=1e-5, atol=1e-3)
    ctx.nontrivial()


@oracle("G06", "camera", st.fixed_dictionaries(dict(
        x=st.one_of(st.none(), st.integers(-30, 120).map(float)),
        y=st.one_of(st.none(), st.integers(-30, 120).map(float)),
        zoom=st.one_of(st.none(), st.integers(-2, 30).map(lambda i: i / 10)),
        mode=st.sampled_from([None, "perspective", "ortho"]))), 1500, 30000, "always")
def g06_camera(case, ctx):
    """ the static camera is projection × view × model """

    kw = {k: v for k, v in zip(("xrotation", "yrotation", "zoom", "mode"),
                               (case["x"], case["y"], case["zoom"], case["mode"]))
          if v is not None}
    M = glm.camera(**kw)
    M, G = plain(M).astype(float), M
    G[...] = 77
    rx = np.clip(kw.get("xrotation", 25), 0, 90)
    ry = np.clip(kw.get("yrotation", 45), 0, 90)
    zoom = max(0.1, kw.get("zoom", 1))
    model = np.eye(4)
    model[:3, :3] = zoom * rodrigues(rx, [1, 0, 0]) @ rodrigues(ry, [0, 1, 0])
    view = np.eye(4)
    view[2, 3] = -4.5
    proj = np.zeros((4, 4))
    if kw.get("mode") == "ortho":
        proj[0, 0] = proj[1, 1] = proj[3, 3] = 1
        proj[2, 2], proj[2, 3] = -2 / 99, -101 / 99
    else:
        proj[0, 0] = proj[1, 1] = 1 / np.tan(np.radians(12.5))
        proj[2, 2], proj[2, 3], proj[3, 2] = -101 / 99, -200 / 99, -1
    same(M, proj @ view @ model, f"camera({kw})", rtol=1e-4, atol=1e-4)
    ctx.nontrivial()


# ------------------------------------------------------------------- G07
pos = st.one_of(st.integers(-16, 16).map(lambda i: i / 16), st.integers(-60, 60).map(
    lambda i: i / 100), st.integers(-48, 48).map(lambda i: i / 4))
drag = st.one_of(
    st.tuples(st.just("drag"), pos, pos, pos, pos).map(list),
    st.tuples(st.just("back"), pos, pos, pos, pos).map(list),
    st.tuples(st.just("small"), pos, pos, st.integers(-50, 50).map(lambda i: i / 10000),
              st.integers(-50, 50).map(lambda i: i / 10000)).map(list),
    st.tuples(st.just("null"), pos, pos, pos, pos).map(list),
    st.tuples(st.just("both"), angle, angle).map(list))


def orientation(theta, phi):
    """ Rotation about x then about z """

    return rodrigues(phi, [0, 0, 1]) @ rodrigues(theta, [1, 0, 0])


@oracle("G07", "drags", st.fixed_dictionaries(dict(
        theta=angle, phi=angle, default=st.booleans(), steps=st.lists(drag, min_size=1,
                                                                     max_size=20),
        repeat=st.sampled_from([1, 1, 1, 5, 20]))), 1000, 30000,
        "at least two drags, one of them being null or undone, or a hundred drags", shards=2)
def g07_drags(case, ctx):
    """ model is a rotation after any history """

    theta, phi = (0, 0) if case["default"] else (case["theta"], case["phi"])
    t = glm.Trackball() if case["default"] else glm.Trackball(theta, phi)
    same(plain(t.model)[:3, :3], orientation(theta, phi), f"orientation ({theta}, {phi})",
         atol=1e-5)
    drags, special = 0, False

    def check(what):
        M = plain(t.model).astype(float)
        require(M.shape == (4, 4), "shape of the model", got=M.shape)
        rigid(M, what, 3e-5)
        return M
    check("initial orientation")
    for r in range(case["repeat"]):
        for s in case["steps"]:
            before = plain(t.model).astype(float)
            if s[0] == "both":
                t.theta = s[1]
                t.phi = s[2]
                M = check("after setting theta and phi")
                same(M[:3, :3], orientation(s[1], s[2]), f"theta, phi = {s[1:]}", atol=1e-5)
                ctx.event("orientation")
                continue
            x, y, u, v = s[1:]
            if s[0] == "small":
                u, v = x + u, y + v
                ctx.event("small")
            if s[0] == "null":
                t.drag_to(x, y, 0, 0)
                M = check("null drag")
                same(M, before, "a null drag changes the orientation", atol=1e-6)
                special = True
            else:
                t.drag_to(x, y, u - x, v - y)
                drags += 1
                M = check(f"drag {s[1:]}")
                turn = M[:3, :3] @ before[:3, :3].T
                a = np.array([x, y, height(x, y)])
                b = np.array([u, v, height(u, v)])
                d = np.linalg.norm(a - b)
                want = 2 * np.arcsin(min(1, d / 1.6))
                sine = np.linalg.norm([turn[2, 1] - turn[1, 2], turn[0, 2] - turn[2, 0],
                                       turn[1, 0] - turn[0, 1]]) / 2
                got = np.arctan2(sine, (np.trace(turn) - 1) / 2)
                require(abs(got - want) < 2e-5, "angle of the rotation of a drag", got=got,
                        want=want, drag=s[1:])
                if np.hypot(x, y) < 0.56 and np.hypot(u, v) < 0.56:
                    # on the sphere: the point under the mouse follows it
                    # (the camera uses the transposed model)
                    same(M[:3, :3].T @ before[:3, :3] @ a, b,
                         "the point under the mouse does not follow it", atol=1e-5)
                    ctx.event("on the sphere")
                if s[0] == "back":
                    t.drag_to(u, v, x - u, y - v)
                    M = check("drag back")
                    same(M, before, f"a drag and the opposite one {s[1:]} do not cancel out",
                         atol=3e-5)
                    special = True
                    ctx.event("back")
    ctx.nontrivial(drags >= 2 and special or drags > 100)


def height(x, y):
    d = np.hypot(x, y)
    r = 0.8
    return np.sqrt(r * r - d * d) if d < r * np.sqrt(0.5) else r * r / 2 / d


# ------------------------------------------------------------------- G08
SOLIDS = {"cube": (8, 6, 12), "tetrahedron": (4, 4, 6), "octahedron": (6, 8, 12),
          "dodecahedron": (20, 12, 30), "icosahedron": (12, 20, 30)}


def edges_of(faces):
    count = {}
    for f in faces:
        for a, b in zip(f, np.roll(f, -1)):
            count[frozenset((int(a), int(b)))] = count.get(frozenset((int(a), int(b))), 0) + 1
    return count


@oracle("G08", "solids", st.fixed_dictionaries(dict(
        name=st.sampled_from(sorted(SOLIDS)), rotation=vec, theta=angle, scale=coord)), 60, 600,
        "always")
def g08_solids(case, ctx):
    """ polyhedra, in any position, have their numbers of vertices, edges and faces """

    name = case["name"]
    V, F = getattr(shapes, name)()
    V, F = plain(V).astype(float), plain(F)
    nv, nf, ne = SOLIDS[name]
    require(V.shape == (nv, 3), f"{name}: vertices", got=V.shape, want=(nv, 3))
    require(np.issubdtype(F.dtype, np.integer) and F.min() == 0 and F.max() == nv - 1,
            f"{name}: indices", got=(F.dtype, F.min(), F.max()))
    require(len({tuple(v) for v in np.round(V, 5)}) == nv, f"{name}: vertices are not distinct")
    same(V.mean(axis=0), [0, 0 if name != "tetrahedron" else -.0625, 0], f"{name}: center",
         atol=1e-6)
    require(all(len(set(f)) == len(f) for f in F.tolist()), f"{name}: degenerate face")
    E = edges_of(F)
    require(all(c == 2 for c in E.values()), f"{name}: surface is not closed",
            edges=[sorted(e) for e, c in E.items() if c != 2])
    require(len(V) - len(E) + len(F) == 2, f"{name}: Euler characteristic",
            got=len(V) - len(E) + len(F))
    if name == "tetrahedron":
        require(len(F) == 4 and len(E) == 6, "tetrahedron: faces")
        ctx.nontrivial()
        return
    R = np.linalg.norm(V, axis=1)
    same(R, np.full(nv, R[0]), f"{name}: vertices are not on a sphere", atol=1e-6)
    same(R[0], 0.5 if name != "cube" else np.sqrt(3) / 2 / np.sqrt(2), f"{name}: radius",
         atol=1e-6)
    # faces: planes of the surface (regardless of how they are split)
    planes = {}
    for f in F:
        n = np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]])
        n = n / np.linalg.norm(n)
        if n @ V[f[0]] < 0:
            n = -n
        same(V[f] @ n, np.full(len(f), V[f[0]] @ n), f"{name}: face is not planar", atol=1e-5)
        require((V @ n).max() <= V[f[0]] @ n + 1e-5, f"{name}: not convex")
        planes.setdefault(tuple(np.round(n, 3) + 0.0), []).append(f)
    require(len(planes) == nf, f"{name}: number of faces", got=len(planes), want=nf)
    # true edges: between different planes
    owner = {}
    for k, fs in enumerate(planes.values()):
        for f in fs:
            for a, b in zip(f, np.roll(f, -1)):
                owner.setdefault(frozenset((int(a), int(b))), set()).add(k)
    sharp = [e for e, o in owner.items() if len(o) == 2]
    require(len(sharp) == ne, f"{name}: number of edges", got=len(sharp), want=ne)
    lengths = [np.linalg.norm(V[a] - V[b]) for a, b in map(sorted, sharp)]
    same(lengths, np.full(ne, lengths[0]), f"{name}: edges do not have the same length",
         atol=1e-5)
    # fresh arrays each time
    V2, _ = getattr(shapes, name)()
    V2 *= 3
    same(plain(getattr(shapes, name)()[0]), V, f"{name}: shared vertices", atol=1e-7)
    ctx.nontrivial()


@oracle("G08", "sphere", st.fixed_dictionaries(dict(
        radius=st.one_of(st.none(), st.integers(1, 80).map(lambda i: i / 8),
                         st.sampled_from([1e-5, 1e-4, 1e3, 1e5])),
        slices=st.one_of(st.none(), st.integers(3, 16)),
        stacks=st.one_of(st.none(), st.integers(2, 16)))), 300, 4000, "slices differ from stacks",
        shards=1)
def g08_sphere(case, ctx):
    """ closed triangulated sphere """

    kw = {k: v for k, v in case.items() if v is not None}
    V, F = glm.sphere(**kw)
    r, s, t = kw.get("radius", 1.0), kw.get("slices", 32), kw.get("stacks", 32)
    V, F = plain(V).astype(float), plain(F)
    require(V.shape == ((s + 1) * (t + 1), 3), "sphere: vertices", got=V.shape,
            want=((s + 1) * (t + 1), 3))
    require(F.shape == (2 * s * t, 3), "sphere: triangles", got=F.shape, want=(2 * s * t, 3))
    require(F.min() >= 0 and F.max() < len(V), "sphere: indices")
    same(np.linalg.norm(V, axis=1), np.full(len(V), r), "sphere: radius", rtol=1e-6, atol=1e-6 * r)
    ids = {}
    merged = np.array([ids.setdefault(tuple(v), len(ids)) for v in (np.round(V / r, 6) + 0.0)])
    require(len(ids) == s * (t - 1) + 2, "sphere: distinct vertices", got=len(ids),
            want=s * (t - 1) + 2)
    T = merged[F]
    T = T[[len(set(f)) == 3 for f in T.tolist()]]
    require(len(T) == 2 * s * (t - 1), "sphere: triangles that are not degenerate", got=len(T),
            want=2 * s * (t - 1))
    require(all(c == 2 for c in edges_of(T).values()), "sphere: surface is not closed")
    # oriented consistently: volume of the inscribed polyhedron
    P = np.zeros((len(ids), 3))
    P[merged] = V
    A = P[T]
    volume = np.einsum("ij,ij->i", A[:, 0], np.cross(A[:, 1], A[:, 2])) / 6
    require((volume > 0).all() or (volume < 0).all(), "sphere: orientation of triangles")
    ctx.nontrivial(s != t)


@oracle("G08", "large-sphere", st.fixed_dictionaries(dict(slices=st.integers(256, 300),
                                                          stacks=st.integers(256, 300))),
        6, 60, "more vertices than 16 bits can number", shards=1)
def g08_large_sphere(case, ctx):
    """ spheres of many vertices: triangles are small and cover the surface """

    s, t = case["slices"], case["stacks"]
    V, F = glm.sphere(slices=s, stacks=t)
    V, F = plain(V).astype(float), plain(F)
    require(V.shape == ((s + 1) * (t + 1), 3) and F.shape == (2 * s * t, 3), "large sphere: shapes",
            got=(V.shape, F.shape), want=(((s + 1) * (t + 1), 3), (2 * s * t, 3)))
    require(F.min() >= 0 and F.max() < len(V), "large sphere: indices")
    same(np.linalg.norm(V, axis=1), np.ones(len(V)), "large sphere: radius", rtol=1e-6)
    A = V[F]
    require(max(np.linalg.norm(A[:, i] - A[:, i - 1], axis=1).max() for i in range(3))
            < 2 * np.pi / s + np.pi / t, "large sphere: a triangle joins vertices that are far apart")
    area = np.linalg.norm(np.cross(A[:, 1] - A[:, 0], A[:, 2] - A[:, 0]), axis=1).sum() / 2
    require(abs(area / (4 * np.pi) - 1) < 1e-3, "large sphere: area", got=area, want=4 * np.pi)
    ctx.nontrivial(len(V) > 65536)


cloud = st.lists(st.tuples(coord, coord, coord).map(list), min_size=2, max_size=40)


@oracle("G08", "fit-center", st.fixed_dictionaries(dict(P=cloud, dtype=st.sampled_from(
        ["f8", "f8", "f4", "f4", "i8", "i4", "i2", "i1", "u1", "u2"]), flat=st.booleans(),
        many=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 20000), st.integers(0, 10 ** 6)).map(list)),
        scale=st.sampled_from([1, 1, 1, 1e-7, 1e-4, 1e6]))), 1000, 20000,
        "a cloud whose extents differ")
def g08_fit(case, ctx):
    """ fit and center move clouds without distortion """

    P = np.array(case["P"])
    if case["many"]:                    # a large cloud, these vertices being somewhere in it
        n, at = case["many"]
        inner = P[:1] + (P[1:2] - P[:1]) * np.linspace(0, 1, n)[:, None]
        P = np.r_[inner[:at % (n + 1)], P, inner[at % (n + 1):]]
        ctx.event("many")
    if case["flat"]:
        P = P[:, :2]
    dtype = np.dtype(case["dtype"])
    scale = 1 if dtype.kind in "iu" else case.get("scale", 1)
    P = P * scale
    if dtype.kind in "iu":
        P = np.round(P * (8 if dtype.itemsize > 1 else 1))
        lo, hi = np.iinfo(dtype).min, np.iinfo(dtype).max
        P = (P - max(lo, -8000)) % (min(hi, 8000) - max(lo, -8000)) + max(lo, -8000)
    V = P.astype(dtype)
    f32 = dtype == np.float32
    before = V.copy()
    tol = 1e-4 if f32 else 1e-9
    size = np.abs(P).max() + scale
    C = plain(glm.center(V)).astype(float)
    same((C.min(0) + C.max(0)) / 2, np.zeros(P.shape[1]), "center: box is not centered",
         atol=tol * size)
    same(C - C[0], P - P[0], "center: distorted", rtol=tol, atol=tol * size)
    extent = (P.max(0) - P.min(0)).max()
    if extent > 1e-3 * size:
        F = plain(glm.fit(V)).astype(float)
        same((F.min(0) + F.max(0)) / 2, np.zeros(P.shape[1]), "fit: box is not centered",
             atol=1e-5 + tol * size / extent)
        require(abs((F.max(0) - F.min(0)).max() - 2) < 1e-4 + tol * size / extent,
                "fit: longest side of the box is not 2", got=(F.max(0) - F.min(0)).max())
        same((F - F[0]) * extent / 2, P - P[0], "fit: distorted", rtol=1e-3 if f32 else
             1e-6, atol=2 * tol * size)
    require(np.array_equal(V, before), "argument is modified")
    ctx.event(case["dtype"])
    ctx.nontrivial(len(set(np.round(P.max(0) - P.min(0), 3))) > 1)


@oracle("G08", "normalize-clamp", st.fixed_dictionaries(dict(
        P=cloud, form=st.sampled_from(["array", "f4", "f2", "list", "one", "cube", "i2", "u1",
                                       "i4"]),
        lo=st.one_of(st.none(), coord), hi=st.one_of(st.none(), coord),
        scale=st.sampled_from([1, 1, 1, 1e-7, 1e-4, 1e6]))), 1500, 10000, "always")
def g08_normalize(case, ctx):
    """ unit vectors, clamped values """

    P = np.array(case["P"])
    P[np.abs(P).max(1) < 0.1] = 1.0
    if case["form"] in ("array", "f4", "list", "one", "cube"):
        P = P * case.get("scale", 1)
    if case["form"] in ("i2", "u1", "i4"):
        P = np.round(P * 8) if case["form"] != "u1" else np.abs(np.round(P)) % 256
        P[np.abs(P).max(1) < 0.5] = 1.0
    V = {"i2": P.astype("i2"), "u1": P.astype("u1"), "i4": P.astype("i4"),
         "f2": P.astype("f2"), "array": P.copy(), "f4": P.astype(np.float32), "list": P.tolist(), "one": P[0].copy(),
         "cube": np.stack([P, P[::-1]])}[case["form"]]
    R = np.array(V, float)
    got = plain(glm.normalize(V)).astype(float)
    same(got, R / np.linalg.norm(R, axis=-1, keepdims=True), "normalize", rtol=1e-5 if case["form"] != "f2" else 2e-3, atol=1e-6 if case["form"] != "f2"
         else 1e-3)
    same(np.array(V, float), R, "normalize modifies its argument")
    lo, hi = case["lo"], case["hi"]
    kw = {}
    if lo is not None:
        kw["vmin"] = lo
    if hi is not None:
        kw["vmax"] = hi
    lo, hi = 0 if lo is None else lo, 1 if hi is None else hi
    if lo <= hi:
        got = plain(glm.clamp(V, **kw))
        same(got, [[min(max(x, lo), hi) for x in r] for r in R.reshape(-1, 3)]
             if R.ndim == 2 else np.clip(R, lo, hi), f"clamp between {lo} and {hi}", rtol=1e-6)
        x = float(R.reshape(-1)[0])
        same(glm.clamp(x, **kw), min(max(x, lo), hi), "clamp of a number", rtol=1e-6)
    ctx.nontrivial()


@oracle("G08", "frontback", st.fixed_dictionaries(dict(
        T=st.lists(st.tuples(*[st.integers(-40, 40)] * 6).map(list), min_size=1, max_size=12),
        scale=st.sampled_from([1, 1, 1e-3, 1e-6, 1e5]),
        dtype=st.sampled_from(["f8", "f8", "f8", "f4", "f2", "i2", "i4", "u1", "u2", "u4",
                               "tracked"]), pixels=st.integers(1, 400),
        z=st.booleans())), 1000, 20000, "both front and back triangles")
def g08_frontback(case, ctx):
    """ counter-clockwise triangles are the front ones """

    T = np.array(case["T"], float).reshape(-1, 3, 2) / 8 * case["scale"]
    dtype = case["dtype"]
    if dtype != "f8":                   # coordinates that this type holds exactly
        T = np.array(case["T"], float).reshape(-1, 3, 2) + 40 * (dtype[0] == "u")
        T *= case["pixels"] if dtype in ("i2", "i4", "u2", "u4") else 1
    area = np.array([(b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
                     for a, b, c in T])
    given = np.concatenate([T, np.ones((len(T), 3, 1))], -1) if case["z"] else T
    if dtype == "tracked":
        with untracked():
            master = glm.vec3(len(T) * 3)
            master[..., :2] = T.reshape(-1, 2)
            given = master.reshape(-1, 3, 3)
    elif dtype != "f8":
        given = given.astype(dtype)
        ctx.event("small type")
    front, back = glm.frontback(given)
    front, back = np.asarray(front), np.asarray(back)
    require(front.shape == back.shape == (len(T),), "one answer per triangle", got=front.shape)
    require(np.array_equal(front, ~back), "a triangle is neither or both front and back")
    clear = np.abs(area) > 1e-9 * case["scale"] ** 2
    require(np.array_equal(front[clear], (area > 0)[clear]), "orientation of triangles",
            got=front, want=area > 0)
    ctx.nontrivial((area > 0).any() and (area < 0).any())


@oracle("G08", "mesh", st.fixed_dictionaries(dict(
        P=st.lists(st.tuples(coord, coord, coord).map(list), min_size=4, max_size=20),
        faces=st.lists(st.lists(st.integers(0, 99), min_size=4, max_size=4), min_size=1,
                       max_size=12), quads=st.booleans(),
        style=st.lists(st.sampled_from(["v", "v/t", "v//n", "v/t/n"]), min_size=1, max_size=4),
        noise=st.lists(st.integers(0, 9), max_size=8),
        more=st.sampled_from(["", "", " 1.0", " 2.5", " 0.5 0.25 1.0"]),
        fmt=st.sampled_from(["%r", "%.6f", "%e"]),
        blank=st.sampled_from([" ", " ", "  ", "\t", " \t "]),
        ends=st.sampled_from([["", "\n"], ["", "\n"], ["", " \n"], ["  ", "\n"],
                              ["", "\r\n"], ["\t", "\t\r\n"]]),
        last=st.booleans())), 600, 15000, "always")
def g08_mesh(case, ctx):
    """ generated OBJ files """

    P = np.array(case["P"])
    if (P.max(0) - P.min(0)).max() < 0.5:
        return
    k = 4 if case["quads"] else 3
    F = [[i % len(P) for i in f[:k]] for f in case["faces"]]
    fmt, styles = case["fmt"], case["style"]
    # possibly with a fourth coordinate or a colour, that are not positions
    lines = ["v " + " ".join(fmt % float(x) for x in p) + case["more"] for p in P]
    if "t" in "".join(styles):
        lines += ["vt 0.25 0.5", "vt 1 0"]
    if "n" in "".join(styles):
        lines += ["vn 0 0 1", "vn 0 1 0"]
    for j, f in enumerate(F):
        style = styles[j % len(styles)]
        lines.append("f " + " ".join(style.replace("v", str(i + 1)).replace("t", "1")
                                     .replace("n", "2") for i in f))
    extra = ["# comment", "", "o thing", "g group", "s off", "usemtl m", "   ", "#v 9 9 9",
             "mtllib x.mtl", "# f 1 2 3"]
    for j, i in enumerate(case["noise"]):
        lines.insert((j * 7) % (len(lines) + 1), extra[i])
    folder = tempfile.mkdtemp(prefix="verif-g08-")
    try:
        path = os.path.join(folder, "mesh.obj")
        with open(path, "w", newline="") as f:
            # fields are separated by any number of blanks
            before, after = case.get("ends", ["", "\n"])
            text = "".join(before + line.replace(" ", case.get("blank", " ")) + after
                           if not line.startswith("#") else line + after for line in lines)
            f.write(text if not case.get("last") else text.rstrip())
        V, I = glm.mesh(path)
    finally:
        shutil.rmtree(folder)
    V, I = plain(V).astype(float), plain(I)
    require(V.shape == P.shape and I.shape == (len(F), k), "mesh: shapes", got=(V.shape, I.shape))
    require(np.array_equal(I, F), "mesh: faces", got=I, want=F)
    extent = (P.max(0) - P.min(0)).max()
    same((V - V[0]) * extent / 2, P - P[0], "mesh: vertices", rtol=1e-5, atol=1e-4)
    same((V.min(0) + V.max(0)) / 2, np.zeros(3), "mesh: centered", atol=1e-5)
    ctx.nontrivial()
