"""
R01..R08: what visuals draw.
"""
from lib.common import *
from lib.harness import oracle, st, TIER
from lib.draw import *
from lib.glyphs import GLYPHS
import re, shutil, tempfile
from PIL import Image

grid32 = st.integers(-28, 28).map(lambda i: i / 32)
turn = st.integers(-16, 16).map(lambda i: i * 11.25)
affine_spec = st.tuples(turn, turn, turn, st.sampled_from([0.25, 0.5, 1.0, -0.5]),
                        *[st.integers(-8, 8).map(lambda i: i / 16)] * 3).map(list)
maybe_affine = st.one_of(st.none(), affine_spec)
tilts = st.one_of(st.none(), st.tuples(*[st.integers(-2, 2).map(lambda i: i / 16)] * 3).map(list))
factors = st.sampled_from([1, 1, 1, -1, 0.5, -2])
lens = st.one_of(st.none(), st.none(), st.tuples(
    st.sampled_from([20.0, 40.0, 90.0]), st.sampled_from([4.0, 6.0])).map(list))


def matrices(case):
    model = affine(case["model"]) if case["model"] else None
    view = affine(case["view"]) if case["view"] else None
    proj = None
    if case["lens"]:
        proj, move = persp(case["lens"][0], 0.5, 50.0, case["lens"][1])
        view = move @ (view if view is not None else np.eye(4))
    elif case.get("proj"):
        proj = affine(case["proj"])
    if case.get("tilt") and not case["lens"]:           # w is not constant
        proj = np.eye(4) if proj is None else proj
        proj[3, :3] = case["tilt"]
    if proj is not None:
        # the same projection, all w being multiplied
        proj = proj * case.get("factor", 1)
    return model, view, proj


# ------------------------------------------------------------------- R01
@oracle("R01", "order", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(1, 12), size=st.integers(2, 5),
        P=st.lists(grid32, min_size=3, max_size=36), model=maybe_affine, view=maybe_affine,
        lens=lens, again=maybe_affine, proj=maybe_affine, tilt=tilts, factor=factors,
        close=st.sampled_from([1, 1, 64, 512]))), 700, 25000,
        "at least three items whose order of depth is not the order of definition", shards=3)
def r01_order(case, ctx):
    """ painting order versus order of projected depths """

    kind = case["kind"]
    stage = Stage()
    P, per = item_positions(kind, case["n"], case["size"], case["P"])
    P[..., 2] /= case["close"]
    v = make(kind, P, indices=case["size"])
    model, view, proj = matrices(case)
    kw = {k: m for k, m in (("model", model), ("view", view), ("proj", proj)) if m is not None}
    v.render(stage.viewports[0], **kw)
    check_order(kind, stage, P, per, (model, view, proj), ctx)
    if case["again"]:
        ctx.event("second point of view")
        view2 = affine(case["again"])
        if case["lens"]:
            view2 = persp(*case["lens"][:1], 0.5, 50.0, case["lens"][1])[1] @ view2
        v.render(stage.viewports[0], view=view2)
        check_order(kind, stage, P, per, (model, view2, proj), ctx)


def check_order(kind, stage, P, per, mats, ctx):
    S = expected_items(kind, P, per, mats)
    order = unique_order(match(stage.items(), S, kind))
    depth = S[:, :, 2].mean(axis=1)
    last = None
    gap = 4e-6 * (1 + np.abs(S).max())
    for i in order:
        if i is None:
            continue
        if last is not None:
            require(depth[i] <= depth[last] + gap, f"{kind}: item painted before an item that "
                    "is farther", near=last, far=i, depths=depth)
        last = i
    ctx.event(kind)
    ctx.nontrivial(len(S) >= 3 and not np.array_equal(np.argsort(-depth), np.arange(len(S))))


@oracle("R01", "probe", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS[1:]), z=st.lists(st.integers(-40, 40), min_size=2, max_size=6,
                                                 unique=True),
        spin=st.sampled_from([0, 30, 90, 180]), flip=st.booleans(),
        width=st.sampled_from([8.0, 12.0]))), 60, 2500,
        "always (several overlapping items)", shards=2)
def r01_probe(case, ctx):
    """ all the items cover the center of the canvas: its colour is the one of the nearest """

    kind, z = case["kind"], np.array(case["z"]) / 64
    n = len(z)
    stage = Stage(61, 61, 61.0)
    C = np.array([[(k * 40 % 256) / 255, (k * 90 % 256) / 255, (k * 170 + 30) % 256 / 255, 1.0]
                  for k in range(1, n + 1)])
    if kind in ITEMS1:
        P = np.c_[z * 0, z * 0, z].astype(np.float32)
    else:
        per = {"Segments": 2, "Paths": 2, "Polygons": 3}[kind]
        P = []
        for k in range(n):
            for j in range(per):
                a = k * 0.7 + j * 2 * np.pi / per
                # vertices at different depths, with the right mean
                dz = (0.25 if j == 0 else -0.25 / (per - 1)) * (1 if k % 2 else -1)
                P.append([0.8 * np.cos(a), 0.8 * np.sin(a), z[k] + dz])
        P = np.array(P, np.float32)
        if kind == "Segments":
            P = P.reshape(-1, 2, 3)
    fill = kind not in ("Segments", "Paths")
    v = make(kind, P, fill=C if fill else RED, line=RED if fill else C,
             width=0.0 if fill else case["width"], size=900.0,
             indices=3 if kind == "Polygons" else 2, types=gsp.core.Marker.square)
    view = affine([0, 180 if case["flip"] else 0, case["spin"], 1.0, 0, 0, 0])
    v.render(stage.viewports[0], view=view)
    image = stage.image()
    nearest = np.argmax(z) if case["flip"] else np.argmin(z)
    got = image[30, 30, :3].astype(int)
    want = np.round(C[nearest, :3] * 255).astype(int)
    require(np.abs(got - want).max() <= 2, f"{kind}: nearest is not on top", got=got,
            want=want, z=z, flip=case["flip"])
    ctx.nontrivial()
    ctx.event(kind)


# ------------------------------------------------------------------- R02
def number_attr(values):
    return st.fixed_dictionaries(dict(
        k=st.sampled_from(["single", "single-list", "single-array"] + NUMBER_FORMS * 2),
        v=st.lists(values, min_size=8, max_size=8)))


channel = st.integers(0, 8).map(lambda i: i / 8)
rgba = st.tuples(channel, channel, channel, channel).map(list)
color_attr = st.fixed_dictionaries(dict(
    k=st.sampled_from(SINGLE_COLOR + ["row"] + COLOR_FORMS * 2),
    v=st.lists(rgba, min_size=8, max_size=8)))


def given_number(spec, n):
    """ -> (attribute, expected value per item) """

    v = np.array(spec["v"][:n], float)
    k = spec["k"]
    if k == "single":
        return float(v[0]), np.repeat(v[0], n)
    if k == "single-list":
        return [float(v[0])], np.repeat(v[0], n)
    if k == "single-array":
        return np.array([v[0]]), np.repeat(v[0], n)
    if k == "int":
        v = np.round(v)
    return numbers(v, k), v


def given_color(spec, n):
    v = np.array(spec["v"][:n], float)
    k = spec["k"]
    if k in SINGLE_COLOR:
        return single_color(spec["v"][0], k), np.repeat(v[:1], n, axis=0)
    if k == "row":
        return v[:1].copy(), np.repeat(v[:1], n, axis=0)
    return colors(v, k), v


angle_attr = st.fixed_dictionaries(dict(
    k=st.sampled_from(["single", "single-list", "single-array"] + NUMBER_FORMS),
    v=st.lists(st.one_of(*[st.integers(-36, 36).map(lambda i: i * 10.0)] * 2,
                         st.integers(-120, 120).map(lambda i: i * 10.0),
                         st.integers(-5000, 5000).map(lambda i: i / 16)),
               min_size=8, max_size=8)))
type_attr = st.fixed_dictionaries(dict(
    k=st.sampled_from(["single", "single-list", "single-array", "enum-list", "int-list",
                       "array", "column", "buffer", "transform"]),
    v=st.lists(st.integers(1, 12), min_size=8, max_size=8)))

def given_types(spec, n):
    """ -> (attribute, marker type of each item) """

    ts, k, M = spec["v"][:n], spec["k"], gsp.core.Marker
    if k.startswith("single"):
        ts = ts[:1] * n
    return {"single": lambda: M(ts[0]), "single-list": lambda: [M(ts[0])],
            "single-array": lambda: np.array(ts[:1]),
            "column": lambda: np.array(ts).reshape(n, 1),
            "transform": lambda: T.Y(np.c_[ts, ts]), "enum-list": lambda: [M(t) for t in ts],
            "int-list": lambda: list(ts), "array": lambda: np.array(ts),
            "buffer": lambda: gsp_matplotlib.core.Buffer(
                n, np.dtype(np.int32), np.array(ts, np.int32).tobytes())}[k](), ts


def given_angles(spec, n):
    angles, each = given_number(spec, n)
    return angles, each.tolist()


@oracle("R02", "attributes", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(1, 8), size=st.integers(3, 5),
        P=st.lists(grid32, min_size=3, max_size=24), model=st.none(), view=maybe_affine,
        lens=lens, tilt=tilts, fill=color_attr, line=color_attr,
        sizes=number_attr(st.integers(4, 1600).map(lambda i: i / 4)),
        widths=number_attr(st.integers(0, 40).map(lambda i: i / 4)),
        types=type_attr, angles=angle_attr,
        perm=st.integers(0, 10 ** 6), swap=st.one_of(st.none(), st.tuples(
            st.sampled_from(["fill", "line", "sizes", "widths"]), color_attr,
            number_attr(st.integers(1, 40).map(float))).map(list)))), 700, 25000,
        "two items or more, an attribute per item, painted in another order than given",
        shards=4)
def r02_attributes(case, ctx):
    """ every drawn item has its own attributes """

    kind, n = case["kind"], case["n"]
    stage = Stage()
    P, per = item_positions(kind, n, case["size"], case["P"])
    fill, fills = given_color(case["fill"], n)
    line, lines = given_color(case["line"], n)
    size, sizes = given_number(case["sizes"], n)
    width, widths = given_number(case["widths"], n)
    types, type_of = given_types(case["types"], n)
    angles, angle_of = given_angles(case["angles"], n)
    v = make(kind, P, fill=fill, line=line, width=width, size=size, indices=case["size"],
             types=types, angle=angles)
    mats = matrices(case)
    kw = {k: m for k, m in zip(("model", "view", "proj"), mats) if m is not None}
    v.render(stage.viewports[0], **kw)
    S = expected_items(kind, P, per, mats)
    order = unique_order(match(stage.items(), S, kind))

    def check(what):
        for it, i in zip(stage.items(), order):
            if i is None:
                continue
            label = f"{kind}: {what} of item {i} among {n}"
            if kind in ITEMS1 or kind == "Polygons":
                same(it["face"], fills[i], label + " (fill colour)", atol=2e-3,
                     given=case["fill"]["k"])
            if kind != "Pixels":
                same(it["edge"], lines[i], label + " (line colour)", atol=2e-3,
                     given=case["line"]["k"])
                same(it["width"], widths[i], label + " (line width)", rtol=1e-5,
                     given=case["widths"]["k"])
            if kind in ("Points", "Markers"):
                same(it["size"], sizes[i], label + " (size)", rtol=1e-5,
                     given=case["sizes"]["k"])
            if kind == "Markers":
                check_outline(it, type_of[i], angle_of[i], label)
    check("attributes")
    if case["swap"]:
        which, cspec, nspec = case["swap"]
        if kind == "Pixels":
            which = "fill"
        if kind in ("Segments", "Paths") and which == "fill":
            which = "line"
        if kind not in ("Points", "Markers") and which == "sizes":
            which = "widths"
        name = {"fill": "colors" if kind == "Pixels" else "fill_colors", "line": "line_colors",
                "sizes": "sizes", "widths": "line_widths"}[which]
        if which in ("fill", "line"):
            attr, values = given_color(cspec, n)
        else:
            attr, values = given_number(nspec, n)
        if which == "fill":
            fills = values
        elif which == "line":
            lines = values
        elif which == "sizes":
            sizes = values
        else:
            widths = values
        v.set_variable(name, attr)
        v.render(stage.viewports[0])
        case = dict(case, fill=dict(k="-"), line=dict(k="-"), sizes=dict(k="-"),
                    widths=dict(k="-"))
        order = unique_order(match(stage.items(), S, kind))
        check("attributes set later")
        ctx.event("attribute replaced")
    if case["perm"] % 5 == 0:
        stage.image()                       # and this can be drawn
        ctx.event("rasterised")
    ctx.event(kind)
    per_item = any(case[k]["k"] in NUMBER_FORMS + COLOR_FORMS
                   for k in ("fill", "line", "sizes", "widths"))
    ctx.nontrivial(n > 1 and per_item and order != sorted(i for i in order if i is not None))


@oracle("R02", "permutation", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(2, 6), P=st.lists(
            grid32, min_size=3, max_size=18), view=maybe_affine, seed=st.integers(0, 10 ** 6),
        cform=st.sampled_from(COLOR_FORMS), nform=st.sampled_from(NUMBER_FORMS),
        cform2=st.sampled_from(COLOR_FORMS), nform2=st.sampled_from(NUMBER_FORMS))), 50, 2500,
        "always (at least two items, exchanged)", shards=3)
def r02_permutation(case, ctx):
    """ items given in another order, and attributes in another form: same image """

    kind, n = case["kind"], case["n"]
    P, per = item_positions(kind, n, 3, case["P"])
    view = affine(case["view"]) if case["view"] else np.eye(4)
    S = expected_items(kind, P, per, (None, view, None))
    depth = np.sort(S[:, :, 2].mean(1))
    if len(depth) > 1 and np.diff(depth).min() < 1e-4:
        return
    k = np.arange(n)
    C = np.c_[(k * 3 % 8) / 8, (k * 5 % 8) / 8, (k * 7 % 8) / 8, 0.5 + k % 2 / 2]
    L = C[:, [1, 2, 0, 3]]
    sizes, widths = 50.0 + 40 * k, 1.0 + k % 4
    perm = np.random.RandomState(case["seed"] % 2 ** 31).permutation(n)
    images = []
    for p, cf, nf in ((k, case["cform"], case["nform"]), (perm, case["cform2"], case["nform2"])):
        stage = Stage(80, 80, 80.0)
        Q = np.asarray(P).reshape(n, per, 3)[p]
        Q = Q if kind == "Segments" else Q.reshape(-1, 3)
        v = make(kind, np.ascontiguousarray(Q), fill=colors(C[p], cf), line=colors(L[p], cf),
                 width=numbers(widths[p], nf), size=numbers(sizes[p], nf), indices=3)
        v.render(stage.viewports[0], view=view)
        images.append(stage.image())
        plt.close(stage.figure)
    diff = np.abs(images[0].astype(int) - images[1].astype(int)).max(-1)
    require((diff > 8).sum() <= 2, f"{kind}: image depends on the order of items or the form of "
            "attributes", pixels=int((diff > 8).sum()), permutation=perm)
    ctx.nontrivial(not np.array_equal(perm, k) or case["cform"] != case["cform2"])
    ctx.event(kind)


# ------------------------------------------------------------------- R03
POSITION_FORMS = ["f32", "f64", "tracked", "buffer", "slice", "fortran", "transform", "list"]


def position_form(P, form):
    flat = P.reshape(-1, P.shape[-1])
    if form == "f32":
        return P.astype(np.float32)
    if form == "f64":
        return P.astype(np.float64)
    if form == "list":
        return P.astype(np.float64)
    if form == "slice":
        Q = np.zeros((2 * len(P),) + P.shape[1:], np.float32)
        Q[::2] = P
        return Q[::2]
    if form == "fortran":
        return np.asfortranarray(P.astype(np.float32))
    if form == "transform":
        return gsp.transform.Add(P.astype(np.float64) / 2, P.astype(np.float64) / 2)
    if form == "buffer":
        return gsp_matplotlib.core.Buffer(len(P), np.dtype((np.float32, P.shape[1:])),
                                          P.astype(np.float32).tobytes())
    T = glm.vec3(len(flat))
    T[...] = flat
    return T.reshape(P.shape) if P.ndim == 3 else T


def matrix_form(M, form):
    if form == "f32":
        return M.astype(np.float32)
    if form == "list":
        return M.tolist()
    if form == "flat":
        return M.reshape(-1).tolist()
    if form == "Matrix":
        return gsp.core.Matrix(M.astype(np.float32))
    if form == "mat4":
        with untracked():
            A = glm.mat4()
            A[...] = M
        return A
    if form == "fortran":
        return np.asfortranarray(M)
    return M.copy()


MATRIX_FORMS = ["f64", "f64", "f32", "list", "Matrix", "mat4", "flat", "fortran"]
render_step = st.fixed_dictionaries(dict(
    visual=st.integers(0, 1), viewport=st.integers(0, 1), model=maybe_affine, view=maybe_affine,
    lens=lens, proj=maybe_affine, tilt=tilts, form=st.sampled_from(MATRIX_FORMS),
    factor=factors))


@oracle("R03", "far", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(1, 8), size=st.integers(2, 4),
        P=st.lists(grid32, min_size=3, max_size=24),
        offset=st.tuples(*[st.sampled_from([0, 1, -1, 3])] * 3).map(list),
        scale=st.sampled_from([1, 2 ** -10, 2 ** 10]),
        fraction=st.sampled_from([0, 0.375, -0.625]),
        power=st.sampled_from([8, 16, 20, 24, 26]), turn=maybe_affine,
        form=st.sampled_from(["f64", "f64", "slice", "fortran", "transform"]))), 400, 8000,
        "positions that single precision cannot tell apart")
def r03_far(case, ctx):
    """ positions far from the origin, in double precision, brought back by the matrices """

    kind = case["kind"]
    P, per = item_positions(kind, case["n"], case["size"], case["P"])
    offset = np.array(case["offset"]) * 2.0 ** case["power"] + case["fraction"]
    # exact in double precision: a few tens of bits at most
    Q = P * case["scale"] + offset * case["scale"]
    form = case["form"]
    if form == "slice":
        given = np.zeros((2 * len(Q),) + Q.shape[1:])
        given[::2] = Q
        given = given[::2]
    elif form == "fortran":
        given = np.asfortranarray(Q)
    elif form == "transform":
        given = gsp.transform.Add(P * case["scale"], np.broadcast_to(
            offset * case["scale"], P.shape).copy())
    else:
        given = Q
    model = np.diag([1 / case["scale"]] * 3 + [1.0])
    model[:3, 3] = -offset
    view = affine(case["turn"]) if case["turn"] else np.eye(4)
    stage = Stage()
    v = make(kind, given, indices=case["size"])
    v.render(stage.viewports[0], model=model, view=view, proj=np.eye(4))
    S = expected_items(kind, P, per, (None, view, None))
    items = list(stage.items(0))
    require(len(items) == len(S), "number of items drawn", got=len(items), want=len(S))
    scale = 1e-4 * (1 + np.abs(S).max())
    for i, vertices in enumerate(S):
        near = False
        for it in items:
            at = it["at"][None] if kind in ITEMS1 and it["at"] is not None \
                else it["vertices"][:per]
            near |= at.shape == vertices[:, :2].shape and \
                np.abs(at - vertices[:, :2]).max() < scale
        require(near, f"{kind}: item {i} drawn elsewhere", want=vertices)
    ctx.nontrivial(case["power"] > 16 and any(case["offset"]))
    ctx.event(kind)


@oracle("R03", "projection", st.fixed_dictionaries(dict(
        visuals=st.lists(st.fixed_dictionaries(dict(
            kind=st.sampled_from(KINDS), n=st.integers(1, 6), form=st.sampled_from(POSITION_FORMS),
            flat=st.booleans(), size=st.integers(2, 4),
            P=st.lists(grid32, min_size=3, max_size=24))), min_size=1, max_size=2),
        twin=st.booleans(), steps=st.lists(render_step, min_size=1, max_size=5))), 500, 20000,
        "a rendering that omits a matrix given before", shards=3)
def r03_projection(case, ctx):
    """ drawn coordinates and screen variables, matrices being retained by the visuals """

    stage = Stage(viewports=2)
    visuals = []
    for s in case["visuals"]:
        if visuals and case["twin"]:                # as many items of the same kind
            s = dict(s, **{k: case["visuals"][0][k] for k in ("kind", "n", "size")})
        kind = s["kind"]
        P, per = item_positions(kind, s["n"], s["size"], s["P"])
        if kind == "Pixels" and s["flat"] and s["form"] in ("f32", "f64", "slice", "fortran"):
            P = P[:, :2]
        given = position_form(P, s["form"])
        visuals.append(dict(v=make(kind, given, indices=s["size"]), P=P, per=per, kind=kind,
                            given=given, mats=[None, None, None], shown={},
                            raw=None if isinstance(given, Object)
                            and isinstance(given, gsp.transform.Transform) else plain(given)))
    omitted = False
    for s in case["steps"]:
        v = visuals[s["visual"] % len(visuals)]
        model, view, proj = matrices(s)
        given = [model, view, proj]
        # a perspective needs its own view
        was = v["mats"][2]
        if was is not None and was[3, 3] == 0 and proj is None and view is not None:
            given[2] = np.eye(4)
        for k in range(3):
            if given[k] is not None:
                v["mats"][k] = given[k]
            elif v["mats"][k] is not None:
                omitted = True
        kw = {name: matrix_form(m, s["form"]) for name, m in zip(("model", "view", "proj"), given)
              if m is not None}
        where = s["viewport"]
        v["v"].render(stage.viewports[where], **kw)
        S = expected_items(v["kind"], homogeneous(v["P"])[..., :3], v["per"], v["mats"])
        items = [it for it in stage.items(where)]
        # other visual on the same viewport
        v["shown"][where] = S
        total = sum(len(u["shown"][where]) for u in visuals if where in u["shown"])
        require(len(items) == total, "number of items drawn in the viewport", got=len(items),
                want=total)
        for u in visuals:
            if where not in u["shown"]:
                continue
            for i, vertices in enumerate(u["shown"][where]):
                ok = False
                scale = 1e-4 * (1 + np.abs(vertices).max())
                for it in items:
                    at = it["at"][None] if u["kind"] in ITEMS1 and it["at"] is not None \
                        else it["vertices"][:u["per"]]
                    if at.shape == vertices[:, :2].shape and \
                            np.abs(at - vertices[:, :2]).max() < scale:
                        ok = True
                        break
                require(ok, f"{u['kind']}: item {i} is not drawn at its projection",
                        want=vertices[:, :2], form=s["form"], matrices=[m is not None
                                                                        for m in given])
        v["last"] = S.reshape(-1, 3).copy()
        for u in visuals:                           # the other ones keep theirs
            if "last" not in u:
                continue
            screen = plain(u["v"].get_variable("screen[positions]")).reshape(-1, 3)
            flat = u["last"]
            same(screen[:, :2], flat[:, :2], f"{u['kind']}: screen variable", rtol=1e-4,
                 atol=1e-4 * (1 + np.abs(flat).max()))
            z = 1 - flat[:, 2] if u["kind"] in ("Points", "Markers") else flat[:, 2]
            same(screen[:, 2], z, f"{u['kind']}: depth in the screen variable", rtol=1e-4,
                 atol=1e-4 * (1 + np.abs(flat).max()))
        if v["raw"] is not None:
            require(plain(v["given"]).tobytes() == v["raw"].tobytes(), f"{v['kind']}: the given "
                    "positions have been modified")
        ctx.event(v["kind"])
    ctx.nontrivial(omitted)


# ------------------------------------------------------------------- R04
small = st.integers(-24, 24).map(lambda i: i / 32)
step04 = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("render"), visual=st.integers(0, 2),
                               viewport=st.integers(0, 2), model=maybe_affine,
                               view=maybe_affine, proj=maybe_affine)),
    st.fixed_dictionaries(dict(op=st.just("edit"), visual=st.integers(0, 2),
                               i=st.integers(0, 7), v=st.tuples(small, small, small).map(list),
                               how=st.sampled_from(["item", "slice", "iadd", "all"]))),
    st.fixed_dictionaries(dict(op=st.just("set"), visual=st.integers(0, 2),
                               what=st.sampled_from(["color", "positions", "number"]),
                               v=st.tuples(small, small, small).map(list))),
    st.fixed_dictionaries(dict(op=st.just("resize"), w=st.integers(3, 8), h=st.integers(3, 8))),
    st.fixed_dictionaries(dict(op=st.just("draw"))))


class Shot:
    """ What a pair (visual, viewport) shows """


def colour_of(v):
    return [abs(x) for x in v] + [1.0]


def build04(s, P, color, number, vp_measure):
    kind = s["kind"]
    positions = P
    if s["offset"] is not None and kind in ("Points", "Markers"):
        positions = P + np.array(s["offset"] + [0.0]) * gsp.transform.Pixel()
    return make(kind, positions, fill=color, line=color if kind in ("Segments", "Paths")
                else BLACK, width=3.0 if kind in ("Segments", "Paths") else 1.0,
                size=number, indices=s["size"],
                types=gsp.core.Marker.square)


def stage04(case, viewports):
    canvas = gsp_matplotlib.core.Canvas(64 * 2, 64 * 2, 64.0)
    figure = plt.figure(plt.get_fignums()[-1])
    vps = []
    for k in range(viewports):
        vps.append(gsp_matplotlib.core.Viewport(
            canvas, [0, 0.5, 0.25][k], [0, 0.25, 0.5][k], 0.5, [0.5, 0.75, 0.5][k],
            [1.0, 1.0, 1.0 - k / 4, 1.0]))
    return canvas, figure, vps


@oracle("R04", "history", st.fixed_dictionaries(dict(
        visuals=st.lists(st.fixed_dictionaries(dict(
            kind=st.sampled_from(KINDS), n=st.integers(1, 4), size=st.integers(2, 3),
            tracked=st.booleans(), offset=st.one_of(st.none(), st.tuples(
                st.integers(-20, 20).map(float), st.integers(-20, 20).map(float)).map(list)),
            P=st.lists(small, min_size=3, max_size=18))), min_size=1, max_size=3),
        viewports=st.integers(1, 3), steps=st.lists(step04, min_size=1, max_size=8))),
        140, 6000, "a visual rendered more than once, with a change in between", shards=6)
def r04_history(case, ctx):
    """ a history of renderings shows what one rendering of the latest state shows """

    nvp = case["viewports"]
    canvas, figure, vps = stage04(case, nvp)
    visuals = []
    for s in case["visuals"]:
        P, per = item_positions(s["kind"], s["n"], s["size"], s["P"])
        if s["tracked"] and P.ndim == 2:
            T = glm.vec3(len(P))
            T[...] = P
            P = T
        number, color = 80.0, RED
        visuals.append(dict(v=build04(s, P, color, number, None), P=P, s=s, color=color,
                            number=number, mats={}))
    shown = {}                     # (visual, viewport) -> state, in order of first rendering
    resized = None
    changed = renders = 0

    def snapshot(u):
        return dict(P=plain(u["P"]), color=u["color"], number=u["number"], mats=dict(u["mats"]))
    steps = case["steps"]
    if not any(s["op"] == "render" for s in steps):
        steps = steps + [dict(op="render", visual=0, viewport=0, model=None)]
    for s in steps:
        if s["op"] == "render":
            k = s["visual"] % len(visuals)
            u, w = visuals[k], s["viewport"] % nvp
            # matrices that are omitted are those last given
            kw = {name: affine(s[name]) for name in ("model", "view", "proj") if s.get(name)}
            u["mats"].update(kw)
            u["v"].render(vps[w], **kw)
            if (k, w) in shown:
                changed += str(shown[k, w]) != str(snapshot(u))
            shown[k, w] = snapshot(u)
            renders += 1
        elif s["op"] == "edit":
            u = visuals[s["visual"] % len(visuals)]
            P, i, v = u["P"], s["i"] % len(u["P"]), s["v"]
            if s["how"] == "item":
                P[i] = v
            elif s["how"] == "slice":
                P[i:] = v
            elif s["how"] == "iadd":
                P += v[0] / 8
            else:
                P[..., 2] = v[2]
        elif s["op"] == "set":
            u = visuals[s["visual"] % len(visuals)]
            kind = u["s"]["kind"]
            if s["what"] == "color" or kind not in ("Points", "Markers"):
                u["color"] = colour_of(s["v"])
                u["v"].set_variable({"Pixels": "colors", "Segments": "line_colors",
                                     "Paths": "line_colors"}.get(kind, "fill_colors"), u["color"])
            elif s["what"] == "number":
                u["number"] = 40.0 + 64 * abs(s["v"][0])
                u["v"].set_variable("sizes", u["number"])
            elif u["s"]["offset"] is None:
                P = plain(u["P"])[::-1].copy() * np.float32(0.75)
                u["P"] = P
                u["v"].set_variable("positions", P)
        elif s["op"] == "resize":
            resized = (s["w"] / 2, s["h"] / 2)
            resize(figure, *resized)
            for k, w in shown:
                shown[k, w] = snapshot(visuals[k])
        else:
            canvas.render(None)
        ctx.event(s["op"])
    got = np.array(canvas.render(None))
    again = np.array(canvas.render(None))
    require(np.array_equal(got, again), "two successive images of the canvas differ")
    # reference: latest states, each rendered once
    reset_queue = active()
    ref, ref_figure, ref_vps = stage04(case, nvp)
    if resized:
        resize(ref_figure, *resized)
    for (k, w), state in shown.items():
        v = build04(visuals[k]["s"], state["P"], state["color"], state["number"], None)
        v.render(ref_vps[w], **state["mats"])
    want = np.array(ref.render(None))
    require(got.shape == want.shape, "image size", got=got.shape, want=want.shape)
    if not np.array_equal(got, want):
        diff = (np.abs(got.astype(int) - want.astype(int)).max(-1) > 2)
        if diff.sum():
            fail("the image is not the one of the latest state rendered once",
                 pixels=int(diff.sum()), first=[int(a[0]) for a in np.nonzero(diff)],
                 pairs=len(shown))
    ctx.nontrivial(changed > 0 or (resized is not None and renders > 0))


CORNERS = [(0.0, 0.0, 0.5, 0.5), (0.5, 0.0, 0.5, 0.75), (0.0, 0.5, 0.5, 0.5),
           (0.5, 0.75, 0.5, 0.25)]
step_resized = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("render"), where=st.integers(0, 7),
                               model=maybe_affine)),
    st.fixed_dictionaries(dict(op=st.just("edit"), i=st.integers(0, 3),
                               v=st.tuples(small, small, small).map(list))),
    st.fixed_dictionaries(dict(op=st.just("size"), v=st.integers(20, 300).map(float))),
    st.fixed_dictionaries(dict(op=st.just("resize"), canvas=st.integers(0, 1),
                               w=st.integers(4, 9), h=st.integers(4, 9))))


@oracle("R04", "resized", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["Points", "Markers", "Pixels", "Points", "Markers", "Segments",
                              "Paths", "Polygons"]), n=st.integers(1, 3),
        P=st.lists(small, min_size=3, max_size=18), tracked=st.booleans(),
        offset=st.one_of(st.none(), st.tuples(st.integers(-14, 14), st.integers(-14, 14)).map(
            list)),
        where=st.lists(st.integers(0, 7), min_size=2, max_size=4, unique=True),
        steps=st.lists(step_resized, max_size=4), last=st.tuples(
            st.integers(4, 9), st.integers(4, 9), st.integers(0, 1)).map(list))),
        130, 5000, "several viewports, the last event being a resize", shards=4)
def r04_resized(case, ctx):
    """ a visual in several viewports (of two canvases): all of them follow a resize """

    kind = case["kind"]
    P, per = item_positions(kind, case["n"], 2, case["P"])
    if case["tracked"] and P.ndim == 2:
        tracked = glm.vec3(len(P))
        tracked[...] = P
        P = tracked
    offset = case["offset"]

    def build(P, size):
        given = P
        if offset is not None and kind in ITEMS1:
            given = P + np.array(offset + [0.0]) * gsp.transform.Pixel()
        return make(kind, given, fill=RED, line=RED if kind in ("Segments", "Paths") else BLACK,
                    width=3.0 if kind in ("Segments", "Paths") else 1.0, size=size, indices=2,
                    types=gsp.core.Marker.square)

    def stages():
        out = []
        for k in range(2):
            canvas = gsp_matplotlib.core.Canvas(96 + 16 * k, 96, 64.0)
            figure = plt.figure(plt.get_fignums()[-1])
            out.append((canvas, figure, [gsp_matplotlib.core.Viewport(
                canvas, *c, [1.0, 1.0, 0.75 + 0.25 * k, 1.0]) for c in CORNERS]))
        return out
    live = stages()
    size, model = 60.0, None
    v = build(P, size)
    shown, sizes = {}, [None, None]
    steps = [dict(op="render", where=w, model=None) for w in case["where"]] + case["steps"] + \
        [dict(op="resize", w=case["last"][0], h=case["last"][1], canvas=case["last"][2])]
    for s in steps:
        if s["op"] == "render":
            w = s["where"]
            kw = {}
            if s["model"]:
                kw["model"] = model = affine(s["model"])
            v.render(live[w // 4][2][w % 4], **kw)
            shown[w] = (plain(P), size, model)
        elif s["op"] == "edit":
            P[s["i"] % len(P)] = s["v"]
        elif s["op"] == "size":
            if kind in ("Points", "Markers"):
                size = s["v"]
                v.set_variable("sizes", size)
        else:
            k = s["canvas"]
            sizes[k] = s["w"] / 6, s["h"] / 6
            resize(live[k][1], *sizes[k])
            for w in shown:
                if w // 4 == k:
                    shown[w] = (plain(P), size, model)
        ctx.event(s["op"])
    ref = stages()
    for k in range(2):
        if sizes[k]:
            resize(ref[k][1], *sizes[k])
    for w, (Q, a, m) in shown.items():
        build(Q, a).render(ref[w // 4][2][w % 4], **({} if m is None else {"model": m}))
    for k in range(2):
        got, want = np.array(live[k][0].render(None)), np.array(ref[k][0].render(None))
        require(got.shape == want.shape, "image size", got=got.shape, want=want.shape)
        diff = (np.abs(got.astype(int) - want.astype(int)).max(-1) > 2)
        if diff.any():
            fail(f"{kind}: canvas {k} does not show the latest state", pixels=int(diff.sum()),
                 first=[int(a[0]) for a in np.nonzero(diff)], viewports=sorted(shown))
    ctx.event(kind)
    ctx.nontrivial(sum(w // 4 == case["last"][2] for w in shown) > 1)


LIVE = {"Pixels": ["fill"], "Points": ["fill", "line", "widths", "sizes"],
        "Markers": ["fill", "line", "widths", "sizes", "types", "angles"],
        "Segments": ["line", "widths"], "Paths": ["indices", "line", "widths", "indices"],
        "Polygons": ["indices", "fill", "line", "widths"]}
LIVE_TYPE = {"fill": "f4", "line": "f4", "widths": "f4", "sizes": "f4", "types": "i4",
             "angles": "f4", "indices": "i4"}


def live_attribute(values, form):
    """ -> (attribute, function that writes an item of it) """

    values = np.array(values)
    n, row = len(values), values.shape[1:]

    def write(i, x):
        A[i] = x
    if form == "tracked":
        A = glm.vec4(n) if row else glm.float(n)
        A[...] = values
        return A, write
    if form == "buffer":
        B = gsp_matplotlib.core.Buffer(n, np.dtype((values.dtype, row)), values.tobytes())

        def write_buffer(i, x):
            data = np.broadcast_to(np.asarray(x, values.dtype), row)
            B.set_data(i * data.nbytes, data.tobytes())
        return B, write_buffer
    if form == "transform":
        S = np.zeros(n, [("a", values.dtype, row), ("b", "f4")])
        S["a"] = values
        A = S["a"]
        return gsp.transform.Accessor(S, "a"), write
    A = values.copy()
    return A, write


@oracle("R04", "attributes", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(2, 6),
        P=st.lists(small, min_size=3, max_size=18),
        sizes=st.lists(st.integers(1, 4), min_size=6, max_size=6),
        forms=st.lists(st.sampled_from(["array", "tracked", "buffer", "transform"]), min_size=7,
                       max_size=7), v=st.lists(st.integers(0, 8), min_size=24, max_size=24),
        steps=st.lists(st.tuples(st.integers(0, 9), st.integers(0, 7), st.integers(0, 7),
                                 st.integers(0, 8), maybe_affine).map(list), min_size=1,
                       max_size=5))), 350, 15000,
        "an attribute is modified between two renderings", shards=3)
def r04_attributes(case, ctx):
    """ any attribute edited in place between renderings: as a visual made with its content """

    kind, n = case["kind"], case["n"]
    many = kind in ("Paths", "Polygons")
    stage, names = Stage(), LIVE[kind]
    sizes = np.array(case["sizes"][:n])
    P, _ = item_positions(kind if not many else "Points", n if not many else int(sizes.sum()),
                          1, case["P"])
    v = np.array(case["v"])
    now, given, write = {}, {}, {}

    def value(name, x):
        return {"fill": lambda: [x / 8, 1 - x / 8, (x * 3 % 8) / 8, 1.0],
                "line": lambda: [(x * 5 % 8) / 8, x / 8, 0.5, 1.0], "widths": lambda: 0.5 + x / 2,
                "sizes": lambda: 20.0 + 30 * x, "types": lambda: 1 + x,
                "angles": lambda: 20.0 * x}[name]()
    for k, name in enumerate(names):
        if name == "indices":
            values = sizes.astype("i4")
        else:
            values = np.array([value(name, x) for x in np.resize(v[k:], n)], LIVE_TYPE[name])
        form = case["forms"][k]
        if name in ("types", "indices") and form in ("tracked", "transform"):
            form = "array"
        now[name] = values
        given[name], write[name] = live_attribute(values, form)
        ctx.event(f"{name} as {form}")

    def build(a):
        return make(kind, P.copy(), fill=a.get("fill", RED), line=a.get("line", BLACK),
                    width=a.get("widths", 0.0), size=a.get("sizes", 50.0),
                    types=a.get("types"), angle=a.get("angles", 0.0), indices=a.get("indices"))

    def check(visual, model, what):
        ref = Stage()
        build({k: a.copy() for k, a in now.items()}).render(
            ref.viewports[0], **({} if model is None else {"model": model}))
        got, want = stage.items(), ref.items()
        require(len(got) == len(want), f"{kind}: number of items, {what}", got=len(got),
                want=len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            for key in b:
                if key == "path" or b[key] is None:
                    continue
                if np.shape(a[key]) != np.shape(b[key]) or \
                        not np.allclose(a[key], b[key], atol=1e-5):
                    fail(f"{kind}: {key} of an item, {what}", item=i, got=a[key], want=b[key],
                         forms=case["forms"][:len(names)])
    visual, model = build(given), None
    visual.render(stage.viewports[0])
    check(visual, None, "first rendering")
    for which, i, j, x, spec in case["steps"]:
        name = names[which % len(names)]
        i, j = i % n, j % n
        if name == "indices":
            a, b = int(now[name][i]), int(now[name][j])
            now[name][i], now[name][j] = b, a
            write[name](i, b)
            write[name](j, a)
        else:
            now[name][i] = value(name, x)
            write[name](i, value(name, x))
        kw = {}
        if spec:
            kw["model"] = model = affine(spec)
        visual.render(stage.viewports[0], **kw)
        check(visual, model, f"after {name} have been modified")
        ctx.event(name)
    ctx.event(kind)
    ctx.nontrivial()


@oracle("R04", "independent-canvases", st.fixed_dictionaries(dict(
        kind=st.sampled_from(KINDS), n=st.integers(1, 4), size=st.integers(2, 3),
        P=st.lists(small, min_size=3, max_size=18), models=st.lists(affine_spec, min_size=1,
                                                                    max_size=4),
        where=st.lists(st.integers(0, 1), min_size=4, max_size=4))), 60, 2500,
        "both canvases are used", shards=2)
def r04_canvases(case, ctx):
    """ one visual on two canvases: each shows its latest rendering there """

    kind = case["kind"]
    P, per = item_positions(kind, case["n"], case["size"], case["P"])
    stages = [Stage(90, 90, 90.0), Stage(60, 70, 50.0)]
    v = make(kind, P, indices=case["size"], width=2.0)
    last = {}
    for m, w in zip(case["models"], case["where"]):
        v.render(stages[w].viewports[0], model=affine(m))
        last[w] = affine(m)
    for w in range(2):
        items = stages[w].items()
        if w not in last:
            require(not items, "drawn on a canvas where it has not been rendered")
            continue
        S = expected_items(kind, P, per, (last[w], None, None))
        match(items, S, kind)
        fresh = Stage(*((90, 90, 90.0) if w == 0 else (60, 70, 50.0)))
        make(kind, P, indices=case["size"], width=2.0).render(fresh.viewports[0], model=last[w])
        require(np.array_equal(fresh.image(), stages[w].image()), "image differs from the one of "
                "a visual used on this canvas only", kind=kind)
    ctx.nontrivial(len(last) == 2)


BRIGHT = [[1.0, 0.0, 0.0, 1.0], [0.0, 0.75, 0.0, 1.0], [0.0, 0.0, 1.0, 1.0], [1.0, 0.75, 0.0, 0.5]]


@oracle("R04", "stacking", st.fixed_dictionaries(dict(
        kinds=st.lists(st.sampled_from(KINDS + ["Polygons", "Markers", "Paths"]), min_size=2, max_size=4),
        n=st.integers(1, 3), P=st.lists(small, min_size=3, max_size=18), viewports=st.integers(1, 2),
        steps=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1), maybe_affine).map(list),
                       min_size=3, max_size=8))), 100, 3000,
        "a visual rendered again in a viewport where others have been rendered since", shards=2)
def r04_stacking(case, ctx):
    """ several visuals, rendered again: which one covers which depends on the first rendering """

    kinds, nv = case["kinds"], case["viewports"]

    def build(i):
        kind = kinds[i]
        P, _ = item_positions(kind, case["n"], 4, case["P"])
        return make(kind, P + np.float32(i / 64), fill=BRIGHT[i], line=BRIGHT[i] if kind in (
            "Segments", "Paths") else BLACK, width=6.0, size=600.0, indices=4)
    stage = Stage(80, 80, 80.0, nv)
    visuals = [build(i) for i in range(len(kinds))]
    retained, shown = {}, {}
    for step, (i, k, m) in enumerate(case["steps"]):
        i, k = i % len(kinds), k % nv
        order = [p for p in shown if p[1] == k]
        if (i, k) in order[:-1]:
            ctx.nontrivial()
        if m is None:
            visuals[i].render(stage.viewports[k])
        else:
            retained[i] = affine(m)
            visuals[i].render(stage.viewports[k], model=retained[i])
        shown[i, k] = retained.get(i, np.eye(4))
    fresh = Stage(80, 80, 80.0, nv)
    for (i, k), m in shown.items():
        build(i).render(fresh.viewports[k], model=m)
    a, b = stage.image().astype(int), fresh.image().astype(int)
    require(np.array_equal(a, b), "image differs from the one of the same visuals rendered once, in the "
            "same order", pixels=int((a != b).any(-1).sum()), kinds=kinds)


# ------------------------------------------------------------------- R05
part = st.one_of(
    st.fixed_dictionaries(dict(k=st.just("int"), size=st.integers(1, 5), n=st.integers(1, 5))),
    st.fixed_dictionaries(dict(k=st.sampled_from(["list", "array", "array64", "buffer"]),
                               sizes=st.lists(st.integers(1, 5), min_size=1, max_size=6),
                               extra=st.integers(0, 3))),
    # sizes stored as small integers, whose sum may be out of their range
    st.fixed_dictionaries(dict(k=st.sampled_from(["u1", "i1", "u1 buffer", "i1 buffer", "i2"]),
                               sizes=st.lists(st.sampled_from([1, 2, 3, 60, 100, 120]),
                                              min_size=1, max_size=5),
                               extra=st.integers(0, 3))),
    st.fixed_dictionaries(dict(k=st.sampled_from(["lists", "arrays", "List", "u1 List",
                                                  "u1 items"]),
                               lists=st.lists(st.lists(st.integers(-12, 11), min_size=1,
                                                       max_size=5), min_size=1, max_size=6))))


@oracle("R05", "partition", st.fixed_dictionaries(dict(
        kind=st.sampled_from(["Paths", "Polygons"]), part=part,
        P=st.lists(grid32, min_size=3, max_size=40), view=maybe_affine, model=st.none(),
        lens=lens, tilt=tilts, cform=st.sampled_from(COLOR_FORMS + ["single"]),
        wform=st.sampled_from(NUMBER_FORMS + ["single"]), cap=st.integers(1, 3))), 600, 25000,
        "at least two items, not all of the same size", shards=3)
def r05_partition(case, ctx):
    """ drawn vertex lists against an independent partition """

    kind, p = case["kind"], case["part"]
    k = p["k"]
    if k == "int":
        count = p["size"] * p["n"]
        parts = [list(range(i * p["size"], (i + 1) * p["size"])) for i in range(p["n"])]
        indices = p["size"]
    elif k in ("lists", "arrays", "List", "u1 List", "u1 items"):
        count = 12
        # negative indices count from the end, as in numpy
        parts = [[i if k in ("lists", "arrays") else i % 12 for i in x] for x in p["lists"]]
        if k.startswith("u1"):
            # sizes of the items as bytes, more than 255 in all
            parts = parts + [list(range(12))] * (20 if k == "u1 List" else 1)
        if k == "lists":
            indices = [list(x) for x in parts]
        elif k == "arrays":
            indices = [np.array(x) for x in parts]
        else:
            dt = np.dtype("u1" if k == "u1 items" else "i4")
            ds = np.dtype("u1" if k == "u1 List" else "i4")
            flat = np.array([i for x in parts for i in x], dt)
            sizes = np.array([len(x) for x in parts], ds)
            B = gsp_matplotlib.core.Buffer
            indices = gsp_matplotlib.core.List(B(len(flat), dt, flat.tobytes()),
                                               B(len(sizes), ds, sizes.tobytes()))
    else:
        sizes = p["sizes"]
        start = np.cumsum([0] + sizes)
        parts = [list(range(a, b)) for a, b in zip(start[:-1], start[1:])]
        count = sum(sizes) + p["extra"]
        small_type = np.dtype(k[:2] if k[:2] in ("u1", "i1", "i2") else "i2")
        indices = {"list": lambda: list(sizes),
                   "u1": lambda: np.array(sizes, "u1"), "i1": lambda: np.array(sizes, "i1"),
                   "i2": lambda: np.array(sizes, "i2"),
                   "array": lambda: np.array(sizes, np.int32),
                   "array64": lambda: np.array(sizes, np.int64),
                   "buffer": lambda: gsp_matplotlib.core.Buffer(
                       len(sizes), np.dtype(np.int32),
                       np.array(sizes, np.int32).tobytes())}.get(
                           k, lambda: gsp_matplotlib.core.Buffer(
                               len(sizes), small_type, np.array(sizes, small_type).tobytes()))()
    P, _ = item_positions("Points", count, 1, case["P"])
    n = len(parts)
    i = np.arange(n)
    C = np.c_[(i * 3 % 8) / 8, (i * 5 % 8) / 8, (i % 16) / 16, 0.5 + (i % 5) / 10]
    W = 0.5 + i * 0.75
    single_c, single_w = case["cform"] == "single", case["wform"] == "single"
    per_vertex = n != count
    color = RED if single_c else colors(C, case["cform"])
    width = 2.0 if single_w else numbers(W, case["wform"])
    stage = Stage()
    mats = matrices(case)
    V, E = gsp_matplotlib.visual, gsp.core
    cap = E.LineCap(case["cap"])
    if kind == "Paths":
        v = V.Paths(P, indices, color, width, E.LineStyle.solid, E.LineJoin.round, cap)
    else:
        v = V.Polygons(P, indices, color, BLACK, width, E.LineStyle.solid, E.LineJoin.round)
    kw = {a: m for a, m in zip(("model", "view", "proj"), mats) if m is not None}
    v.render(stage.viewports[0], **kw)
    S = project(P, *mats)
    want = [S[x] for x in parts]
    items = stage.items()
    require(len(items) == n, f"{kind}: number of drawn items", got=len(items), want=n, form=k)
    left = list(range(n))
    depth = np.array([w[:, 2].mean() for w in want])
    drawn = []
    tolerance = 2e-4 * (1 + np.abs(S).max())

    def is_drawn_as(A, V):
        if len(A) not in (len(V), len(V) + (kind == "Polygons")):
            return False
        # a polygon may be explicitly closed
        V = np.concatenate([V, V[:1]])[:len(A), :2]
        return np.abs(A - V).max(initial=0) < tolerance
    for it in items:
        c = it["edge" if kind == "Paths" else "face"]
        twins = [j for j in left if is_drawn_as(it["vertices"], want[j])]
        require(twins, f"{kind}: something that is not an item of the partition is drawn",
                vertices=it["vertices"], form=k, parts=parts)
        j = twins[0]
        if len(twins) > 1:
            # identical items are told apart by their attributes
            j = min(twins, key=lambda t: (0 if single_c else np.abs(C[t] - c).max(),
                                          0 if single_w or case["wform"] == "int"
                                          else abs(W[t] - it["width"]), -depth[t]))
        left.remove(j)
        drawn.append(j)
        label = f"{kind}: item {j} of {n} ({k})"
        same(c, RED if single_c else C[j], label + " colour", atol=2e-3, form=case["cform"])
        if not (case["wform"] == "int"):
            same(it["width"], 2.0 if single_w else W[j], label + " line width", rtol=1e-5,
                 form=case["wform"])
    d = depth[drawn]
    require(np.all(np.diff(d) <= 1e-5 * (1 + np.abs(d).max())) if n > 1 else True,
            f"{kind}: painting order", depths=d)
    if kind == "Paths":
        caps = {c.get_capstyle() for c in stage.axes[0].collections}
        require(caps == {{1: "butt", 2: "round", 3: "projecting"}[case["cap"]]},
                "line cap of paths", got=caps, want=case["cap"])
    ctx.event(k)
    ctx.nontrivial(n > 1 and len({len(x) for x in parts}) > 1)


# ------------------------------------------------------------------- R06
extent = st.fixed_dictionaries(dict(
    k=st.sampled_from(["int", "int", "float", "pixel", "inch", "mm", "rest", "none", "few",
                       "full", "out", "outf", "outm"]),
    v=st.integers(0, 100)))


def length(spec, size, dpi, is_size):
    """ -> (argument, function canvas size -> pixels, exact) """

    T = gsp.transform
    k, v = spec["k"], spec["v"]
    if k == "few":                          # 1 is a pixel, 1.0 is the whole canvas
        return 1 + v % 4, lambda s: 1 + v % 4, True
    if k == "full":
        f = 1.0 if is_size else 0.0
        return f, lambda s: f * s, False
    if k in ("out", "outf", "outm"):        # starts before the canvas or is larger than it
        v = (100 if is_size else -1) * (1 + v) // (1 if is_size else 3)
        v = size + v // 100 if is_size else v
        if k == "out":
            return int(v), lambda s: int(v), True
        if k == "outf":
            f = round(v / size * 256) / 256
            f = 1.0 + abs(f - 1) if is_size else f
            return f, lambda s: f * s, False
        return float(int(v)) * T.Pixel(), lambda s: int(v), False
    v = 12 + v * 0.6 if is_size else v * 0.4
    if k == "none" and not is_size:
        k = "int"
    if k == "none":
        return None, lambda s: int(size), True
    if k == "int":
        return int(v), lambda s: int(v), True
    if k == "float":
        f = (v + 1) / 128
        return f, lambda s: f * s, False
    if k == "pixel":
        return float(int(v)) * T.Pixel(), lambda s: int(v), False
    if k == "inch":
        return (v / 64) * T.Inch(), lambda s: v / 64 * dpi, False
    if k == "mm":
        return (v / 4) * T.Millimeter(), lambda s: v / 4 / 25.4 * dpi, False
    if is_size:                       # what is left by a margin
        return 1.0 - (5.0 + v / 4) * T.Pixel(), lambda s: s - (5 + v / 4), False
    return 0.5 - (v / 4) * T.Pixel(), lambda s: s / 2 - v / 4, False


@oracle("R06", "placement", st.fixed_dictionaries(dict(
        w=st.integers(30, 160), h=st.integers(30, 160), dpi=st.sampled_from([40.0, 64.0, 100.0]),
        x=extent, y=extent, width=extent, height=extent,
        color=st.tuples(channel, channel, channel).map(list),
        alpha=st.sampled_from([1.0, 1.0, 0.5, 0.75]),
        form=st.sampled_from(SINGLE_COLOR[:3]), measured=st.booleans(),
        probe=st.tuples(grid32, grid32).map(list),
        resizes=st.lists(st.tuples(st.integers(4, 20), st.integers(4, 20)).map(list),
                         max_size=2))), 500, 10000,
        "a rectangle that is not the whole canvas and has an area of at least 64 pixels",
        shards=4)
def r06_placement(case, ctx):
    """ background rectangle and a probe, in the image; before and after resizes """

    w, h, dpi = case["w"], case["h"], case["dpi"]
    if case["measured"]:
        canvas = gsp_matplotlib.core.Canvas((w / 64) * gsp.transform.Inch(),
                                            (h / 64) * gsp.transform.Inch(), 64.0)
        dpi = 64.0
    else:
        canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
    figure = plt.figure(plt.get_fignums()[-1])
    x, fx, ex = length(case["x"], w, dpi, False)
    y, fy, ey = length(case["y"], h, dpi, False)
    vw, fw, ew = length(case["width"], w, dpi, True)
    vh, fh, eh = length(case["height"], h, dpi, True)
    rgb = case["color"]
    viewport = gsp_matplotlib.core.Viewport(canvas, x, y, vw, vh,
                                            single_color(rgb + [case["alpha"]], case["form"]))
    P = np.array([case["probe"] + [0.0]], np.float32)
    dot = [1.0 if c < 0.5 else 0.0 for c in rgb] + [1.0]
    v = make("Markers", P, fill=dot, size=(9 / dpi * 72) ** 2, types=gsp.core.Marker.square)
    v.render(viewport)
    first = True
    for size in [None] + case["resizes"]:
        if size is not None:
            w, h = size[0] * dpi / 8, size[1] * dpi / 8
            resize(figure, size[0] / 8, size[1] / 8)
            if "none" in (case["width"]["k"], case["height"]["k"]):
                return
            ctx.event("resize")
            first = False
        rect = fx(w), fy(h), fx(w) + fw(w), fy(h) + fh(h)
        exact = all((ex, ey, ew, eh))
        # the drawing area, whatever its size
        if fw(w) > 0.1 and fh(h) > 0.1:
            same(figure.axes[0].get_window_extent().extents, rect,
                 "rectangle of the viewport" + ("" if first else " after a resize"),
                 rtol=1e-5, atol=1e-2)
            same(viewport.size, (fw(w), fh(h)), "size of the viewport", rtol=1e-5, atol=1e-2)
        if fw(w) < 12 or fh(h) < 12:
            ctx.event("tiny")
            continue
        image = np.array(canvas.render(None)).astype(int)
        H, W = image.shape[:2]
        require((W, H) == (int(w + 1e-6), int(h + 1e-6)), "image size", got=(W, H), want=(w, h))
        # scale
        pw, ph = fw(w), fh(h)
        if first:
            px, py = (P[0, 0] + 1) / 2 * pw, (P[0, 1] + 1) / 2 * ph
        else:
            s = min(pw, ph) / 2
            px, py = pw / 2 + P[0, 0] * s, ph / 2 + P[0, 1] * s
        cx, cy = rect[0] + px, rect[1] + py
        check_rect(image, rect, rgb + [case["alpha"]], 0.02 if exact and first else 1.01, h, dot, (cx, cy))
        ax = figure.axes[0]
        got = ax.transData.transform(P[0, :2])
        same(got, [cx, cy], "coordinates in the viewport" + ("" if first else " after a resize"),
             rtol=1e-3, atol=0.05, rect=rect)
        # the dot can be seen there, when it is far enough from borders
        if (max(rect[0], 0) + 8 < cx < min(rect[2], W) - 8
                and max(rect[1], 0) + 8 < cy < min(rect[3], H) - 8):
            want = np.array([round(c * 255) for c in dot[:3]])
            mask = np.abs(image[..., :3] - want).max(-1) <= 2
            mask &= image[..., 3] > 250
            require(mask.any(), "the item is not visible")
            rows, cols = np.nonzero(mask)
            require(abs(cols.mean() + 0.5 - cx) < 1.6 and abs(h - rows.mean() - 0.5 - cy) < 1.6,
                    "the item is not at its place in the image",
                    got=(cols.mean(), h - rows.mean()), want=(cx, cy))
            ctx.event("item located in the image")
        ctx.nontrivial((rect[0] > 0 or rect[1] > 0 or rect[2] < w or rect[3] < h)
                       and fw(w) * fh(h) >= 64)


def check_rect(image, rect, rgb, tol, h, dot, center):
    H, W = image.shape[:2]
    x0, y0, x1, y1 = rect
    cols, rows = np.arange(W), h - 1 - np.arange(H)          # y up; pixel covers [r, r+1]
    inx = (cols >= x0 - 1e-6 + tol) & (cols + 1 <= x1 + 1e-6 - tol)
    iny = (rows >= y0 - 1e-6 + tol) & (rows + 1 <= y1 + 1e-6 - tol)
    outx = (cols + 1 <= x0 + 1e-6 - tol + 0.02) | (cols >= x1 - 1e-6 + tol - 0.02)
    outy = (rows + 1 <= y0 + 1e-6 - tol + 0.02) | (rows >= y1 - 1e-6 + tol - 0.02)
    if tol < 0.5:
        inx = (cols + 0.5 > x0) & (cols + 0.5 < x1)
        iny = (rows + 0.5 > y0) & (rows + 0.5 < y1)
        outx, outy = ~inx, ~iny
    inside = iny[:, None] & inx[None]
    outside = outy[:, None] | outx[None]
    want = np.array([round(c * 255) for c in rgb])
    dots = np.array([round(c * 255) for c in dot])
    bg = np.abs(image - want).max(-1) <= 3
    # the item and its blended border
    between = ((image - np.minimum(want, dots) >= -3) & (
        image - np.maximum(want, dots) <= 3)).all(-1)
    bad = inside & ~bg & ~between
    require(not bad.any(), "a pixel of the viewport does not have its background colour",
            at=[int(a[0]) for a in np.nonzero(bad)] if bad.any() else None, rect=rect,
            value=image[bad][:1], want=want)
    # where it crosses a border, the item may be clipped one pixel further
    near = (np.abs(cols + 0.5 - center[0]) < 7)[None] & (np.abs(rows + 0.5 - center[1]) < 7)[:, None]
    if x1 >= 0 and y1 >= 0 and x0 <= W and y0 <= H:     # (matplotlib clips no better beside)
        near &= ((cols + 2 >= x0) & (cols - 1 <= x1))[None] & ((rows + 2 >= y0) & (rows - 1 <= y1))[:, None]
    bad = outside & (image[..., 3] > 2) & ~near
    require(not bad.any(), "a pixel out of the viewport is painted",
            at=[int(a[0]) for a in np.nonzero(bad)] if bad.any() else None, rect=rect)
    if inside.sum() > 400:
        require((inside & bg).sum() > 0.3 * inside.sum() - 200, "background is missing")


# ------------------------------------------------------------------- R07
@oracle("R07", "raster", st.fixed_dictionaries(dict(
        w=st.integers(1, 400), h=st.integers(1, 400), dpi=st.one_of(
            st.integers(20, 400).map(float), st.sampled_from([72.0, 96.0, 33.3, 101.7])),
        unit=st.sampled_from(["int", "int", "int", "Inch", "Millimeter", "Point", "Pixel"]),
        kind=st.sampled_from(KINDS), P=st.lists(grid32, min_size=3, max_size=18),
        ext=st.sampled_from(["png", "png", "none", "jpg", "tif", "svg", "PNG", "JPG", "again"]),
        stem=st.sampled_from(["image", "image", "frame.1", "a.svg", "v1.0.2", "two words",
                              ".hidden", "\u00e9t\u00e9", "png"]))), 150,
        6000, "a size and a resolution whose ratio is not exact", shards=4)
def r07_raster(case, ctx):
    """ size and content of images, in memory and in files """

    w, h, dpi = case["w"], case["h"], case["dpi"]
    if case["unit"] == "int":
        canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
        want = (h, w, 4)
    else:
        per = {"Inch": dpi, "Millimeter": dpi / 25.4, "Point": dpi / 72, "Pixel": 1.0}[
            case["unit"]]
        unit = getattr(gsp.transform, case["unit"])()
        a, b = (w + 0.5) / per, (h + 0.5) / per
        canvas = gsp_matplotlib.core.Canvas(a * unit, b * unit, dpi)
        want = (h, w, 4)
        ctx.event("measure")
    viewport = gsp_matplotlib.core.Viewport(canvas, 0, 0, w, h, [0.5, 0.75, 1.0, 1.0])
    P, per = item_positions(case["kind"], 3, 3, case["P"])
    v = make(case["kind"], P, indices=3, width=1.0)
    v.render(viewport)
    raw = canvas.render(None)
    require(isinstance(raw, np.ndarray) and raw.shape == want and raw.dtype == np.uint8,
            "image is not height x width RGBA bytes", got=getattr(raw, "shape", raw), want=want)
    image = np.array(raw)
    require(np.array_equal(image, np.array(canvas.render(None))), "second image differs")
    folder = tempfile.mkdtemp(prefix="verif-r07-")
    try:
        if case["ext"] != "none":
            ext = case["ext"]
            path = os.path.join(folder, case["stem"] + "." + ("png" if ext == "again" else ext))
            if ext == "again":
                with open(path, "wb") as f:
                    f.write(bytes(10_000_000 // 100))
            canvas.render(path)
            if ext == "svg":
                with open(path) as f:
                    size = re.search(r'<svg[^>]* height="([0-9.]+)pt"[^>]* width="([0-9.]+)pt"',
                                     re.sub(r'<svg([^>]*?)( width="[^"]*")([^>]*?)( height="[^"]*")',
                                            r"<svg\1\4\3\2", f.read()))
                require(size, "vector file has no size")
                same([float(size[1]), float(size[2])], [h * 72 / dpi, w * 72 / dpi],
                     "size of the vector file", rtol=0.01, atol=0.5 * 72 / dpi + 0.01)
                ctx.event("vector file")
                return
            with Image.open(path) as picture:
                got = np.asarray(picture)
                kind = {"jpg": "JPEG", "tif": "TIFF"}.get(ext.lower(), "PNG")
                require(picture.format == kind, "image file has another format",
                        got=picture.format, want=kind)
            ext = ext.lower()
            if ext == "jpg":
                require(got.shape[:2] == want[:2], "image file has another size",
                        got=got.shape, want=want)
                got = np.dstack([got, image[..., 3]])
            require(got.shape == want, "image file has another size", got=got.shape, want=want)
            got = np.asarray(got).astype(int)
            alpha = image[..., 3].astype(int)
            diff = np.abs(got - image.astype(int)).max(-1)
            diff[alpha < 250] = 0
            require(ext == "jpg" or diff.max(initial=0) <= 1, "image file has another content",
                    pixels=int((diff > 1).sum()))
            require(np.array_equal(image, np.array(canvas.render(None))),
                    "image differs after writing a file")
    finally:
        shutil.rmtree(folder)
    # an image is a picture of the canvas at that time
    other = gsp_matplotlib.core.Viewport(canvas, 0, 0, w, h, [0.0, 0.25, 0.0, 1.0])
    v.render(other)
    later = np.array(canvas.render(None))
    require(min(w, h) < 60 or not np.array_equal(later, image), "image does not show what has been added since")
    require(np.array_equal(np.array(raw), image), "image modified by a later rendering")
    ctx.nontrivial(int(w / dpi * dpi) != w or int(h / dpi * dpi) != h or case["unit"] != "int"
                   or (w / dpi) % 0.125 != 0)


layer = st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 8, 10, 16, 20]), st.sampled_from([0, 0, 8, 16, 20]),
                  st.sampled_from([8, 16, 20, 20, 24]), st.sampled_from([8, 16, 20, 20]), st.sampled_from("iif"),
                  st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.5, 0.0]]),
                  st.sampled_from([1.0, 0.75, 0.5, 0.25])).map(list)
pixels = st.tuples(st.sampled_from([32, 32, 40, 64]), st.sampled_from([32, 32, 40, 64])).map(list)
stacks = dict(sizes=st.one_of(st.lists(pixels, min_size=1, max_size=3), pixels.map(lambda s: [s, s]),
                              st.tuples(pixels, pixels).map(lambda s: [s[0], s[1], s[0]])),
              dpi=st.sampled_from([64.0, 64.0, 100.0, 32.0]),
              layers=st.lists(layer, min_size=2, max_size=8),
              resizes=st.lists(st.tuples(st.integers(0, 2), st.sampled_from([32, 48, 64, 80]),
                                         st.sampled_from([32, 48, 64, 80])).map(list), max_size=2),
              file=st.booleans())


def composed(w, h, layers):
    """ backgrounds painted one over the other: straight colours and opacities """

    rgb, alpha = np.zeros((h, w, 3)), np.zeros((h, w, 1))
    for x, y, vw, vh, color, a in layers:
        box = np.s_[max(h - y - vh, 0):max(h - y, 0), x:x + vw]
        rgb[box] = a * np.array(color) + (1 - a) * rgb[box]
        alpha[box] = a + (1 - a) * alpha[box]
    return rgb, alpha


@oracle("R06", "overlap", st.fixed_dictionaries(stacks), 200, 5000,
        "two viewports of a canvas that overlap", shards=2)
def r06_overlap(case, ctx):
    """ the image of a canvas shows its viewports, one over the other """

    def overlap(a, b):
        return a[0] < b[0] + b[2] and b[0] < a[0] + a[2] and a[1] < b[1] + b[3] and b[1] < a[1] + a[3]
    layers = stacked(case, ctx)
    ctx.nontrivial(any(overlap(a, b) for l in layers for i, a in enumerate(l) for b in l[:i]))


@oracle("R07", "canvases", st.fixed_dictionaries(stacks), 150, 5000,
        "two canvases of the same size, both with viewports", shards=2)
def r07_canvases(case, ctx):
    """ the image of a canvas shows its viewports, and those of no other """

    layers, sizes = stacked(case, ctx), case["sizes"]
    ctx.nontrivial(any(sizes[i] == sizes[j] and layers[i] and layers[j]
                       for i in range(len(sizes)) for j in range(i)))


def stacked(case, ctx):
    dpi = case["dpi"]
    sizes = [list(s) for s in case["sizes"]]
    n = len(sizes)
    canvases, layers, figures = [], [[] for _ in sizes], []
    views = []

    def canvas(i):
        while len(canvases) <= i:
            w, h = sizes[len(canvases)]
            canvases.append(gsp_matplotlib.core.Canvas(w, h, dpi))
            figures.append(plt.figure(plt.get_fignums()[-1]))
        return canvases[i]

    for c, x, y, vw, vh, form, rgb, alpha in case["layers"]:
        c %= n
        w, h = sizes[c]
        if form == "f" and w % 8 == 0 and h % 8 == 0:     # fractions of the canvas
            x, y, vw, vh = [8 * (v // 8) for v in (x, y, vw, vh)]
            given = [x / w, y / h, vw / w, vh / h]
        else:
            given, form = [x, y, vw, vh], "i"
        views.append((c, gsp_matplotlib.core.Viewport(canvas(c), *given, gsp.core.Color(*rgb, alpha)),
                      given, form))
        layers[c].append([x, y, vw, vh, rgb, alpha])
    canvas(n - 1)

    def check(when):
        for i, (w, h) in enumerate(sizes):
            image = np.array(canvases[i].render(None)).astype(float)
            require(image.shape == (h, w, 4), "image size" + when, got=image.shape, want=(h, w, 4))
            rgb, alpha = composed(w, h, layers[i])
            got = np.dstack([image[..., :3] * image[..., 3:] / 255, image[..., 3:]])
            bad = np.abs(got - 255 * np.dstack([rgb, alpha])).max(-1) > 6
            require(not bad.any(), "the image of the canvas is not made of its viewports, in order" + when,
                    canvas=i, pixels=int(bad.sum()), layers=layers[i],
                    at=[int(a[0]) for a in np.nonzero(bad)] if bad.any() else None,
                    got=got[bad][:1], want=(255 * np.dstack([rgb, alpha]))[bad][:1])
    check("")
    if case["file"]:
        folder = tempfile.mkdtemp(prefix="verif-stack-")
        try:
            path = os.path.join(folder, "a.png")
            canvases[0].render(path)
            with Image.open(path) as picture:
                got = np.asarray(picture).astype(int)
            require(np.array_equal(got[..., 3], np.array(canvases[0].render(None))[..., 3]),
                    "file and image differ")
        finally:
            shutil.rmtree(folder)
        check(", once one has been saved")
    for c, w, h in case["resizes"]:
        c %= n
        resize(figures[c], w / dpi, h / dpi)
        sizes[c] = [w, h]
        k = 0
        for d, view, given, form in views:
            if d == c:
                mine = layers[c][k]
                k += 1
                if form == "f":
                    # keep to whole pixels
                    rect = np.array(given) * [w, h, w, h]
                    if np.abs(rect - np.round(rect)).max() > 1e-9:
                        ctx.event("fraction of a pixel")
                        return layers
                    mine[:4] = [int(round(r)) for r in rect]
        ctx.event("resized")
        check(", once one has been resized")
    return layers


# ------------------------------------------------------------------- R08
@oracle("R08", "outlines", st.fixed_dictionaries(dict(
        n=st.integers(1, 8), P=st.lists(grid32, min_size=3, max_size=24), view=maybe_affine,
        model=maybe_affine, lens=lens, tilt=tilts, types=type_attr, angles=angle_attr,
        sizes=number_attr(st.integers(40, 1600).map(lambda i: i / 4)), again=maybe_affine)), 500, 20000,
        "markers of several types or angles, painted in another order than given", shards=3)
def r08_outlines(case, ctx):
    """ outline of each drawn marker """

    n = case["n"]
    stage = Stage()
    P, per = item_positions("Markers", n, 1, case["P"])
    types, ts = given_types(case["types"], n)
    angles, angs = given_angles(case["angles"], n)
    size, sizes = given_number(case["sizes"], n)
    v = make("Markers", P, types=types, angle=angles, size=size)
    mats = list(matrices(case))
    kw = {a: m for a, m in zip(("model", "view", "proj"), mats) if m is not None}
    v.render(stage.viewports[0], **kw)
    todo = [mats]
    if case["again"] and not case["lens"]:
        todo.append([mats[0], affine(case["again"]), mats[2]])
    for step, m in enumerate(todo):
        if step:
            v.render(stage.viewports[0], view=m[1])
        S = expected_items("Markers", P, 1, m)
        items = stage.items()
        order = unique_order(match(items, S, "Markers"))
        for it, i in zip(items, order):
            if i is None:
                continue
            label = f"marker {i}"
            check_outline(it, ts[i], angs[i], label)
            same(it["size"], sizes[i], label + " size", rtol=1e-5)
        ctx.nontrivial(n > 1 and (len(set(ts)) > 1 or len(set(angs)) > 1)
                       and order != list(range(n)))


def reference_glyphs():
    return {t: np.array([[c == "#" for c in row] for row in rows]) for t, rows in GLYPHS.items()}


@oracle("R08", "types", st.fixed_dictionaries(dict(
        order=st.permutations(list(range(1, 13))), depth=st.permutations(list(range(12))),
        angles=st.one_of(st.integers(-80, 80), st.lists(st.integers(-80, 80), min_size=12,
                                                        max_size=12)),
        form=st.sampled_from(["array", "enum", "int"]), view=maybe_affine)), 30, 600, "always")
def r08_types(case, ctx):
    """ every type of marker looks like its documented icon """

    stage = Stage()
    P = np.zeros((12, 3), np.float32)
    P[:, 0] = np.arange(12) / 16 - 0.4
    P[:, 2] = np.array(case["depth"]) / 16
    types = case["order"]
    given = {"array": lambda: np.array(types), "int": lambda: list(types),
             "enum": lambda: [gsp.core.Marker(t) for t in types]}[case["form"]]()
    angles = np.full(12, 10.0) * case["angles"]
    v = make("Markers", P, types=given, size=100.0,
             angle=angles.copy() if isinstance(case["angles"], list) else float(angles[0]))
    m = affine(case["view"]) if case["view"] else None
    v.render(stage.viewports[0], **({} if m is None else dict(view=m)))
    S = expected_items("Markers", P, 1, [None, m, None])
    items = stage.items()
    x, y = np.meshgrid(np.linspace(-0.49, 0.49, 22), np.linspace(0.49, -0.49, 22))
    glyphs = reference_glyphs()
    for it, i in zip(items, unique_order(match(items, S, "Markers"))):
        if i is None:
            continue
        a = np.radians(angles[i])
        mask = it["path"].contains_points(np.c_[(np.cos(a) * x - np.sin(a) * y).ravel(),
                                                (np.sin(a) * x + np.cos(a) * y).ravel()])
        mask, want = mask.reshape(22, 22), glyphs[types[i]]
        common = (mask & want).sum() / (mask | want).sum()
        require(common > 0.88, f"marker of type {types[i]} does not look like it",
                angle=angles[i], common=common)
        ctx.event(f"type {types[i]}")
        ctx.nontrivial()


@oracle("R08", "raster", st.fixed_dictionaries(dict(
        t=st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12, 12]), u=st.integers(1, 12), angle=st.integers(0, 3).map(lambda i: i * 90.0),
        side=st.integers(20, 38), k=st.sampled_from([2.0, 3.0]), dpi=st.sampled_from([72.0, 100.0]))),
        60, 1500, "always", shards=3)
def r08_raster(case, ctx):
    """ painted area versus size, quarter turns, distinct types """

    dpi = case["dpi"]

    def mask(t, side, angle):
        stage = Stage(121, 121, dpi)
        make("Markers", np.zeros((1, 3), np.float32), fill=BLACK, types=gsp.core.Marker(t),
             size=(side / dpi * 72) ** 2, angle=angle).render(stage.viewports[0])
        image = stage.image()
        plt.close(stage.figure)
        return 1 - image[..., 0].astype(float) / 255
    t, side, angle = case["t"], float(case["side"]), case["angle"]
    a = mask(t, side, 0.0)
    big = mask(t, side * case["k"], 0.0)
    require(abs(big.sum() / a.sum() / case["k"] ** 2 - 1) < 0.3, "the painted area is not "
            "proportional to the size", type=t, ratio=big.sum() / a.sum(), want=case["k"] ** 2)
    if t in (2, 7, 8, 9, 10, 12):           # without a symmetry by a quarter of turn
        turned = mask(t, side * case["k"], angle)

        def distance(image):
            shifts = [np.roll(image, (i, j), (0, 1)) for i in (-1, 0, 1) for j in (-1, 0, 1)]
            return min(np.abs(turned - m).sum() for m in shifts)
        d = [distance(np.rot90(big, k)) for k in range(4)]
        require(int(np.argmin(d)) == int(angle // 90), "rotation is not counter-clockwise, about "
                "the position", type=t, angle=angle, distances=d)
    if case["u"] != t:
        other = mask(case["u"], side * case["k"], 0.0)
        require(np.abs(other - big).sum() > 0.02 * big.sum(), "two types have the same outline",
                types=(t, case["u"]))
    if t == 3:
        require(abs(a.sum() / side ** 2 - 1) < 0.12, "area of a square", got=a.sum(),
                want=side ** 2)
    ctx.nontrivial()
    ctx.event(f"type {t}")
