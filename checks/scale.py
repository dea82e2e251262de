"""
R01, R02, R03, R05, R08: the same guarantees with hundreds of items, and with long items.
"""
from lib.common import *
from lib.harness import oracle, st
from lib.draw import *
from checks.rendering import maybe_affine

counts = st.sampled_from([60, 100, 129, 200, 255, 256, 257, 300, 420, 640])
LONG = [2, 3, 4, 5, 65, 150, 300]


def scene(case):
    """ -> given positions, given indices, list of the vertices of each item """

    kind, n, rng = case["kind"], case["n"], np.random.RandomState(case["seed"])
    if kind in ITEMS1:
        P = rng.uniform(-1, 1, (n, 3))
        return P, None, [[i] for i in range(n)]
    if kind == "Segments":
        P = rng.uniform(-1, 1, (n, 2, 3))
        return P, None, [[2 * i, 2 * i + 1] for i in range(n)]
    how, least = case["part"], 2 if kind == "Paths" else 3
    if how == "int":
        size = least + case["seed"] % 3
        if case["seed"] % 4 == 0:
            n, size = 5, 60 + case["seed"]
        count, sizes = n * size, [size] * n
    elif how == "sizes":
        if case["seed"] % 2:
            n = 3 + n % 7
            sizes = [LONG[i] for i in rng.randint(1, len(LONG), n)]
        else:
            sizes = rng.randint(least, 6, n).tolist()
        count = sum(sizes)
    else:
        count = max(n, 300)
        if case["seed"] % 2:
            n = 3 + n % 7
            sizes = [LONG[i] for i in rng.randint(1, len(LONG), n)]
        else:
            sizes = rng.randint(least, 6, n).tolist()
    P = rng.uniform(-1, 1, (count, 3))
    if how == "indices":
        first = rng.permutation(count)[:n]
        parts = [[int(f)] + rng.randint(0, count, s - 1).tolist() for f, s in zip(first, sizes)]
        indices = [list(x) for x in parts]
    else:
        start = np.cumsum([0] + sizes)
        parts = [list(range(a, b)) for a, b in zip(start[:-1], start[1:])]
        indices = sizes[0] if how == "int" else \
            np.array(sizes, np.int32) if case["seed"] % 3 else sizes
    if case["offset"]:
        # the mean depth of long items is not the one of their first vertices
        for x in parts:
            if len(x) > 20 and how != "indices":
                P[x[:len(x) // 3], 2] += 0.75 * (-1) ** len(x)
    return P, indices, parts


def place(items, want, kind):
    """ index of the item that each drawn item is """

    V = [it["at"][None] if kind in ITEMS1 else it["vertices"] for it in items]
    first = np.array([v[0] for v in V]).reshape(-1, 2)
    wfirst = np.array([w[0, :2] for w in want])
    D = np.abs(first[:, None] - wfirst[None]).max(-1)
    scale = 1 + max(np.abs(w).max() for w in want)
    order = D.argmin(1)
    require(D[np.arange(len(V)), order].max() < 1e-4 * scale,
            f"{kind}: something is drawn where there is no item")
    order = order.tolist()
    require(sorted(order) == list(range(len(want))), f"{kind}: items are not drawn once each")
    for v, i in zip(V, order):
        w = want[i][:, :2]
        require(len(v) in (len(w), len(w) + (kind == "Polygons")),
                f"{kind}: number of vertices of item {i} of {len(want)}", got=len(v), want=len(w))
        require(np.abs(v[:len(w)] - w).max() < 1e-4 * scale,
                f"{kind}: vertices of item {i} of {len(want)}")
    return order


def many(case, ctx, aspects):
    kind, rng = case["kind"], np.random.RandomState(case["seed"] + 1)
    P, indices, parts = scene(case)
    n = len(parts)
    C, L = (rng.randint(0, 17, (n, 4)) / 16 for _ in range(2))
    widths, sizes = rng.randint(1, 64, n) / 4, rng.randint(16, 400, n) / 4
    if case["nform"] == "int":
        widths, sizes = np.round(widths), np.round(sizes)
    types, angles = rng.randint(1, 13, n), rng.randint(0, 24, n) * 15.0
    stage = Stage()
    per_item = case["per_item"]
    kw = dict(fill=colors(C, case["cform"]), line=colors(L, case["lform"]),
              width=numbers(widths, case["nform"]), size=numbers(sizes, case["nform"]),
              types=types if case["seed"] % 2 else types.tolist(), angle=angles) \
        if per_item else {}
    v = make(kind, P.astype(np.float32) if case["single"] else P, indices=indices, **kw)
    view = affine(case["view"]) if case["view"] else np.eye(4)
    v.render(stage.viewports[0], view=view)
    S = project(P.reshape(-1, 3), None, view, None)
    want = [S[x] for x in parts]
    items = stage.items()
    require(len(items) == n, f"{kind}: number of drawn items", got=len(items), want=n)
    order = place(items, want, kind)
    if "order" in aspects:
        d = np.array([w[:, 2].mean() for w in want])[order]
        worst = np.diff(d).max(initial=-1)
        require(worst <= 1e-5 * (1 + np.abs(d).max()), f"{kind}: an item is painted before an "
                f"item that is farther, among {n}", difference=worst)
    for it, i in zip(items, order) if per_item else ():
        label = f"{kind}: item {i} of {n}"
        if "attributes" in aspects:
            if kind in ITEMS1 or kind == "Polygons":
                same(it["face"], C[i], label + " (fill colour)", atol=2e-3)
            if kind != "Pixels":
                same(it["edge"], L[i], label + " (line colour)", atol=2e-3)
                same(it["width"], widths[i],
                     label + " (line width)", rtol=1e-5)
            if kind in ("Points", "Markers"):
                same(it["size"], sizes[i],
                     label + " (size)", rtol=1e-5)
        if "outlines" in aspects and (i % 5 == 0 or i > n - 4):
            check_outline(it, types[i], angles[i], label)
    ctx.event(kind)
    ctx.event("long items" if max(map(len, parts)) > 60 else "many items")
    ctx.nontrivial(order != sorted(order))


def cases(kinds):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(kinds), n=counts, seed=st.integers(0, 2 ** 10),
        part=st.sampled_from(["int", "sizes", "indices"]), view=maybe_affine,
        offset=st.booleans(), single=st.booleans(), cform=st.sampled_from(COLOR_FORMS),
        lform=st.sampled_from(COLOR_FORMS), nform=st.sampled_from(NUMBER_FORMS),
        per_item=st.booleans()))


RULE = "hundreds of items or long items, painted in another order than given"


@oracle("R01", "many", cases(KINDS + ["Paths", "Polygons"]), 200, 5000, RULE, shards=2)
def r01_many(case, ctx):
    """ painting order of many items, and of long items """

    many(dict(case, per_item=False), ctx, {"order"})


@oracle("R02", "many", cases(KINDS), 200, 5000, RULE, shards=2)
def r02_many(case, ctx):
    """ attributes of many items """

    many(dict(case, per_item=True), ctx, {"attributes"})


@oracle("R03", "many", cases(KINDS), 120, 3000, RULE)
def r03_many(case, ctx):
    """ places of many items, and of long items """

    many(dict(case, per_item=False), ctx, set())


@oracle("R05", "many", cases(["Paths", "Polygons"]), 200, 5000, RULE, shards=2)
def r05_many(case, ctx):
    """ partition into many items, and into long items """

    many(case, ctx, {"order", "attributes"})


@oracle("R08", "many", cases(["Markers"]), 120, 3000, RULE)
def r08_many(case, ctx):
    """ outlines of many markers """

    many(dict(case, per_item=True), ctx, {"outlines", "attributes"})
