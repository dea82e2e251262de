"""
What is drawn: read from the matplotlib figures, not from the visuals.
"""
from lib.common import *

T = gsp.transform
KINDS = ["Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"]
ITEMS1 = ["Pixels", "Points", "Markers"]


class Stage:
    """ Canvases with their viewports, and the corresponding matplotlib axes """

    def __init__(self, w=100, h=100, dpi=100.0, viewports=1):
        self.canvas = gsp_matplotlib.core.Canvas(w, h, dpi)
        self.figure = plt.figure(plt.get_fignums()[-1])
        self.viewports = [gsp_matplotlib.core.Viewport(
            self.canvas, 0, 0, w, h, [1.0, 1.0, 1.0, 1.0]) for _ in range(viewports)]
        self.axes = list(self.figure.axes)

    def items(self, k=0):
        return items_of(self.axes[k])

    def image(self):
        return np.array(self.canvas.render(None))


def resize(figure, w_inch, h_inch):
    """ What an interactive backend does when its window is resized """

    from matplotlib.backend_bases import ResizeEvent
    figure.set_size_inches(w_inch, h_inch, forward=False)
    ResizeEvent("resize_event", figure.canvas)._process()


def pick(values, k, default=None):
    return values[k % len(values)] if len(values) else default


def items_of(ax):
    """ Items of an axes, in painting order """

    out = []
    for c in sorted(ax.collections, key=lambda c: c.get_zorder()):
        if not c.get_visible():
            continue
        paths = c.get_paths()
        located = c.get_offset_transform().contains_branch(ax.transData)
        offsets = np.asarray(c.get_offsets(), float)
        face, edge = np.asarray(c.get_facecolor()), np.asarray(c.get_edgecolor())
        widths = np.atleast_1d(c.get_linewidth())
        sizes = np.atleast_1d(c.get_sizes()) if hasattr(c, "get_sizes") else []
        n = max(len(paths), len(offsets)) if located and len(offsets) else \
            0 if located else len(paths)
        if not len(paths):
            n = 0
        for k in range(n):
            path = pick(paths, k)
            out.append(dict(
                at=offsets[k % len(offsets)] if located else None,
                vertices=np.asarray(path.vertices, float), path=path,
                face=pick(face, k, np.zeros(4)), edge=pick(edge, k, np.zeros(4)),
                width=float(pick(widths, k, 0.0)),
                size=float(pick(sizes, k, 0.0)) if len(sizes) else None))
    return out


# -- attributes ----------------------------------------------------------
NUMBER_FORMS = ["array", "f32", "list", "tracked", "buffer", "transform", "expr", "int",
                "column"]
COLOR_FORMS = ["array", "f32", "rows", "tracked", "buffer", "transform", "strided"]


def numbers(values, form):
    values = np.asarray(values, float)
    n = len(values)
    if form == "array":
        return values.copy()
    if form == "f32":
        return values.astype(np.float32)
    if form == "int":
        return values.astype(np.int32)
    if form == "column":
        return values.reshape(n, 1)
    if form == "list":
        return values.tolist()
    if form == "tracked":
        A = glm.float(n)
        A[...] = values
        return A
    if form == "buffer":
        return gsp_matplotlib.core.Buffer(n, np.dtype(np.float32),
                                          values.astype(np.float32).tobytes())
    if form == "transform":
        return T.Y(np.c_[values * 0, values])
    return T.X(np.c_[values / 2, values]) * 2.0


def colors(values, form):
    values = np.asarray(values, float)
    n = len(values)
    if form == "array":
        return values.copy()
    if form == "f32":
        return values.astype(np.float32)
    if form == "rows":
        return values.tolist()
    if form == "strided":
        return np.repeat(values, 2, axis=0)[::2]
    if form == "tracked":
        A = glm.vec4(n)
        A[...] = values
        return A
    if form == "buffer":
        return gsp_matplotlib.core.Buffer(n, np.dtype((np.float32, (4,))),
                                          values.astype(np.float32).tobytes())
    S = np.zeros(n, [("c", "f4", (4,)), ("z", "f4")])
    S["c"] = values
    return T.Accessor(S, "c")


SINGLE_COLOR = ["list", "tuple", "Color", "array1"]


def single_color(value, form):
    return {"list": lambda: list(value), "tuple": lambda: tuple(value),
            "Color": lambda: gsp.core.Color(*value),
            "array1": lambda: np.array(value, float)}[form]()


RED, BLACK = [1.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, 1.0]


def make(kind, P, fill=RED, line=BLACK, width=0.0, size=50.0, types=None, angle=0.0,
         indices=2):
    """ A visual of the given kind """

    V, C = gsp_matplotlib.visual, gsp.core
    style, join, cap = C.LineStyle.solid, C.LineJoin.round, C.LineCap.round
    if kind == "Pixels":
        return V.Pixels(P, fill)
    if kind == "Points":
        return V.Points(P, size, fill, line, width)
    if kind == "Markers":
        types = C.Marker.square if types is None else types
        return V.Markers(P, types, size, None, angle, fill, line, width)
    if kind == "Segments":
        return V.Segments(P, cap, line, width)
    if kind == "Paths":
        return V.Paths(P, indices, line, width, style, join, cap)
    return V.Polygons(P, indices, fill, line, width, style, join)


def fill_name(kind):
    """ Which drawn colour a colour attribute of this visual controls """

    return "face" if kind in ("Pixels", "Points", "Markers", "Polygons") else "edge"


# -- geometry --------------------------------------------------------------
def homogeneous(P):
    P = np.asarray(P, np.float64)
    if P.shape[-1] == 2:
        P = np.concatenate([P, np.zeros(P.shape[:-1] + (1,))], -1)
    return np.concatenate([P, np.ones(P.shape[:-1] + (1,))], -1)


def project(P, model=None, view=None, proj=None):
    """ Independent projection, float64 """

    M = np.eye(4)
    for m in (proj, view, model):
        if m is not None:
            M = M @ np.asarray(m, np.float64)
    H = homogeneous(P) @ M.T
    return H[..., :3] / H[..., 3:]


def affine(spec):
    """ Affine 4x4 matrix from a list of numbers: rotation angles, scale, translation """

    ax, ay, az, s, tx, ty, tz = spec
    ax, ay, az = np.radians([ax, ay, az])
    c, sn = np.cos, np.sin
    X = np.array([[1, 0, 0], [0, c(ax), -sn(ax)], [0, sn(ax), c(ax)]])
    Y = np.array([[c(ay), 0, sn(ay)], [0, 1, 0], [-sn(ay), 0, c(ay)]])
    Z = np.array([[c(az), -sn(az), 0], [sn(az), c(az), 0], [0, 0, 1]])
    M = np.eye(4)
    M[:3, :3] = Z @ Y @ X * s
    M[:3, 3] = tx, ty, tz
    return M


def persp(fov=40.0, near=1.0, far=100.0, dist=5.0):
    f = 1 / np.tan(np.radians(fov) / 2)
    M = np.zeros((4, 4))
    M[0, 0] = M[1, 1] = f
    M[2, 2] = -(far + near) / (far - near)
    M[2, 3] = -2 * near * far / (far - near)
    M[3, 2] = -1.0
    D = np.eye(4)
    D[2, 3] = -dist
    return M, D


# -- items ------------------------------------------------------------------
def item_positions(kind, n, size, values):
    """ Positions of n items, distinct """

    per = {"Segments": 2, "Paths": size, "Polygons": size}.get(kind, 1)
    count = n * per
    P = np.resize(np.array(values, float), (count, 3))
    k = np.arange(count)
    P = P + np.c_[(k * 37 % 64) / 512, (k * 23 % 64) / 768, (k * 29 % 61) / 300]
    P = P.astype(np.float32)
    return (P.reshape(n, 2, 3) if kind == "Segments" else P), per


def expected_items(kind, P, per, mats):
    """ (n, per, 3) projected vertices of each item """

    S = project(np.asarray(P).reshape(-1, 3), *mats)
    return S.reshape(-1, per, 3)


def match(items, S, kind):
    """ For each drawn item, the index of the item of S at its place """

    n = len(S)
    require(len(items) == n, f"{kind}: number of drawn items", got=len(items), want=n)
    order = []
    for it in items:
        if kind in ITEMS1:
            d = [np.abs(it["at"] - S[i, 0, :2]).max() for i in range(n)]
        else:
            V = it["vertices"]
            d = []
            for i in range(n):
                k = len(S[i])
                if len(V) < k or len(V) > k + 1:
                    d.append(np.inf)
                    continue
                e = np.abs(V[:k] - S[i, :, :2]).max()
                if len(V) == k + 1:                     # explicitly closed
                    e = max(e, np.abs(V[k] - S[i, 0, :2]).max())
                d.append(e)
        scale = 1 + np.abs(S[:, :, :2]).max()
        near = [i for i in range(n) if d[i] < 2e-4 * scale]
        require(near, f"{kind}: something is drawn where there is no item",
                at=it["at"] if it["at"] is not None else it["vertices"])
        order.append(near)
    # distinct places only
    return order


def unique_order(order):
    return [near[0] if len(near) == 1 else None for near in order]


def outline(t):
    """ Outline of a marker type, as it is drawn: centered, in the unit square """

    path = gsp.core.Marker.path(t)
    V = np.asarray(path.vertices, float)
    return V * 0.5 / np.abs(V).max(), path.codes


def check_outline(item, t, angle, label):
    V, codes = outline(t)
    a = np.radians(angle)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    label = f"{label}: type {t}, angle {angle}"
    same(item["vertices"], V @ R.T, label + ", outline", atol=1e-5)
    require(np.array_equal(item["path"].codes, codes), label + ", drawing commands")
