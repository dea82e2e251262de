"""
Scenes as data: strategies that generate a scene description (plain JSON) and a
builder that makes it with the matplotlib implementation.
"""
from lib.common import *
from hypothesis import strategies as st

CMAPS = ["magma", "viridis", "gray", "hot", "tab10", "RdBu"]


def grid(lo, hi, steps=32):
    """ Exactly representable floats """
    return st.integers(int(lo * steps), int(hi * steps)).map(lambda i: i / steps)


coord = grid(-0.9, 0.9)
channel = grid(0, 1, 8)
rgba = st.tuples(channel, channel, channel, grid(0.25, 1, 8)).map(list)


def floats_attr(lo, hi, steps=8):
    value = grid(lo, hi, steps)
    return st.one_of(
        st.fixed_dictionaries(dict(k=st.just("const"), v=value)),
        st.fixed_dictionaries(dict(k=st.just("const"), v=value)),
        st.fixed_dictionaries(dict(k=st.sampled_from(["list", "array", "tracked", "buffer"]),
                                   v=st.lists(value, min_size=8, max_size=8))),
        st.fixed_dictionaries(dict(k=st.sampled_from(["zexpr", "outexpr", "rampexpr"]),
                                   a=grid(1, 4, 2), b=value)))


colors_attr = st.one_of(
    st.fixed_dictionaries(dict(k=st.sampled_from(["list", "tuple", "Color"]), v=rgba)),
    st.fixed_dictionaries(dict(k=st.sampled_from(["array", "tracked", "buffer"]),
                               v=st.lists(rgba, min_size=8, max_size=8))),
    st.fixed_dictionaries(dict(k=st.sampled_from(["cmap-z", "cmap-out", "cmap-ramp"]),
                               name=st.sampled_from(CMAPS), key=st.sampled_from("xyz"),
                               lim=st.one_of(st.none(), st.tuples(
                                   grid(-1, 0.25), grid(0.5, 1)).map(list)))))

array_spec = st.fixed_dictionaries(dict(
    n=st.integers(1, 4).map(lambda n: 2 * n),
    vals=st.lists(coord, min_size=24, max_size=24),
    form=st.sampled_from(["tracked", "tracked", "plain", "buffer", "slice", "reversed",
                          "computed", "f64"])))

matrix_spec = st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(
    k=st.sampled_from(["translate", "scale", "rotate", "zrotate"]),
    v=st.tuples(grid(-.5, .5), grid(-.5, .5), grid(.5, 1)).map(list),
    form=st.sampled_from(["array", "array", "list", "Matrix", "transposed"]))))
proj_spec = st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(
    k=st.sampled_from(["ortho", "perspective"]), v=st.just([0.0, 0.0, 0.0]),
    form=st.sampled_from(["array", "list", "Matrix", "transposed"]))))

KINDS = ["Pixels", "Points", "Markers", "Segments", "Paths", "Polygons"]
visual_op = st.fixed_dictionaries(dict(
    op=st.just("visual"), kind=st.sampled_from(KINDS), array=st.integers(0, 5),
    size=floats_attr(20, 400, 1), width=floats_attr(0, 4), fill=colors_attr,
    line=colors_attr, types=st.one_of(st.integers(1, 12), st.lists(
        st.integers(1, 12), min_size=8, max_size=8)), angle=floats_attr(0, 90, 1),
    indices=st.sampled_from(["int", "int", "sizes", "sizes-array", "lists"]),
    offset=st.one_of(st.none(), st.none(), st.tuples(
        st.integers(-8, 8), st.integers(-8, 8)).map(list))))
render_op = st.fixed_dictionaries(dict(
    op=st.just("render"), visual=st.integers(0, 5), viewport=st.integers(0, 5),
    model=matrix_spec, view=matrix_spec, proj=proj_spec))
edit_op = st.fixed_dictionaries(dict(
    op=st.just("edit"), array=st.integers(0, 5), i=st.integers(0, 7),
    how=st.sampled_from(["item", "slice", "column", "iadd", "view", "all", "attr", "imul"]),
    v=st.lists(coord, min_size=3, max_size=3)))

viewport_spec = st.fixed_dictionaries(dict(
    canvas=st.integers(0, 1), unit=st.sampled_from(["int", "int", "float", "pixel", "none"]),
    x=st.integers(0, 30), y=st.integers(0, 30), w=st.integers(24, 70), h=st.integers(24, 70),
    color=st.fixed_dictionaries(dict(k=st.sampled_from(["list", "tuple", "Color"]), v=rgba))))
canvas_spec = st.fixed_dictionaries(dict(
    w=st.integers(40, 90), h=st.integers(40, 90), dpi=st.sampled_from([72.0, 100.0, 50.0]),
    measure=st.booleans().filter(bool) if False else st.sampled_from([False, False, True])))

scene = st.fixed_dictionaries(dict(
    canvases=st.lists(canvas_spec, min_size=1, max_size=2),
    viewports=st.lists(viewport_spec, min_size=1, max_size=3),
    arrays=st.lists(array_spec, min_size=1, max_size=3),
    ops=st.tuples(visual_op, st.lists(
        st.one_of(visual_op, render_op, render_op, edit_op, edit_op), max_size=7)).map(
            lambda t: [t[0]] + t[1])))


class Scene:

    def __init__(self, case, ctx=None):
        self.ctx = ctx
        self.core, self.visual = gsp_matplotlib.core, gsp_matplotlib.visual
        self.canvases, self.viewports, self.visuals, self.arrays = [], [], [], []
        self.attrs = []              # tracked attribute arrays
        self.snapshot_used = False   # some data is converted when saved
        self.edited = False
        for c in case["canvases"]:
            self.add_canvas(c)
        for v in case["viewports"]:
            self.add_viewport(v)
        for a in case["arrays"]:
            self.add_array(a)
        for op in case["ops"]:
            getattr(self, "op_" + op["op"])(op)
        # Something has to be drawn
        if not any(op["op"] == "render" for op in case["ops"]):
            self.visuals[0][0].render(self.viewports[0])
            self.visuals[0][1].append((self.viewports[0], {}))

    def event(self, name):
        if self.ctx is not None:
            self.ctx.event(name)

    def add_canvas(self, c):
        if c["measure"]:
            inch = gsp.transform.Inch()
            self.canvases.append(self.core.Canvas(
                (c["w"] / 32) * inch, (c["h"] / 32) * inch, 32.0))
        else:
            self.canvases.append(self.core.Canvas(c["w"], c["h"], c["dpi"]))

    def add_viewport(self, v):
        canvas = self.canvases[v["canvas"] % len(self.canvases)]
        x, y, w, h = v["x"], v["y"], v["w"], v["h"]
        if v["unit"] == "float":
            x, y, w, h = [q / 128 for q in (x, y, w, h)]
        elif v["unit"] == "pixel":
            pixel = gsp.transform.Pixel()
            x, y, w, h = x * pixel, y * pixel, 1.0 - min(w % 20 + x, int(canvas.size[0]) - 6) * pixel, h * pixel
        elif v["unit"] == "none":
            x, y, w, h = 0, 0, None, None
        self.viewports.append(self.core.Viewport(canvas, x, y, w, h, self.color(v["color"], 0)))

    def add_array(self, a):
        n = a["n"]
        values = np.array(a["vals"][:3 * n], np.float32).reshape(n, 3)
        form = a["form"]
        master = None
        if form == "tracked":
            P = glm.vec3(n)
            P[...] = values
            master = P
        elif form == "plain":
            P = values
        elif form == "f64":
            P = values.astype(np.float64)
        elif form == "buffer":
            P = self.core.Buffer(n, np.dtype((np.float32, (3,))), values.tobytes())
        elif form == "slice":
            master = glm.vec3(2 * n)
            master[...] = 0.5
            master[::2] = values
            P = master[::2]
        elif form == "reversed":
            master = glm.vec3(n)
            master[...] = values
            P = master[::-1]
        else:
            master = glm.vec3(n)
            master[...] = values
            P = master * 0.5 + 0.125
        self.event("array " + form)
        self.arrays.append(dict(P=P, master=master, form=form, n=n, values=values))

    # -- attributes ---------------------------------------------------------
    def color(self, spec, n, P=None):
        k = spec["k"]
        if k in ("list", "tuple", "Color"):
            v = spec["v"]
            return {"list": list, "tuple": tuple,
                    "Color": lambda v: gsp.core.Color(*v)}[k](v)
        if k in ("array", "tracked", "buffer"):
            v = np.array(spec["v"][:n], np.float32)
            if k == "array":
                return v
            if k == "buffer":
                return self.core.Buffer(n, np.dtype((np.float32, (4,))), v.tobytes())
            C = glm.vec4(n)
            C[...] = v
            self.attrs.append(C)
            return C
        lim = spec["lim"] or []
        cmap = gsp.transform.Colormap(spec["name"], *lim)
        if k == "cmap-z":
            return cmap(getattr(gsp.transform, spec["key"].upper())(P))
        if k == "cmap-out":
            self.event("just in time variable")
            return cmap(gsp.transform.Out("screen[positions]." + spec["key"]))
        return cmap(np.linspace(0, 1, n))

    def number(self, spec, n, P=None):
        k = spec["k"]
        if k == "const":
            return spec["v"]
        if k == "list":
            return list(spec["v"][:n])
        if k == "array":
            return np.array(spec["v"][:n])
        if k == "buffer":
            v = np.array(spec["v"][:n], np.float32)
            return self.core.Buffer(n, np.dtype(np.float32), v.tobytes())
        if k == "tracked":
            A = glm.float(n)
            A[...] = np.array(spec["v"][:n])
            self.attrs.append(A)
            return A
        a, b = spec["a"], spec["b"]
        if k == "zexpr":
            return (gsp.transform.Z(P) + 1.0) * a + b
        if k == "outexpr":
            self.event("just in time variable")
            return (gsp.transform.Out("screen[positions].xy") * 0.0 + a + b)[..., 0] \
                if False else gsp.transform.X(P) * 0.0 + (a + b)
        return a * gsp.transform.X(np.linspace(0, 1, n * 3).reshape(n, 3)) + b

    # -- operations ---------------------------------------------------------
    def op_visual(self, op):
        a = self.arrays[op["array"] % len(self.arrays)]
        P, n, kind = a["P"], a["n"], op["kind"]
        if a["form"] not in ("tracked", "buffer"):
            self.snapshot_used = True
        items = n
        flat = P
        if kind in ("Paths", "Polygons"):
            size = 2 if kind == "Paths" else max(2, n // 2)
            items = n // size
            if op["indices"] == "int":
                indices = size
            elif op["indices"] == "sizes":
                indices = [size] * items
            elif op["indices"] == "sizes-array":
                indices = np.array([size] * items, np.int32)
            else:
                indices = np.arange(n)[::-1].reshape(items, size).tolist()
                for row in indices[1::2]:           # some use a vertex twice
                    row.append(row[0])
        elif kind == "Segments":
            items = n // 2
            if isinstance(P, Object):
                P = self.core.Buffer(items, np.dtype((np.float32, (2, 3))),
                                     a["values"].tobytes())
            elif a["form"] == "tracked":
                P = P.reshape(-1, 2, 3)
                self.snapshot_used = True
            else:
                P = P.reshape(-1, 2, 3)
        grouped = kind in ("Paths", "Polygons", "Segments")

        def color(spec):
            if grouped and spec["k"] in ("cmap-z", "cmap-out"):
                spec = dict(spec, k="cmap-ramp")
            return self.color(spec, items, flat)

        def number(spec):
            if grouped and spec["k"] in ("zexpr", "outexpr", "rampexpr"):
                spec = dict(k="const", v=spec["b"])
            return self.number(spec, items, flat)
        if op["offset"] is not None and kind in ("Points", "Pixels") \
                and a["form"] in ("tracked", "plain", "f64") and False:
            pixel = gsp.transform.Pixel()
            P = P + tuple(op["offset"] + [0]) * pixel
        style, join = gsp.core.LineStyle.solid, gsp.core.LineJoin.round
        cap = gsp.core.LineCap.round
        V = self.visual
        if kind == "Pixels":
            v = V.Pixels(P, color(op["fill"]))
        elif kind == "Points":
            v = V.Points(P, number(op["size"]), color(op["fill"]), color(op["line"]),
                         number(op["width"]))
        elif kind == "Markers":
            t = op["types"]
            t = gsp.core.Marker(t) if isinstance(t, int) else t[:n]
            v = V.Markers(P, t, number(op["size"]), None, number(op["angle"]),
                          color(op["fill"]), color(op["line"]), number(op["width"]))
        elif kind == "Segments":
            v = V.Segments(P, cap, color(op["line"]), number(op["width"]))
        elif kind == "Paths":
            v = V.Paths(P, indices, color(op["line"]), number(op["width"]), style, join, cap)
        else:
            v = V.Polygons(P, indices, color(op["fill"]), color(op["line"]),
                           number(op["width"]), style, join)
        self.visuals.append((v, []))
        self.event(kind)

    def matrix(self, spec):
        if spec is None:
            return None
        x, y, z = spec["v"]
        with untracked():
            M = {"translate": lambda: glm.translate((x, y, z - 1)),
                 "scale": lambda: glm.scale((z, 1 - x, z)),
                 "rotate": lambda: glm.xrotate(90 * x) @ glm.yrotate(90 * y),
                 "zrotate": lambda: glm.zrotate(180 * x),
                 "ortho": lambda: glm.ortho(-1, 1, -1, 1, -10, 10),
                 "perspective": lambda: glm.perspective(40, 1, 1, 100)
                 @ glm.translate((0, 0, -4))}[spec["k"]]()
        if spec["form"] == "list":
            return M.tolist()
        if spec["form"] == "transposed":
            return np.ascontiguousarray(M.T).T
        if spec["form"] == "Matrix":
            return gsp.core.Matrix(M)
        return M

    def op_render(self, op):
        v, where = self.visuals[op["visual"] % len(self.visuals)]
        vp = self.viewports[op["viewport"] % len(self.viewports)]
        kwargs = {k: self.matrix(op[k]) for k in ("model", "view", "proj")}
        kwargs = {k: m for k, m in kwargs.items() if m is not None}
        v.render(vp, **kwargs)
        where.append((vp, kwargs))
        self.event("render")

    def op_edit(self, op):
        a = self.arrays[op["array"] % len(self.arrays)]
        v = op["v"]
        if op["how"] == "attr" and self.attrs:
            C = self.attrs[op["i"] % len(self.attrs)]
            C[op["i"] % len(C)] = abs(v[0])
            self.edited = True
            return
        if isinstance(a["P"], Object):
            data = np.array(v, np.float32).tobytes()
            a["P"].set_data(12 * (op["i"] % a["n"]), memoryview(data))
            self.edited = True
            self.event("buffer update")
            return
        M = a["master"]
        if M is None:
            return
        self.edited = True
        self.event("edit")
        i = op["i"] % len(M)
        how = op["how"]
        if how == "item":
            M[i] = v
        elif how == "slice":
            M[i:i + 2] = v
        elif how == "column":
            M[:, op["i"] % 3] = v[0]
        elif how == "iadd":
            M += v[0] / 4
        elif how == "imul":
            M *= 0.5
        elif how == "view":
            view = M[::2]
            view[i % len(view), 0] = v[1]
        else:
            M[...] = v

    def rerender(self):
        """ Draw the current state of everything that has been rendered """

        for v, where in self.visuals:
            done = []
            for vp, _ in where:
                if not any(vp is d for d in done):
                    done.append(vp)
                    v.render(vp)

    def images(self):
        return {int(c.id): np.array(c.render(None)) for c in self.canvases}
