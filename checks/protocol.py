"""Recording, type checks, queues, replay, save/load, dumps (synthetic protocol)."""
import collections, copy, enum, json, os, re, subprocess, sys, tempfile, shutil
from lib.harness import oracle
from lib.script import *
from lib.scene import Scene, scene
import gsp.io.text

Q = 500
T = 20000

flag_op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("record"), on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("readonly"), on=st.booleans())),
    st.just(dict(op="record", on=True)), st.just(dict(op="readonly", on=False)))


# ------------------------------------------------------------------- P01
@oracle("P01", "history", history([flag_op], 14), Q, T,
        "at least three commands recorded, among which a call with an object "
        "reference, a default or keyword argument")
def p01_history(case, ctx):
    LOG.clear()
    it = Interpreter(ctx)
    queue = active()
    on, readonly = True, False
    ids = []
    for op in case:
        if op["op"] == "record":
            on = op["on"]
            gsp.io.record(on)
        elif op["op"] == "readonly":
            readonly = op["on"]
            queue.readonly = readonly
        else:
            it.recording = on and not readonly
            it.step(op)
            if not it.recording:
                ctx.event("call with recording off")
        compare_commands(recorded(queue), it.expected, "recorded history")
        require(len(queue) == len(it.expected), "wrong queue length")
    ids = [int(c.id) for c in queue]
    require(all(a < b for a, b in zip(ids, ids[1:])),
            "command ids are not unique and increasing", ids=ids)
    stamps = [c.timestamp for c in queue]
    require(all(a <= b for a, b in zip(stamps, stamps[1:])), "timestamps go backward")
    text = json.dumps(case)
    ctx.nontrivial(len(queue) >= 3 and '"ref"' in text)


@oracle("P01", "object-defaults", st.fixed_dictionaries(dict(
        defaults=st.lists(st.sampled_from(["none", "object", "list"]), min_size=3, max_size=3),
        calls=st.lists(st.tuples(st.integers(0, 3), st.lists(st.booleans(), min_size=3, max_size=3),
                                 st.booleans()).map(list), min_size=1, max_size=5))),
        200, 3000, "an argument overrides a default that is an object")
def p01_object_defaults(case, ctx):
    """ parameters whose default value is an object, given in any way or omitted """

    with not_recording():
        pool = [Item(k) for k in range(7)]
    shared = [1, 2]
    d = [{"none": None, "object": pool[k], "list": shared if k else None}[kind]
         for k, kind in enumerate(case["defaults"])]

    class Pen(Object):
        @command("kit.Pen")
        def __init__(self, first: Item = d[0], second=d[1], third: Object | list = d[2]):
            Object.__init__(self)

        @command()
        def move(self, first=d[0], second: Item | list = d[1], third=d[2]):
            pass
    queue = active()
    pen = None
    for npos, given, new in case["calls"]:
        given = [k < npos or given[k] for k in range(3)]
        args = pool[3:3 + npos]
        kwargs = {name: pool[3 + k] for k, name in enumerate(("first", "second", "third"))
                  if k >= npos and given[k]}
        n = len(queue)
        if new or pen is None:
            pen, method = Pen(*args, **kwargs), "kit.Pen"
        else:
            pen.move(*args, **kwargs)
            method = "move"
        want = {name: norm(pool[3 + k] if given[k] else d[k])
                for k, name in enumerate(("first", "second", "third"))}
        require(len(queue) == n + 1, "a call records one command", got=len(queue) - n)
        compare_commands(recorded(queue)[n:], [["Pen", method, int(pen.id), want]],
                         "object as default")
        for k, name in enumerate(("first", "second", "third")):
            key = name + "(id)" if isinstance(want[name], list) and want[name][:1] == ["ref"] \
                else name
            require(key in queue[n].parameters, "name of a parameter that is a reference",
                    want=key, got=sorted(queue[n].parameters))
            ctx.nontrivial(given[k] and case["defaults"][k] == "object")


REAL = {
    # name: (constructor parameters, methods)
    "Canvas": "core.Canvas", "Viewport": "core.Viewport", "Buffer": "core.Buffer",
    "Points": "visual.Points", "Pixels": "visual.Pixels",
    "Segments": "visual.Segments", "Markers": "visual.Markers",
    "Paths": "visual.Paths", "Polygons": "visual.Polygons",
    "Colormap": "transform.Colormap", "Out": "transform.Out",
    "Accessor": "transform.Accessor", "X": "transform.X", "Pixel": "transform.Pixel",
}

color4 = st.lists(st.floats(0, 1, width=16), min_size=4, max_size=4)
real_op = st.fixed_dictionaries(dict(
    cls=st.sampled_from(sorted(REAL)), impl=st.booleans(),
    n=st.integers(1, 4).map(lambda n: 2 * n), kw=st.booleans(),
    i=st.integers(1, 200), f=st.floats(1, 50, width=16), color=color4,
    mats=st.lists(st.booleans(), min_size=3, max_size=3),
    optional=st.booleans(), vp=st.integers(0, 3)))


@oracle("P01", "real-classes", st.lists(real_op, min_size=1, max_size=6), 250, 6000,
        "at least one visual rendered")
def p01_real(case, ctx):
    """ Constructors and methods of the real classes: one command each """

    queue = active()
    with untracked():
        canvases = {False: gsp.core.Canvas(100, 100, 100.0),
                    True: gsp_matplotlib.core.Canvas(100, 100, 100.0)}
        viewports = {}
        for impl, mod in ((False, gsp.core), (True, gsp_matplotlib.core)):
            viewports[impl] = [mod.Viewport(canvases[impl], 0, 0, 50 + k, 60,
                                            gsp.core.Color(1, 1, 1, 1)) for k in range(2)]
    for op in case:
        impl = op["impl"]
        core, visual = ((gsp_matplotlib.core, gsp_matplotlib.visual) if impl
                        else (gsp.core, gsp.visual))
        name, n, f, i = op["cls"], op["n"], op["f"], op["i"]
        color = gsp.core.Color(*op["color"])
        transform = gsp.transform
        follow = []
        with untracked():
            P = np.linspace(-.5, .5, 3 * n).astype(np.float32).reshape(n, 3)
            with not_recording():
                buffer = core.Buffer(n, np.dtype((np.float32, (3,))), P.data)
        if name == "Canvas":
            cls, params = core.Canvas, dict(width=i, height=n, dpi=f)
        elif name == "Viewport":
            cls = core.Viewport
            params = dict(canvas=canvases[impl], x=i, y=n, width=f, height=i, color=color)
        elif name == "Buffer":
            cls = core.Buffer
            params = dict(count=n, dtype=np.dtype((np.float32, (3,))), data=bytes(P))
            follow = [("set_data", dict(offset=12, data=memoryview(b"\0" * 12)))]
        elif name == "Points":
            cls = visual.Points
            params = dict(positions=buffer, sizes=f, fill_colors=color, line_colors=color,
                          line_widths=f)
        elif name == "Pixels":
            cls, params = visual.Pixels, dict(positions=buffer, colors=color)
        elif name == "Segments":
            cls = visual.Segments
            with not_recording():
                pairs = core.Buffer(n // 2, np.dtype((np.float32, (2, 3))), P.data)
            params = dict(positions=pairs, line_caps=gsp.core.LineCap.round,
                          line_colors=color, line_widths=f)
        elif name == "Markers":
            cls = visual.Markers
            params = dict(positions=buffer, types=gsp.core.Marker.star, sizes=f, axis=None,
                          angles=f, fill_colors=color, line_colors=color, line_widths=f)
        elif name == "Paths":
            cls = visual.Paths
            params = dict(positions=buffer, indices=2, line_colors=color, line_widths=f,
                          line_styles=gsp.core.LineStyle.solid,
                          line_joins=gsp.core.LineJoin.round,
                          line_caps=gsp.core.LineCap.round)
        elif name == "Polygons":
            cls = visual.Polygons
            params = dict(positions=buffer, indices=2, fill_colors=color,
                          line_colors=color, line_widths=f,
                          line_styles=gsp.core.LineStyle.solid,
                          line_joins=gsp.core.LineJoin.round)
        elif name == "Colormap":
            cls = transform.Colormap
            params = dict(colormap="magma")
            if op["optional"]:
                params.update(vmin=f, vmax=f + 1)
            follow = [("set_colormap", dict(colormap="gray"))]
        elif name == "Out":
            cls, params = transform.Out, dict(name="screen[positions].z")
        elif name == "Accessor":
            cls, params = transform.Accessor, dict(buffer=buffer, key="x")
            follow = [("set_buffer", dict(buffer=buffer)), ("set_base", dict(base=None))]
        elif name == "X":
            cls = transform.X
            params = dict(buffer=buffer) if op["optional"] else {}
            follow = [("set_next", dict(next=None)), ("set_buffer", dict(buffer=f))]
        else:
            cls, params = transform.Pixel, {}
        mark = len(queue)
        if op["kw"]:
            obj = cls(**params)
        else:
            obj = cls(*params.values())
        expected = [(REAL[name], obj, dict(params))]
        if name in ("Points", "Pixels", "Segments", "Markers", "Paths", "Polygons"):
            M = [np.eye(4, dtype=np.float32) * (k + 1) for k in range(3)]
            kwargs = {k: M[j] for j, k in enumerate(("model", "view", "proj"))
                      if op["mats"][j]}
            v = viewports[impl][op["vp"] % 2]
            follow = [("render", dict(viewport=v, **kwargs))]
            ctx.nontrivial()
        for method, margs in follow:
            if op["kw"]:
                getattr(obj, method)(**margs)
            else:
                names = list(margs)
                if method == "render" and names != ["viewport", "model", "view", "proj"
                                                    ][:len(names)]:
                    getattr(obj, method)(margs["viewport"],
                                         **{k: v for k, v in margs.items() if k != "viewport"})
                else:
                    getattr(obj, method)(*margs.values())
            expected.append((method, obj, margs))
        got = list(queue)[mark:]
        ctx.event(name)
        require(len(got) == len(expected), "wrong number of commands", cls=name, impl=impl,
                got=[str(c) for c in got], want=[e[0] for e in expected])
        for c, (method, o, p) in zip(got, expected):
            what = f"{name}/{method}"
            require(c.methodname == method, f"{what}: wrong method recorded",
                    got=c.methodname)
            require(c.classname == name, f"{what}: wrong class recorded", got=c.classname)
            require(int(c.parameters["id"]) == int(o.id), f"{what}: wrong object id")
            rec = {strip(k): v for k, v in c.parameters.items() if k != "id"}
            want = dict(p)
            if name == "Colormap" and method == REAL[name]:
                want = dict(dict(vmin=None, vmax=None), **want)
            if name == "X" and method == REAL[name]:
                want = dict(dict(buffer=None), **want)
            if method == "render":
                want = dict(dict(model=None, view=None, proj=None), **want)
            require(set(rec) == set(want), f"{what}: wrong parameter names",
                    got=sorted(rec), want=sorted(want))
            for k, w in want.items():
                g = rec[k]
                if isinstance(w, Object):
                    require(isinstance(g, int) and int(g) == int(w.id),
                            f"{what}: wrong reference for {k}", got=g, want=w.id)
                    continue
                if callable(g):
                    g = g()
                if isinstance(w, np.ndarray):
                    same(plain(g), w, f"{what}: {k}")
                elif isinstance(w, (bytes, memoryview)):
                    require(bytes(g) == bytes(w), f"{what}: wrong content for {k}")
                else:
                    require(g == w, f"{what}: wrong value for {k}", got=g, want=w)


# ------------------------------------------------------------------- P02
VKINDS = ["int", "bool", "float", "npfloat", "str", "list", "tuple", "none",
          "src", "subsrc", "subsubsrc", "other", "token", "dict", "substr", "sublist",
          "subtuple", "subint"]
DECL = {"t_int": [int], "t_float": [float], "t_str": [str], "t_list": [list],
        "t_tuple": [tuple], "t_token": [Token], "t_union": [Token, int],
        "t_union3": [float, str, Token], "t_union5": [str, list, float, tuple, int],
        "t_src": [Src], "t_second": [Token]}


class SubStr(str):
    pass


class SubList(list):
    pass


Pair = collections.namedtuple("Pair", ["a", "b"])
Level = enum.IntEnum("Level", ["low", "mid", "high"], start=0)


def make_value(kind, k):
    return {"int": lambda: k, "bool": lambda: bool(k % 2), "float": lambda: k + .5,
            "npfloat": lambda: np.float64(k + .25), "str": lambda: f"s{k}",
            "list": lambda: [k, k + 1], "tuple": lambda: (k, k + 1), "none": lambda: None,
            "src": lambda: Src(k), "subsrc": lambda: SubSrc(k),
            "subsubsrc": lambda: SubSubSrc(k), "other": lambda: Other(k),
            "token": lambda: Token(k), "dict": lambda: {"k": k},
            "substr": lambda: SubStr(f"s{k}"), "sublist": lambda: SubList([k, k + 1]),
            "subtuple": lambda: Pair(k, k + 1), "subint": lambda: Level(k % 3)}[kind]()


SRC_NAMES = ["Src", "SubSrc", "SubSubSrc", "Other", "int", "str", "list", "float",
             "object", "*", "tuple", "dict"]
p02_case = st.fixed_dictionaries(dict(
    registered=st.lists(st.sampled_from(SRC_NAMES), unique=True, max_size=3),
    multi=st.booleans(),
    calls=st.lists(st.fixed_dictionaries(dict(
        method=st.sampled_from(sorted(DECL)), kind=st.sampled_from(VKINDS),
        k=st.integers(0, 50), kw=st.booleans(), mutate=st.booleans(),
        off=st.sampled_from([0, 0, 0, 1, 2]))), min_size=1, max_size=8)))


@oracle("P02", "typecheck", p02_case, 800, 30000,
        "at least one call rejected or one value converted")
def p02_typecheck(case, ctx):
    LOG.clear()
    calls = []

    def converter(value):
        calls.append(value)
        return Token(["conv", norm(value) if not isinstance(value, np.floating)
                      else float(value)])
    if case["multi"] and case["registered"]:
        gsp.io.register(tuple(case["registered"]), "Token")(converter)
    else:
        for name in case["registered"]:
            gsp.io.register(name, "Token")(converter)
    with not_recording():
        item = Item(1)
    LOG.clear()
    queue = active()
    expected = []
    for call in case["calls"]:
        value = make_value(call["kind"], call["k"])
        types_ = DECL[call["method"]]
        ok = value is None or isinstance(value, tuple(types_))
        convertible = []
        if not ok:
            names = [c.__name__ for c in type(value).__mro__] + ["*"]
            for t in types_:
                # an independent reading of the registry
                if any((n, t.__name__) in gsp.io.converters for n in names):
                    convertible.append(t)
        off = call["off"]
        if off == 1:
            gsp.io.record(False)
        elif off == 2:
            queue.readonly = True
        before, nlog = len(queue), len(calls)
        args = [1] if call["method"] == "t_second" else []
        func = getattr(item, call["method"])
        run = (lambda: func(*args, x=value)) if call["kw"] else (lambda: func(*args, value))
        if off == 1 or ok or convertible:
            try:
                run()
            except Exception as exc:
                fail(f"{call['method']} rejects a value it declares or can convert",
                     value=value, registered=case["registered"], exc=exc)
        else:
            raises(ValueError, run, f"{call['method']}({value!r}) with converters "
                   f"{case['registered']}")
            require(len(queue) == before, "a rejected call has been recorded")
            ctx.event("rejected")
            ctx.nontrivial()
        require(len(calls) == nlog, "conversion took place when the call was made",
                method=call["method"], value=value)
        if LOG:
            require(same_value(LOG[-1][3]["x"], norm(value)),
                    "implementation did not receive the original value",
                    got=LOG[-1][3]["x"], want=norm(value))
        gsp.io.record(True)
        queue.readonly = False
        if off == 0 and (ok or convertible):
            require(len(queue) == before + 1, "accepted call has not been recorded",
                    method=call["method"], value=value)
            if convertible and call["mutate"] and hasattr(value, "payload"):
                value.payload = -1 - call["k"]
                ctx.event("modified before conversion")
            expected.append((call["method"], value, ok, convertible))
        else:
            require(len(queue) == before, "call recorded while recording is off")
    require(len(queue) == len(expected), "wrong number of commands")
    # Replay: conversion happens now, and gives the declared type
    mark = len(LOG)
    queue.run(BACKEND)
    for (method, value, ok, convertible), entry in zip(expected, LOG[mark:]):
        got = entry[3]["x"]
        if ok:
            require(same_value(got, norm(value)), "value altered by recording",
                    method=method, got=got, want=value)
        elif convertible == [Token]:
            v = float(value) if isinstance(value, np.floating) else norm(value)
            require(same_value(got, ["token", ["conv", v]]),
                    "value has not been converted just in time", method=method, got=got,
                    want=v)
            ctx.event("converted to Token")
            ctx.nontrivial()
        else:
            ctx.event("converted")
            if convertible == [list]:
                require(isinstance(got, list) and got == list(value), "wrong conversion",
                        got=got, want=value)
    # ... and again for a dump
    n = len(calls)
    tokens = sum(c == [Token] for _, _, ok, c in expected if not ok)
    gsp.io.text.dump(queue)
    require(len(calls) >= n + tokens, "dump does not convert parameters")


@oracle("P02", "real-colors", st.fixed_dictionaries(dict(
        color=color4, kind=st.sampled_from(["list", "tuple", "Color", "str", "int", "dict",
                                            "short"]),
        target=st.sampled_from(["Viewport", "Points", "Pixels"]), change=st.booleans())),
        200, 3000, "color is not already a Color")
def p02_real(case, ctx):
    """ Colours given to real classes as lists and tuples """

    with untracked():
        canvas = gsp.core.Canvas(10, 10, 100.0)
        P = np.zeros((2, 3), np.float32)
        buf = gsp.core.Buffer(2, np.dtype((np.float32, (3,))), P.data)
    c = case["color"]
    value = {"list": list(c), "tuple": tuple(c), "Color": gsp.core.Color(*c), "str": "red",
             "int": 3, "dict": {}, "short": "0,0,0,1"}[case["kind"]]

    def make():
        if case["target"] == "Viewport":
            gsp.core.Viewport(canvas, 0, 0, 10, 10, value)
        elif case["target"] == "Pixels":
            gsp.visual.Pixels(buf, value)
        else:
            gsp.visual.Points(buf, 1.0, gsp.core.Color(0, 0, 0, 1), value, 1.0)
    queue = active()
    before = len(queue)
    if case["kind"] in ("str", "int", "dict", "short"):
        raises(ValueError, make, f"{case['target']} with color {value!r}")
        require(len(queue) == before, "a rejected call has been recorded")
        ctx.nontrivial()
        return
    make()
    require(len(queue) == before + 1, "call not recorded")
    if case["change"] and case["kind"] == "list":
        value[0] = c[0] = 0.125
    text = gsp.io.json.dump(queue)
    p = json.loads(text)["commands"][-1]["parameters"]
    key = {"Viewport": "color", "Points": "line_colors", "Pixels": "colors"}[case["target"]]
    require(list(p[key]) == list(c), "wrong color in command", got=p[key], want=c)
    ctx.nontrivial(case["kind"] != "Color")


# ------------------------------------------------------------------- P03
boom_op = st.fixed_dictionaries(dict(op=st.just("arm"), target=st.integers(0, 9)))


@oracle("P03", "replay", st.fixed_dictionaries(dict(
        ops=history((), 14), fail_at=st.one_of(st.none(), st.integers(0, 14)),
        tokens=st.lists(st.tuples(st.integers(0, 9), st.integers(0, 50), st.integers(51, 99)),
                        max_size=3),
        runs=st.integers(1, 3), fresh=st.booleans(), readonly=st.booleans(),
        register=st.lists(st.booleans(), min_size=3, max_size=3), twins=st.lists(st.booleans(), min_size=3, max_size=3),
        after=method_op)), Q, T,
        "three commands or more, one with a reference to an earlier object")
def p03_replay(case, ctx):
    LOG.clear()
    it = Interpreter(ctx)
    queue = active()
    for op in case["ops"]:
        it.step(op)
    sources = []
    gsp.io.register("Src", "Token")(lambda v: Token(v.payload))
    for target, payload, change in case["tokens"]:
        item = it.pick(target, Item)
        if item is not None:
            value = Src(payload)
            item.t_token(value)
            sources.append((value, change, len(it.expected)))
            it.expected.append([type(item).__name__, "t_token", int(item.id),
                                {"x": ["token", payload]}])
    before = recorded(queue)
    identity = [c for c in queue]
    originals = {int(o.id): o for o in it.objects}
    queue.readonly = case["readonly"]
    for run in range(case["runs"]):
        LOG.clear()
        if run == 1:
            # the values that are converted at run time are the current ones
            for value, change, index in sources:
                value.payload = change
                it.expected[index][3]["x"] = ["token", change]
                ctx.event("argument modified between two runs")
            before = recorded(queue)
        if case["fresh"]:
            Object.objects = {}
        else:
            Object.objects = dict(originals)
        USED.clear()
        # whether or not objects are registered when created
        Object.record = case["register"][run]
        try:
            queue.run(TWIN if case["twins"][run] else BACKEND)
        except Exception as exc:
            fail(f"run {run} raises {type(exc).__name__}: {exc}",
                 commands=[str(c) for c in queue])
        finally:
            Object.record = True
        log = [list(e) for e in LOG]
        # ... by the classes of the backend it is run on
        used = [m for _, m in USED]
        asked = [m for _, m, _, _ in it.expected if m != "__init__" and "." not in m]
        require(used == (asked if case["twins"][run] else []),
                f"run {run} does not use the backend it is given", got=used,
                want=asked if case["twins"][run] else [])
        if case["twins"][run]:
            ctx.event("second backend")
            require(all(type(e[1]) in TWINS.values() for e in log),
                    "objects of another backend")
        compare_log(log, it.expected, f"run {run}")
        # references designate the replayed objects, not the original ones
        made = {}
        for (cls, obj, method, local), (_, name, oid, _) in zip(log, it.expected):
            if method == "new":
                made[oid] = obj
                require(originals[oid] is not obj, "replay did not create an object")
            else:
                require(made[oid] is obj, "method called on another object", id=oid)
        for oid, obj in made.items():
            require(Object.objects.get(oid) is obj,
                    "replayed object is not registered under its id", id=oid)
            require(int(obj.id) == oid, "wrong id", got=obj.id, want=oid)
        require(queue.readonly == case["readonly"], "run changed the readonly flag")
        compare_commands(recorded(queue), before, "queue after run")
        require(all(a is b for a, b in zip(queue, identity)), "commands replaced by run")
    queue.readonly = False
    # A command that fails in the middle of a run
    if case["fail_at"] is not None:
        k = case["fail_at"] % (len(queue) + 1)
        bad = gsp.io.Command("Item", "attach", {"id": queue[0].parameters["id"],
                                                "thing": "boom"})
        saved = list(queue)
        queue.empty()
        for c in saved[:k]:
            queue.push(c)
        if saved[0].classname == "Plain" or k == 0:
            bad = gsp.io.Command("Nowhere", "__init__", {"id": OID(10**6)})
        queue.push(bad)
        for c in saved[k:]:
            queue.push(c)
        queue.readonly = case["readonly"]
        LOG.clear()
        Object.objects = {}
        try:
            queue.run(BACKEND)
        except Exception:
            pass
        else:
            fail("a failing command goes unnoticed", command=str(bad))
        ctx.event("failing command")
        require(queue.readonly == case["readonly"],
                "queue left read-only by a failing command")
        require([c for c in queue] == saved[:k] + [bad] + saved[k:],
                "queue altered by a failing run")
        compare_log([e for e in LOG if not (e[2] == "attach" and e[3]["thing"] == "boom")],
                    it.expected[:k], "calls before the failing command")
        queue.readonly = False
        # A command about an object that does not exist
        refs = [v[1] for _, _, _, params in it.expected for v in params.values()
                if isinstance(v, list) and len(v) == 2 and v[0] == "ref"]
        if refs:
            gone = refs[k % len(refs)]
            queue.empty()
            for c, (_, method, oid, _) in zip(saved, it.expected):
                if oid != gone or not (method == "__init__" or "." in method):
                    queue.push(c)
            Object.objects = {}
            try:
                queue.run(BACKEND)
            except Exception:
                pass
            else:
                fail("a reference to an object that does not exist goes unnoticed", id=gone)
            ctx.event("reference to nothing")
            queue.empty()
            for c in saved:
                queue.push(c)
    # Recording goes on after a run
    n = len(queue)
    it.expected = []
    if it.once(case["after"]) is not None:
        require(len(queue) == n + 1, "call made after a run is not recorded")
    ctx.nontrivial(n >= 3 and '"ref"' in json.dumps(case["ops"]))


import itertools
_serial = itertools.count()


# ------------------------------------------------------------------- P04
# Dates at which commands may have been issued (any hour, any day)
STAMPS = st.lists(st.integers(0, 2**51).map(lambda v: v / 2**20), max_size=8)


def date_commands(queue, stamps, ctx):
    for c, stamp in zip(queue, stamps):
        c.timestamp = stamp
        ctx.event("dated")


@oracle("P04", "save-load-run", st.fixed_dictionaries(dict(
        ops=history((), 12), cycles=st.integers(1, 3), api=st.sampled_from(
            ["gsp", "json", "json-queue", "dump", "format"]), fresh=st.booleans(),
        suffix=st.sampled_from([".json", ".txt", "", ".gsp", ".json.bak"]), junk=st.booleans(), stamps=STAMPS)), 350, 12000,
        "three commands or more with a reference to an earlier object")
def p04_roundtrip(case, ctx):
    LOG.clear()
    it = Interpreter(ctx)
    queue = active()
    for op in case["ops"]:
        it.step(op)
    date_commands(queue, case["stamps"], ctx)
    folder = tempfile.mkdtemp(prefix="verif-p04-")
    try:
        path = os.path.join(folder, "scene" + (
            case["suffix"] if case["api"] != "gsp" else ".json"))
        current = queue
        n = len(it.expected)
        stamps = [c.timestamp for c in queue]
        first = None
        for cycle in range(case["cycles"]):
            if case["api"] == "gsp":
                gsp.save(path)
            elif case["api"] == "format":
                gsp.save(path, format="json")
            elif case["api"] == "dump":
                text = gsp.io.json.dump(current)
                with open(path, "w") as f:
                    f.write(text)
            elif case["api"] == "json":
                gsp.io.json.save(path)
            else:
                gsp.io.json.save(path, current)
            require(len(current) == n, "saving modifies the queue")
            with open(path) as f:
                data = json.load(f)
            check_wire(data, it.expected, cycle, stamps)
            require(json.dumps(json.loads(gsp.io.json.dump(current))) == json.dumps(data),
                    "the text form of the dump is not what is written to the file")
            # Something else happens before loading
            if case["junk"]:
                with_junk(it)
            if case["fresh"] and case["api"] == "json-queue":
                target = gsp.io.queue(f"p04-{next(_serial)}")
                gsp.io.CommandQueue.active = active()
            else:
                target = active()
            if case["api"] == "json-queue":
                Object.objects = {}
                loaded = gsp.io.json.load(path, target)
            elif case["api"] == "gsp":
                loaded = gsp.load(path)
            elif case["api"] == "format":
                loaded = gsp.load(path, format="json")
            else:
                Object.objects = {}
                loaded = gsp.io.json.load(path)
            require(loaded is target, "load does not fill the requested queue")
            require(len(loaded) == n, "load gives another number of commands",
                    got=len(loaded), want=n)
            LOG.clear()
            Object.objects = {}
            try:
                loaded.run(BACKEND)
            except Exception as exc:
                fail(f"loaded queue cannot be run: {type(exc).__name__}: {exc}")
            compare_log(list(LOG), it.expected, f"run after {cycle + 1} save/load cycles")
            require(len(loaded) == n, "run altered the loaded queue")
            require(not loaded.readonly, "loaded queue is left read-only")
            current = loaded
    finally:
        shutil.rmtree(folder)
    ctx.nontrivial(n >= 3 and '"ref"' in json.dumps(case["ops"]))
    ctx.event(case["api"])


def with_junk(it):
    with not_recording():
        Item(99)


def check_wire(data, expected, cycle, stamps):
    commands = data["commands"]
    require(len(commands) == len(expected), "wrong number of commands in file",
            got=len(commands), want=len(expected))
    for i, (c, (cls, method, oid, params)) in enumerate(zip(commands, expected)):
        require(set(c) >= {"method", "id", "timestamp", "parameters"}, "incomplete command",
                got=sorted(c))
        name = method if "." in method else f"{cls}/{method}"
        if cycle == 0:
            require(c["method"] == name, f"file: command {i} has wrong method",
                    got=c["method"], want=name)
            require(abs(c["timestamp"] - stamps[i]) < 1e-6, "wrong timestamp")
        p = dict(c["parameters"])
        require(p.pop("id") == oid, f"file: command {i} has wrong object id")
        got = {}
        for k, v in p.items():
            got[strip(k)] = ["ref", v] if k.endswith("(id)") else v
        require(same_params(got, params), f"file: command {i} has wrong parameters",
                got=got, want=params)


@oracle("P04", "active-and-others", st.fixed_dictionaries(dict(
        a=history((), 5), b=history((), 5), which=st.integers(0, 3), emptied=st.booleans())), 150, 3000,
        "two non-empty queues")
def p04_queues(case, ctx):
    """ Saving a queue saves that queue; loading fills that queue only """

    LOG.clear()
    ita, itb = Interpreter(ctx), Interpreter(ctx)
    qa = active()
    for op in case["a"]:
        ita.step(op)
    qb = gsp.io.queue(f"p04-{next(_serial)}")
    for op in case["b"]:
        itb.step(op)
    qc = gsp.io.queue(f"p04-{next(_serial)}")      # active and empty
    folder = tempfile.mkdtemp(prefix="verif-p04-")
    try:
        path = os.path.join(folder, "q.json")
        w = case["which"]
        src, want = [(qa, ita.expected), (qb, itb.expected), (qc, []), (None, [])][w]
        gsp.io.json.save(path, src)
        with open(path) as f:
            data = json.load(f)
        check_wire(data, want, 0, [c.timestamp for c in (src if src is not None else qc)])
        # load in a queue that holds something else, or nothing
        if case["emptied"]:
            qa.empty()
        gsp.io.json.load(path, qa)
        require(active() is qc, "loading in a queue makes it active")
        require(len(qa) == len(want), "load does not replace the queue content")
        require(len(qc) == 0 and (len(qb) == len(itb.expected)),
                "loading altered another queue")
        LOG.clear()
        Object.objects = {}
        qa.run(BACKEND)
        compare_log(list(LOG), want, "run of the loaded queue")
    finally:
        shutil.rmtree(folder)
    ctx.nontrivial()


# Any text there is, lone surrogates included (but not two that make a pair)
ANY_TEXT = st.text(alphabet=st.characters(), max_size=6).filter(
    lambda t: t.encode("utf-16", "surrogatepass").decode("utf-16", "surrogatepass") == t)
NAMES = st.one_of(st.sampled_from(["a", "screen[positions].z", "", "\u00e9 \"x\"", "\ud83d",
                                   "\U0001f600", "\u2028\x00\r\n", "\\u0041"]), ANY_TEXT)

core_op = st.one_of(
    st.fixed_dictionaries(dict(
        op=st.just("buffer"), count=st.integers(0, 3), how=st.sampled_from(
            ["bytes", "memoryview", "none", "omitted", "bytes", "bytearray"]),
        dtype=st.sampled_from(["<f4", ">f4", "|u1", "<i8", "<f4::3", "<f4:a:1,<i4:b:2",
                               "<f8::4", ">f2:x:1"]), impl=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("set_data"), k=st.integers(0, 9),
                               size=st.integers(0, 2))),
    st.fixed_dictionaries(dict(op=st.just("canvas"), w=st.integers(0, 300),
                               h=st.integers(0, 300), dpi=st.floats(0, 400))),
    st.fixed_dictionaries(dict(op=st.just("colormap"), name=st.sampled_from(["magma", "gray"]),
                               lo=st.one_of(st.none(), st.just(0.0), st.floats(-9, 9)),
                               hi=st.one_of(st.none(), st.just(0.0), st.floats(-9, 9)))),
    st.fixed_dictionaries(dict(op=st.just("out"), name=NAMES)),
    st.fixed_dictionaries(dict(op=st.just("transform"), name=st.sampled_from(
        ["X", "Y", "Z", "R", "Pixel", "Inch"]), k=st.integers(0, 9), bound=st.booleans(),
        other=st.sampled_from(["add", "chain", "number"]))),
    st.fixed_dictionaries(dict(op=st.just("pixels"), k=st.integers(0, 9),
                               color=st.lists(st.floats(0, 1), min_size=4, max_size=4),
                               how=st.sampled_from(["Color", "list", "tuple", "buffer"]))))


def wire(value):
    """ What JSON holds for a value (None when it is not judged here) """

    import base64
    if isinstance(value, (memoryview, bytes, bytearray)):
        return base64.b64encode(bytes(value)).decode()
    if isinstance(value, gsp.core.Matrix):
        return None
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    if isinstance(value, (tuple, list)):
        return [wire(v) for v in value]
    return None


@oracle("P04", "library", st.fixed_dictionaries(dict(
        core=st.lists(core_op, max_size=8), scene=st.one_of(st.none(), scene),
        cycles=st.integers(1, 3), stamps=STAMPS)), 250, 8000,
        "an empty buffer, or a reference to an object of the library")
def p04_library(case, ctx):
    """ commands of the library's own classes: what is saved, what is loaded """

    queue = active()
    buffers, sources = [], []
    for op in case["core"]:
        kind = op["op"]
        if kind == "buffer":
            dtype = gsp.io.convert(op["dtype"], "dtype")
            data = bytes(k % 251 for k in range(op["count"] * dtype.itemsize))
            args = {"bytes": [data], "memoryview": [memoryview(data)], "none": [None],
                    "bytearray": [bytearray(data)[:]], "omitted": []}[op["how"]]
            if op["how"] == "bytearray":
                args = [memoryview(args[0])]
            if not op["count"] and args and args[0] is not None:
                ctx.event("empty buffer")
                ctx.nontrivial()
            core = gsp_matplotlib.core if op["impl"] and args and args[0] is not None \
                and op["count"] else gsp.core
            buffers.append(core.Buffer(op["count"], dtype, *args))
        elif kind == "set_data" and buffers:
            buffer = buffers[op["k"] % len(buffers)]
            if type(buffer).__module__.startswith("gsp."):
                buffer.set_data(0, memoryview(b"\1" * op["size"]))
        elif kind == "canvas":
            gsp.core.Canvas(op["w"], op["h"], op["dpi"])
        elif kind == "colormap":
            gsp.transform.Colormap(op["name"], op["lo"], op["hi"])
        elif kind == "out":
            sources.append(gsp.transform.Out(op["name"]))
        elif kind == "transform":
            t = getattr(gsp.transform, op["name"])()
            if op["bound"] and buffers:
                t = t(buffers[op["k"] % len(buffers)])
            if op["other"] == "number":
                t = t * 0.5 + 2
            elif op["other"] == "add" and sources:
                t = t + sources[op["k"] % len(sources)]
            sources.append(t)
        elif kind == "pixels" and buffers:
            c = op["color"]
            c = {"Color": lambda: gsp.core.Color(*c), "list": lambda: c,
                 "tuple": lambda: tuple(c),
                 "buffer": lambda: buffers[op["k"] % len(buffers)]}[op["how"]]()
            gsp.visual.Pixels(buffers[-1 - op["k"] % len(buffers)], c)
    if case["scene"] is not None:
        Scene(case["scene"], ctx)
    date_commands(queue, case["stamps"], ctx)
    commands = [c for c in queue]
    params = [dict(c.parameters) for c in commands]
    folder = tempfile.mkdtemp(prefix="verif-p04-")
    previous = None
    try:
        path = os.path.join(folder, "scene.json")
        current = queue
        for cycle in range(case["cycles"]):
            if cycle % 2:
                gsp.io.json.save(path, current)
            else:
                gsp.save(path)
            with open(path) as f:
                data = json.load(f)["commands"]
            if not any(callable(v) for p in params for v in p.values()):
                text = json.loads(gsp.io.json.dump(current))["commands"]
                require(json.dumps(text) == json.dumps(data), "the text form of the dump is not "
                        "what is written to the file")
            for c, p in zip(commands, params):
                require(set(p) == set(c.parameters) and all(c.parameters[k] is p[k] for k in p),
                        "saving modifies a command", command=str(c))
            if cycle == 0:
                judge_wire(data, commands, params, ctx)
            else:
                require([c["parameters"] for c in data] == previous,
                        "saving what has been loaded gives other parameters")
            previous = [c["parameters"] for c in data]
            loaded = gsp.load(path)
            require(loaded is active() and len(loaded) == len(data), "wrong number of commands "
                    "loaded", got=len(loaded), want=len(data))
            for c, d in zip(loaded, data):
                require(set(c.parameters) == set(d["parameters"]) and all(
                    type(v) is type(c.parameters[k]) and v == c.parameters[k] or
                    k == "id" and v == int(c.parameters[k])
                    for k, v in d["parameters"].items()), "loaded parameters", method=d["method"],
                    got=c.parameters, want=d["parameters"])
            current = loaded
            commands, params = [c for c in loaded], [dict(c.parameters) for c in loaded]
    finally:
        shutil.rmtree(folder)


WRITER = """
import os, sys
import gsp.io.json
from gsp import transform
texts, way, path = eval(sys.stdin.read())
for text in texts:
    transform.Out(text)
if way == "gsp":
    gsp.save(path)
elif way == "json":
    gsp.io.json.save(path)
else:
    data = gsp.io.json.dump()
    with open(path, "w") as f:
        f.write(data)
"""


@oracle("P04", "locale", st.fixed_dictionaries(dict(
        texts=st.lists(NAMES, min_size=1, max_size=6), way=st.sampled_from(["gsp", "json", "dump"]),
        locale=st.sampled_from(["C", "C", "C.UTF-8"]))), 16, 300,
        "saved where the encoding of files is not UTF-8")
def p04_locale(case, ctx):
    """ what is saved by a process of another locale """

    folder = tempfile.mkdtemp(prefix="verif-p04-")
    try:
        path = os.path.join(folder, "scene.json")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "PYTHON"))}
        env.update(LC_ALL=case["locale"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0",
                   PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=os.path.dirname(os.path.dirname(gsp.__file__)))
        done = subprocess.run([sys.executable, "-c", WRITER], env=env, cwd=folder,
                              input=ascii((case["texts"], case["way"], path)).encode(),
                              capture_output=True)
        require(done.returncode == 0, "cannot save in this locale",
                error=done.stderr.decode(errors="replace")[-300:])
        queue = gsp.load(path)
        require(len(queue) == len(case["texts"]), "wrong number of commands")
        for c, text in zip(queue, case["texts"]):
            require(text in c.parameters.values(), "text is not what has been saved",
                    got=ascii(c.parameters), want=ascii(text))
    finally:
        shutil.rmtree(folder)
    ctx.nontrivial(case["locale"] == "C")
    ctx.event(case["way"])


def judge_wire(data, commands, params, ctx):
    """ a file against the commands that have been recorded """

    at, known, made = 0, set(), set()
    for c, raw in zip(commands, params):
        # objects created by the conversion of arguments come first
        while at < len(data) and data[at]["id"] != int(c.id):
            d = data[at]
            require(d["id"] not in {int(o.id) for o in commands}, "commands are not in order")
            oid = d["parameters"]["id"]
            require(oid in made or oid not in known, "a command that has not been issued",
                    method=d["method"])
            known.add(oid)
            made.add(oid)
            at += 1
        require(at < len(data), "a command is missing", command=str(c))
        d = data[at]
        at += 1
        name = c.methodname if "." in c.methodname else f"{c.classname}/{c.methodname}"
        require(d["method"] == name, "wrong method", got=d["method"], want=name)
        require(abs(d["timestamp"] - c.timestamp) < 1e-6, "wrong timestamp")
        p = d["parameters"]
        require(type(p["id"]) is int and p["id"] == int(raw["id"]), "wrong object id")
        require({strip(k) for k in p} == {strip(k) for k in raw} and len(p) == len(raw),
                "names of the parameters", got=sorted(p), want=sorted(raw), method=name)
        for k, given in raw.items():
            if k == "id":
                continue
            if k.endswith("(id)"):
                require(k in p and type(p[k]) is int and p[k] == int(given), "wrong reference",
                        key=k, got=p, want=int(given), method=name)
                require(p[k] in known, "reference to an object that does not exist yet", key=k,
                        method=name)
                ctx.nontrivial()
            elif k + "(id)" in p:
                require(callable(given), "a value becomes a reference", key=k, method=name)
                require(p[k + "(id)"] in known, "reference to an object that does not exist yet",
                        key=k, method=name)
            elif isinstance(given, np.dtype):
                got = gsp.io.convert(p[k], "dtype")
                if len(given.shape) > 1:        # as as many numbers in a row
                    given = np.dtype((given.base, (int(np.prod(given.shape)),)))
                require(got == given, "wrong dtype", got=p[k], want=str(given), method=name)
            elif not callable(given) and wire(given) is not None or given is None:
                w = wire(given)
                require(k in p and p[k] == w and type(p[k]) is type(
                    w if not isinstance(w, (int, float, str)) else
                    next(t(w) for t in (bool, int, float, str) if isinstance(w, t))),
                    "wrong value", key=k, got=p.get(k), want=w, method=name)
        known.add(p["id"])
    require(at == len(data), "more commands than recorded", got=len(data))


# ------------------------------------------------------------------- P06
id_op = st.one_of(
    st.just(dict(op="new")), st.just(dict(op="new")),
    st.fixed_dictionaries(dict(op=st.just("setid"), k=st.integers(0, 9),
                               delta=st.one_of(st.integers(1, 40), st.sampled_from(
                                   [1000, 2 ** 31, 2 ** 32, 2 ** 40, 2 ** 53 + 1])))),
    st.fixed_dictionaries(dict(op=st.just("setid"), k=st.integers(0, 9),
                               delta=st.integers(1, 4))),
    st.fixed_dictionaries(dict(op=st.just("sameid"), k=st.integers(0, 9),
                               kind=st.sampled_from(["oid", "own", "new"]))),
    st.fixed_dictionaries(dict(op=st.just("run"), ahead=st.lists(
        st.integers(1, 8), min_size=1, max_size=3, unique=True))),
    st.fixed_dictionaries(dict(op=st.just("norecord"), on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("foreign"), k=st.integers(0, 9),
                               delta=st.integers(1, 9), take=st.booleans())))


@oracle("P06", "identity", st.lists(id_op, min_size=2, max_size=25), 600, 20000,
        "an object has been given an explicit or replayed id, and objects were "
        "created afterwards")
def p06_identity(case, ctx):
    model = {}
    unregistered = []
    imposed = created_after = False

    def check():
        ids = [int(o.id) for o in model.values()]
        require(len(set(ids)) == len(ids), "two objects have the same id", ids=sorted(ids))
        for oid, obj in model.items():
            require(int(obj.id) == oid, "an object's id changed by itself")
            require(Object.objects.get(oid) is obj, "object is not registered under its id",
                    id=oid, registered=sorted(int(k) for k in Object.objects))
        require({int(k) for k in Object.objects} == set(model),
                "registry holds unknown ids", got=sorted(int(k) for k in Object.objects),
                want=sorted(model))
    with not_recording():
        for op in case:
            if op["op"] == "new":
                o = Object()
                require(int(o.id) not in model, "a new object takes the id of another one",
                        id=int(o.id))
                if Object.record:
                    model[int(o.id)] = o
                    created_after |= imposed
                else:
                    unregistered.append(o)
            elif op["op"] == "setid" and model:
                old = sorted(model)[op["k"] % len(model)]
                top = max(model)
                new = top + op["delta"]
                o = model.pop(old)
                o.id = OID(new)
                model[new] = o
                imposed = True
                ctx.event("id set")
            elif op["op"] == "sameid" and model:
                # an object is given the id it has
                oid = sorted(model)[op["k"] % len(model)]
                o = model[oid]
                o.id = {"oid": OID(oid), "own": o.id, "new": OID(int(o.id))}[op["kind"]]
                ctx.event("same id set")
            elif op["op"] == "run":
                # replay commands that come from elsewhere, with ids just ahead of
                # the ones this process is about to hand out
                if not Object.record:
                    continue
                probe = Object()
                base = int(probe.id)
                model[base] = probe
                q = gsp.io.queue(f"p06-{next(_serial)}")
                made = []
                for a in op["ahead"]:
                    if base + a in model:
                        continue
                    q.push(gsp.io.Command("Plain", "__init__",
                                          {"id": base + a, "value": 1}))
                    made.append(base + a)
                q.run(BACKEND)
                for m in made:
                    require(m in Object.objects, "replayed object not registered", id=m)
                    model[m] = Object.objects[m]
                imposed = True
                ctx.event("replayed ids")
            elif op["op"] == "foreign" and unregistered:
                # an object that is not registered is given an id, possibly after a
                # registered one took the id it had
                o = unregistered[op["k"] % len(unregistered)]
                old = int(o.id)
                if op["take"] and model and old not in model:
                    oid = sorted(model)[op["k"] % len(model)]
                    other = model.pop(oid)
                    other.id = OID(old)
                    model[old] = other
                    imposed = True
                    check()
                o.id = OID(max([old] + list(model)) + op["delta"])
                ctx.event("unregistered object given an id")
            elif op["op"] == "norecord":
                Object.record = op["on"]
            check()
    ctx.nontrivial(imposed and created_after)


@oracle("P06", "load-then-create", st.fixed_dictionaries(dict(
        ops=history((), 8), shift=st.integers(-3, 6), more=history((), 8))), 250, 5000,
        "objects created after a replay")
def p06_load(case, ctx):
    """ Objects recorded elsewhere are replayed, then new ones are created """

    LOG.clear()
    it = Interpreter(ctx)
    queue = active()
    for op in case["ops"]:
        it.step(op)
    data = json.loads(gsp.io.json.dump(queue))
    with not_recording():
        next_id = int(Object().id) + 1
    # Ids of the file start close to the next id of this process
    ids = [int(o.id) for o in it.objects]
    offset = next_id - min(ids) + case["shift"]
    for c in data["commands"]:
        p = c["parameters"]
        for k in p:
            if k == "id" or k.endswith("(id)"):
                p[k] += offset
    folder = tempfile.mkdtemp(prefix="verif-p06-")
    try:
        path = os.path.join(folder, "q.json")
        with open(path, "w") as f:
            json.dump(data, f)
        q = gsp.load(path)
        q.run(BACKEND)
    finally:
        shutil.rmtree(folder)
    loaded = {i + offset: Object.objects[i + offset] for i in ids}
    require(len(Object.objects) == len(loaded), "registry holds something else",
            got=sorted(map(int, Object.objects)), want=sorted(loaded))
    it2 = Interpreter(ctx)
    it2.objects = list(loaded.values())
    n = len(it2.objects)
    for op in case["more"]:
        it2.step(op)
        for i, o in loaded.items():
            require(Object.objects.get(i) is o,
                    "creating objects disturbs the ones that were loaded", id=i)
    every = [int(o.id) for o in it2.objects]
    require(len(set(every)) == len(every), "two objects share an id", ids=sorted(every))
    ctx.nontrivial(len(it2.objects) > n)


# ------------------------------------------------------------------- P07
NAMES = ["default", "active", "a", "b", "c", None, "", "A", "a ", "Active", "\u00e9"]
q_op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("queue"), name=st.sampled_from(NAMES))),
    st.fixed_dictionaries(dict(op=st.just("queue"), name=st.sampled_from(NAMES))),
    st.just(dict(op="call")), st.just(dict(op="call")), st.just(dict(op="call")),
    st.fixed_dictionaries(dict(op=st.just("empty"), name=st.sampled_from(NAMES))),
    st.fixed_dictionaries(dict(op=st.just("readonly"), name=st.sampled_from(NAMES),
                               on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("push"), name=st.sampled_from(NAMES))),
    st.fixed_dictionaries(dict(op=st.just("record"), on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("activate"), name=st.sampled_from("abc"))),
    st.fixed_dictionaries(dict(op=st.just("failing"), name=st.sampled_from(NAMES))),
    st.fixed_dictionaries(dict(op=st.just("run"), name=st.sampled_from(NAMES))))


NAMELESS = []


@oracle("P07", "queues", st.lists(q_op, min_size=2, max_size=30), 800, 30000,
        "at least two queues hold commands, or a call met a read-only queue")
def p07_queues(case, ctx):
    serial = next(_serial)
    LOG.clear()

    def real(name):
        # the nameless queue is an ordinary one, which outlives this case
        return name if name in ("active", None, "") else f"p07-{serial}-{name}"
    for q in NAMELESS:
        q.readonly = False
        q.empty()

    class M:
        def __init__(self):
            self.commands, self.readonly = [], False
    models = {"main": M()}
    queues = {"main": active()}
    current = "main"
    recording = True
    with not_recording():
        item = Item(1)
    seen_readonly = False

    def get(name):
        nonlocal current
        q = gsp.io.queue(real(name))
        if name in ("active", None):
            require(q is queues[current], "'active' is not the active queue")
            return current
        if name in queues:
            require(q is queues[name], "a named queue is not unique", name=name)
        else:
            require(q not in queues.values(), "a new queue is an existing one", name=name)
            queues[name], models[name] = q, M()
            if name == "" and NAMELESS:
                require(q is NAMELESS[0], "a named queue is not unique", name=name)
                require(active() is queues[current], "getting a queue makes it active")
            else:
                current = name
            require(q.name == real(name), "wrong queue name", got=q.name)
            if name == "" and not NAMELESS:
                NAMELESS.append(q)
            ctx.event("created")
        return name

    for op in case:
        kind = op["op"]
        if kind == "queue":
            get(op["name"])
        elif kind == "call":
            m = models[current]
            item.touch()
            seen_readonly |= m.readonly
            if recording and not m.readonly:
                m.commands.append(None)          # identity filled in below
        elif kind == "empty":
            name = get(op["name"])
            r = queues[name].empty()
            require(r is queues[name], "empty() does not return the queue")
            models[name].commands = []
        elif kind == "readonly":
            name = get(op["name"])
            queues[name].readonly = models[name].readonly = op["on"]
        elif kind == "push":
            name = get(op["name"])
            c = gsp.io.Command("Item", "touch", {"id": item.id})
            ok = queues[name].push(c)
            require(bool(ok) == (not models[name].readonly), "push returns a wrong status",
                    got=ok)
            if not models[name].readonly:
                models[name].commands.append(c)
        elif kind == "record":
            gsp.io.record(op["on"])
            recording = op["on"]
        elif kind == "activate":
            if op["name"] in queues:
                gsp.io.CommandQueue.active = queues[op["name"]]
                current = op["name"]
        elif kind == "run":
            # Running a queue that is not the active one would be an ordinary
            # source of calls for the active queue: only the active one is run.
            get(op["name"])
            queues[current].run(BACKEND)
            ctx.event("run")
        elif kind == "failing":
            # running a queue whose only command fails
            q = queues[get(op["name"])]
            m = models[get(op["name"])]
            q.readonly = False
            q.empty()
            bad = gsp.io.Command("Nowhere", "__init__", {"id": 10 ** 7})
            q.push(bad)
            q.readonly, m.commands = m.readonly, [bad]
            try:
                q.run(BACKEND)
            except Exception:
                ctx.event("failing run")
            else:
                fail("a failing command goes unnoticed")
            q.empty()
            m.commands = []
        # observe everything
        for name, q in queues.items():
            m = models[name]
            require(len(q) == len(m.commands), f"queue {name!r} has wrong length after "
                    f"{kind}", got=len(q), want=len(m.commands))
            for i, want in enumerate(m.commands):
                if want is None:
                    c = q[i]
                    require(c.methodname == "touch" and int(c.parameters["id"]) ==
                            int(item.id), "wrong command recorded", got=str(c))
                    m.commands[i] = c
                else:
                    require(q[i] is want, "commands of a queue changed", name=name, i=i)
            require(bool(q.readonly) == m.readonly, "readonly flag changed", name=name)
            text = str(q)
            require(("not active" in text) == (name != current), "str(queue): active status",
                    got=text)
            require(("read-only" in text) == m.readonly, "str(queue): readonly", got=text)
            require(text.count("\n") == 1 + len(m.commands), "str(queue): commands listed",
                    got=text)
        require(active() is queues[current], "active queue changed", after=kind)
    filled = sum(bool(m.commands) for m in models.values())
    ctx.nontrivial(filled >= 2 or seen_readonly)


# ------------------------------------------------------------------- P08
class KA:
    pass


class KB(KA):
    pass


class KC(KB):
    pass


class KD(KA, list):
    pass


class KX(KA):
    pass


class KE(KC, KX):
    pass


class KF(KX, KC):
    pass


class KG(list, KC):
    pass


class Text(str):
    pass


KINST = {"KA": KA, "KB": KB, "KC": KC, "KD": KD, "KE": KE, "KF": KF, "KG": KG, "KX": KX, "int": lambda: 7, "str": lambda: "hello",
         "text": lambda: Text("hello"), "strip": lambda: " hello ", "cap": lambda: "Hello", "hell": lambda: "hell",
         "list": lambda: [1], "float": lambda: 1.5, "bool": lambda: True}
DST = ["Alpha", "Alphabet", "KA"]
SRCS = ["KA", "KB", "KC", "KD", "KX", "KE", "KF", "KG", "K", "int", "list", "object", "*", "hello", "hell", "str",
        "Hello", " hello "]
srcs = st.one_of(st.sampled_from(SRCS), st.sampled_from(SRCS[:4]), st.lists(
    st.sampled_from(SRCS), min_size=1, max_size=3, unique=True))
dsts = st.sampled_from(DST + DST[:1])
reg_op = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("register"), src=srcs, dst=dsts, tup=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("register"), src=srcs, dst=dsts, tup=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("unregister"), src=srcs, dst=dsts,
                               tup=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("convert"), value=st.sampled_from(
        sorted(KINST) + ["KE", "KF", "KG", "KC", "KD", "KB"]), dst=dsts, astype=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("convert"), value=st.sampled_from(
        sorted(KINST) + ["KE", "KF", "KG", "KC", "KD", "KB"]), dst=dsts, astype=st.booleans())))


@oracle("P08", "registry", st.lists(reg_op, min_size=2, max_size=20), 800, 30000,
        "at least one successful conversion through a base class or the wildcard, or "
        "a rejected registration")
def p08_registry(case, ctx):
    from gsp.io import register, unregister, convert
    from gsp.io.convert import get_converter
    registry = {}
    before = dict(gsp.io.converters)
    count = 0
    every = [dict(op="convert", value=v, dst=d, astype=False)
             for v in sorted(KINST) for d in DST]
    from gsp.io.convert import is_registered
    for op in case + every:
        if op["op"] in ("register", "unregister"):
            src = op["src"]
            if isinstance(src, list):
                names = src
                src = tuple(src) if op["tup"] else list(src)
            else:
                names = [src]
            keys = [(s, op["dst"]) for s in names]
        if op["op"] == "register":
            count += 1

            def func(value, tag=count):
                return ("converted", tag, value)
            clash = any(k in registry for k in keys)
            if clash:
                raises(TypeError, lambda: register(src, op["dst"])(func),
                       "registering a converter twice")
                ctx.nontrivial()
                ctx.event("duplicate")
                old = next(registry[k][1] for k in keys if k in registry)
                for name in [k[0] for k in keys if registry.get(k, (0, 0))[1] is old]:
                    raises(TypeError, lambda: register(name, op["dst"])(old),
                           "registering the same converter twice")
                # converters listed before the clashing one may be registered
                for k in keys:
                    if k in registry:
                        break
                    if k in gsp.io.converters:
                        registry[k] = (count, gsp.io.converters[k])
            else:
                r = register(src, op["dst"])(func)
                require(r is func, "register does not return the function")
                for k in keys:
                    registry[k] = (count, func)
        elif op["op"] == "unregister":
            unregister(src, op["dst"])
            for k in keys:
                registry.pop(k, None)
        else:
            value = KINST[op["value"]]()
            dst = KA if (op["astype"] and op["dst"] == "KA") else op["dst"]
            # a text that has its own converter, then the type, any type, the bases
            names = [value] if isinstance(value, str) else []
            names += [type(value).__name__, "*"]
            names += [b.__name__ for b in type(value).__mro__[1:]]
            found = None
            for n in names:
                if (n, op["dst"]) in registry:
                    found = registry[(n, op["dst"])]
                    break
            if found is None:
                raises(ValueError, lambda: convert(value, dst),
                       f"convert({op['value']}, {op['dst']}) with {sorted(registry)}")
                require(get_converter(value, dst) is None, "a converter is found",
                        value=op["value"], dst=op["dst"])
                ctx.event("no converter")
            else:
                got = convert(value, dst)
                require(isinstance(got, tuple) and got[:2] == ("converted", found[0])
                        and got[2] is value, "wrong converter used", value=op["value"],
                        dst=op["dst"], got=got, want=found[0], registry=sorted(registry))
                require(get_converter(value, dst) is found[1], "wrong converter found")
                several = sum((n, op["dst"]) in registry for n in set(names)) > 1
                ctx.event("several converters apply") if several else None
                if names[0] != next(n for n in names if (n, op["dst"]) in registry):
                    ctx.nontrivial()
                    ctx.event("indirect")
        now = {k: v for k, v in gsp.io.converters.items() if k not in before}
        require(set(now) == set(registry), "registry content", got=sorted(now),
                want=sorted(registry))
        if op["op"] != "convert":
            for s in SRCS:
                for d in DST:
                    require(bool(is_registered(s, d)) == ((s, d) in registry or
                            ("*", d) in registry), "is_registered", src=s, dst=d,
                            registry=sorted(registry))
        for k, v in before.items():
            require(gsp.io.converters.get(k) is v, "an unrelated converter changed", key=k)


@oracle("P08", "failing-conversion", st.fixed_dictionaries(dict(
        value=st.sampled_from(sorted(KINST)), exc=st.sampled_from(
            ["TypeError", "KeyError", "ZeroDivisionError", "ValueError", "IndexError"]))),
        60, 500, "always")
def p08_failing(case, ctx):
    value = KINST[case["value"]]()
    exc = __builtins__[case["exc"]] if isinstance(__builtins__, dict) \
        else getattr(__builtins__, case["exc"])

    def func(v):
        raise exc("no")
    gsp.io.register(type(value).__name__, "Delta")(func)
    raises(ValueError, lambda: gsp.io.convert(value, "Delta"), "a converter that fails")
    ctx.nontrivial()


@oracle("P08", "builtin-converters", st.fixed_dictionaries(dict(
        color=st.lists(st.floats(-2, 2, width=16), min_size=4, max_size=4),
        seq=st.lists(st.one_of(st.integers(-5, 5), st.text(max_size=2)), max_size=5),
        data=st.binary(max_size=24).map(bytes.hex), marker=st.integers(1, 12))), 200, 4000, "always")
def p08_builtin(case, ctx):
    """ Converters that come with the library keep the value """

    import base64
    convert = gsp.io.convert
    c = case["color"]
    for value in (list(c), tuple(c)):
        got = convert(value, "Color")
        require(type(got) is gsp.core.Color and tuple(got) == tuple(c),
                "sequence to Color", got=got, want=c)
        require((got.r, got.g, got.b, got.a) == tuple(c), "color channels", got=got)
    got = convert(gsp.core.Color(*c), "list")
    require(type(got) is list and got == list(c), "Color to list", got=got)
    got = convert(gsp.core.Color(*c), "tuple")
    require(isinstance(got, tuple) and got == tuple(c), "Color to tuple", got=got)
    s = case["seq"]
    require(convert(list(s), "tuple") == tuple(s), "list to tuple")
    got = convert(tuple(s), "list")
    require(type(got) is list and got == list(s), "tuple to list", got=got)
    data = bytes.fromhex(case["data"])
    text = base64.b64encode(data).decode()
    got = convert(text, "memoryview")
    require(isinstance(got, memoryview) and bytes(got) == data,
            "base64 text to memoryview", got=got)
    got = convert(case["marker"], "Marker")
    require(isinstance(got, gsp.core.Marker) and int(got) == case["marker"],
            "int to Marker", got=got)
    require(convert(None, "list") == [], "None to list")
    canvases = [gsp.core.Canvas(10 + i, 10, 100.0) for i in range(3)]
    for canvas in canvases:
        got = convert(int(canvas.id), "Canvas")
        require(got is canvas, "identifier to Canvas", got=got, want=canvas)
    ctx.nontrivial()


# ------------------------------------------------------------------- P10
ESC = re.compile("\033\\[[0-9;]*m")


def parse_text(text):
    """ -> list of (command id, method, object id, [parameter lines]) """

    out = []
    text = "\n" + ESC.sub("", text)
    parts = re.split(r"\n(\d+)\. COMMAND\n", text)
    require(parts[0].strip() == "", "text before the first command", got=parts[0])
    for cid, body in zip(parts[1::2], parts[2::2]):
        method = re.search(r'- METHOD: "(.*)" \(str\)\n', body)
        number = re.search(r"- COMMAND_ID: (\d+) \(int\)\n", body)
        oid = re.search(r"- OBJECT_ID: (\d+) \(int\)\n", body)
        stamp = re.search(r"- TIMESTAMP: (\S+) \(datetime\)\n", body)
        require(method and number and oid and stamp, "incomplete command", body=body)
        require(number.group(1) == cid, "two different command ids", body=body)
        rest = body[oid.end():]
        out.append((int(cid), method.group(1), int(oid.group(1)), rest, stamp.group(1)))
    return out


SAFE = st.sampled_from(["a", "b", "word", "kit.Item", "x y"])


@oracle("P10", "dump", st.fixed_dictionaries(dict(
        ops=history((), 10), fmt=st.sampled_from(["text", "ansi"]),
        via=st.sampled_from(["dump", "file", "save", "default"]),
        loaded=st.booleans(), converted=st.integers(0, 3), stamps=STAMPS,
        stale=st.sampled_from([0, 0, 1, 2000]), other=st.booleans(),
        again=st.lists(st.integers(0, 9), max_size=2))), 350, 10000,
        "three commands or more, one with a reference or a conversion")
def p10_dump(case, ctx):
    from datetime import datetime
    LOG.clear()
    calls = []
    gsp.io.register("Src", "Token")(lambda v: (calls.append(v), Token(v.payload))[1])
    it = Interpreter(ctx)
    for op in json.loads(json.dumps(case["ops"], ensure_ascii=True)):
        it.step(simplify(op))
    queue = active()
    date_commands(queue, case["stamps"], ctx)
    if case["loaded"]:
        folder = tempfile.mkdtemp(prefix="verif-p10-")
        try:
            path = os.path.join(folder, "q.json")
            gsp.io.json.save(path, queue)
            gsp.io.json.load(path, queue)
        finally:
            shutil.rmtree(folder)
        ctx.event("loaded queue")
    else:
        items = [o for o in it.objects if isinstance(o, Item)]
        for k in range(case["converted"] if items else 0):
            items[k % len(items)].t_second(k, Src(k))
            it.expected.append([type(items[k % len(items)]).__name__, "t_second",
                                int(items[k % len(items)].id),
                                {"w": k, "x": None, "z": "z"}])
            ctx.nontrivial()
    for k in case["again"]:               # a command may be pushed more than once
        k = k % len(queue)
        queue.push(queue[k])
        it.expected.append(it.expected[k])
        ctx.event("command pushed again")
    now = queue
    if case["other"] and case["via"] != "default":          # not the active queue
        now = gsp.io.queue("other")
        gsp.io.CommandQueue.active = now
        now.empty()
        if it.objects and isinstance(it.objects[0], Item):
            it.objects[0].touch()
        ctx.event("not the active queue")
    commands = [c for c in queue]
    params = [dict(c.parameters) for c in commands]
    objects = dict(Object.objects)
    mod = getattr(gsp.io, case["fmt"])
    if case["via"] == "dump":
        text = mod.dump(queue)
    elif case["via"] == "default":
        text = mod.dump()
    else:
        folder = tempfile.mkdtemp(prefix="verif-p10-")
        try:
            path = os.path.join(folder, "q.txt")
            if case["stale"]:               # a file already exists there
                with open(path, "w") as f:
                    f.write("previous content\n" * case["stale"])
            if case["via"] == "file":
                mod.dump(queue, path)
            else:
                mod.save(queue, path)
            with open(path) as f:
                text = f.read()
        finally:
            shutil.rmtree(folder)
    got = parse_text(text)
    require(len(got) == len(it.expected), "dump lists another number of commands",
            got=len(got), want=len(it.expected))
    for c, (cid, method, oid, rest, stamp), (cls, name, want_oid, want) in zip(
            commands, got, it.expected):
        require(cid == int(c.id), "wrong command id", got=cid, want=int(c.id))
        require(oid == want_oid, "wrong object id", got=oid, want=want_oid)
        if not case["loaded"]:
            full = name if "." in name else f"{cls}/{name}"
            require(method == full, "wrong method", got=method, want=full)
        date = datetime.fromtimestamp(c.timestamp).strftime("%Y-%m-%dT%H:%M:%S.%f")
        require(stamp == date, "wrong timestamp", got=stamp, want=date)
        for key, value in want.items():
            ref = isinstance(value, list) and value[:1] == ["ref"]
            label = key.upper() + ("_ID" if ref else "")
            line = re.search(rf"^     - {re.escape(label)}: (.*) \((.*)\)$", rest, re.M)
            require(line is not None, "parameter is not listed", key=label, text=rest,
                    command=method)
            if ref:
                require(line.group(1) == str(value[1]), "wrong reference",
                        got=line.group(1), want=value[1])
            elif isinstance(value, (int, float, str)):
                require(line.group(1) == str(value), f"wrong value for {label}",
                        got=line.group(1), want=str(value))
        require(rest.count("     - ") == len(want), "another number of parameters",
                text=rest, want=sorted(want))
    # No side effect
    require([c for c in queue] == commands, "dump altered the queue")
    for c, p in zip(commands, params):
        require(set(p) == set(c.parameters) and all(c.parameters[k] is p[k] for k in p),
                "dump altered a command", command=str(c))
    require(dict(Object.objects) == objects, "dump altered the registry of objects")
    require(active() is now and not now.readonly, "dump altered the active queue")
    n = len(now)
    if it.objects:
        it.objects[0].touch() if isinstance(it.objects[0], Item) else it.objects[0].poke()
        require(len(now) == n + 1, "recording stopped after a dump")
    n = len(it.expected)
    ctx.nontrivial(n >= 3 and '"ref"' in json.dumps(case["ops"]))


DECLARED = {"dpi": {"float"}, "count": {"int"}, "dtype": {"dtype"}, "name": {"str"},
            "data": {"memoryview", "bytes"}, "offset": {"int"}, "model": {"Matrix"},
            "positions": {"Transform", "Buffer"}, "line_widths": {"Transform", "Buffer", "float"},
            "line_colors": {"Transform", "Buffer", "Color"},
            "fill_colors": {"Transform", "Buffer", "Color"}, "viewport": {"Viewport"},
            "canvas": {"Canvas"}}


@oracle("P10", "scenes", st.fixed_dictionaries(dict(
        scene=scene, fmt=st.sampled_from(["text", "ansi"]), loaded=st.booleans())), 150, 3000,
        "a parameter that becomes a buffer, or a reference to a transform")
def p10_scenes(case, ctx):
    """ dumps of the commands of a whole scene """

    Scene(case["scene"], ctx)
    queue = active()
    if case["loaded"]:
        folder = tempfile.mkdtemp(prefix="verif-p10-")
        try:
            path = os.path.join(folder, "q.json")
            gsp.io.json.save(path, queue)
            queue = gsp.io.json.load(path, queue)
        finally:
            shutil.rmtree(folder)
    commands = [c for c in queue]
    params = [dict(c.parameters) for c in commands]
    before = dict(Object.objects)
    text = getattr(gsp.io, case["fmt"]).dump(queue)
    got = parse_text(text)
    require(len(got) == len(commands), "dump lists another number of commands",
            got=len(got), want=len(commands))
    for c, raw, (cid, method, oid, rest, _) in zip(commands, params, got):
        require(cid == int(c.id) and oid == int(raw["id"]), "wrong command or object",
                got=(cid, oid), want=(int(c.id), int(raw["id"])), command=str(c))
        keys = [k for k in raw if k != "id"]
        labels = [k[:-4].upper() + "_ID" if k.endswith("(id)") else k.upper() for k in keys]
        at = 0
        for n, (key, label) in enumerate(zip(keys, labels)):
            head = f"     - {label}: "
            start = rest.find(head, at)
            require(start >= 0, "parameter is not listed, or not in order", key=label, text=rest)
            start += len(head)
            at = rest.find(f"     - {labels[n + 1]}: ", start) if n + 1 < len(keys) else len(rest)
            shown = re.match(r"(.*) \(([^()]*)\)\n", rest[start:at], re.S)
            require(shown, "no type", key=label, text=rest)
            value, kind = shown.groups()
            given = raw[key]
            if key.endswith("(id)"):
                require(value == str(int(given)), "wrong reference", key=label, got=value,
                        want=int(given))
                ctx.nontrivial(isinstance(before.get(int(given)), gsp.transform.Transform))
            elif callable(given) and not isinstance(given, (int, str)):
                with not_recording():
                    final = given()
                if isinstance(final, Object):
                    require(value.isdigit(), "an argument that becomes an object is not shown "
                            "by its identifier", key=label, got=value, want=int(final.id))
                    if int(final.id) in before:         # the buffer of a tracked array
                        require(int(value) == int(final.id), "wrong identifier", key=label,
                                got=value, want=int(final.id))
                    ctx.nontrivial()
                elif type(final).__repr__ is not object.__repr__:
                    require(value.startswith(str(final)), "wrong converted value", key=label,
                            got=value, want=str(final))
            else:
                require(value == str(given), "wrong value", key=label, got=value,
                        want=str(given))
            name = key[:-4] if key.endswith("(id)") else key
            if not case["loaded"] and name in DECLARED:
                kinds = {k.strip().split(".")[-1] for k in kind.split("|")}
                require(kinds == DECLARED[name], "wrong type", key=label, got=kind,
                        want=DECLARED[name])
    require([c for c in queue] == commands, "dump altered the queue")
    for c, p in zip(commands, params):
        require(set(p) == set(c.parameters) and all(c.parameters[k] is p[k] for k in p),
                "dump altered a command", command=str(c))
    require(all(Object.objects.get(k) is v for k, v in before.items()),
            "dump altered the registry of objects")


ANNOTATIONS = {
    # what may be written in the declaration of a parameter -> types the dump shows
    "int": int, "float": float, "str": str, "bytes": bytes, "list": list, "tuple": tuple,
    "dict": dict, "Object": Object, "Item": Item, "ndarray": np.ndarray, "Token": Token,
    "bool": bool, "memoryview": memoryview}


@oracle("P10", "declared", st.fixed_dictionaries(dict(
        names=st.lists(st.lists(st.sampled_from(sorted(ANNOTATIONS)), min_size=1, max_size=6,
                                unique=True), min_size=1, max_size=4),
        none=st.lists(st.booleans(), min_size=4, max_size=4),
        default=st.booleans(), fmt=st.sampled_from(["text", "ansi"]))), 200, 5000,
        "a parameter declared with several types")
def p10_declared(case, ctx):
    """ every type a parameter is declared with is shown """

    import functools
    import operator
    keys = [f"p{k}" for k in range(len(case["names"]))]
    hints, wants = {}, []
    for key, names, none in zip(keys, case["names"], case["none"]):
        # written as the library does: A | B | C
        hint = functools.reduce(operator.or_, [ANNOTATIONS[n] for n in names] + [None] * none)
        want = set(names)
        hints[key] = hint
        wants.append(want)
    default = " = None" if case["default"] else ""
    scope = {"Object": Object}
    exec("def __init__(self, " + ", ".join(k + default for k in keys) + "):\n"
         "    Object.__init__(self)\n", scope)
    init = scope["__init__"]
    init.__annotations__ = dict(hints)
    Pen = type("Pen", (Object,), {"__init__": command("core.Pen")(init)})
    Pen(*[None] * len(keys))
    text = getattr(gsp.io, case["fmt"]).dump()
    got = parse_text(text)
    require(len(got) == 1, "one command expected", got=len(got))
    rest = got[0][3]
    for key, want in zip(keys, wants):
        line = re.search(rf"^     - {key.upper()}: None \((.*)\)$", rest, re.M)
        require(line is not None, "parameter is not listed", key=key, text=rest)
        kinds = {k.strip().split(".")[-1] for k in line.group(1).split("|")}
        # whether None shows up is a matter of layout
        require(kinds - {"NoneType", "None"} == want, "declared types", key=key,
                got=sorted(kinds), want=sorted(want))
        ctx.nontrivial(len(want) > 1)


def simplify(op):
    """ Keep text values on one line: the format does not escape them """

    op = dict(op)
    op["vals"] = ["".join(ch if 32 <= ord(ch) < 127 else "_" for ch in v)
                  if isinstance(v, str) else v for v in op["vals"]]
    op["vals"] = ["v" + v.strip() if isinstance(v, str) and v != "boom" else v
                  for v in op["vals"]]
    op["vals"] = [0 if isinstance(v, list) else v for v in op["vals"]] \
        if op["name"] == "attach" else op["vals"]
    if op["name"] == "update" and isinstance(op["vals"][2], list):
        op["vals"][2] = [1]
    return op
