"""Generation and interpretation of call histories over the synthetic protocol."""
import math
from lib.synth import *
from hypothesis import strategies as st

ints = st.one_of(st.integers(-3, 300), st.integers(-2**40, 2**40), st.booleans())
floats = st.one_of(st.floats(-100, 100, width=32),
                   st.floats(allow_nan=False, allow_infinity=False),
                   st.sampled_from([math.inf, -math.inf, math.nan]))
texts = st.one_of(st.sampled_from(["", "a", "boom", "x(id)", "id", "kit.Item", "é\u2192\n", "x" * 150,
                                    "two words " * 12]),
                  st.text(max_size=6))
lists = st.recursive(st.lists(st.one_of(st.integers(-9, 9), st.text(max_size=2)), max_size=4),
                     lambda s: st.lists(s, max_size=3), max_leaves=4)
refs = st.integers(0, 9).map(lambda k: {"ref": k})

VALUES = {
    "int": ints, "float": floats, "str": texts, "list": lists,
    "strint": st.one_of(texts, st.integers(-9, 9), st.none()),
    "number": st.one_of(st.integers(-9, 9), floats),
    "any": st.one_of(st.integers(-9, 9), floats, texts),
    "untyped": st.one_of(st.integers(-9, 9), texts, refs, st.none(), lists),
    "item": st.one_of(refs, refs, st.none()),
    "object": st.one_of(refs, refs, st.none()),
}


def call_of(name):
    spec = SPEC[name]
    return st.fixed_dictionaries(dict(
        name=st.just(name),
        vals=st.tuples(*[VALUES[t] for _, t, _ in spec]).map(list),
        npos=st.integers(0, len(spec)),
        given=st.lists(st.booleans(), min_size=len(spec), max_size=len(spec)),
        rev=st.booleans()))


new_op = st.sampled_from(["Item", "Item", "Special", "Plain", "Nested"]).flatmap(
    call_of).map(lambda c: dict(c, op="new"))
# now and then the same call is made many times in a row
many = st.integers(0, 149).map(lambda k: 120 if k == 149 else 1)
method_op = st.sampled_from(["update", "update", "move", "rename", "attach", "touch",
                             "poke", "poke"]).flatmap(call_of).flatmap(
    lambda c: st.tuples(st.integers(0, 9), many).map(
        lambda t: dict(c, op="call", target=t[0], times=t[1])))


def history(extra=(), max_size=12):
    op = st.one_of(new_op, method_op, method_op, *extra)
    return st.tuples(new_op, st.lists(op, max_size=max_size)).map(
        lambda t: [t[0]] + t[1])


class Interpreter:
    """
    Runs a history against the real decorator and keeps, independently, the list
    of commands that must have been recorded.
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.objects = []
        self.expected = []           # [classname, method, id, {param: norm value}]
        self.recording = True

    def pick(self, k, cls):
        pool = [o for o in self.objects if isinstance(o, cls)]
        return pool[k % len(pool)] if pool else None

    def resolve(self, value, kind):
        if isinstance(value, dict):
            return self.pick(value["ref"], Item if kind == "item" else Object)
        return value

    def arguments(self, op):
        """ -> (args, kwargs, expected parameters) """

        spec = SPEC[op["name"]]
        args, kwargs, expected = [], {}, {}
        for i, (name, kind, default) in enumerate(spec):
            value = self.resolve(op["vals"][i], kind)
            if i < op["npos"]:
                args.append(value)
            elif op["given"][i] or default == REQ:
                kwargs[name] = value
            else:
                value = default
                self.ctx.event("default used")
            expected[name] = norm(value)
        if op["rev"]:
            kwargs = dict(reversed(list(kwargs.items())))
        if kwargs:
            self.ctx.event("keyword argument")
        return args, kwargs, expected

    def step(self, op):
        for _ in range(op.get("times", 1)):
            entry = self.once(op)
        return entry

    def once(self, op):
        args, kwargs, expected = self.arguments(op)
        if op["op"] == "new":
            cls = CLASSES[op["name"]]
            obj = cls(*args, **kwargs)
            self.objects.append(obj)
            entry = [cls.__name__, CREATE[op["name"]], int(obj.id), expected]
        else:
            want = Plain if op["name"] == "poke" else Item
            obj = self.pick(op["target"], want)
            if obj is None:
                return None
            try:
                result = getattr(obj, op["name"])(*args, **kwargs)
            except Boom:
                self.ctx.event("method raised")
                return None
            want = {"move": lambda: tuple(expected[k] for k in ("x", "y")),
                    "update": lambda: expected["a"], "rename": lambda: expected["name"]}.get(
                        op["name"], lambda: None)()
            require(type(result) is type(want) and same_value(result, want),
                    "the result of a method is not the one of its implementation",
                    got=result, want=want)
            entry = [type(obj).__name__, op["name"], int(obj.id), expected]
        if self.recording:
            self.expected.append(entry)
        return entry


def strip(key):
    return key[:-4] if key.endswith("(id)") else key


def recorded(queue):
    """ Commands of a queue, in the same form as Interpreter.expected """

    out = []
    for c in queue:
        parameters = {}
        for key, value in c.parameters.items():
            if key == "id":
                continue
            ref = key.endswith("(id)")
            key = strip(key)
            if key in parameters:
                fail("a parameter is recorded twice", command=str(c), key=key)
            if callable(value) and not isinstance(value, Object):
                value = value()
            value = norm(value)
            if (ref or type(value) is OID) and not isinstance(value, list):
                value = ["ref", int(value)]
            parameters[key] = value
        out.append([c.classname, c.methodname, int(c.parameters["id"]), parameters])
    return out


def same_value(a, b):
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    return a == b or (a != a and b != b)


def same_params(a, b):
    return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)


def compare_commands(got, want, what):
    for i, (g, w) in enumerate(zip(got, want)):
        if g[:3] != w[:3]:
            fail(f"{what}: command {i} is not the expected one", got=g, want=w)
        if not same_params(g[3], w[3]):
            fail(f"{what}: command {i} has wrong parameters", got=g, want=w)
    require(len(got) == len(want), f"{what}: wrong number of commands",
            got=len(got), want=len(want), extra=got[len(want):], missing=want[len(got):])


def compare_log(log, want, what):
    """ log: what implementations received. want: expected commands """

    got = []
    for cls, obj, method, local in log:
        got.append([cls, method, int(obj.id), local])
    exp = []
    for cls, method, oid, params in want:
        create = method == "__init__" or "." in method
        # "Nested" has no constructor of its own: its creation command designates
        # the constructor of its base class
        if create and cls == "Nested":
            cls = "Special"
        exp.append([cls, "new" if create else method, oid, params])
    for i, (g, w) in enumerate(zip(got, exp)):
        if g[1] != w[1] or g[2] != w[2] or not same_params(g[3], w[3]):
            fail(f"{what}: call {i} differs", got=g, want=w)
    require(len(got) == len(exp), f"{what}: wrong number of calls",
            got=len(got), want=len(exp))
    return got
