"""
A small synthetic protocol.

The classes below are declared exactly like the ones of GSP (with the public
`command` decorator).  They have every calling shape GSP uses: dotted creation
commands, plain creation commands, renamed commands, inherited constructors,
defaults, object references, unions, untyped parameters.  Every implementation
logs what it has really received, which makes them a measuring backend as well.
"""
import types
from lib.common import *
from gsp.io.command import command

LOG = []


class Boom(Exception):
    pass


class Token:
    """ Parameter type that only exists through conversion """

    def __init__(self, payload):
        self.payload = payload


class Src:
    def __init__(self, payload):
        self.payload = payload


class SubSrc(Src):
    pass


class SubSubSrc(SubSrc):
    pass


class Other:
    def __init__(self, payload):
        self.payload = payload


def norm(value):
    if isinstance(value, Object):
        return ["ref", int(value.id)]
    if isinstance(value, Token):
        return ["token", value.payload]
    if isinstance(value, (Src, Other)):
        return ["src", type(value).__name__, value.payload]
    if isinstance(value, tuple):
        return [norm(v) for v in value]
    if isinstance(value, list):
        return [norm(v) for v in value]
    return value


def note(self, method, local):
    local = {k: norm(v) for k, v in local.items()
             if k != "self" and not k.startswith("__")}
    LOG.append([type(self).__name__, self, method, local])


class Item(Object):

    @command("kit.Item")
    def __init__(self, a: int, b: float = 1.5, name: str = "x"):
        note(self, "new", locals())
        Object.__init__(self)

    @command()
    def update(self, a: int = 3, other: "Item" = None, values: list = None):
        note(self, "update", locals())
        total = a                       # a local variable
        return total

    @command()
    def move(self, x: int | float, y: int | float = 2):
        note(self, "move", locals())
        z = x
        return (x, y)

    @command("rename")
    def set_name(self, name: str):
        note(self, "rename", locals())
        return name

    rename = set_name

    @command()
    def attach(self, thing, note_="n"):
        note(self, "attach", locals())
        if thing == "boom":
            raise Boom()

    @command()
    def touch(self):
        note(self, "touch", locals())

    # For type checking
    @command()
    def t_int(self, x: int): note(self, "t_int", locals())
    @command()
    def t_float(self, x: float): note(self, "t_float", locals())
    @command()
    def t_str(self, x: str): note(self, "t_str", locals())
    @command()
    def t_list(self, x: list): note(self, "t_list", locals())
    @command()
    def t_tuple(self, x: tuple): note(self, "t_tuple", locals())
    @command()
    def t_token(self, x: Token): note(self, "t_token", locals())
    @command()
    def t_union(self, x: Token | int): note(self, "t_union", locals())
    @command()
    def t_union3(self, x: float | str | Token): note(self, "t_union3", locals())
    @command()
    def t_union5(self, x: str | list | float | tuple | int): note(self, "t_union5", locals())
    @command()
    def t_src(self, x: Src): note(self, "t_src", locals())
    @command()
    def t_second(self, w: int, x: Token, z: str = "z"): note(self, "t_second", locals())


class Special(Item):

    @command("kit.deep.Special")
    def __init__(self, grid: Item, size: int = 4, tid: str | int = None):
        note(self, "new", locals())
        mark = len(LOG)
        Item.__init__(self, 1, __no_command__=True)
        del LOG[mark:]


class Plain(Object):

    @command()
    def __init__(self, value: int | float | str, guid: Object = None):
        note(self, "new", locals())
        Object.__init__(self)

    @command()
    def poke(self, value: float = -0.5, valid: Item = None, idd: Object = None):
        note(self, "poke", locals())


class Nested(Special):
    """ Constructor is the one of the base class """


REQ = "__required__"
SPEC = {
    "Item": [("a", "int", REQ), ("b", "float", 1.5), ("name", "str", "x")],
    "Special": [("grid", "item", REQ), ("size", "int", 4), ("tid", "strint", None)],
    "Nested": [("grid", "item", REQ), ("size", "int", 4), ("tid", "strint", None)],
    "Plain": [("value", "any", REQ), ("guid", "object", None)],
    "update": [("a", "int", 3), ("other", "item", None), ("values", "list", None)],
    "move": [("x", "number", REQ), ("y", "number", 2)],
    "rename": [("name", "str", REQ)],
    "attach": [("thing", "untyped", REQ), ("note_", "str", "n")],
    "touch": [],
    "poke": [("value", "float", -0.5), ("valid", "item", None), ("idd", "object", None)],
}
CLASSES = {"Item": Item, "Special": Special, "Nested": Nested, "Plain": Plain}
CREATE = {"Item": "kit.Item", "Special": "kit.deep.Special",
          "Nested": "kit.deep.Special", "Plain": "__init__"}
METHODS = {"Item": ["update", "move", "rename", "attach", "touch"],
           "Plain": ["poke"]}
METHODS["Special"] = METHODS["Nested"] = METHODS["Item"]

BACKEND = types.SimpleNamespace(
    kit=types.SimpleNamespace(Item=Item, deep=types.SimpleNamespace(Special=Special)),
    Plain=Plain)


# A second backend: classes of the same names whose methods say they were used.
USED = []


def twin(cls):
    def wrap(method):
        def call(self, *args, **kwargs):
            USED.append([self, method])
            return getattr(cls, method)(self, *args, **kwargs)
        return call
    names = set(METHODS[cls.__name__])
    if issubclass(cls, Item):
        names.add("t_token")
    return type(cls.__name__, (cls,), {name: wrap(name) for name in sorted(names)})


TWINS = {name: twin(cls) for name, cls in CLASSES.items()}


def factory(name):
    """ A backend may build its objects with functions """

    def build(*args, **kwargs):
        return TWINS[name](*args, **kwargs)
    return build


TWIN = types.SimpleNamespace(
    kit=types.SimpleNamespace(Item=TWINS["Item"],
                              deep=types.SimpleNamespace(Special=factory("Special"))),
    Plain=factory("Plain"))
