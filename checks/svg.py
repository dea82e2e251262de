"""
S01 SVG path data.
"""
import re
from lib.common import *
from lib.harness import oracle, st
from matplotlib.path import Path as MPath
from gsp.core.svg import svg_to_path

TS = np.linspace(0, 1, 9)
number = st.one_of(st.integers(-40, 40).map(lambda i: i / 4), st.integers(-12, 12).map(float))
point = st.tuples(number, number).map(list)
positive = st.integers(1, 40).map(lambda i: i / 4)
flags = st.fixed_dictionaries(dict(rel=st.booleans(), implicit=st.booleans()))
arc = st.tuples(positive, positive, st.integers(-12, 24).map(lambda i: i * 15), st.integers(0, 1),
                st.integers(0, 1), point).map(list)
commands = st.one_of(
    st.tuples(st.just("L"), flags, st.tuples(point).map(list)),
    st.tuples(st.just("H"), flags, st.tuples(number).map(list)),
    st.tuples(st.just("V"), flags, st.tuples(number).map(list)),
    st.tuples(st.just("C"), flags, st.tuples(point, point, point).map(list)),
    st.tuples(st.just("S"), flags, st.tuples(point, point).map(list)),
    st.tuples(st.just("S"), flags, st.tuples(point, point).map(list)),
    st.tuples(st.just("Q"), flags, st.tuples(point, point).map(list)),
    st.tuples(st.just("T"), flags, st.tuples(point).map(list)),
    st.tuples(st.just("T"), flags, st.tuples(point).map(list)),
    st.tuples(st.just("M"), flags, st.tuples(point).map(list)),
    st.tuples(st.just("Z"), flags, st.just([])))
commands = commands.map(list)
arcs = st.tuples(st.just("A"), flags, arc).map(list)
# Arcs without width or height are straight lines
flats = st.tuples(st.just("A"), flags, st.tuples(
    arc, st.sampled_from([(0, 1), (1, 0), (0, 0)])).map(
        lambda t: [t[0][0] * t[1][0], t[0][1] * t[1][1]] + t[0][2:])).map(list)
style = st.fixed_dictionaries(dict(
    seps=st.lists(st.integers(0, 5), min_size=4, max_size=12),
    fmts=st.lists(st.integers(0, 6), min_size=2, max_size=8), first=st.booleans(),
    z=st.booleans(), compact=st.sampled_from([0, 0, 1, 2, 3])))


def absolute(start, program):
    """ Absolute commands without shorthands: list of (letter, complex points or arc) """

    current = begin = complex(*start)
    out, last, control = [("M", [current])], "M", None
    for letter, _, a in program:
        if letter == "M":
            current = begin = complex(*a[0])
            out.append(("M", [current]))
        elif letter == "Z":
            out.append(("L", [begin]))
            out.append(("Z", []))
            current = begin
        elif letter == "H":
            current = complex(a[0], current.imag)
            out.append(("L", [current]))
        elif letter == "V":
            current = complex(current.real, a[0])
            out.append(("L", [current]))
        elif letter == "A":
            end = complex(*a[5])
            if not (a[0] and a[1]):
                out.append(("L", [end]))
            elif end != current:
                out.append(("A", [a, current, end]))
            current = end
        else:
            p = [complex(*q) for q in a]
            if letter == "S":
                p.insert(0, 2 * current - control if last in ("C", "S") else current)
            elif letter == "T":
                p.insert(0, 2 * current - control if last in ("Q", "T") else current)
            if letter in "CSQT":
                control = p[-2]
            current = p[-1]
            out.append(({"S": "C", "T": "Q"}.get(letter, letter), p))
        last = letter
    return out


def number_text(x, how):
    if x == int(x):
        n = int(x)
        return [str(n), f"{n}.0", f"{n * 10}e-1", f"+{n}" if n >= 0 else str(n), f"{n}.00",
                f"{n / 10:.1f}e+1", f"{n / 100:.2f}E+02"][how]
    s = [f"{x:g}", f"{x:.3f}", f"{x * 1000:.0f}e-3", f"{x:g}", f"{x / 100:.6f}E2",
         f"{x / 10:.5f}e+1", f"{x / 100:.6f}E+02"][how]
    if how == 3:
        s = s.replace("0.", ".", 1) if s.lstrip("-").startswith("0.") else s
    return s


def write(start, program, style):
    """ Text of a program """

    seps, fmts = style["seps"], style["fmts"]
    count = [0]
    text = []

    def token(s, first):
        k = count[0]
        count[0] += 1
        sep = [" ", ",", "  ", " , ", "\n", " "][seps[k % len(seps)]]
        if first:
            sep = ["", " ", "", "\t", "", "  "][seps[k % len(seps)]]
        elif s[0] in "+-" and seps[k % len(seps)] in (0, 5):
            sep = ""
        elif s[0] == "." and seps[k % len(seps)] in (0, 5) and re.search(
                r"[.eE][-+]?[0-9]*$", text[-1]):
            sep = ""                        # 1.5.5 or 1e2.5
        text.append(sep + s)

    def num(x, first=False):
        token(number_text(x, fmts[count[0] % len(fmts)]), first)
    text.append("m" if style["first"] else "M")
    num(start[0], True)
    num(start[1])
    current = begin = complex(*start)
    previous = "l" if style["first"] else "L"
    for letter, f, a in program:
        name = letter.lower() if f["rel"] else letter
        if letter == "Z":
            name = "z" if f["rel"] else "Z"
        implied = f["implicit"] and letter not in "MZ" and previous == name
        if not implied:
            text.append(["", " ", ""][seps[count[0] % len(seps)] % 3] + name)
        o = current if f["rel"] else 0
        state = not implied
        if letter == "H":
            num(a[0] - (o.real if f["rel"] else 0), state)
            current = complex(a[0], current.imag)
        elif letter == "V":
            num(a[0] - (o.imag if f["rel"] else 0), state)
            current = complex(current.real, a[0])
        elif letter == "A":
            num(a[0], state)
            num(a[1])
            num(a[2])
            # what follows a flag need not be separated from it
            compact = style.get("compact", 0)
            token(str(a[3]), False)
            if compact & 1:
                text.append(str(a[4]))
            else:
                token(str(a[4]), False)
            end = complex(*a[5]) - o
            if compact & 2:
                text.append(number_text(end.real, fmts[count[0] % len(fmts)]))
            else:
                num(end.real)
            num(end.imag)
            current = complex(*a[5])
        elif letter == "Z":
            current = begin
        else:
            for p in a:
                p = complex(*p) - o
                num(p.real, state)
                state = False
                num(p.imag)
            current = complex(*a[-1])
            if letter == "M":
                begin = current
        previous = {"M": "L", "m": "l", "Z": None, "z": None}.get(name, name)
    return "".join(text)


def bezier(points):
    p = np.array(points)
    while len(p.shape) == 1 or len(p) > 1:
        if p.ndim == 1:
            p = np.repeat(p[:, None], len(TS), 1)
        if len(p) == 1:
            break
        p = p[:-1] * (1 - TS) + p[1:] * TS
    return p[0]


def segments_of_program(out):
    """ Sampled segments (complex), None for a move; zero-length segments are dropped """

    segments, current = [], None
    for letter, p in out:
        if letter == "M":
            segments.append(("move", p[0]))
            current = p[0]
        elif letter == "Z":
            segments.append(("close", None))
        elif letter == "A":
            segments.append(("arc", p))
            current = p[2]
        else:
            q = [current] + p
            current = p[-1]
            if any(x != q[0] for x in q):
                segments.append(("curve", bezier(q)))
    return segments


def segments_of_path(path):
    """ Same thing from the codes and vertices of a path """

    V = path.vertices[:, 0] + 1j * path.vertices[:, 1]
    C = [MPath.MOVETO if c is None else int(c) for c in path.codes]
    require(len(V) == len(C), "one code per vertex", got=(len(V), len(C)))
    segments, current, begin, i = [], None, None, 0
    while i < len(C):
        c = C[i]
        if c == MPath.MOVETO:
            current = begin = V[i]
            segments.append(("move", current))
            i += 1
        elif c == MPath.CLOSEPOLY:
            segments.append(("close", None))
            current = begin
            i += 1
        else:
            n = {MPath.LINETO: 1, MPath.CURVE3: 2, MPath.CURVE4: 3}[c]
            require(C[i:i + n] == [c] * n, "incomplete curve", codes=C, i=i)
            q = [current] + list(V[i:i + n])
            current = q[-1]
            i += n
            if max(abs(x - q[0]) for x in q) > 1e-12:
                segments.append(("curve", bezier(q)))
    return segments


def extent(out):
    """ Extent of all the points of a program without arcs """

    P = np.array([q for letter, p in out for q in p])
    return min(P.real.min(), P.imag.min()), max(P.real.max(), P.imag.max())


def normalized(z, lo, hi):
    z = np.asarray(z)
    return (z.real - lo) / (hi - lo) - 0.5 - 1j * ((z.imag - lo) / (hi - lo) - 0.5)


@oracle("S01", "outline", st.fixed_dictionaries(dict(
        start=point, program=st.lists(st.one_of(commands, commands, commands, flats),
                                      min_size=1, max_size=10), style=style,
        times=st.sampled_from([1] * 39 + [30]))), 4000,
        60000, "a curve shorthand, a closed subpath or an implicit repetition", shards=2)
def s01_outline(case, ctx):
    """ points of lines and curves, against an independent interpreter """

    start, program = case["start"], case["program"] * case.get("times", 1)
    out = absolute(start, program)
    lo, hi = extent(out)
    if hi - lo < 0.5:
        return
    text = write(start, program, case["style"])
    path = svg_to_path(text)
    label = f"{text[:400]!r}"
    V = path.vertices * [1, -1]
    require(abs(V.min() + 0.5) < 1e-9 and abs(V.max() - 0.5) < 1e-9,
            f"{label}: not normalized", got=(V.min(), V.max()))
    want = [s for s in segments_of_program(out)]
    got = segments_of_path(path)
    # moves that come right after another move draw nothing
    require([k for k, _ in got] == [k for k, _ in want], f"{label}: kinds of segments",
            got=[k for k, _ in got], want=[k for k, _ in want])
    for i, ((kind, g), (_, w)) in enumerate(zip(got, want)):
        if kind == "close":
            continue
        w = normalized(w, lo, hi)
        require(np.abs(g - w).max() < 1e-8, f"{label}: segment {i}", got=g, want=w)
    letters = [p[0] for p in program]
    for l in letters:
        ctx.event(l)
    again = any(b[0] not in "MZ" and a[0] == "Z" for a, b in zip(program, program[1:]))
    if again:
        ctx.event("after closing")
    ctx.nontrivial(any(l in "STZ" for l in letters) or any(f["implicit"] for _, f, _ in program))


@oracle("S01", "notations", st.fixed_dictionaries(dict(
        start=point, program=st.lists(st.one_of(commands, commands, arcs), min_size=1,
                                      max_size=8),
        one=style, two=style, flip=st.lists(st.tuples(st.booleans(), st.booleans()), min_size=8,
                                            max_size=8))), 3000, 50000, "always", shards=2)
def s01_notations(case, ctx):
    """ the same outline in two notations """

    start, program = case["start"], case["program"]
    if len({tuple(start)} | {tuple(p) for _, _, a in program for p in a if isinstance(
            p, list)}) < 2:
        return
    # expand shorthands, change relative, implicit, separators, number formats
    other = []
    lines = absolute(start, [p for p in program])
    k = 1
    for (letter, f, a), (rel, implicit) in zip(program, case["flip"]):
        f = dict(rel=rel, implicit=implicit)
        if letter == "A":
            same_point = k >= len(lines) or lines[k][0] != "A" or \
                lines[k][1][2] != complex(*a[5]) or lines[k][1][0] is not a
            other.append([letter, f, a])
            k += 0 if same_point else 1
        elif letter == "Z":
            other.append([letter, f, a])
            k += 2
        else:
            name, p = lines[k]
            other.append([name, f, [[q.real, q.imag] for q in p]])
            k += 1
    one = write(start, program, case["one"])
    two = write(start, other, case["two"])
    try:
        A, B = svg_to_path(one), svg_to_path(two)
    except ZeroDivisionError:
        raise
    require(len(A.codes) == len(B.codes) and all(int(a) == int(b) for a, b in
                                                 zip(A.codes, B.codes)),
            f"{one!r} and {two!r}: codes", got=A.codes, want=B.codes)
    require(np.abs(A.vertices - B.vertices).max() < 1e-6, f"{one!r} and {two!r}: vertices",
            got=A.vertices, want=B.vertices)
    ctx.nontrivial()


@oracle("S01", "arcs", st.fixed_dictionaries(dict(
        start=point, arc=arc, rel=st.booleans(), style=style, end=point,
        scale=st.booleans(), frame=st.booleans(), signs=st.sampled_from(
            [[1, 1], [1, 1], [1, 1], [-1, 1], [1, -1], [-1, -1]]))), 3000, 50000,
        "radii that are large enough (not corrected)")
def s01_arcs(case, ctx):
    """ elliptic arcs: ends, ellipse, extent and direction """

    rx, ry, rotation, large, sweep, end = case["arc"]
    a, b = complex(*case["start"]), complex(*end)
    if a == b:
        return
    # A far frame of lines makes the normalization known
    # (the sign of radii is dropped)
    sx, sy = case.get("signs", [1, 1])
    program = [["A", dict(rel=case["rel"], implicit=False), [sx * rx, sy * ry] + case["arc"][2:]],
               ["L", dict(rel=False, implicit=False), [[4000.0, -4000.0]]],
               ["L", dict(rel=False, implicit=False), [[-4000.0, 4000.0]]]]
    text = write(case["start"], program, case["style"])
    path = svg_to_path(text)
    V = path.vertices[:, 0] - 1j * path.vertices[:, 1]
    V = V * 8000            # undo normalization, y is down
    if np.abs(np.r_[V.real, V.imag]).max() > 4000.001:
        fail("not normalized", text=text)
    codes = [int(c) for c in path.codes]
    require(codes[0] == MPath.MOVETO and abs(V[0] - a) < 1e-6, "start", got=V[0], want=a)
    require(codes[1] == MPath.LINETO and abs(V[1] - a) < 1e-4 * (1 + abs(a)),
            f"{text!r}: arc does not start at the current point", got=V[1], want=a)
    n = len(codes) - 4
    require(codes[-2:] == [MPath.LINETO] * 2 and codes[2:-2] == [MPath.CURVE4] * (len(codes) - 4)
            and n % 3 == 0, f"{text!r}: codes", got=codes)
    V = V[1:-2]
    require(abs(V[-1] - b) < 1e-4 * (1 + abs(b)), f"{text!r}: arc does not end at its end",
            got=V[-1], want=b)
    points = np.concatenate([bezier(V[i:i + 4]) for i in range(0, len(V) - 1, 3)])
    # In the frame of the ellipse it is a unit circle
    turn = np.exp(-1j * np.radians(rotation))

    def unit(z):
        z = z * turn
        return z.real / rx + 1j * z.imag / ry
    A, B = unit(a), unit(b)
    half = abs(A - B) / 2
    k = max(1.0, half)
    P = unit(points) / k
    A, B = A / k, B / k
    half = min(1.0, abs(A - B) / 2)
    middle, normal = (A + B) / 2, 1j * (B - A) / abs(B - A)
    # center is on the left (counter-clockwise in x right, y down frame of the numbers) if
    # large != sweep ... : an arc with positive angles turns from A to B around its center
    offset = np.sqrt(max(0.0, 1 - half * half))
    center = middle + normal * offset * (1 if large != sweep else -1)
    tol = 5e-4 if half < 0.999 else 3e-2
    r = np.abs(P - center)
    require(np.abs(r - 1).max() < tol + 1e-3, f"{text!r}: points are not on the ellipse",
            got=(r.min(), r.max()))
    # direction and extent
    angles = np.unwrap(np.angle(P - center))
    steps = np.diff(angles)
    require((steps > -1e-6).all() if sweep else (steps < 1e-6).all(),
            f"{text!r}: direction of the arc", sweep=sweep, got=(steps.min(), steps.max()))
    total = abs(angles[-1] - angles[0])
    want = 2 * np.arcsin(half)
    if large:
        want = 2 * np.pi - want
    require(abs(total - want) < (0.02 if half < 0.999 else 0.3), f"{text!r}: extent of the arc",
            got=total, want=want)
    ctx.event("corrected" if k > 1 else "free")
    ctx.event("large" if large else "small")
    ctx.nontrivial(k == 1)
