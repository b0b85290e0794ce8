"""Requests with and without a meaning (P20)."""
import copy, tempfile, traceback
from harness.common import *
from hypervehicle import Vehicle
from hypervehicle.components import Wing, CompositeComponent
from hypervehicle.components.swept import SweptComponent
from hypervehicle.components.polygon import Cube
from hypervehicle.geometry import path as hp, geometry as hg
from hypervehicle.geometry.surface import CoonsPatch, StructuredGrid
from hypervehicle.utilities import SensitivityStudy
from hypervehicle.generator import Generator

V = Vector3
A = [1.0, -2.0, 0.5]


def line():
    return hp.Line(V(0.0, 1.0, 2.0), V(3.0, 1.0, -1.0))


def patch():
    return CoonsPatch(p00=V(0.0, 0.0), p10=V(2.0, 0.0), p11=V(2.0, 1.0, 1.0), p01=V(0.0, 1.0))


def thing(x):
    return {
        "vector": lambda: V(1.0, 2.0, -3.0), "int": lambda: 3, "float": lambda: 0.5, "npfloat": lambda: np.float64(1.5), "npint": lambda: np.int64(2),
        "array": lambda: np.array([1.0, 2.0, 4.0]), "str": lambda: "north", "none": lambda: None, "list": lambda: [1.0, 2.0, 3.0], "tuple": lambda: (1.0, 2.0, 3.0),
        "dict": lambda: {"x": 1.0}, "line": line, "patch": patch, "points": lambda: [V(0.0, 0.0), V(1.0, 2.0), V(3.0, 0.0, 1.0)],
        "badpoints": lambda: [V(0.0, 0.0), "here", V(3.0, 0.0, 1.0)],
    }[x]()


def show(x):
    """an argument as it can be told apart from outside"""
    if isinstance(x, Vector3):
        return [np.asarray(c).tolist() for c in (x.x, x.y, x.z)]
    if isinstance(x, hp.Path):
        return [show(x(t)) for t in (0.0, 0.4, 1.0)]
    if isinstance(x, hg.ParametricSurface):
        return [show(x(r, s)) for r, s in ((0.0, 0.0), (0.3, 0.8), (1.0, 1.0))]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    return repr(x)


def do(e, args, f):
    before = show(args)
    _, e["err"] = attempt(f)
    after, bad = attempt(lambda: show(args))
    e["kept"] = not bad and before == after
    return e


OPS = ["v+", "v-", "v==", "dot", "line+", "patch+", "patch-", "v*", "v/", "v*=", "v/=", "Vector3", "Bezier", "SubRangedPath", "ReversedPath", "ArcLength"]
THINGS = ["vector", "int", "float", "npfloat", "npint", "array", "str", "none", "list", "tuple", "dict", "line", "patch", "points", "badpoints"]


def operand(g):
    w, x = g.pick(OPS), g.pick(THINGS)
    # a list of numbers makes a curve of points on an axis; what that should mean is left open
    if w == "Bezier" and x in ("list", "tuple", "array", "patch", "str", "dict"):
        x = g.pick(["points", "badpoints", "none", "int"])
    # vectors with list components are left open
    e = {"op": "operand", "with": w, "x": x}
    y = thing(x)
    v, l, p = V(*A), line(), patch()

    def inplace(n):
        u = V(*A)
        if n == "*":
            u *= y
        else:
            u /= y
        if not isinstance(u, Vector3):
            raise TypeError

    def evaluated(c):
        return c(0.25), c(1.0), c.length()

    f = {
        "v+": lambda: v + y, "v-": lambda: v - y, "v==": lambda: v == y, "dot": lambda: v.dot(y), "line+": lambda: l + y, "patch+": lambda: p + y, "patch-": lambda: p - y,
        "v*": lambda: v * y, "v/": lambda: v / y, "v*=": lambda: inplace("*"), "v/=": lambda: inplace("/"),
        "Vector3": lambda: V(y), "Bezier": lambda: hp.Bezier(y)(0.5), "SubRangedPath": lambda: evaluated(hg.SubRangedPath(y, 0.25, 0.75)),
        "ReversedPath": lambda: evaluated(hg.ReversedPath(y)), "ArcLength": lambda: evaluated(hp.ArcLengthParameterizedPath(y, n=5)),
    }[w]
    return do(e, [v, l, p, y], f)


def swept(g):
    n = g.pick([4, 4, 4, 3, 5])
    m = g.i(2, 4)
    d = g.pick([1, 2, 1024, 1 << 18])
    ring = [[2, 2], [8, 1], [9, 7], [3, 8], [1, 5]][:n]
    secs = []
    for k in range(m):
        p = [[k + 1, y + g.i(-1, 1), z + g.i(-1, 1)] for y, z in ring]
        secs.append([[list(p[i]), list(p[(i + 1) % n])] for i in range(n)])
    what = g.pick(["", "", "", "gap", "gap", "short", "turned", "turned all", "extra"])
    k = g.i(0, m - 1)
    if what == "gap":
        j, end, ax = g.i(0, n - 1), g.i(0, 1), g.i(0, 2)
        secs[k][j][end][ax] += g.pick([1, -1])
    elif what == "short":
        secs[k] = secs[k][:-1]
        if g.r.random() < 0.5:
            secs[k][-1][1] = list(secs[k][0][0])
    elif what == "turned":
        j = g.i(0, n - 1)
        secs[k][j] = secs[k][j][::-1]
    elif what == "turned all":
        secs[k] = [x[::-1] for x in secs[k][::-1]]
    elif what == "extra":
        secs[k][-1][1] = [k + 1, 0, 4]
        secs[k].append([[k + 1, 0, 4], list(secs[k][0][0])])
    re = [g.pick([1, 2, 2, 3]) for _ in range(max(n, 4))] if g.r.random() < 0.5 else []
    if re and g.r.random() < 0.5:
        re[2], re[3] = re[0], re[1]
    e = {"op": "swept", "secs": secs, "d": d, "close": g.r.random() < 0.6, "re": re}

    def make():
        def pt(p):
            return V(*[x / d for x in p])

        res = {**{f"e{i}": r for i, r in enumerate(re)}, "sweep": 2} if re else 2
        c = SweptComponent([[hp.Line(pt(a), pt(b)) for a, b in s] for s in secs], close_ends=e["close"], stl_resolution=res, verbosity=loud(e))
        c._multiprocess = False
        c.generate_patches()
        c.surface()

    return do(e, [], make)


def arc(g):
    c = [g.i(-2, 2) for _ in range(3)]
    u = [g.pick([1, -1, 2, -2, 0, 3]) for _ in range(3)]
    how = g.pick(["any", "turn", "turn", "turn", "same", "half", "other"])
    if how == "any":
        v = [g.i(-3, 3) for _ in range(3)]
    elif how == "same":
        v = list(u)
    elif how == "half":
        v = [-x for x in u]
    else:
        v = [x * g.pick([1, -1]) for x in u]
        g.r.shuffle(v)
        if how == "other":
            v[g.i(0, 2)] += g.pick([1, -1])
    d = g.pick([1, 2, 8])
    e = {"op": "arc", "c": c, "a": [x + y for x, y in zip(c, u)], "b": [x + y for x, y in zip(c, v)], "d": d, "by": g.pick(["call", "length"])}
    pts = [V(*[x / d for x in e[n]]) for n in ("a", "b", "c")]
    return do(e, pts, lambda: hp.Arc(*pts)(g.pick([0.0, 0.5, 1.0])) if e["by"] == "call" else hp.Arc(*pts).length())


def coons(g):
    corners = {"p00": V(0.0, 0.0), "p10": V(2.0, 0.0), "p11": V(2.0, 1.0, 1.0), "p01": V(0.0, 1.0)}
    edges = {"north": ("p01", "p11"), "east": ("p10", "p11"), "south": ("p00", "p10"), "west": ("p00", "p01")}
    names = g.pick([list(edges), list(corners), list(edges) + list(corners)])
    drop = g.pick([0, 0, 1, 1, 2, 4])
    given = [n for n in names if n not in g.r.sample(names, min(drop, len(names)))]
    args = {n: corners[n] if n in corners else hp.Line(*[corners[c] for c in edges[n]]) for n in given}
    # edges that do not meet: one end of one edge is off by a quarter
    gap = []
    if not drop and names == list(edges) and g.r.random() < 0.7:
        n, end, ax = g.pick(list(edges)), g.i(0, 1), g.pick("xyz")
        ends = [corners[c] + V(0.0, 0.0, 0.0) for c in edges[n]]
        ends[end] = ends[end] + V(**{**dict(x=0.0, y=0.0, z=0.0), ax: g.pick([0.25, -0.25, 2.0])})
        args[n] = hp.Line(*ends)
        gap = [n, end]
    return do({"op": "coons", "given": given, "gap": gap}, list(args.values()), lambda: CoonsPatch(**args)(0.5, 0.25))


def other(g):
    k = g.pick(["grid", "samples", "side", "side", "face", "curved", "sweep", "wing", "thin", "ready"])
    if k == "grid":
        what = g.pick(["patch", "patch", "patch", "line", "function"])
        s = {"patch": patch, "line": line, "function": lambda: (lambda r, s: V(r, s))}[what]()
        e = {"op": k, "what": what, "niv": g.i(-1, 4), "njv": g.i(-1, 4)}
        return do(e, [s] if what != "function" else [], lambda: StructuredGrid(s, niv=e["niv"], njv=e["njv"]))
    if k == "samples":
        e = {"op": k, "n": g.i(-2, 4)}
        l = line()
        return do(e, [l], lambda: hp.ArcLengthParameterizedPath(l, n=e["n"])(0.5))
    if k == "side":
        e = {"op": k, "of": g.pick(["ellipse", "flap", "mean flap"]), "side": g.pick(["top", "bot", "top", "bot", "Top", "left", "", "bottom"])}
        a, b = V(0.0, 0.0), V(0.0, 2.0)
        f = lambda x, y, z=None: V(0.0, 0.0, 0.25)
        te = hg.TrailingEdgePath(a, b, f)
        l = hp.Line(a, b)
        return do(e, [a, b], {
            "ellipse": lambda: hg.ElipsePath(centre=a, thickness=0.5, LE_width=0.25, side=e["side"])(0.5),
            "flap": lambda: hg.TrailingEdgePatch(A0=a, B0=b, TE_path=te, flap_length=0.5, flap_angle=0.1, side=e["side"])(0.5, 0.5),
            "mean flap": lambda: hg.MeanTrailingEdgePatch(l, TE_path=te, flap_length=0.5, flap_angle=0.1, side=e["side"])(0.5, 0.5),
        }[e["of"]])
    if k == "face":
        e = {"op": k, "of": g.pick(["cube", "sphere"]), "face": g.pick(["east", "west", "south", "north", "bottom", "top", "front", "", "East", "tops", "back"])}
        c = V(1.0, 2.0, 3.0)
        return do(e, [c], lambda: (hg.CubePatch if e["of"] == "cube" else hg.SpherePatch)(0.5, c, e["face"])(0.5, 0.25))
    if k == "curved":
        e = {"op": k, "fun": g.r.random() < 0.7, "dash": g.r.random() < 0.7, "dir": g.pick(["x", "y"])}
        p = patch()
        f = lambda x, y: 0.25 * x
        return do(e, [p], lambda: hg.CurvedPatch(p, direction=e["dir"], fun=f if e["fun"] else None, fun_dash=f if e["dash"] else None)(0.5, 0.5))
    if k == "sweep":
        at = [g.i(0, 1) for _ in range(g.i(2, 3))]
        at.sort()
        if len(set(at)) > 1 and len(at) > 2:
            at = [0, 1, 2]
        e = {"op": k, "at": at, "ax": g.pick(["x", "y", "z"])}

        def sec(x):
            n = {"x": (x, 0, 0), "y": (0, x, 0), "z": (0, 0, x)}[e["ax"]]
            c = {"x": ("y", "z"), "y": ("z", "x"), "z": ("x", "y")}[e["ax"]]
            def pt(a, b):
                v = dict(zip("xyz", n))
                v[c[0]], v[c[1]] = a, b
                return V(*[float(v[w]) for w in "xyz"])
            return CoonsPatch(p00=pt(0, 0), p10=pt(1, 0), p11=pt(1, 1), p01=pt(0, 1))

        secs = [sec(x) for x in at]
        return do(e, secs, lambda: hg.SweptPatch(secs, sweep_axis=e["ax"])(0.5, 0.5))
    if k in ("wing", "thin"):
        top, bot = (8, 8) if k == "wing" else (g.pick([0, 1, 8]), g.pick([0, 1, 8]))
        e = {"op": k, "line": g.pick(["Bezier", "bezier", "BEZIER", "line", "spline", ""]), "tail": g.pick(["FLAP", "FLAP", "FLAP", "flap", "NONE", ""])} if k == "wing" else {"op": k, "top": top, "bot": bot}
        kw = dict(Line_B0TT_TYPE=e["line"], tail_option=e["tail"]) if k == "wing" else {}
        pts = dict(A0=V(0.0, 0.0), A1=V(3.0, 0.0), TT=V(4.0, 0.0), B0=V(0.0, 2.0))
        le = hp.Bezier([V(0.0, 2.0), V(2.0, 2.0), V(4.0, 1.0), V(4.0, 0.0)])

        def make():
            c = Wing(
                Line_B0TT=le, t_B1=0.25, t_B2=0.75, top_tf=lambda x, y, z=None: V(0.0, 0.0, -top / 64), bot_tf=lambda x, y, z=None: V(0.0, 0.0, bot / 64),
                LE_wf=lambda r: 0.125, LE_type="custom", flap_length=0.25, flap_angle=0.0, close_wing=g.r.random() < 0.5, stl_resolution=1, verbosity=loud(e), **pts, **kw,
            )
            c._multiprocess = False
            c.generate_patches()

        return do(e, list(pts.values()) + [le], make)
    # results asked for before they exist
    e = {"op": k, "of": g.pick(["component", "vehicle", "study"]), "done": g.r.random() < 0.5}
    with tempfile.TemporaryDirectory() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            if e["of"] == "component":
                c = Cube(0.5, verbosity=loud(e))
                c._multiprocess = False
                if e["done"]:
                    c.generate_patches()
                return do(e, [], lambda: c.mesh)
            if e["of"] == "vehicle":
                c = Cube(0.5, verbosity=0)
                w = CompositeComponent(verbosity=loud(e))
                w._multiprocess = False
                w.add_component(c)
                v = Vehicle()
                v.add_component(w)
                if e["done"]:
                    attempt(v.generate)
                return do(e, [], lambda: v.to_stl(prefix="x") if g.r.random() < 0.5 else v.transform([("translate", V(1.0, 0.0, 0.0))]))

            class G(Generator):
                def create_instance(self):
                    v = Vehicle()
                    v.configure(name="v", verbosity=0)
                    w = CompositeComponent(verbosity=0)
                    w._multiprocess = False
                    w.add_component(Cube(self.a, verbosity=0))
                    v.add_component(w)
                    return v

                def __init__(self, **kw):
                    self.a = 0.5
                    super().__init__(**kw)

            st = SensitivityStudy(G, verbosity=loud(e))
            if e["done"]:
                attempt(lambda: st.dvdp({"a": 0.5}))
            return do(e, [], st.to_csv)
        finally:
            os.chdir(cwd)


def hist(seed):
    g = Gen(seed)
    try:
        return [g.pick([swept, arc, coons, operand, operand, other, other])(g) for _ in range(12)]
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]


def drive(path, seed, tier):
    n = 900 if tier == "quick" else 4000
    tr = Trace(path)
    for evs in pmap(hist, [seed * 100000 + k for k in range(n)]):
        tr.hist(evs)
    tr.close()
    return tr.n
