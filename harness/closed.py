"""Meshes of whole components: closed, oriented, of the right volume (P06, P07)."""
from collections import defaultdict
import traceback
from harness.common import *
from hypervehicle import Vehicle
from hypervehicle.geometry import Line, Polyline, Bezier, Arc
from hypervehicle.components import SweptComponent, RevolvedComponent, CompositeComponent, Fin, Wing
from hypervehicle.components.common import uniform_thickness_function, OgiveNose
from hypervehicle.components.polygon import Cube, Sphere

V = Vector3
WELD = 1e-4


def weld(m):
    """merge coincident vertices; triangles of vertex numbers (from 1) and the vertices"""
    pts = m.vectors.reshape(-1, 3).astype(float)
    cell, reps, out = defaultdict(list), [], []
    for p in pts:
        q = np.floor(p / WELD).astype(int)
        f = None
        for d in np.ndindex(3, 3, 3):
            for r in cell.get((q[0] + d[0] - 1, q[1] + d[1] - 1, q[2] + d[2] - 1), ()):
                if np.max(np.abs(reps[r] - p)) <= WELD:
                    f = r
                    break
            if f is not None:
                break
        if f is None:
            f = len(reps)
            reps.append(p)
            cell[tuple(q)].append(f)
        out.append(f + 1)
    return np.array(out).reshape(-1, 3).tolist(), [[micro(c) for c in p] for p in reps]


def volume(m):
    return micro(m.get_mass_properties()[0])


# ---------------------------------------------------------------- bodies
def body(g, depth=1):
    k = g.pick(["cube", "box", "box", "sphere", "rev", "ogive"] + (["parts"] * 2 if depth else []))
    if k == "cube":
        # bodies at the origin are made without naming the centre
        return {"k": k, "a": g.pick([[1, 2], [1, 1], [3, 4]]), "c": [g.i(3, 5), g.i(3, 5), g.i(3, 5), 1] if g.r.random() < 0.8 else [0, 0, 0, 1]}
    if k == "sphere":
        return {"k": k, "r": g.pick([1, 2]), "c": [g.i(3, 5), g.i(3, 5), g.i(3, 5), 1] if g.r.random() < 0.8 else [0, 0, 0, 1]}
    if k == "box":
        q = g.pick([[(2, 2), (2, 5), (4, 5), (4, 2)], [(2, 2), (3, 5), (6, 6), (5, 3)], [(2, 2), (2, 4), (5, 6), (6, 3)], [(3, 2), (2, 3), (3, 4), (4, 3)]])
        if g.r.random() < 0.3:
            q = q[::-1]
        return {"k": k, "q": q, "d": g.pick([1, 2]), "x": g.i(1, 3), "len": g.i(2, 5), "sh": [g.i(-1, 1), g.i(-1, 1)], "mid": g.r.random() < 0.3}
    if k == "rev":
        pr = g.pick([[(1, 0), (2, 1), (4, 0)], [(1, 0), (1, 1), (3, 1), (3, 0)], [(1, 0), (2, 1), (3, 2), (4, 2), (5, 0)]])
        return {"k": k, "pr": pr, "how": g.pick(["poly", "bez"])}
    if k == "ogive":
        # r_o - r_n, r_o - h and the nose centre are the sides of a right triangle, in 1/den
        n, o, c, den = g.pick([(1, 6, 4, 2), (1, 6, 4, 4), (2, 12, 8, 8), (1, 14, 5, 8), (2, 7, 3, 4), (3, 28, 15, 16)])
        h = o - {4: 3, 8: 6, 5: 12, 3: 4, 15: 20}[c]
        return {"k": k, "n": n, "o": o, "c0": c, "h": h, "den": den, "L": g.i(1, 12)}
    return {"k": "parts", "p": [body(g, 0) for _ in range(g.i(1, 3))]}


def apart(b):
    """parts of a composite are moved apart"""
    return [V(0.0, 0.0, 0.0), V(0.0, 20.0, 0.0), V(0.0, 0.0, 30.0)]


def at(c):
    return dict(centre=vec(c)) if any(c[:3]) else {}


def make(b, res, per=None):
    """per: resolutions of the edges of the cross section, opposite ones being equal"""
    k = b["k"]
    kw = dict(stl_resolution=res, verbosity=loud(b))
    if per and k == "box":
        kw["stl_resolution"] = {"e0": per[0], "e1": per[1], "e2": per[0], "e3": per[1], "sweep": res}
    if k == "cube":
        c = Cube(q(b["a"]), **at(b["c"]), **kw)
    elif k == "sphere":
        c = Sphere(float(b["r"]), **at(b["c"]), **kw)
    elif k == "box":
        d = b["d"]
        def sec(x, t):
            pts = [V(x / d, (y + t * b["sh"][0]) / d, (z + t * b["sh"][1]) / d) for y, z in b["q"]]
            return [Line(p, r) for p, r in zip(pts, pts[1:] + pts[:1])]
        xs = [(b["x"], 0.0)] + ([(b["x"] + b["len"] / 2, 0.5)] if b["mid"] else []) + [(b["x"] + b["len"], 1.0)]
        c = SweptComponent([sec(*x) for x in xs], **kw)
    elif k == "rev":
        pts = [V(float(x), float(y)) for x, y in b["pr"]]
        if b["how"] == "bez":
            line = Bezier(pts)
        else:
            line = Polyline([Line(p, r) for p, r in zip(pts, pts[1:])])
        c = RevolvedComponent(line, **kw)
    elif k == "ogive":
        c = OgiveNose(h=b["h"] / b["den"], r_n=b["n"] / b["den"], r_o=b["o"] / b["den"], L_o=b["L"] / 4, stl_resolution=res, verbosity=loud(b))
    else:
        c = CompositeComponent(**kw)
        for p, o in zip(b["p"], apart(b)):
            c.add_component(make(p, res + 1), transformations=[("translate", o)])
    c._multiprocess = False
    return c


def motions(g):
    out = []
    for _ in range(g.i(0, 3)):
        if g.r.random() < 0.6:
            out.append(["rotate", g.pick([90, -90, 180, 30, 45, 17, -123, 250]), g.pick("xyz")])
        else:
            out.append(["translate", g.i(-4, 4), g.i(-4, 4), g.i(-4, 4)])
    return out


def as_ops(ms):
    return [("rotate", m[1], m[2]) if m[0] == "rotate" else ("translate", V(float(m[1]), float(m[2]), float(m[3]))) for m in ms]


def body_event(g):
    b = body(g)
    names = {b["k"]} | {p["k"] for p in b.get("p", [])}
    res = g.i(1, 4) if not names & {"sphere", "rev", "ogive"} else g.i(2, 4)
    if b["k"] == "parts":
        res = min(res, 2 if len(names) < 3 else 3)
    e = {"op": "body", "body": b, "res": res, "m": motions(g), "refl": g.pick(["", "", "", "rep", "app"]), "ax": "x", "via": g.pick(["comp", "vehicle"])}
    if names & {"rev", "ogive"}:
        e["ax"] = "x"
        if "ogive" in names:
            e["refl"] = e["refl"] and "rep"
    else:
        e["ax"] = g.pick("xyz")
    if e["refl"] and any(p.get("c", [1])[0] == 0 for p in [b] + b.get("p", [])):
        e["refl"] = ""
    if e["refl"] == "rep":
        e["via"] = "vehicle"
    if e["refl"]:
        e["kf"] = "reflect"
    e["per"] = [g.i(1, 4), g.i(1, 4)] if b["k"] == "box" and g.r.random() < 0.6 else []
    e["positive"] = not (names & {"box", "ogive", "parts"})

    def f():
        c0 = make(b, res)
        c0.generate_patches()
        if b["k"] == "ogive":
            # the outline, in thousandths
            p0 = list(c0.patches.values())[0]
            e["prof"] = [[int(round(1000 * x)) for x in (p.x, (p.y**2 + p.z**2) ** 0.5)] for p in (p0(t / 40, 0.3) for t in range(41))]
        v0 = volume(c0.mesh)
        w = c0.mesh.vectors.reshape(-1, 3)
        e["lo"], e["hi"] = [micro(x) for x in w.min(axis=0)], [micro(x) for x in w.max(axis=0)]
        c = make(b, res, e["per"])
        ops = as_ops(e["m"])
        if e["via"] == "vehicle":
            v = Vehicle()
            v.configure(name="v", verbosity=loud(b))
            if b["k"] in ("cube", "sphere"):
                w = CompositeComponent(stl_resolution=res, verbosity=loud(b))
                w._multiprocess = False
                w.add_component(c)
                c = w
            kw = dict(reflection_axis=e["ax"].upper() if ops else e["ax"], append_reflection=e["refl"] == "app") if e["refl"] else {}
            h = len(ops) // 2
            v.add_component(c, transformations=ops[:h], **kw)
            v.add_vehicle_transformations(ops[h:])
            v.generate()
        else:
            c.generate_patches()
            if e["refl"]:
                c.reflect(e["ax"])
            for o in ops:
                getattr(c, o[0])(*o[1:])
        return v0, c.mesh

    r, e["err"] = attempt(f)
    e["T"], e["vol"], e["vol0"] = [], NAN, NAN
    e.setdefault("prof", [])
    e.setdefault("lo", BADPT)
    e.setdefault("hi", BADPT)
    if not e["err"]:
        e["vol0"] = r[0]
        e["T"] = weld(r[1])[0]
        e["vol"] = volume(r[1])
    return e


# ---------------------------------------------------------- fins and wings
RA = {(1, 0, 1): 0.0, **ANG}


def some_width(g):
    return {"a": g.pick([[1, 50], [1, 10], [1, 20]]), "b": g.pick([[0, 1], [1, 20], [1, 10]]), "given": g.r.random() < 0.8}


def width(w):
    """The leading edge width as an argument, left out for the default one."""
    a, b = q(w["a"]), q(w["b"])
    return {"LE_wf": lambda t: a + b * t} if w["given"] else {}


def fin_event(g):
    h, x0, y0 = g.pick([[1, 2], [1, 1], [3, 2], [2, 1]]), g.i(-2, 2), g.i(0, 2)
    n = lambda x, y: [round(4 * x), round(4 * y), 0, 4]
    hh = q(h)
    d1, d2, d3, dy = g.pick([-0.5, 0.0, 0.25, 0.5]), g.pick([0.25, 0.5, 1.0]), g.pick([0.5, 0.75, 1.5]), g.pick([0.0, 0.0, 0.25, -0.25])
    e = {"op": "fin", "p": [n(x0, y0), n(x0 + d1, y0 + hh), n(x0 + d1 + d2, y0 + hh + dy), n(max(x0 + 0.25, x0 + d1 + d2) + d3, y0)]}
    e["th"] = g.pick([[1, 20], [1, 10], [1, 5]])
    e["w"] = some_width(g)
    e["sharp"] = g.r.random() < 0.5
    e["len"] = g.pick([[1, 10], [1, 5], [1, 2]])
    e["ra"] = g.pick([[1, 0, 1], [12, 5, 13], [12, -5, 13], [24, 7, 25]])
    e["fa"] = g.pick([[1, 0, 1], [0, 1, 1], [4, 3, 5], [-1, 0, 1], [4, -3, 5]])
    e["pa"] = g.pick([[1, 0, 1], [1, 0, 1], [12, 5, 13], [24, 7, 25]])
    e["pp"] = g.pick([[0, 0, 0, 1], [1, 0, 0, 2], [1, 1, 0, 1]])
    e["off"] = [g.shift()] if g.r.random() < 0.4 else []
    e["res"] = g.i(1, 3)
    th = q(e["th"])

    def f():
        kw = dict(rudder_type="sharp", rudder_length=q(e["len"]), rudder_angle=RA[tuple(e["ra"])]) if e["sharp"] else {}
        # settings that are the default ones are mostly left out
        if e["pa"] != [1, 0, 1] or e["res"] == 1:
            kw["pivot_angle"] = RA[tuple(e["pa"])]
        if e["pp"] != [0, 0, 0, 1]:
            kw["pivot_point"] = vec(e["pp"])
        if e["off"]:
            kw["offset_func"] = pfun(e["off"][0])
        c = Fin(
            p0=vec(e["p"][0]), p1=vec(e["p"][1]), p2=vec(e["p"][2]), p3=vec(e["p"][3]), fin_thickness=th, fin_angle=RA[tuple(e["fa"])],
            top_thickness_function=uniform_thickness_function(th, "top"), bot_thickness_function=uniform_thickness_function(th, "bot"),
            **width(e["w"]),
            stl_resolution=e["res"], verbosity=loud(e), **kw,
        )
        c._multiprocess = False
        c.generate_patches()
        return c.mesh

    return measure(e, f)


def wing_event(g):
    x0, L1, L2 = g.i(-1, 1), g.pick([0.5, 1.0]), g.pick([0.75, 1.0, 1.5])
    b = g.pick([0.75, 1.0, 1.5])
    dx = g.pick([0.0, 0.0, 0.25, -0.25])
    z0 = g.pick([0, 0, 0, 4, -8])  # the planform may lie above or below the plane z = 0
    n = lambda x, y: [round(8 * x), round(8 * y), z0, 8]
    A0, A1, TT, B0 = n(x0, 0), n(x0 + L1, 0), n(x0 + L1 + L2, 0), n(x0 + dx, b)
    kind = g.pick(["bez", "bez", "bez3", "line", "pyth"])
    e = {"op": "wing", "A0": A0, "A1": A1, "TT": TT, "nrm": []}
    if kind == "pyth":
        # leading edge with a rational normal
        sc, (a, c, hyp) = g.pick([2, 4]), g.pick([(4, 3, 5), (3, 4, 5), (12, 5, 13)])
        if hyp == 13:
            sc *= 2
        B0 = n(x0, c / sc)
        e["TT"] = n(x0 + a / sc, 0)
        e["A1"] = n(x0 + round(2 * a / sc) / 4, 0)
        e["A0"] = n(x0, 0)
        e["nrm"] = [c, a, hyp]
        e["line"] = {"k": "line", "p0": B0, "p1": e["TT"]}
    elif kind == "line":
        e["line"] = {"k": "line", "p0": B0, "p1": TT}
    elif kind == "bez3":
        e["line"] = {"k": "bez", "B": [B0, n(x0 + L1, b), TT]}
    else:
        e["line"] = {"k": "bez", "B": [B0, n(x0 + L1, b), n(x0 + L1 + L2, 0.5), TT]}
    e["B0"] = B0
    d = g.pick([10, 20])
    ax, ay, az = g.pick([0, 0, 1]), g.pick([0, 0, -1]), g.pick([0, 1]) if z0 else 0
    tb = g.pick([1, 1, 2])
    zero = [0, 0, 0, 0]
    # thickness 0.1 or 0.05 plus slopes
    e["top"] = {"m": [zero, zero, [-ax, -ay, -az, -5]], "d": 5 * d, "q": 0}
    e["bot"] = {"m": [zero, zero, [ax, ay, az, 5]], "d": 5 * d * tb, "q": 0}
    e["t1"] = g.pick([[], [], [3, 10], [3, 5], [1, 4]])
    e["t2"] = g.pick([[], [], [4, 5]])
    e["flat"] = g.r.random() < 0.2
    if e["flat"]:
        e["kf"] = "flat-leading-edge"
    e["w"] = some_width(g)
    e["len"] = g.pick([[1, 10], [1, 4]])
    e["fa"] = g.pick([[1, 0, 1], [12, 5, 13], [12, -5, 13]])
    e["close"] = g.r.random() < 0.7
    e["res"] = g.i(1, 3)

    def f():
        kw = {}
        if e["t1"] or e["res"] == 1:
            kw["t_B1"] = q(e["t1"]) if e["t1"] else None
        if e["t2"] or e["res"] == 1:
            kw["t_B2"] = q(e["t2"]) if e["t2"] else None
        if e["close"] or e["res"] == 1:
            kw["close_wing"] = e["close"]
        c = Wing(
            A0=vec(e["A0"]), A1=vec(e["A1"]), TT=vec(e["TT"]), B0=vec(e["B0"]), Line_B0TT=build_path(e["line"]),
            **kw, top_tf=pfun(e["top"]), bot_tf=pfun(e["bot"]),
            **width(e["w"]), **({"LE_type": "FLAT" if e["res"] % 2 else "flat"} if e["flat"] else {}), flap_length=q(e["len"]), flap_angle=RA[tuple(e["fa"])],
            stl_resolution=e["res"], verbosity=loud(e),
        )
        c._multiprocess = False
        c.generate_patches()
        return c.mesh

    return measure(e, f)


def measure(e, f):
    m, e["err"] = attempt(f)
    e["T"], e["V"], e["vol"] = [], [], NAN
    if not e["err"]:
        e["T"], e["V"] = weld(m)
        e["vol"] = volume(m)
    return e


def one(x):
    what, seed = x
    g = Gen(seed)
    try:
        return [globals()[what + "_event"](g)]
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]


def drive(path, seed, tier):
    tr = Trace(path)
    for evs in pmap(one, [("body", seed * 100000 + k) for k in range(500 if tier == "quick" else 4000)]):
        tr.hist(evs)
    tr.close()
    return tr.n


def drive_wings(path, seed, tier):
    n = 160 if tier == "quick" else 900
    tr = Trace(path)
    for evs in pmap(one, [("fin" if k % 2 else "wing", seed * 100000 + k) for k in range(n)]):
        tr.hist(evs)
    tr.close()
    return tr.n
