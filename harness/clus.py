"""Clustering functions and structured grids (P15)."""
import traceback
from harness.common import *
from hypervehicle.geometry import path as hp
from hypervehicle.geometry.surface import CoonsPatch, StructuredGrid
from hypervehicle.geometry.vector import Vector3


def beta(f):
    """(beta + 1)/(beta - 1) = b^m"""
    if f["b"] == 0:
        return f["beta"]
    l = f["b"] ** f["m"]
    return (l + 1) / (l - 1)


def flag(g, x):
    return g.pick([bool(x), bool(x), x, np.bool_(x)])


def make(g, f):
    if f["k"] == "lin":
        return hp.LinearFunction()
    return hp.RobertsFunction(flag(g, f["e0"]), flag(g, f["e1"]), beta(f))


def fun(g, ms, small=False):
    if g.r.random() < 0.12:
        return {"k": "lin", "e0": 0, "e1": 0, "b": 0, "m": 1}
    f = {"k": "rob", "e0": g.i(0, 1), "e1": g.i(0, 1), "b": g.pick([2, 2, 3] if small else [2, 3, 4, 5, 0]), "m": g.pick(ms)}
    if f["b"] == 0:
        f["beta"] = g.pick([0, 0.5, -1.0, 0.999, 0.0])
    return f


def counts(f):
    """numbers of intervals all of whose points are rational"""
    if f["k"] == "lin" or f["b"] == 0 or not (f["e0"] or f["e1"]):
        return [1, 2, 3, 5, 8]
    ns = [n for n in range(1, f["m"] + 1) if f["m"] % n == 0]
    return ns + [2 * f["m"]] if f["e0"] and f["e1"] else ns


def micros(a):
    return [micro(x) for x in np.ravel(a)]


def call_event(g):
    f = fun(g, [1, 2, 3, 4])
    n = g.pick(counts(f))
    ks = [g.i(0, n) for _ in range(g.i(1, 6))]
    xs = [k / n for k in ks]
    how = g.pick(["scalar", "array", "grid"])
    e = {"op": "call", "f": f, "xs": [[k, n] for k in ks], "how": how, "kept": True}

    def go():
        c = make(g, f) if f["k"] == "lin" or g.r.random() < 0.7 else (lambda x: hp.clustered_roberts(x, flag(g, f["e0"]), flag(g, f["e1"]), beta(f)))
        if how == "scalar":
            return [micro(c(x)) for x in xs]
        a = np.array(xs) if how == "array" else np.array([xs, xs])
        b = a.copy()
        r = c(a)
        e["kept"] = bool(np.array_equal(a, b)) and np.shape(r) == a.shape
        if how == "grid" and micros(r[0]) != micros(r[1]):
            e["kept"] = False
        return micros(r)[: len(xs)]

    e["val"], e["err"] = attempt(go, [])
    return e


def points_event(g):
    f = fun(g, [1, 2, 3, 4])
    n = g.pick(counts(f))
    e = {"op": "points", "f": f, "n": n, "t1": [0, 1], "t2": [1, 1]}
    if f["k"] == "lin" or g.r.random() < 0.4:
        go = lambda: make(g, f).distribute_parameter_values(n + 1)
    else:
        a, b = g.pick([(0, 1), (-2, 3), (3, -2), (1, 1), (0, 9), (5, 7)])
        e["t1"], e["t2"] = [a, 2], [b, 2]
        go = lambda: hp.distribute_points(a / 2, b / 2, n, flag(g, f["e0"]), flag(g, f["e1"]), beta(f))
    r, e["err"] = attempt(go, [])
    e["val"] = micros(r)
    return e


def laws_event(g):
    b = g.pick([1.01, 1.025, 1.1, 1.3, 2.0, 7.5, 100.0])
    e0, e1 = g.pick([(0, 1), (1, 0), (1, 1)])
    n = g.i(2, 24)
    e = {"op": "laws", "e0": e0, "e1": e1, "n": n, "beta": micro(b), "rev": []}

    def go():
        a = hp.RobertsFunction(bool(e0), bool(e1), b)
        r = hp.RobertsFunction(bool(e1), bool(e0), b)
        e["rev"] = [micro(r(k / n)) for k in range(n + 1)]
        if g.r.random() < 0.5:
            return micros(a.distribute_parameter_values(n + 1))
        return [micro(a(k / n)) for k in range(n + 1)]

    e["val"], e["err"] = attempt(go, [])
    return e


def grid_event(g):
    ni, nj = g.pick([1, 2, 4]), g.pick([1, 2, 4])

    def one(n):
        while True:
            f = fun(g, [2, 4], True)
            if n in counts(f) or counts(f)[-1] == 8:
                return f

    cf = [one(ni), one(nj), one(ni), one(nj)]
    bare = g.r.random() < 0.15
    if bare:
        cf = [{"k": "lin", "e0": 0, "e1": 0, "b": 0, "m": 1}] * 4
    e = {"op": "grid", "ni": ni, "nj": nj, "cf": cf, "vr": [], "vs": []}

    def go():
        z = g.i(-3, 3)
        p = CoonsPatch(p00=Vector3(0.0, 0.0, z), p10=Vector3(1.0, 0.0, z), p11=Vector3(1.0, 1.0, z), p01=Vector3(0.0, 1.0, z))
        fs = [None if f["k"] == "lin" and g.r.random() < 0.5 else make(g, f) for f in cf]
        kw = {} if bare and g.r.random() < 0.5 else {"cf_list": fs}
        s = StructuredGrid(p, ni + 1, nj + 1, **kw)
        if (s.niv, s.njv) != (ni + 1, nj + 1) or np.shape(s.vertices.x) != (ni + 1, nj + 1) or np.abs(s.vertices.z - z).max() > 1e-9:
            raise ValueError("shape")
        e["vr"], e["vs"] = micros(s.vertices.x), micros(s.vertices.y)

    _, e["err"] = attempt(go)
    return e


def batch(x):
    seed, n = x
    g = Gen(seed)
    out = []
    try:
        for _ in range(n):
            out.append(g.pick([call_event, points_event, laws_event, grid_event])(g))
            out[-1].pop("beta", None)
            for f in [out[-1].get("f", {})] + out[-1].get("cf", []):
                f.pop("beta", None)
    except Exception:
        out.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
    return out


def drive(path, seed, tier):
    tr = Trace(path)
    for evs in pmap(batch, [(seed * 1000 + k, 10) for k in range(300 if tier == "quick" else 6000)]):
        tr.hist(evs)
    tr.close()
    return tr.n
