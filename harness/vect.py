"""Histories of vector operations (P14)."""
import json, traceback
from harness.common import *
from hypervehicle.geometry import vector as hv, path as hp, geometry as hg
from hypervehicle.geometry.surface import CoonsPatch

FR = [
    ((1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1)),
    ((0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1)),
    ((0, -1, 0, 1), (1, 0, 0, 1), (0, 0, 1, 1)),
    ((1, 2, 2, 3), (2, 1, -2, 3), (-2, 2, -1, 3)),
    ((3, 4, 0, 5), (0, 0, 1, 1), (4, -3, 0, 5)),
    ((2, 3, 6, 7), (3, -6, 2, 7), (6, 2, -3, 7)),
]


def num(n, d, ty):
    if ty == "int":
        return n // d
    if ty == "npint":
        return np.int64(n // d)
    if ty == "np64":
        return np.float64(n / d)
    if ty == "arr":
        return np.array([n / d, -n / d])
    return n / d


def first(c):
    return float(np.ravel(c)[0])


def obs(v):
    return [micro(first(v.x)), micro(first(v.y)), micro(first(v.z))]


def isarr(*vs):
    return any(np.ndim(c) > 0 for v in vs for c in (v.x, v.y, v.z))


def plain(v):
    """vectors of arrays are given to curves by their first entries"""
    return v if not isarr(v) else Vector3(first(v.x), first(v.y), first(v.z))


def build(kind, p):
    L = hp.Line
    if kind == "line":
        return L(p[0], p[1])
    if kind == "bez":
        return hp.Bezier(p)
    if kind == "coons":
        return CoonsPatch(p00=p[0], p10=p[1], p11=p[2], p01=p[3])
    if kind == "poly":
        return hp.Polyline([L(a, b) for a, b in zip(p, p[1:])])
    if kind == "cpoly":
        return hp.Polyline([L(a, b) for a, b in zip(p, p[1:])], closed=True)
    if kind == "spline":
        return hp.Spline(p)
    if kind == "alp":
        return hp.ArcLengthParameterizedPath(hp.Bezier(p))
    if kind == "swept":
        return hg.SweptPatchfromEdges([L(p[0], p[1]), L(p[3], p[2])])
    raise KeyError(kind)


def run_hist(h):
    evs = []
    reg, objs = [None] * 5, []
    try:
        for e in h["ev"]:
            e = dict(e)
            o = e["op"]
            a = reg[e["a"]] if "a" in e else None
            b = reg[e["b"]] if "b" in e else None
            # norm, unit and vec are defined for plain numbers
            if o in ("norm", "unit", "vec") and isarr(a):
                o = {"norm": "abs", "unit": "unitabs", "vec": "vecarr"}[o]

            def f():
                if o == "new":
                    n = [num(c, e["v"][3], e["ty"]) for c in e["v"][:3]]
                    return hv.Vector3(*n) if e["v"][0] % 2 or e["ty"] == "arr" else hv.Vector3.from_coordinates(n)
                if o == "copy":
                    return hv.Vector3(a)
                if o == "alias":
                    return a
                if o == "neg":
                    return -a
                if o == "add":
                    return a + b
                if o == "sub":
                    return a - b
                if o == "cross":
                    return hv.cross_product(a, b)
                if o == "unit":
                    return a.unit
                if o == "unitabs":
                    return a / abs(a)
                if "q" in e:
                    k = num(e["q"][0], e["q"][1], e["ty"])
                    if o == "mul":
                        return a * k
                    if o == "rmul":
                        return k * a
                    if o == "div":
                        return a / k
                    w = reg[e["r"]]
                    if o == "imul":
                        w *= k
                    else:
                        w /= k
                    return w
                if o == "normalize":
                    reg[e["r"]].normalize()
                    return reg[e["r"]]
                if o in ("global", "local"):
                    fr = [vec(x) for x in FR[e["f"] - 1]]
                    w = reg[e["r"]]
                    fn = w.transform_to_global_frame if o == "global" else w.transform_to_local_frame
                    r = fn(*fr, reg[e["c"]]) if e["c"] else fn(*fr)
                    if [obs(x) for x in fr] != [obs(vec(x)) for x in FR[e["f"] - 1]]:
                        raise ValueError("frame changed")
                    return r
                if o == "dot":
                    return a.dot(b)
                if o == "abs":
                    return abs(a)
                if o == "norm":
                    return a.norm
                if o == "eq":
                    return 1.0 if np.ravel(a == b)[0] else 0.0
                if o == "eq2":
                    return 1.0 if vec(e["v"]) == vec(e["w"]) else 0.0
                if o == "close":
                    return 1.0 if hv.approximately_equal_vectors(vec(e["v"]), vec(e["w"])) else 0.0
                if o == "vec":
                    return [micro(x) for x in a.vec]
                if o == "vecarr":
                    return obs(a)
                if o == "build":
                    objs.append(build(e["kind"], [plain(reg[k]) for k in e["src"]]))
                    return None
                if o == "eval":
                    p = objs[e["n"] - 1]
                    return p(q(e["t"]), q(e["u"])) if isinstance(p, (CoonsPatch, hg.SweptPatchfromEdges)) else p(q(e["t"]))
                raise KeyError(o)

            r, e["err"] = attempt(f)
            if o in ("dot", "abs", "norm", "eq", "eq2", "close"):
                e["val"] = micro(first(r)) if not e["err"] else NAN
            elif o in ("vec", "vecarr"):
                e["val"] = r if not e["err"] else BADPT
            elif o == "eval":
                e["val"] = obs(r) if not e["err"] else BADPT
                if e["r"] and not e["err"]:
                    reg[e["r"]] = r
            elif o != "build" and not e["err"]:
                reg[e["r"]] = r
            if "r" not in e:
                e["r"] = 0
            e["regs"] = [obs(x) if x is not None else BADPT for x in reg[1:]]
            evs.append(e)
            if e["err"]:
                break
    except Exception:
        evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
    return evs


def drive(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_hist, hists):
        tr.hist(evs)
    tr.close()
    return tr.n
