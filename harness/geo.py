"""Drivers for paths (P12) and patches (P13)."""
import sys
from .common import *


def pt_events(g, p, ts, arr=True):
    ev = []
    path, exc = attempt(lambda: build_path(p))
    for t in ts:
        v, x = attempt(lambda: point(path(q(t))), BADPT) if not exc else (BADPT, exc)
        ev.append({"op": "pt", "p": p, "t": t, "g": v})
    if arr and not exc and len(ts) > 1:
        # the same parameters in one call, and again one by one afterwards
        vs, x = attempt(lambda: path(np.array([q(t) for t in ts])))
        if x == "" and hasattr(vs.x, "shape") and np.shape(vs.x) == (len(ts),):
            for k, t in enumerate(ts):
                ev.append({"op": "pt", "p": p, "t": t, "g": [micro(vs.x[k]), micro(vs.y[k]), micro(vs.z[k])], "m": "arr"})
        t = ts[0]
        v, x = attempt(lambda: point(path(q(t))), BADPT)
        ev.append({"op": "pt", "p": p, "t": t, "g": v, "m": "again"})
    return ev


def no_array(p):
    """paths whose evaluation is defined for single parameters only"""
    return p["k"] == "per" or any(no_array(c) for c in p.values() if isinstance(c, dict) and "k" in c)


def ts_for(g, p, n):
    if p["k"] == "arc":
        return [[j, p["m"]] for j in range(p["m"] + 1)] + ([[1, p["m"]]] if p["m"] > 1 else [])
    if p["k"] in ("sub", "rev", "off", "alp") and p.get("u", {}).get("k") == "arc":
        if p["k"] in ("rev", "off"):
            return ts_for(g, p["u"], n)
        return [[0, 1], [1, 1]]
    return [[0, 1], [1, 1]] + [g.t() for _ in range(n)]


def breakpoints(p):
    """parameters of the corners of a polyline of lines"""
    from fractions import Fraction as F

    def ln(s):
        a, b = s["p0"], s["p1"]
        return F(int(round(sum((F(b[c], b[3]) - F(a[c], a[3])) ** 2 for c in range(3)) ** 0.5 * 6)), 6)

    if p["k"] != "poly" or any(s["k"] != "line" for s in p["segs"]):
        return []
    L = [ln(s) for s in p["segs"]]
    tot = sum(L)
    c, out = F(0), []
    for x in L[:-1]:
        c += x
        if not p["closed"]:
            out.append([(c / tot).numerator, (c / tot).denominator])
    return out


def drive_paths(out, seed, tier):
    n = 420 if tier == "quick" else 1500
    g = Gen(seed)
    tr = Trace(out)
    ev = []
    for k in range(n):
        p = g.path(g.pick([0, 1, 1, 2, 2, 3]))
        ev += pt_events(g, p, ts_for(g, p, 4) + breakpoints(p)[:3], arr=not no_array(p))
    for k in range(n // 4):
        p = g.poly(g.i(1, 5), g.pick([True, False]))
        ev += pt_events(g, p, [[0, 1], [1, 1]] + [g.t() for _ in range(3)] + breakpoints(p))
        L, x = attempt(lambda: micro(build_path(p).length()), NAN)
        ev.append({"op": "len", "p": p, "g": L})
    for k in range(n // 5):
        p = g.arc()
        ev += pt_events(g, p, ts_for(g, p, 0))
    for k in range(n // 3):
        u = g.pline()
        p = g.pick([
            lambda: u, lambda: g.straight_bez(), lambda: g.sub(u), lambda: {"k": "rev", "u": u}, lambda: {"k": "alp", "u": u},
            lambda: {"k": "rev", "u": g.poly(3, False)}, lambda: {"k": "alp", "u": g.poly(2, False)},
            lambda: {"k": "off", "u": u, "f": g.shift()}, lambda: {"k": "rev", "u": g.sub(u)},
            lambda: {"k": "sub", "u": {"k": "poly", "segs": g.chain(3), "closed": False}, "t0": [1, 1], "t1": [0, 1]},
            lambda: {"k": "sub", "u": {"k": "poly", "segs": g.chain(2), "closed": False}, "t0": [0, 1], "t1": [1, 1]},
            lambda: {"k": "mean", "a": u, "b": {"k": "line", "p0": [u["p0"][c] + 2 * u["p0"][3] * (c < 3) for c in range(3)] + [u["p0"][3]], "p1": [u["p1"][c] + 2 * u["p1"][3] for c in range(3)] + [u["p1"][3]]}},
        ])()
        L, x = attempt(lambda: micro(build_path(p).length()), NAN)
        ev.append({"op": "len", "p": p, "g": L})
    # splines: segments through the points, and knots
    for k in range(n // 8):
        P = [g.v(4, 0) for _ in range(g.i(2, 5))]
        if any(P[j] == P[j + 1] for j in range(len(P) - 1)):
            continue
        sp, x = attempt(lambda: build_path({"k": "spl", "P": P}))
        for s in range(1, len(P)):
            for t in ([0, 1], [1, 2], [1, 1], [1, 4]):
                v, x2 = attempt(lambda: point(sp.segments[s - 1](q(t))), BADPT)
                ev.append({"op": "pt", "p": {"k": "spl", "P": P, "seg": s}, "t": t, "g": v})
        # whole curve: knots at length shares (of the segments), sampled shape and length
        def whole():
            L = np.cumsum([0.0] + [s.length() for s in sp.segments])
            return [point(sp(x / L[-1])) for x in L]
        v, x2 = attempt(whole, [BADPT] * len(P))
        for s in range(len(P)):
            ev.append({"op": "pt", "p": {"k": "spl", "P": P, "seg": max(1, s)}, "t": [0, 1] if s == 0 else [1, 1], "g": v[s]})
        v, x2 = attempt(lambda: [point(sp(t)) for t in np.linspace(0, 1, 81)], [BADPT] * 3)
        L, x2 = attempt(lambda: micro(sp.length()), NAN)
        ev.append({"op": "curve", "s": v[::2], "len": L})
        # closed spline returns to the first point
        if len(P) > 2 and P[0] != P[-1]:
            from hypervehicle.geometry.path import Spline
            v, x2 = attempt(lambda: point(Spline([vec(b) for b in P], closed=True)(1.0)), BADPT)
            ev.append({"op": "pt", "p": {"k": "line", "p0": P[0], "p1": P[0]}, "t": [1, 1], "g": v})
            # by a segment of its own, whether or not the first point is repeated
            C = P + [P[0]]
            given = C if g.r.random() < 0.4 else P
            sp, x = attempt(lambda: Spline([vec(b) for b in given], closed=True))
            ev.append({"op": "many", "n": len(C) - 1, "g": attempt(lambda: len(sp.segments), 0)[0]})
            for s in range(1, len(C)):
                for t in ([0, 1], [1, 2], [1, 1]):
                    v, x2 = attempt(lambda: point(sp.segments[s - 1](q(t))), BADPT)
                    ev.append({"op": "pt", "p": {"k": "spl", "P": C, "seg": s}, "t": t, "g": v})
    for k in range(n // 10):
        p = g.arc()
        a, x = attempt(lambda: build_path(p))
        v, x = attempt(lambda: [point(a(t)) for t in np.linspace(0, 1, 11)], [BADPT] * 11)
        L, x = attempt(lambda: micro(a.length()), NAN)
        ev.append({"op": "arc", "p": p, "s": v, "len": L})
        p = g.bez(g.i(3, 4))
        a, x = attempt(lambda: build_path(p))
        v, x = attempt(lambda: [point(a(t)) for t in np.linspace(0, 1, 81)], [BADPT] * 3)
        L, x = attempt(lambda: micro(a.length()), NAN)
        ev.append({"op": "curve", "s": v[::2], "len": L})
        if smooth(v):
            s, x = attempt(lambda: [point(build_path({"k": "alp", "u": p})(t)) for t in np.linspace(0, 1, 21)], [BADPT] * 21)
            ev.append({"op": "alp", "s": s, "u": v})
        w = g.sub(p)
        a, x = attempt(lambda: build_path(w))
        v, x = attempt(lambda: [point(a(t)) for t in np.linspace(0, 1, 81)], [BADPT] * 3)
        L, x = attempt(lambda: micro(a.length()), NAN)
        ev.append({"op": "curve", "s": v[::2], "len": L})
    from hypervehicle.geometry.geometry import ElipsePath
    for k in range(n // 10):
        a, b, c, side = g.i(1, 5), g.i(1, 5), g.v(4, 0), g.pick(["top", "bot"])
        th = g.pick([1, -1]) * b
        f = lambda: ElipsePath(centre=vec(c), thickness=float(th), LE_width=float(a), side=side)
        v, x = attempt(lambda: [point(f()(t)) for t in np.linspace(0, 1, 9)], [BADPT] * 9)
        ev.append({"op": "ell", "s": v, "a": a, "b": b, "c": c, "side": side})
        s, x = attempt(lambda: [point(build_alp(f())(t)) for t in np.linspace(0, 1, 9)], [BADPT] * 9)
        u, x = attempt(lambda: [point(f()(t)) for t in np.linspace(0, 1, 65)], [BADPT] * 3)
        ev.append({"op": "alp", "s": s, "u": u})
    for c in chunks(ev):
        tr.hist(c)
    tr.close()
    return {"evaluations": len(ev)}


def build_alp(u):
    from hypervehicle.geometry.path import ArcLengthParameterizedPath

    return ArcLengthParameterizedPath(u)


def smooth(v):
    """sampled curve without near stops or sharp turns (equal chords need that)"""
    a = np.array(v, float)
    if np.any(np.abs(a) > 9e8):
        return True
    d = np.diff(a, axis=0)
    l = np.linalg.norm(d, axis=1)
    if l.min() < l.mean() * 0.2:
        return False
    c = (d[1:] * d[:-1]).sum(axis=1) / (l[1:] * l[:-1])
    return c.min() > 0.99


def drive_surfs(out, seed, tier):
    n = 600 if tier == "quick" else 2200
    g = Gen(seed * 7 + 3)
    tr = Trace(out)
    ev = []
    for k in range(n):
        s = g.surf(g.pick([0, 0, 0, 1, 1, 2, 3]))
        b = s
        while "u" in b:
            b = b["u"]
        surf, exc = attempt(lambda: build_surf(s))
        pts = [([0, 1], [0, 1]), ([1, 1], [1, 1]), ([1, 1], [0, 1]), ([0, 1], [1, 1])]
        pts = g.r.sample(pts, 2) + [(g.t(), g.t()) for _ in range(3)]
        if b["k"] in ("cone", "rvl"):
            m = b["m1"] - b["m0"]
            pts = [(g.t(), [j, m]) for j in range(m + 1)]
        if b["k"] == "swe":
            pts += [([j, len(b["edges"]) - 1], g.t()) for j in range(len(b["edges"]))]
            if any(e["k"] == "arc" for e in b["edges"]):
                pts = [(r, g.pick([[0, 1], [1, 1]])) for r, _ in pts]
        if b["k"] == "sw":
            pts += [(r, [j, 4]) for j in range(4) for r in ([1, 1], g.t())]
            pts += [([j, 7], g.t()) for j in range(1, 7, 2)]
        for r, t in pts:
            v, x = attempt(lambda: point(surf(q(r), q(t))), BADPT) if not exc else (BADPT, exc)
            ev.append({"op": "sp", "s": s, "r": r, "t": t, "g": v})
        r, t = pts[0]
        v, x = attempt(lambda: point(surf(q(r), q(t))), BADPT) if not exc else (BADPT, exc)
        ev.append({"op": "sp", "s": s, "r": r, "t": t, "g": v, "m": "again"})
    for k in range(n // 6):
        u = g.surf(g.pick([0, 1]))
        if u["k"] in ("cone", "rvl") or u.get("u", {}).get("k") in ("cone", "rvl"):
            continue
        p = {"k": "per", "u": u}
        ev += pt_events(g, p, [[0, 1], [1, 4], [1, 2], [3, 4], [1, 1], [1, 8], [3, 8], [5, 8], [7, 8], [1, 16], [9, 10], [3, 10]], arr=False)
    for k in range(n // 6):
        s = {"k": "sph", "R": g.i(1, 5), "c": g.v(4, 0), "face": g.pick(["east", "west", "south", "north", "bottom", "top"])}
        r, t = g.t(), g.t()
        v, x = attempt(lambda: point(build_surf(s)(q(r), q(t))), BADPT)
        ev.append({"op": "sph", "R": s["R"], "c": s["c"], "face": s["face"], "r": r, "t": t, "g": v})
    # leading edges and discs
    from hypervehicle.geometry.geometry import LeadingEdgePatchFunction, MeanLeadingEdgePatchFunction
    from hypervehicle.components.common import circle_patch
    for k in range(n // 5):
        d = g.pick([[3, 4, 5], [-4, 3, 5], [1, 0, 1], [0, 1, 1], [-5, -12, 13], [8, -15, 17], [0, -1, 1]])
        p0, dz, lg = g.v(3, 0), g.i(-1, 1), g.i(1, 2)
        line = {"k": "line", "p0": p0, "p1": [p0[0] + lg * d[0], p0[1] + lg * d[1], p0[2] + dz, 1]}
        e = {"op": "le", "kind": g.pick(["mean", "fun"]), "line": line, "dir": d, "side": g.pick(["top", "bot"]), "w0": [g.i(1, 3), 1], "w1": [g.i(0, 2), 1], "th": [g.pick([-3, -2, -1, 1, 2, 3]), 1], "guide": {}}
        e["t0"], e["t1"] = g.pick([([0, 1], [1, 1]), ([1, 4], [3, 4]), ([0, 1], [1, 2]), ([1, 2], [1, 1])])
        e["t"] = g.pick([[1, 2], [1, 4], [3, 4]])
        wf = lambda t: q(e["w0"]) + t * q(e["w1"])
        if e["kind"] == "mean":
            h0, h1 = g.i(1, 3), g.i(1, 3)
            m = -1 if e["side"] == "top" else 1
            e["guide"] = {"k": "line", "p0": line["p0"][:2] + [line["p0"][2] + m * h0, 1], "p1": line["p1"][:2] + [line["p1"][2] + m * h1, 1]}
            mk = lambda: MeanLeadingEdgePatchFunction(build_path(line), build_path(e["guide"]), wf, q(e["t0"]), q(e["t1"]), e["side"])
        else:
            mk = lambda: LeadingEdgePatchFunction(build_path(line), lambda x, y, z=0: Vector3(0.0, 0.0, q(e["th"])), wf, q(e["t0"]), q(e["t1"]), e["side"])
        e["s"], x = attempt(lambda: [point(mk()(q(e["t"]), s)) for s in np.linspace(0, 1, 9)], [BADPT] * 9)
        ev.append(e)
        e = {"op": "circ", "c": g.v(3, 0)[:2] + [0, 1], "R": g.i(1, 4), "r": g.pick([[0, 1], [1, 1], [1, 2], g.t()]), "t": g.pick([[0, 1], [1, 1], [1, 2], g.t()])}
        e["g"], x = attempt(lambda: point(circle_patch(vec(e["c"]), float(e["R"]))(q(e["r"]), q(e["t"]))), BADPT)
        ev.append(e)
    for f in ("", "up", "East "):
        from hypervehicle.geometry.geometry import CubePatch, SpherePatch
        for cls in (CubePatch, SpherePatch):
            v, x = attempt(lambda: cls(1.0, Vector3(0, 0, 0), f)(0.5, 0.5))
            ev.append({"op": "refuse", "refused": x != ""})
    # open corners
    from hypervehicle.geometry.surface import CoonsPatch
    for k in range(n // 6):
        P = [g.v(4, 0) for _ in range(4)]
        P = [[c if c else 1 for c in p[:3]] + [1] for p in P]
        edges = {"south": (0, 1), "north": (3, 2), "west": (0, 3), "east": (1, 2)}
        which, end, ax = g.pick(list(edges)), g.pick([0, 1]), g.i(0, 2)
        gap = g.pick([0, 1, 1, 2, 1e-7, -1])
        def mk():
            kw = {}
            for nme, (a, b) in edges.items():
                pa, pb = vec(P[a]), vec(P[b])
                if nme == which:
                    d = [0.0, 0.0, 0.0]
                    d[ax] = gap
                    if end == 0:
                        pa = pa + Vector3(*d)
                    else:
                        pb = pb + Vector3(*d)
                from hypervehicle.geometry.path import Line
                kw[nme] = Line(pa, pb)
            return CoonsPatch(**kw)
        v, x = attempt(mk)
        ev.append({"op": "corner", "refused": x != "", "open": abs(gap) >= 1, "which": which, "end": end, "ax": ax, "gap": str(gap)})
    # grids
    from hypervehicle.geometry.surface import StructuredGrid
    from hypervehicle.geometry.path import ClusterFunction

    class Sq(ClusterFunction):
        def __repr__(self):
            return "sq"

        def __call__(self, x):
            return x * x

        def distribute_parameter_values(self, nv):
            return np.linspace(0, 1, nv) ** 2

    class Rsq(Sq):
        def __call__(self, x):
            return 1.0 - (1.0 - x) * (1.0 - x)

    fn = {"sq": Sq(), "rsq": Rsq(), "lin": None}
    for k in range(n // 12):
        s = {"k": "coonsc", "o": [0, 0, 0, 1]}
        for nme in ("p00", "p10", "p11", "p01"):
            s[nme] = g.v(4, 0)
        if g.pick([0, 1]):
            s = g.wrap(s)
            if s["k"] == "curv":
                s = s["u"]
        cf = [g.pick(["sq", "rsq", "lin"]) for _ in range(4)]
        ni, nj = g.i(2, 4), g.i(2, 4)
        gr, x = attempt(lambda: StructuredGrid(build_surf(s), ni, nj, cf_list=[fn[c] for c in cf]))
        for i in range(ni):
            for j in range(nj):
                v = [micro(gr.vertices.x[i, j]), micro(gr.vertices.y[i, j]), micro(gr.vertices.z[i, j])] if not x else BADPT
                ev.append({"op": "grid", "s": s, "ni": ni, "nj": nj, "i": i, "j": j, "cf": cf, "g": v})
    for a, b in ((1, 3), (3, 1), (0, 2)):
        v, x = attempt(lambda: StructuredGrid(build_surf({"k": "cube", "a": [1, 1], "c": [0, 0, 0, 1], "face": "top"}), a, b))
        ev.append({"op": "refuse", "refused": x != ""})
    for c in chunks(ev):
        tr.hist(c)
    tr.close()
    return {"evaluations": len(ev)}
