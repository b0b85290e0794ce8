"""Shared parts of the drivers: terms to objects, logging of observations."""
import io, json, math, os, random, signal, sys, contextlib, time, warnings, zlib

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
warnings.filterwarnings("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np

import hypervehicle

assert hypervehicle.__file__.startswith("/repo/src/"), hypervehicle.__file__
from hypervehicle.geometry.vector import Vector3

NAN = 2000000000


def micro(v):
    """An observed number in millionths, or the sentinel."""
    try:
        f = float(v)
    except Exception:
        return NAN
    if not math.isfinite(f) or abs(f) >= 999:
        return NAN
    return int(round(f * 1e6))


def point(v):
    return [micro(v.x), micro(v.y), micro(v.z)]


BADPT = [NAN, NAN, NAN]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Hung(BaseException):
    """not an Exception, so that code that handles those lets it pass"""


def _hung(*a):
    raise Hung()


signal.signal(signal.SIGALRM, _hung)
signal.signal(signal.SIGVTALRM, _hung)
LIMIT = 60  # seconds of computing after which a call counts as never returning
WAIT = 240  # and of waiting, on a busy machine


def attempt(fn, default=None):
    """(value, "") or (default, exception name)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    signal.alarm(WAIT)
    try:
        with quiet():
            return fn(), ""
    except (Exception, Hung) as e:  # an exception is an observation, not an error of the driver
        return default, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.alarm(0)


def loud(x):
    """a verbosity: what is printed never matters"""
    return zlib.crc32(json.dumps(x, sort_keys=True, default=str).encode()) % 3


class Trace:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def hist(self, ev, **kw):
        if not ev:
            return
        self.n += 1
        kw["ev"] = ev
        self.f.write(json.dumps(kw) + "\n")

    def close(self):
        self.f.close()


def pmap(fn, items, n=6):
    """results in order, computed by forked processes; what is not ready when time is up is left out"""
    import multiprocessing

    until = max(float(os.environ.get("HV_UNTIL", "inf")), time.time() + 40)
    with multiprocessing.get_context("fork").Pool(n) as pool:
        results = pool.imap(fn, items, chunksize=1)
        try:
            yield next(results)
            while True:
                left = until - time.time()
                yield results.next(None if math.isinf(left) else max(left, 0.01))
        except (StopIteration, multiprocessing.TimeoutError):
            return


def chunks(events, size=12):
    for k in range(0, len(events), size):
        yield events[k : k + size]


# ---------------------------------------------------------------- terms
ANG = {
    (0, 1, 1): math.pi / 2,
    (-1, 0, 1): math.pi,
    (0, -1, 1): -math.pi / 2,
    (4, 3, 5): math.atan2(3, 4),
    (4, -3, 5): -math.atan2(3, 4),
    (3, 4, 5): math.atan2(4, 3),
    (12, 5, 13): math.atan2(5, 12),
    (12, -5, 13): -math.atan2(5, 12),
    (15, 8, 17): math.atan2(8, 15),
    (24, 7, 25): math.atan2(7, 24),
}


def q(v):
    return v[0] / v[1]


def vec(v):
    if v[3] == 1:
        return Vector3(float(v[0]), float(v[1]), float(v[2]))
    return Vector3(v[0] / v[3], v[1] / v[3], v[2] / v[3])


def pfun(f):
    """Point function of a term: offset as a vector of x, y (and z)."""
    m, d, qq = f["m"], f["d"], f["q"]

    def fn(x, y, z=0.0):
        r = [(row[0] * x + row[1] * y + row[2] * z + row[3]) / d for row in m]
        return Vector3(r[0], r[1], r[2] + qq * x * y / d)

    return fn


def build_path(p):
    from hypervehicle.geometry import path as hp, geometry as hg

    k = p["k"]
    if k == "line":
        return hp.Line(vec(p["p0"]), vec(p["p1"]))
    if k == "bez":
        return hp.Bezier([vec(b) for b in p["B"]])
    if k == "poly":
        return hp.Polyline([build_path(s) for s in p["segs"]], **({"closed": True} if p["closed"] else {}))
    if k == "spl":
        return hp.Spline([vec(b) for b in p["P"]])
    if k == "sub":
        return hg.SubRangedPath(build_path(p["u"]), q(p["t0"]), q(p["t1"]))
    if k == "rev":
        return hg.ReversedPath(build_path(p["u"]))
    if k == "off":
        return hg.OffsetPathFunction(build_path(p["u"]), pfun(p["f"]))
    if k == "mean":
        return hg.GeometricMeanPathFunction(build_path(p["a"]), build_path(p["b"]))
    if k == "arc":
        c, e1, e2, R = vec(p["c"]), vec(p["e1"]), vec(p["e2"]), q(p["R"])
        th = ANG[tuple(p["cs"])] * p["m"]
        a = c + e1 * R
        b = c + e1 * (R * math.cos(th)) + e2 * (R * math.sin(th))
        return hp.Arc(a, b, c)
    if k == "alp":
        return hp.ArcLengthParameterizedPath(build_path(p["u"]), **({"n": p["n"]} if p.get("n") else {}))
    if k == "shl":
        return build_path(p["u"]) + vec(p["v"])
    if k == "te":
        return hg.TrailingEdgePath(vec(p["p0"]), vec(p["p1"]), pfun(p["f"]))
    if k == "per":
        return hg.SurfacePerimeter(build_surf(p["u"]))
    raise KeyError(k)


def curv_funs(c):
    f = pfun(c["f"])

    def fun(x, y):
        return f(x, y, 0.0).z

    def dash(x, y):
        sl = c["sl1"] if x < c["x0"] / 97 else c["sl2"]
        return sl[0] / sl[1]

    return fun, dash


def build_surf(s):
    from hypervehicle.geometry import geometry as hg
    from hypervehicle.geometry.surface import CoonsPatch

    k = s["k"]
    if k in ("coons", "coonsc"):
        if k == "coons":
            p = CoonsPatch(
                north=build_path(s["n"]), east=build_path(s["e"]),
                south=build_path(s["s"]), west=build_path(s["w"]),
            )
        else:
            p = CoonsPatch(p00=vec(s["p00"]), p10=vec(s["p10"]), p11=vec(s["p11"]), p01=vec(s["p01"]))
        for how, o in s.get("ops", []):
            p = p + vec(o) if how == "add" else p - vec(o)
        return p
    if k == "swe":
        return hg.SweptPatchfromEdges([build_path(e) for e in s["edges"]])
    if k == "sw":
        return hg.SweptPatch([build_surf(e) for e in s["secs"]], sweep_axis=s["ax"])
    if k == "rot":
        # axis names are accepted in either case
        return hg.RotatedPatch(build_surf(s["u"]), ANG[tuple(s["cs"])], axis=s["ax"].upper() if s["cs"][0] < 0 else s["ax"], point=vec(s["pt"]))
    if k == "mir":
        return hg.MirroredPatch(build_surf(s["u"]), axis=s["ax"].upper() if s["u"]["k"] in ("cube", "swe", "coonsc") else s["ax"])
    if k == "off":
        return hg.OffsetPatchFunction(build_surf(s["u"]), pfun(s["f"]))
    if k == "curv":
        fun, dash = curv_funs(s)
        return hg.CurvedPatch(build_surf(s["u"]), direction=s["dir"], fun=fun, fun_dash=dash)
    if k == "cube":
        return hg.CubePatch(q(s["a"]), vec(s["c"]), s["face"])
    if k == "sph":
        return hg.SpherePatch(float(s["R"]), vec(s["c"]), s["face"])
    if k == "cone":
        th = ANG[tuple(s["cs"])]
        return hg.ConePatch(s["x0"], s["x1"], s["r0"], s["r1"], s["m0"] * th, s["m1"] * th)
    if k == "rvl":
        th = ANG[tuple(s["cs"])]
        a0, a1 = s["m0"] * th, s["m1"] * th
        # the angles of a whole turn need not be given
        if s["m0"] == 0 and abs(a1 - 2 * np.pi) < 1e-12:
            return hg.RevolvedPatch(build_path(s["line"]))
        return hg.RevolvedPatch(build_path(s["line"]), a0, a1)
    if k == "fle":
        return hg.FlatLeadingEdgePatchFunction(build_path(s["a"]), build_path(s["b"]), q(s["t0"]), q(s["t1"]))
    if k == "mte":
        return hg.MeanTrailingEdgePatch(
            build_path(s["mean"]), TE_path=build_path(s["te"]), flap_length=q(s["len"]),
            flap_angle=ANG.get(tuple(s["cs"]), 0.0), side=s["side"],
        )
    raise KeyError(k)


# ------------------------------------------------- generation of terms
FRAMES = [  # right handed orthonormal rational frames
    ([1, 0, 0, 1], [0, 1, 0, 1]),
    ([0, 1, 0, 1], [0, 0, 1, 1]),
    ([0, 0, 1, 1], [1, 0, 0, 1]),
    ([0, 1, 0, 1], [-1, 0, 0, 1]),
    ([1, 2, 2, 3], [2, 1, -2, 3]),
    ([2, 3, 6, 7], [3, -6, 2, 7]),
    ([3, 4, 0, 5], [0, 0, 1, 1]),
]
PYTH = [(3, 4, 0), (0, 3, 4), (4, 0, 3), (1, 2, 2), (2, 1, 2), (2, 3, 6), (1, 4, 8), (0, 0, 2), (5, 0, 0), (0, 1, 0), (4, 4, 7), (6, 2, 3), (0, 5, 12), (8, 9, 12)]


class Gen:
    """Seeded generation of terms within the range of exact arithmetic."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def i(self, a, b):
        return self.r.randint(a, b)

    def pick(self, s):
        return self.r.choice(s)

    def v(self, m=5, half=0.25):
        if self.r.random() < half:
            return [self.i(-2 * m, 2 * m), self.i(-2 * m, 2 * m), self.i(-2 * m, 2 * m), 2]
        return [self.i(-m, m), self.i(-m, m), self.i(-m, m), 1]

    def t(self):
        return self.pick([[0, 1], [1, 1], [1, 2], [1, 3], [2, 3], [1, 4], [3, 4], [1, 5], [4, 5], [1, 8], [5, 8], [7, 10], [1, 10]])

    def pyth(self):
        s = list(self.pick(PYTH))
        self.r.shuffle(s)
        return [c * self.pick([-1, 1]) for c in s]

    def fun(self, quad=True):
        m = [[self.i(-1, 1) for _ in range(3)] + [self.i(-3, 3)] for _ in range(3)]
        return {"m": m, "d": self.pick([1, 2, 4]), "q": self.pick([0, 0, 1]) if quad else 0}

    def shift(self):
        v = self.v(4, 0)
        return {"m": [[0, 0, 0, v[c]] for c in range(3)], "d": self.pick([1, 2]), "q": 0}

    def pline(self):
        """line of rational length"""
        a = self.v()
        d = a[3]
        s = self.pyth()
        return {"k": "line", "p0": a, "p1": [a[0] + s[0] * d, a[1] + s[1] * d, a[2] + s[2] * d, d]}

    def chain(self, n):
        """connected lines of rational length"""
        a = self.v(4, 0)
        out = []
        for _ in range(n):
            s = self.pyth()
            b = [a[0] + s[0], a[1] + s[1], a[2] + s[2], 1]
            out.append({"k": "line", "p0": a, "p1": b})
            a = b
        return out

    def sub(self, u):
        t0, t1 = self.t(), self.t()
        while t0[0] * t1[1] == t1[0] * t0[1]:
            t1 = self.t()
        return {"k": "sub", "u": u, "t0": t0, "t1": t1}

    def arc(self):
        e1, e2 = self.pick(FRAMES)
        cs, ms = self.pick([((0, 1, 1), [1]), ((4, 3, 5), [1, 2, 3, 4]), ((3, 4, 5), [1, 2, 3]), ((12, 5, 13), [1, 2, 3, 4]), ((15, 8, 17), [1, 2]), ((24, 7, 25), [1, 2])])
        return {"k": "arc", "c": self.v(4, 0), "e1": e1, "e2": e2, "R": self.pick([[1, 1], [2, 1], [5, 1], [1, 2], [7, 2]]), "cs": list(cs), "m": self.pick(ms)}

    def bez(self, n=None):
        n = n or self.i(2, 4)
        return {"k": "bez", "B": [self.v(5, 0.1) for _ in range(n)]}

    def straight_bez(self):
        a = self.v(3, 0)
        s = self.pyth()
        n = self.pick([(0, 1, 4, 5), (0, 3, 4, 5), (0, 1, 5), (0, 0, 5), (0, 4, 4, 5)])
        return {"k": "bez", "B": [[a[0] * 5 + w * s[0], a[1] * 5 + w * s[1], a[2] * 5 + w * s[2], 5] for w in n]}

    def path(self, depth):
        if depth <= 0:
            c = self.pick(["line", "line", "bez", "arc"])
        else:
            c = self.pick(["line", "bez", "arc", "poly", "poly", "sub", "sub", "rev", "off", "mean", "alp", "te", "shl"])
        if c == "line":
            return {"k": "line", "p0": self.v(), "p1": self.v()}
        if c == "bez":
            return self.bez()
        if c == "arc":
            return self.arc()
        if c == "poly":
            return self.poly(self.i(1, 4), self.pick([True, False]))
        if c == "sub":
            return self.sub(self.path(depth - 1))
        if c == "rev":
            return {"k": "rev", "u": self.path(depth - 1)}
        if c == "off":
            f = self.fun()
            for row in f["m"]:
                row[2] = 0  # offsets of paths are functions of x and y
            return {"k": "off", "u": self.path(depth - 1), "f": f}
        if c == "mean":
            return {"k": "mean", "a": self.path(depth - 1), "b": self.path(depth - 1)}
        if c == "alp":
            u = self.pick([self.pline, self.straight_bez])()
            return {"k": "alp", "u": u, "n": self.pick([0, 1, 2, 7]) if u["k"] == "line" else 0}
        if c == "shl":
            u = {"k": "line", "p0": self.v(), "p1": self.v()}
            return {"k": "shl", "u": {"k": "shl", "u": u, "v": self.v()} if self.i(0, 2) == 0 else u, "v": self.v()}
        if c == "te":
            f = self.fun()
            for row in f["m"]:
                row[2] = 0
            return {"k": "te", "p0": self.v(), "p1": self.v(), "f": f}

    def poly(self, n, closed):
        if closed:
            # sides and closing side of rational length
            base = self.v(4, 0)
            e1, e2 = self.pick([((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0, 0, 1), (1, 0, 0))])
            sh = self.pick([[(0, 0), (4, 0), (4, 3)], [(0, 0), (0, 5), (12, 5)], [(0, 0), (2, 0), (2, 5), (0, 5)], [(0, 0), (6, 0), (6, 8)], [(0, 0), (3, 0), (3, 4), (0, 4), (0, 0)]])
            k = self.pick([1, -1])
            pts = [[base[c] + k * (a * e1[c] + b * e2[c]) for c in range(3)] + [1] for a, b in sh]
            segs = [{"k": "line", "p0": a, "p1": b} for a, b in zip(pts, pts[1:])]
        else:
            segs = self.chain(n)
            j = self.i(0, n - 1)
            w = self.pick(["", "rev", "sub", "bez", "nest"])
            s = segs[j]
            if w == "rev":
                segs[j] = {"k": "rev", "u": {"k": "line", "p0": s["p1"], "p1": s["p0"]}}
            elif w == "sub":
                a, b = s["p0"], s["p1"]
                c = [2 * b[0] - a[0], 2 * b[1] - a[1], 2 * b[2] - a[2], 1]
                segs[j] = {"k": "sub", "u": {"k": "line", "p0": a, "p1": c}, "t0": [0, 1], "t1": [1, 2]}
            elif w == "bez":
                a, b = s["p0"], s["p1"]
                segs[j] = {"k": "bez", "B": [a, [a[0] + b[0], a[1] + b[1], a[2] + b[2], 2], b]}
            elif w == "nest" and n > 1:
                rest = segs[j:]
                segs = segs[:j] + [{"k": "poly", "segs": rest, "closed": False}]
        return {"k": "poly", "segs": segs, "closed": closed}

    # ---- patches
    def corners(self):
        return [self.v(4, 0.1) for _ in range(4)]

    def edge(self, a, b):
        c = self.pick(["line", "bez", "bez4", "rev", "sub", "mean"])
        m = lambda: self.v(4, 0)
        if c == "line":
            return {"k": "line", "p0": a, "p1": b}
        if c == "bez":
            return {"k": "bez", "B": [a, m(), b]}
        if c == "bez4":
            return {"k": "bez", "B": [a, m(), m(), b]}
        if c == "rev":
            return {"k": "rev", "u": {"k": "bez", "B": [b, m(), a]}}
        if c == "sub":
            # half of a line twice as long
            d = [2 * b[0] * a[3] - a[0] * b[3], 2 * b[1] * a[3] - a[1] * b[3], 2 * b[2] * a[3] - a[2] * b[3], a[3] * b[3]]
            return {"k": "sub", "u": {"k": "line", "p0": a, "p1": d}, "t0": [0, 1], "t1": [1, 2]}
        if c == "mean":
            return {"k": "mean", "a": {"k": "bez", "B": [a, m(), b]}, "b": {"k": "line", "p0": a, "p1": b}}

    def base(self):
        c = self.pick(["coons", "coons", "coonsc", "swe", "swe", "cube", "cone", "rvl", "sw", "fle", "mte"])
        ops = [[self.pick(["add", "sub"]), self.v(3, 0)] for _ in range(self.pick([0, 0, 1, 1, 2, 3]))]
        o = [sum((1 if h == "add" else -1) * w[c] for h, w in ops) for c in range(3)] + [1]
        if c == "coons":
            a, b, cc, d = self.corners()  # p00 p10 p11 p01
            return {"k": "coons", "s": self.edge(a, b), "n": self.edge(d, cc), "w": self.edge(a, d), "e": self.edge(b, cc), "o": o, "ops": ops}
        if c == "coonsc":
            a, b, cc, d = self.corners()
            return {"k": "coonsc", "p00": a, "p10": b, "p11": cc, "p01": d, "o": o, "ops": ops}
        if c == "swe":
            return {"k": "swe", "edges": [self.path(0) if self.r.random() < 0.5 else self.poly(2, False) for _ in range(self.i(2, 5))]}
        if c == "cube":
            return {"k": "cube", "a": self.pick([[1, 1], [3, 2], [2, 1]]), "c": self.v(4), "face": self.pick(["east", "west", "south", "north", "bottom", "top"])}
        if c == "cone":
            cs, mm = self.pick([((0, 1, 1), 4), ((4, 3, 5), 4), ((12, 5, 13), 3), ((-1, 0, 1), 2)])
            m0 = self.i(-1, mm - 1)
            return {"k": "cone", "x0": self.i(-3, 3), "x1": self.i(4, 9), "r0": self.i(0, 4), "r1": self.i(0, 4), "cs": list(cs), "m0": m0, "m1": self.i(m0 + 1, mm)}
        if c == "rvl":
            cs, mm = self.pick([((0, 1, 1), 4), ((4, 3, 5), 4), ((12, 5, 13), 3), ((-1, 0, 1), 2)])
            m0 = self.i(-1, mm - 1)
            return {"k": "rvl", "line": self.pick([self.path(0), self.poly(2, False)]), "cs": list(cs), "m0": m0, "m1": self.i(m0 + 1, mm)}
        if c == "sw":
            ax = self.pick("xyz")
            n = self.i(2, 4)
            pos = sorted(self.r.sample(range(-5, 9), n))
            secs = []
            for z in pos:
                pts = []
                for _ in range(4):
                    w = self.v(4, 0)
                    w["xyz".index(ax)] = z
                    pts.append(w)
                secs.append({"k": "coonsc", "p00": pts[0], "p10": pts[1], "p11": pts[2], "p01": pts[3], "o": [0, 0, 0, 1]})
            return {"k": "sw", "secs": secs, "ax": ax}
        if c == "fle":
            u = self.path(0)
            f, g = self.shift(), self.shift()
            t0, t1 = self.pick([([0, 1], [1, 2]), ([1, 2], [1, 1]), ([0, 1], [1, 1]), ([1, 4], [3, 4])])
            return {"k": "fle", "a": {"k": "off", "u": u, "f": f}, "b": {"k": "off", "u": u, "f": g}, "t0": t0, "t1": t1}
        if c == "mte":
            a, b = self.v(4, 0), self.v(4, 0)
            f, g = self.shift(), self.shift()
            f["m"][0][3] = g["m"][0][3] = 0
            f["m"][1][3] = g["m"][1][3] = 0
            te = {"k": "te", "p0": a, "p1": b, "f": f}
            tb = {"k": "te", "p0": a, "p1": b, "f": g}
            return {"k": "mte", "mean": {"k": "mean", "a": te, "b": tb}, "te": te, "len": self.pick([[1, 1], [1, 2], [0, 1], [2, 1]]), "cs": self.pick([[1, 0, 1], [4, 3, 5], [4, -3, 5], [12, 5, 13]]), "side": self.pick(["top", "bot"])}

    def wrap(self, u):
        c = self.pick(["rot", "rot", "mir", "off", "curv"])
        if c == "rot":
            return {"k": "rot", "u": u, "ax": self.pick(["x", "y", "z"]), "cs": list(self.pick([(0, 1, 1), (-1, 0, 1), (4, 3, 5), (12, 5, 13), (0, -1, 1), (4, -3, 5)])), "pt": self.pick([[0, 0, 0, 1], self.v(3, 0)])}
        if c == "mir":
            return {"k": "mir", "u": u, "ax": self.pick("xyz")}
        if c == "off":
            return {"k": "off", "u": u, "f": self.pick([self.fun, self.shift])()}
        if c == "curv":
            return {"k": "curv", "u": u, "dir": self.pick("xy"), "f": self.fun(), "x0": 97 * self.i(-2, 3) + self.i(1, 96), "sl1": self.pick(SLOPES), "sl2": self.pick(SLOPES)}

    def surf(self, depth):
        s = self.base()
        for _ in range(depth):
            s = self.wrap(s)
        return s


SLOPES = [[3, 4, 5], [-3, 4, 5], [5, 12, 13], [0, 1, 1], [4, 3, 5], [-4, 3, 5]]
