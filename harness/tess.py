"""Meshes of patches and of swept components (P05)."""
from harness.common import *
from hypervehicle import Vehicle
from hypervehicle.components.component import Component
from hypervehicle.components import SweptComponent, CompositeComponent
from hypervehicle.utilities import default_vertex_func, surfce_to_stl

CF = {
    "sq": lambda x: x * x,
    "rsq": lambda x: 1 - (1 - x) * (1 - x),
    "mix": lambda x: (x + x * x) / 2,
    "rev": lambda x: 1 - x,
    "u": lambda x: 1.0 * x,
}


class OnePatch(Component):
    componenttype = "swept"

    def __init__(self, patch, **kw):
        super().__init__(**kw)
        self.patch = patch

    def generate_patches(self):
        self.patches = {"p": self.patch}


def tris(m):
    return [[[micro(c) for c in v] for v in t] for t in m.vectors.tolist()]


def one_patch(g):
    c = g.pick(["coons", "coonsc", "coonsc", "swe", "cube"])
    if c == "coons":
        a, b, cc, d = g.corners()
        l = lambda p, q: {"k": "line", "p0": p, "p1": q}
        bz = lambda p, q: {"k": "bez", "B": [p, g.v(4, 0), q]}
        s = {"k": "coons", "s": bz(a, b), "n": l(d, cc), "w": l(a, d), "e": bz(b, cc), "o": [0, 0, 0, 1], "ops": []}
    elif c == "coonsc":
        a, b, cc, d = g.corners()
        s = {"k": "coonsc", "p00": a, "p10": b, "p11": cc, "p01": d, "o": [0, 0, 0, 1], "ops": []}
    elif c == "swe":
        s = {"k": "swe", "edges": [{"k": "line", "p0": g.v(), "p1": g.v()} for _ in range(g.i(2, 4))]}
    else:
        s = {"k": "cube", "a": [3, 2], "c": g.v(4), "face": g.pick(["east", "west", "south", "north", "bottom", "top"])}
    w = g.pick(["", "", "rot", "mir", "off"])
    if w == "rot":
        s = {"k": "rot", "u": s, "ax": g.pick("xyz"), "cs": list(g.pick([(0, 1, 1), (4, 3, 5), (-1, 0, 1)])), "pt": [0, 0, 0, 1]}
    elif w == "mir":
        s = {"k": "mir", "u": s, "ax": g.pick("xyz")}
    elif w == "off":
        s = {"k": "off", "u": s, "f": g.shift()}
    return s


def patch_event(g):
    s = one_patch(g)
    e = {"op": "patch", "s": s, "ni": g.i(1, 4), "nj": g.i(1, 4), "mir": False, "how": g.pick(["direct", "direct", "comp", "vehicle", "composite"])}
    fun = lambda: g.pick(["u", "u", "sq", "rsq", "mix", "rev"])
    e["ci"], e["cj"] = fun(), fun()
    if e["how"] == "direct":
        kw = {}
        for d, n, sp in (("i", "ci", "si"), ("j", "cj", "sj")):
            if e[n] == "u" and g.r.random() < 0.3:
                e[n] = g.pick(["p2", "p3"])
                kw[sp] = float(e[n][1])
            elif e[n] != "u" or g.r.random() < 0.3:
                kw[d + "_clustering_func"] = CF[e[n]]
        e["mir"] = g.r.random() < 0.3
        m, e["err"] = attempt(lambda: surfce_to_stl(build_surf(s), e["ni"], e["nj"], mirror_y=e["mir"], **kw))
    else:
        e["nj"] = e["ni"]
        funs = {d + "_clustering_func": CF[e[n]] for d, n in (("i", "ci"), ("j", "cj")) if e[n] != "u"}

        def f():
            c = OnePatch(build_surf(s), stl_resolution=e["ni"], verbosity=loud(s))
            c._multiprocess = g.r.random() < 0.1
            if e["how"] == "comp":
                c.add_clustering_options(**funs)
                c.generate_patches()
                if e["ni"] % 2:
                    c.stl_resolution = e["ni"] + 1
                    c.surface(resolution=e["ni"])
            else:
                v = Vehicle()
                v.configure(name="v", verbosity=loud(s))
                kw = {"clustering": funs} if funs else {}
                if e["how"] == "composite":
                    w = CompositeComponent(stl_resolution=e["ni"], verbosity=loud(s))
                    w._multiprocess = False
                    w.add_component(OnePatch(build_surf(s), stl_resolution=e["ni"] + 1))
                    c = w
                v.add_component(c, **kw)
                v.generate()
            return c.mesh

        m, e["err"] = attempt(f)
    e["tris"] = tris(m) if not e["err"] else []
    return e


def swept_event(g):
    ne = g.pick([4, 4, 4, 3])
    x, secs = g.i(-4, 0), []
    for _ in range(g.i(2, 3)):
        pts = [[x, g.i(-4, 4), g.i(-4, 4), 1] for _ in range(ne)]
        if len({(p[1], p[2]) for p in pts}) < ne:
            return swept_event(g)
        secs.append([{"k": "line", "p0": a, "p1": b} for a, b in zip(pts, pts[1:] + pts[:1])])
        x += g.i(1, 4)
    close = ne == 4 and g.r.random() < 0.7
    e = {"op": "swept", "secs": secs, "close": close, "ci": "u", "cj": "u", "ax": g.pick(["", "", "x", "y", "z"]), "app": g.r.random() < 0.6}
    if g.r.random() < 0.7:
        a, b = g.i(1, 3), g.i(1, 3)
        re = [a, b, a, b] if close else [g.i(1, 3) for _ in range(ne)]
        e["rs"], e["re"] = g.i(1, 4), re[:ne]
        res = {"sweep": e["rs"], **{f"e{k}": n for k, n in enumerate(e["re"])}}
    else:
        res = e["rs"] = g.i(1, 3)
        e["re"] = [res] * ne
    if not close:
        e["ci"], e["cj"] = g.pick(["u", "sq", "mix"]), g.pick(["u", "rsq", "mix"])

    def f():
        c = SweptComponent([[build_path(p) for p in s] for s in secs], close_ends=close, stl_resolution=res, verbosity=loud(e))
        c._multiprocess = g.r.random() < 0.1
        v = Vehicle()
        v.configure(name="v", verbosity=loud(e))
        cl = {d + "_clustering_func": CF[e[n]] for d, n in (("i", "ci"), ("j", "cj")) if e[n] != "u"}
        v.add_component(c, reflection_axis=e["ax"] or None, append_reflection=e["app"], clustering=cl or None)
        v.generate()
        if e["rs"] % 2:
            v.generate()
        return c.mesh

    m, e["err"] = attempt(f)
    e["tris"] = tris(m) if not e["err"] else []
    return e


def row_event(g):
    e = {"op": "row", "lb": g.i(-4, 3), "n": g.i(2, 7), "p": g.i(1, 3)}
    e["ub"] = e["lb"] + g.i(1, 5)
    kw = {} if e["p"] == 1 and g.r.random() < 0.5 else {"spacing": float(e["p"])}
    row, e["err"] = attempt(lambda: [micro(x) for x in default_vertex_func(lb=e["lb"], ub=e["ub"], steps=e["n"], **kw)])
    e["vals"] = row if not e["err"] else []
    return e


def batch(x):
    seed, n = x
    g = Gen(seed)
    out = []
    for k in range(n):
        out.append(swept_event(g) if g.r.random() < 0.35 else patch_event(g))
    out.append(row_event(g))
    return out


def drive(path, seed, tier):
    tr = Trace(path)
    for evs in pmap(batch, [(seed * 1000 + k, 4) for k in range(160 if tier == "quick" else 1500)]):
        tr.hist(evs)
    tr.close()
    return tr.n
