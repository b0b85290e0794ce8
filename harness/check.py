"""Mesh check and repair (P08) on integer meshes."""
import traceback
from harness.common import *
from stl import mesh as stlmesh
from hypervehicle.components.component import Component


class Raw(Component):
    """A component whose mesh is supplied."""

    componenttype = "swept"

    def generate_patches(self):
        pass


def box(o, s):
    v = [[o[0] + s[0] * (k & 1), o[1] + s[1] * (k >> 1 & 1), o[2] + s[2] * (k >> 2)] for k in range(8)]
    quads = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    return [t for a, b, c, d in quads for t in ([v[a], v[b], v[c]], [v[a], v[c], v[d]])]


def tetra(o, s):
    v = [o, [o[0] + s[0], o[1], o[2]], [o[0], o[1] + s[1], o[2]], [o[0], o[1], o[2] + s[2]]]
    return [[v[a], v[b], v[c]] for a, b, c in ((0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2))]


def octa(o, s):
    p = [[o[0] + (s[0] if a == 0 else 0), o[1] + (s[1] if a == 1 else 0), o[2] + (s[2] if a == 2 else 0)] for a in range(3)]
    m = [[o[0] - (s[0] if a == 0 else 0), o[1] - (s[1] if a == 1 else 0), o[2] - (s[2] if a == 2 else 0)] for a in range(3)]
    out = []
    for sx in (0, 1):
        for sy in (0, 1):
            for sz in (0, 1):
                x, y, z = (p, m)[sx][0], (p, m)[sy][1], (p, m)[sz][2]
                out.append([x, y, z] if (sx + sy + sz) % 2 == 0 else [x, z, y])
    return out


def lamina(o, s):
    """two opposite triangles"""
    t = [o, [o[0] + s[0], o[1], o[2]], [o[0], o[1] + s[1], o[2] + 1]]
    return [t, [t[0], t[2], t[1]]]


def apart(o, s):
    """areas cancel, edges do not match"""
    t = [o, [o[0] + s[0], o[1], o[2]], [o[0], o[1] + s[1], o[2]]]
    u = [[p[0], p[1], p[2] + s[2]] for p in t]
    return [t, [u[0], u[2], u[1]]]


def strip(o, s):
    """an open fan"""
    v = [o, [o[0] + s[0], o[1], o[2]], [o[0] + s[0], o[1] + s[1], o[2]], [o[0], o[1] + s[1], o[2] + s[2]]]
    return [[v[0], v[1], v[2]], [v[0], v[2], v[3]]]


def subdivide(T):
    """each triangle in three, about an integer centre (needs coordinates in multiples of 3)"""
    out = []
    for a, b, c in T:
        m = [(a[k] + b[k] + c[k]) // 3 for k in range(3)]
        out += [[a, b, m], [b, c, m], [c, a, m]]
    return out


def shape(g, k=1):
    T, at = [], 0
    for _ in range(g.pick([1, 1, 2])):
        o = [at + k * g.i(0, 2) * 3, k * g.i(-2, 2) * 3, k * g.i(-2, 2) * 3]
        s = [3 * k * g.i(1, 2) for _ in range(3)]
        t = g.pick([box, box, tetra, octa, lamina, apart, strip])(o, s)
        if k == 1 and g.r.random() < 0.25:
            t = subdivide(t)
        T += t
        at += 24 * k
    return T


def mutate(g, T):
    T = [list(t) for t in T]
    for _ in range(g.pick([0, 0, 0, 1, 1, 2])):
        j = g.i(0, len(T) - 1)
        m = g.pick(["flip", "flip", "drop", "dup", "move", "deg", "rot", "back", "inside"])
        if m == "flip":
            T[j] = [T[j][0], T[j][2], T[j][1]]
        elif m == "drop" and len(T) > 1:
            del T[j]
        elif m == "dup":
            T.insert(g.i(0, len(T)), T[j])
        elif m == "move":
            c = g.i(0, 2)
            p = list(T[j][c])
            p[g.i(0, 2)] += g.pick([-1, 1])
            T[j] = T[j][:c] + [p] + T[j][c + 1 :]
        elif m == "deg":
            T.append([T[j][0], T[j][0], T[j][1]])
        elif m == "rot":
            T[j] = [T[j][1], T[j][2], T[j][0]]
        elif m == "back":
            T += [T[j], [T[j][0], T[j][2], T[j][1]]]
        elif m == "inside":
            T = [[t[0], t[2], t[1]] for t in T]
    g.r.shuffle(T)
    return T


def mesh_of(T, scale, stored=None):
    """stored: triangles whose vertices are listed against their stored normal"""
    d = np.zeros(len(T), dtype=stlmesh.Mesh.dtype)
    for k, t in enumerate(T):
        if stored and k in stored:
            t = [t[0], t[2], t[1]]
        d["vectors"][k] = np.array(t, dtype=float) * scale
    m = stlmesh.Mesh(d)
    if stored:
        for k in stored:
            d["normals"][k] = -m.normals[k]
        for k in range(len(T)):
            if k not in stored:
                d["normals"][k] = m.normals[k]
        m = stlmesh.Mesh(d, calculate_normals=False)
    return m


def check(c, T, g, opts=None):
    pa, ml = opts or g.pick([(True, True), (True, True), (True, False), (False, True), (False, False)])
    how = g.i(0, 2)

    def f():
        if how == 0 and pa and ml:
            return c.stl_check()
        if how == 1:
            return c.stl_check(pa, ml)
        return c.stl_check(project_area=pa, matching_lines=ml)

    r, err = attempt(f)
    return {"op": "check", "T": T, "pa": pa, "ml": ml, "got": bool(r), "err": err if r is None or isinstance(r, (bool, np.bool_)) else "no verdict"}


def checks(seed):
    g = Gen(seed)
    try:
        evs = []
        for _ in range(5):
            T = mutate(g, shape(g))
            scale = g.pick([1.0, 1.0, 0.5, 8.0, 2.0**-10])
            stored = {k for k in range(len(T)) if g.r.random() < 0.3} if g.r.random() < 0.3 else None
            if stored and any(t[0] == t[1] for t in T):
                stored = None
            c = Raw(verbosity=loud(T))
            c.mesh = mesh_of(T, scale, stored)
            evs.append(check(c, T, g))
            if g.r.random() < 0.3:
                evs.append(check(c, T, g))
        return evs
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]


def classes(P):
    seen = {}
    return [seen.setdefault(tuple(p.tolist()), len(seen) + 1) for p in P]


def do_repair(c, V, d, unit, default):
    n = len(V) // 3

    def f():
        c.stl_repair() if default else c.stl_repair(d * unit)
        return c.mesh.vectors.astype(float).copy()

    w, err = attempt(f)
    e = {"op": "repair", "V": [[x * 4 for x in p] for p in V], "d": d * 4, "W": [], "cls": [], "err": err}
    if not err:
        P = w.reshape(-1, 3)
        e["cls"] = classes(P)
        e["W"] = [[int(round(x / unit * 4)) for x in p] for p in P]
    return e


def repairs(seed):
    """points in units of 1/64 of the lattice; distance 16 units"""
    g = Gen(seed)
    try:
        evs = []
        for _ in range(2):
            default = g.r.random() < 0.3
            # a distance of 1e-6 is 16.8 units
            unit = 2.0**-24 if default else g.pick([2.0**-6, 2.0**-6, 2.0**-9, 2.0**-4])
            d = 16
            if g.r.random() < 0.6:
                # jittered closed lattice mesh; every cluster's mean is a whole number of units
                T0 = shape(g, 1)
                if len(T0) > 30:
                    T0 = T0[:30]
                occ = {}
                for k, t in enumerate(T0):
                    for v, p in enumerate(t):
                        occ.setdefault(tuple(p), []).append((k, v))
                T = [[None] * 3 for _ in T0]
                mean = {}
                for p, at in occ.items():
                    js = []
                    for ax in range(3):
                        n = len(at)
                        j = [g.i(0, 3) if n > 12 else g.i(0, 10) for _ in range(n)]
                        while sum(j) % n:
                            k = g.i(0, n - 1)
                            j[k] += 1 if j[k] < 12 else -j[k]
                        js.append(j)
                    mean[p] = [64 * p[ax] + sum(js[ax]) // len(at) for ax in range(3)]
                    for n, (k, v) in enumerate(at):
                        T[k][v] = [64 * p[ax] + js[ax][n] for ax in range(3)]
                M = [[mean[tuple(p)] for p in t] for t in T0]
                c = Raw(verbosity=loud(T))
                c.mesh = mesh_of(T, unit)
                V = [p for t in T for p in t]
                if g.r.random() < 0.7:
                    evs.append(check(c, T, g, (False, True)))
                evs.append(do_repair(c, V, d, unit, default))
                # areas of points in units overflow the specification's integers, so scaled meshes are compared by lines
                evs.append(check(c, M, g, (False, True)))
                if all(abs(x) < 64 * 40 for t in M for p in t for x in p):
                    evs.append(check(c, M, g, (True, True)))
                if g.r.random() < 0.5:
                    evs.append(do_repair(c, [p for t in M for p in t], d, unit, default))
            else:
                # arbitrary points, chains included
                n = g.i(2, 8)
                span = g.pick([24, 60, 200])
                pts = [[g.i(0, span) for _ in range(3)] for _ in range(g.i(3, 3 * n))]
                pts += [[x + g.i(-13, 13) for x in g.pick(pts)] for _ in range(len(pts))]
                T = [[g.pick(pts) for _ in range(3)] for _ in range(n)]
                c = Raw(verbosity=loud(T))
                c.mesh = mesh_of(T, unit)
                evs.append(do_repair(c, [p for t in T for p in t], d, unit, default))
        return evs
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]


def drive(path, seed, tier):
    n = 240 if tier == "quick" else 2500
    tr = Trace(path)
    for evs in pmap(checks, [seed * 100000 + k for k in range(n)]):
        tr.hist(evs)
    for evs in pmap(repairs, [seed * 100000 + 50000 + k for k in range(n)]):
        tr.hist(evs)
    tr.close()
    return tr.n
