"""Meshing with failing patches (P03) and under controlled schedules (P04)."""
import builtins, json, os, tempfile, time, traceback
from harness.common import *
from stl import mesh as stlmesh
from hypervehicle import Vehicle
from hypervehicle.geometry.surface import ParametricSurface
from hypervehicle.components.component import Component
from hypervehicle.components import CompositeComponent, SweptComponent
from hypervehicle.geometry.path import Line

V = Vector3


class PatchFailure(Exception):
    pass


def error(name):
    if name == "own":
        return PatchFailure
    return np.linalg.LinAlgError if name == "LinAlgError" else getattr(builtins, name)


class Tile(ParametricSurface):
    """Unit tile number j, tilted; fails at one vertex of its grid while the switch file says so.

    The switch is a file, so that it acts alike in worker processes."""

    def __init__(self, j, switch):
        self.j, self.switch = j, switch

    def __repr__(self):
        return f"Tile {self.j}"

    def __call__(self, r, s):
        if os.path.exists(self.switch):
            with open(self.switch) as f:
                i, j, n, x = f.read().split()
                i, j, n = int(i), int(j), int(n)
            if abs(r * n - i) < 1e-6 and abs(s * n - j) < 1e-6:
                raise error(x)(f"tile {self.j}")
        return V(3.0 * self.j + r, 0.5 + s, r + 1.0)


class Tiles(Component):
    """A component as users write them, by subclassing."""

    componenttype = "swept"

    def __init__(self, first, n, where, **kw):
        super().__init__(**kw)
        self.first, self.n, self.where = first, n, where

    def generate_patches(self):
        # new patches, so no surfaces and no mesh yet
        self.surfaces = self.mesh = None
        self.patches = {f"tile{self.n - j}": Tile(self.first + j, os.path.join(self.where, str(self.first + j))) for j in range(self.n)}


def runs(m, base, lvl_shift=0):
    """consecutive triangles of one patch and level as [patch, level, number]"""
    out = []
    for t in m.vectors.astype(float):
        x, y, z = t.mean(axis=0)
        j = int(math.floor(x / 3.0)) + 1 + (base if y < 0 else 0)
        lvl = int(math.floor(z)) - 1
        if out and out[-1][0] == j and out[-1][1] == lvl:
            out[-1][2] += 1
        else:
            out.append([j, lvl, 1])
    return out


def run_fault(h):
    head, ops = h["head"], h["ev"]
    evs = []
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            v = Vehicle()
            v.configure(name="v", verbosity=loud(head))
            comps, sw = [], []
            for k, c in enumerate(head["comps"]):
                w = os.path.join(d, f"sw{k}")
                os.mkdir(w)
                sw.append(w)
                if head["wrap"] and c["base"] > 1:
                    comp = CompositeComponent(stl_resolution=c["res"], name=f"c{k}")
                    for first, n in ((0, 1), (1, c["base"] - 1)):
                        comp.add_component(Tiles(first, n, w, stl_resolution=c["res"]))
                else:
                    comp = Tiles(0, c["base"], w, stl_resolution=c["res"], name=f"c{k}")
                comp._multiprocess = head["par"]
                v.add_component(comp, reflection_axis="y" if c["rf"] else None)
                comps.append(comp)
            with quiet():
                v.generate()

            def files():
                out = []
                for k, c in enumerate(head["comps"]):
                    f = f"x-c{k}.stl"
                    if os.path.exists(f):
                        m, err = attempt(lambda: stlmesh.Mesh.from_file(f))
                        out.append(runs(m, c["base"]) if not err else [[0, 0, 0]])
                    else:
                        out.append([])
                return out

            for e in ops:
                e = dict(e)
                o = e["op"]
                err = ""
                if o == "arm":
                    w = sw[e["k"] - 1]
                    for f in os.listdir(w):
                        os.unlink(os.path.join(w, f))
                    for p in e["f"]:
                        with open(os.path.join(w, str(p - 1)), "w") as f:
                            f.write(f"{e['i']} {e['j']} {head['comps'][e['k'] - 1]['res']} {e['x']}")
                elif o in ("mesh", "surface", "analyse", "check"):
                    c, base = comps[e["k"] - 1], head["comps"][e["k"] - 1]["base"]
                    if o == "surface":
                        _, err = attempt(c.surface)
                    if o == "analyse":
                        _, err = attempt(c.analyse)
                    if o == "check":
                        _, err = attempt(c.stl_check)
                    if o == "mesh" or (o == "surface" and not err):
                        m, err = attempt(lambda: c.mesh)
                        e["runs"] = runs(m, base) if not err else []
                elif o == "export":
                    _, err = attempt(lambda: v.to_stl(prefix="x"))
                elif o == "vanalyse":
                    _, err = attempt(lambda: v.analyse({f"c{k}": 1.0 for k in range(len(comps))}))
                    if not err:
                        e["area"] = micro(v.area)
                elif o == "move":
                    _, err = attempt(lambda: v.transform([("translate", V(0.0, 0.0, 1.0))]))
                elif o == "gen":
                    _, err = attempt(v.generate)
                e["err"] = err
                e["files"] = files()
                evs.append(e)
        except Exception:
            evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
        finally:
            os.chdir(cwd)
    return evs


def drive(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for h, evs in zip(hists, pmap(run_fault, hists)):
        tr.hist(evs, head=h["head"])
    tr.close()
    return tr.n


class Gated(Tile):
    """A tile that is not evaluated before the tiles that shall finish earlier have been."""

    def __init__(self, j, where, before, n):
        super().__init__(j, "")
        self.where, self.before, self.n = where, before, n
        self.waited = False

    def __call__(self, r, s):
        if not self.waited:
            self.waited = True
            end = time.time() + 1.5
            while self.before is not None and not os.path.exists(os.path.join(self.where, str(self.before))):
                if time.time() > end:
                    break
                time.sleep(0.002)
            time.sleep(0.004)
        if r > 1 - 1e-9 and s > 1 - 1e-9:
            open(os.path.join(self.where, str(self.j)), "w").close()
        return super().__call__(r, s)


class GatedTiles(Component):
    componenttype = "swept"

    def __init__(self, n, where, order, **kw):
        super().__init__(**kw)
        self.n, self.where, self.order = n, where, order

    def generate_patches(self):
        self.surfaces = self.mesh = None
        o = [p - 1 for p in self.order]
        before = {p: (o[k - 1] if k else None) for k, p in enumerate(o)}
        self.patches = {f"tile{self.n - j}": Gated(j, self.where, before.get(j), self.n) for j in range(self.n)}


def run_sched(e):
    e = dict(e)
    n = e["n"] // 2 if e["rf"] else e["n"]
    # the schedule concerns the patches; with reflection, the mirrored tiles share the gates of the originals
    order = [p for p in e["order"] if p <= n]
    real = os.cpu_count
    try:
        with tempfile.TemporaryDirectory() as d:
            def build(par):
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                c = GatedTiles(n, d, order if par else [], stl_resolution=e["res"], verbosity=loud(e))
                c._multiprocess = par
                v = Vehicle()
                v.configure(name="v", verbosity=loud(e))
                v.add_component(c, reflection_axis="y" if e["rf"] else None)
                v.generate()
                return c

            def f():
                os.cpu_count = lambda: e["w"]
                c = build(e["par"])
                m = c.mesh
                c.surface()
                q = build(False)
                a = sorted(map(tuple, m.vectors.reshape(-1, 9).round(4).tolist()))
                b = sorted(map(tuple, q.mesh.vectors.reshape(-1, 9).round(4).tolist()))
                return runs(m, n), runs(c.mesh, n), a == b

            r, e["err"] = attempt(f)
            e["runs"], e["again"], e["same"] = r if r else ([], [], False)
        e["op"] = "build"
        return [e]
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]
    finally:
        os.cpu_count = real


def run_kind(x):
    """supplied components: which patch does each triangle of the mesh belong to?"""
    kind, p, w, par = x
    from harness.life import make
    from hypervehicle.utilities import surfce_to_stl

    real = os.cpu_count
    e = {"op": "kind", "kind": kind, "p": p, "w": w, "par": par}
    try:

        def f():
            os.cpu_count = lambda: w
            c = make(kind, p)
            c._multiprocess = par
            c.generate_patches()
            if p % 2:
                c.translate(V(20.0, 0.0, 0.0))
                c.reflect("x")
            res = c.stl_resolution
            own, want = {}, []
            for k, patch in enumerate(c.patches.values()):
                for t in surfce_to_stl(patch, res, res).vectors.reshape(-1, 9).round(4) + 0.0:
                    own.setdefault(tuple(t.tolist()), []).append(k + 1)
                    want.append(tuple(t.tolist()))

            def seen(m):
                out = []
                for t in m.vectors.reshape(-1, 9).round(4) + 0.0:
                    ks = own.get(tuple(t.tolist()), [0])
                    k = out[-1][0] if out and out[-1][0] in ks else ks[0]
                    if out and out[-1][0] == k:
                        out[-1][2] += 1
                    else:
                        out.append([k, 0, 1])
                return out

            m = c.mesh
            got = sorted(tuple(t) for t in (m.vectors.reshape(-1, 9).round(4) + 0.0).tolist())
            a = seen(m)
            c.surface()
            return len(c.patches), res, a, seen(c.mesh), got == sorted(want)

        r, e["err"] = attempt(f)
        e["n"], e["res"], e["runs"], e["again"], e["same"] = r if r else (1, 1, [], [], False)
        e["order"] = list(range(1, e["n"] + 1))
        return [e]
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]
    finally:
        os.cpu_count = real


def run_edges(x):
    """a swept body whose edges have their own resolutions, meshed by workers and in turn"""
    k, w = x
    g = Gen(k)
    real = os.cpu_count
    n = g.pick([3, 4, 4, 12])
    close = n == 4 and g.r.random() < 0.6
    re = [g.i(1, 4) for _ in range(n)]
    if close:
        re[2:] = re[:2]
    e = {"op": "edges", "re": re, "sw": g.i(1, 4), "close": close, "w": w, "mir": g.r.random() < 0.4}
    ring = [(2.0, 2.0), (8.0, 1.0), (9.0, 7.0), (3.0, 8.0)][:n] if n <= 4 else [(6 + 4 * math.cos(2 * math.pi * k / n), 6 + 3 * math.sin(2 * math.pi * k / n)) for k in range(n)]
    cells = [(e["sw"], r) for r in re] + [(re[0], re[1])] * (2 if close else 0)
    try:

        def build(par):
            def sec(x, t):
                p = [V(x, y + t, z - t) for y, z in ring]
                return [Line(a, b) for a, b in zip(p, p[1:] + p[:1])]

            res = {**{f"e{i}": r for i, r in enumerate(re)}, "sweep": e["sw"]}
            c = SweptComponent([sec(0.0, 0.0), sec(2.0, 1.0)], close_ends=close, stl_resolution=res, verbosity=loud(e))
            c._multiprocess = par
            c.generate_patches()
            if e["mir"]:
                c.reflect("y")
            tris = c.mesh.vectors
            # every triangle has the middle of a cell of its patch for a vertex
            mid, own = [], []
            for k, pat in enumerate(c.patches.values()):
                nr, ns = cells[k % len(cells)]
                at = [[np.array([p.x, p.y, p.z], dtype=float) for p in (pat(i / nr, j / ns) for j in range(ns + 1))] for i in range(nr + 1)]
                for i in range(nr):
                    for j in range(ns):
                        mid.append((at[i][j] + at[i + 1][j] + at[i][j + 1] + at[i + 1][j + 1]) / 4)
                        own.append(k + 1)
            mid, runs = np.array(mid), []
            for t in tris:
                d = ((t[:, None, :].astype(float) - mid[None, :, :]) ** 2).sum(axis=2).min(axis=0)
                o = own[int(d.argmin())] if d.min() < 1e-6 else 0
                if not runs or runs[-1] != o:
                    runs.append(o)
            return tris.reshape(-1, 9), runs, len(c.patches)

        def f():
            os.cpu_count = lambda: w
            (a, ra, n1), (b, rb, n2) = build(True), build(False)
            return len(a), len(b), sorted(map(tuple, (a.round(4) + 0.0).tolist())) == sorted(map(tuple, (b.round(4) + 0.0).tolist())), ra, rb, n1

        r, e["err"] = attempt(f)
        e["na"], e["nb"], e["same"], e["ra"], e["rb"], e["n"] = r if r else (0, 0, False, [], [], 0)
        return [e]
    except Exception:
        return [{"op": "lost", "what": traceback.format_exc()[-1500:]}]
    finally:
        os.cpu_count = real


def drive_sched(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_sched, hists):
        tr.hist(evs)
    kinds = [(k, p, w, par) for k in ("swept", "swept2", "revolved2", "cube", "sphere", "fin", "wing") for p in ((0, 1) if tier == "quick" else range(6)) for w, par in ((1, True), (3, True), (8, False))]
    for evs in pmap(run_kind, kinds):
        tr.hist(evs)
    edges = [(seed * 1000 + k, 1 + k % 5) for k in range(40 if tier == "quick" else 400)]
    for evs in pmap(run_edges, edges):
        tr.hist(evs)
    tr.close()
    return tr.n
