"""Histories of vehicle operations chosen by TLC, replayed into the code (P01, P02, P10, P11, P18, P19)."""
import glob, json, math, os, shutil, sys, tempfile, traceback, types
from copy import deepcopy

from harness.common import *
from harness.common import ANG
from stl import mesh as stlmesh
import pandas as pd
from hypervehicle import Vehicle
from hypervehicle.geometry import Line, Polyline, Bezier
from hypervehicle.components import SweptComponent, RevolvedComponent, CompositeComponent, Fin, Wing
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.components.common import uniform_thickness_function, leading_edge_width_function

PROBES = [(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.3, 0.6)]
V = Vector3


def quad(pts):
    return [Line(V(*a), V(*b)) for a, b in zip(pts, pts[1:] + pts[:1])]


def resolution(kind, p=0):
    """cells per patch edge; parts of composites differ from the composite"""
    return 1 + (p // 2 + (kind in ("swept2", "revolved2", "sphere"))) % 2


CLUSTER = {"sq": lambda x: x * x, "up": lambda x: x * (2.0 - x)}


class Broken(Exception):
    pass


def breakable(c):
    """a component of the same kind, whose patches can be made to fail"""
    base = type(c)

    def generate_patches(self):
        if self._out_of_order:
            raise Broken()
        return base.generate_patches(self)

    c.__class__ = type(base.__name__, (base,), {"generate_patches": generate_patches})
    c._out_of_order = False
    return c


def axis(name, upper):
    """axis names are accepted in either case"""
    return name.upper() if upper else name


def make(kind, p, verb=1, name=None):
    kw = dict(stl_resolution=resolution(kind, p), verbosity=verb, name=name or None)
    a = 1.0 + 0.5 * p
    if kind == "swept":
        cs = lambda x: quad([(x, -0.5 * a, 0.25), (x, 0.75, 0.5), (x, 0.5, 1.25), (x, -0.25, 1.0 * a)])
        c = SweptComponent([cs(-0.7), cs(0.6 * a)], **kw)
    elif kind == "swept2":
        cs = lambda x, k: quad([(x, -k, 0.3 * k), (x + 0.1, k, 0.2), (x, 0.8 * k, 1.1), (x, -0.6, 0.9 * a)])
        c = SweptComponent([cs(-0.5, 1.0), cs(0.2, 0.7), cs(0.9 * a, 0.4)], **kw)
    elif kind == "revolved":
        c = RevolvedComponent(Line(V(0.3, 0.4), V(1.7 * a, 0.9)), **kw)
    elif kind == "revolved2":
        c = RevolvedComponent(Polyline([Line(V(-0.6, 0.2), V(0.2, 0.8 * a)), Line(V(0.2, 0.8 * a), V(0.9, 0.5))]), **kw)
    elif kind == "cube":
        c = Cube(0.5 * a, centre=V(0.3, -0.2, 0.1 * p), **kw)
    elif kind == "sphere":
        c = Sphere(0.6 * a, centre=V(-0.4, 0.2, 0.3 * p), **kw)
    elif kind == "composite":
        c = CompositeComponent(**kw)
    elif kind == "fin":
        sharp = dict(rudder_type="sharp", rudder_length=0.2) if p % 2 else {}
        th = 0.1 * a
        c = Fin(
            p0=V(0.0, 0.3), p1=V(0.0, 0.3 + a), p2=V(0.7, 0.3 + a), p3=V(1.9, 0.3), fin_thickness=th, fin_angle=0.3 * p,
            top_thickness_function=uniform_thickness_function(th, "top"), bot_thickness_function=uniform_thickness_function(th, "bot"),
            LE_wf=leading_edge_width_function, pivot_angle=0.1 * (p // 2), pivot_point=V(0.4, 0.3), **sharp, **kw,
        )
    elif kind == "wing":
        th = 0.1 * a
        c = Wing(
            A0=V(0.0, 0.0), A1=V(1.0, 0.0), TT=V(2.0, 0.0), B0=V(0.0, 1.0 * a),
            Line_B0TT=Bezier([V(0.0, 1.0 * a), V(1.0, a), V(2.0, 0.6), V(2.0, 0.0)]),
            top_tf=uniform_thickness_function(th, "top"), bot_tf=uniform_thickness_function(th, "bot"), LE_wf=leading_edge_width_function,
            flap_length=0.2, flap_angle=0.1 * p, close_wing=p % 2 == 1, **kw,
        )
    else:
        raise KeyError(kind)
    c._multiprocess = False
    return c if kind == "composite" else breakable(c)


def row(r, x, y, z, d):
    return (r[0] * x + r[1] * y + r[2] * z + r[3]) / d


def offset_fn(op):
    def fn(x, y, z=0.0):
        return V(*[row(r, x, y, z, op["d"]) for r in op["m"]])

    return fn


class Options:
    """Equal lists of options are one and the same list, as in user code that reuses a variable."""

    def __init__(self):
        self.seen = {}

    def transform(self, op):
        if op["o"] == "rot":
            return ("rotate", math.degrees(ANG[tuple(op["cs"])]), axis(op["ax"], op["cs"][1] < 0))
        if all(r[:3] == [0, 0, 0] for r in op["m"]) and op["d"] == 1:
            return ("translate", V(*[float(r[3]) for r in op["m"]]))
        return ("translate", offset_fn(op))

    def transforms(self, ops):
        k = json.dumps(["t", ops])
        if k not in self.seen:
            self.seen[k] = [self.transform(o) for o in ops]
        return self.seen[k]

    def curvatures(self, ops):
        k = json.dumps(["c", ops])
        if k not in self.seen:
            out = []
            for o in ops:
                fun = lambda x, y, o=o: row(o["row"], x, y, 0.0, o["d"])
                dash = lambda x, y, o=o: (lambda sl: sl[0] / sl[1])(o["sl1"] if x < o["x0"] / 1e6 else o["sl2"])
                out.append((o["dir"], fun, dash))
            self.seen[k] = out
        return self.seen[k]

    def kwargs(self, o, mod=True):
        kw = {}
        if o["refl"]:
            kw["reflection_axis"] = axis(o["refl"], o["app"] and bool(o["tr"]))
            kw["append_reflection"] = o["app"]
        if o["curv"]:
            kw["curvatures"] = self.curvatures(o["curv"][0])
        if o["tr"]:
            kw["transformations"] = self.transforms(o["tr"][0])
        if o["clu"]:
            kw["clustering"] = {f"{d}_clustering_func": CLUSTER[o["clu"][0][d]] for d in "ij"}
        if mod and o["mod"]:
            kw["modifier_function"] = offset_fn(o["mod"][0])
        return kw


QUARTERS = [(a / 4, b / 4) for a in range(5) for b in range(5)]


class TooLong(BaseException):
    """a history is cut off: what was seen of it is judged, the rest not"""


deadline = [math.inf]


def probe(comp, at=PROBES):
    """the patches of a component at the probe parameters"""
    out = []
    for p in list(comp.patches.values()):
        pts = []
        for r, s in at:
            v, err = attempt(lambda: p(r, s))
            if err == "Hung":
                raise Hung()
            if time.process_time() > deadline[0]:
                raise TooLong()
            pts.append(BADPT if err else point(v))
        out.append(pts)
    return out


def tris(m):
    return [[[micro(c) for c in v] for v in t] for t in m.vectors.tolist()]


class Densities(dict):
    """the same density for every name"""

    def __missing__(self, k):
        return 2.0

    def get(self, k, d=None):
        return 2.0

    def __contains__(self, k):
        return True

    def __bool__(self):
        return True


def sig(x):
    return ["%.9g" % float(v) for v in np.asarray(x, dtype=float).ravel()]


class FakePymesh:
    """records what is merged; the merged file holds nothing"""

    def __init__(self):
        self.loaded = []
        mod = types.ModuleType("pymesh")
        mio = types.ModuleType("pymesh.meshio")
        mio.load_mesh = self.load
        mod.load_mesh = self.load
        mio.save_mesh = self.save
        mod.save_mesh = self.save
        mod.meshio = mio
        mod.merge_meshes = lambda ms: tuple(ms)
        mod.resolve_self_intersection = lambda m, *a, **k: m
        for n in ("remove_degenerated_triangles", "remove_duplicated_faces", "remove_isolated_vertices", "remove_obtuse_triangles"):
            setattr(mod, n, lambda m, *a, **k: (m, {}))
        self.mod = mod
        self.saved = []

    def load(self, f):
        return os.path.relpath(f)

    def save(self, f, m, *a, **k):
        self.saved.append([os.path.relpath(f), list(m)])
        with open(f + ".merged", "w") as g:
            g.write("merged")


def run_history(ops):
    v = Vehicle()
    v.verbosity = 1
    objs, opt, nom, mid, res, evs = [], Options(), [], [], [], []
    home = os.getcwd()
    work = tempfile.mkdtemp(prefix="life", dir=home)
    os.chdir(work)
    deadline[0] = time.process_time() + 120
    fake = FakePymesh()
    sys.modules["pymesh"] = fake.mod
    sys.modules["pymesh.meshio"] = fake.mod.meshio

    def ident(c):
        for k, o in enumerate(objs):
            if o is c:
                return k + 1
        return 0

    def stls():
        out = []
        for f in sorted(glob.glob("**/*.stl", recursive=True)):
            out.append({"f": f, "t": tris(stlmesh.Mesh.from_file(f))})
        return out

    def others():
        return sorted(f for f in glob.glob("**/*", recursive=True) if os.path.isfile(f) and not f.endswith(".stl") and not f.endswith(".merged"))

    try:
        for e in ops:
            e = dict(e)
            k = e["op"]
            if k == "new":
                objs.append(make(e["kind"], e["p"], e["verb"], e["name"]))
                twin = make(e["kind"], e["p"])
                _, err = attempt(twin.generate_patches)
                nom.append([] if e["kind"] == "composite" else probe(twin))
                mid.append([] if e["kind"] == "composite" else probe(twin, QUARTERS))
                res.append(resolution(e["kind"], e["p"]))
                err = ""
            elif k == "add":
                kw = opt.kwargs(e["o"])
                if e["name"]:
                    kw["name"] = e["name"]
                if e["ghost"]:
                    kw["ghost"] = True
                said = str(v), repr(v)
                _, err = attempt(lambda: v.add_component(objs[e["id"] - 1], **kw))
                e["same"] = said == (str(v), repr(v))
            elif k == "kid":
                kw = opt.kwargs(e["o"], mod=False)
                _, err = attempt(lambda: objs[e["c"] - 1].add_component(objs[e["id"] - 1], **kw))
            elif k == "copy":
                c, err = attempt(lambda: deepcopy(objs[e["id"] - 1]))
                kids = list(c.components) if isinstance(c, CompositeComponent) else []
                for x in kids + [c]:
                    objs.append(x)
                    nom.append([])
                    mid.append([])
                    res.append(0)
            elif k == "gen":
                _, err = attempt(v.generate)
            elif k == "angle":
                v.vehicle_angle_offset = math.degrees(ANG[tuple(e["a"][0]["cs"])])
                err = ""
            elif k in ("addvt", "vt"):
                t = opt.transforms(e["t"])
                arg = t[0] if e["single"] else t
                f = v.add_vehicle_transformations if k == "addvt" else v.transform
                _, err = attempt(lambda: f(arg))
            elif k == "move":
                t = opt.transform(e["t"][0])
                o = objs[e["id"] - 1]
                _, err = attempt(lambda: getattr(o, t[0])(*t[1:]))
            elif k == "reflect":
                o = objs[e["id"] - 1]
                _, err = attempt(lambda: o.reflect(e["ax"]) if e["ax"] else o.reflect())
            elif k == "apply":
                o = objs[e["id"] - 1]
                f = {"modify": o.apply_modifier, "curve": o.curve, "transform": o.transform, "nominal": o.generate_patches}[e["how"]]
                _, err = attempt(f)
            elif k == "mesh":
                m, err = attempt(lambda: objs[e["id"] - 1].mesh)
                e["tri"] = [] if err else tris(m)
            elif k == "configure":
                _, err = attempt(lambda: v.configure(**({"name": e["name"]} if e["name"] else {}), verbosity=e["verb"]))
            elif k == "export":
                kw = {"prefix": e["prefix"]} if e["prefix"] else {}
                if e.get("merge"):
                    kw["merge"] = True
                fake.saved = []
                _, err = attempt(lambda: v.to_stl(**kw))
                e["merged"] = [{"f": f, "from": fr} for f, fr in fake.saved]
                e["stl"] = stls()
                e["oth"] = others()
                base = e["prefix"] or v.name
                d = os.path.join(base + "_properties", base)
                e["pv"] = []
                if os.path.exists(d + "_properties.csv"):
                    t = pd.read_csv(d + "_properties.csv", index_col=0)
                    e["pv"] = [[str(n), micro(x)] for n, x in zip(t.index, t.iloc[:, 0])]
                e["pairs"] = []
                if v.analysis_results and not err:
                    for n in ("cog", "moi"):
                        with open(f"{d}_{n}.txt") as f:
                            e["pairs"].append([sig([float(x) for x in f.read().split(",")]), sig(v.analysis_results[n])])
                    t = pd.read_csv(d + "_volmass.csv", index_col=0)
                    e["pairs"].append([sig([t["mass"]["vehicle"], t["volume"]["vehicle"], t["area"]["vehicle"]]), sig([v.mass, v.volume, v.area])])
                    for n in v.component_properties["mass"]:
                        e["pairs"].append([sig([t[q][n] for q in ("mass", "volume", "area")]), sig([v.component_properties[q][n] for q in ("mass", "volume", "area")])])
            elif k == "analyse":
                _, err = attempt(lambda: v.analyse(Densities()))
                e["keys"] = [] if err else sorted(map(str, v.component_properties["mass"].keys()))
            elif k == "break":
                objs[e["id"] - 1]._out_of_order = e["on"]
                err = ""
            elif k == "cluster":
                kw = {f"{d}_clustering_func": CLUSTER[e[d]] for d in "ij" if e[d]}
                _, err = attempt(lambda: objs[e["id"] - 1].add_clustering_options(**kw))
            elif k == "dens":
                v.analyse_after_generating(Densities())
                err = ""
            elif k == "prop":
                v.add_property(e["n"], e["x"] / 8)
                err = ""
            else:
                raise KeyError(k)
            if err == "Hung":
                raise Hung()
            e["rej"] = bool(err)
            e["err"] = err
            if k in ("gen", "vt", "move", "reflect", "apply", "copy", "analyse"):
                e["pat"] = [probe(o) for o in objs]
            e["reg"] = {
                "comps": [ident(c) for c in v.components],
                "real": [[n, ident(c)] for n, c in v.get_non_ghost_components().items()],
                "verb": [o.verbosity for o in objs],
                "kids": [[ident(x) for x in o.components] if isinstance(o, CompositeComponent) else [] for o in objs],
            }
            evs.append(e)
        evs.append({"op": "look", "rej": False, "pat": [probe(o) for o in objs], "reg": evs[-1]["reg"], "stl": stls(), "oth": others()})
    except TooLong:
        pass
    except (Exception, Hung):
        # the vehicle is in a state in which it cannot even be observed
        evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
    finally:
        os.chdir(home)
        shutil.rmtree(work, ignore_errors=True)
        sys.modules.pop("pymesh", None)
        sys.modules.pop("pymesh.meshio", None)
    return evs, nom, mid, res


def drive(path, seed, tier, genfile):
    tr = Trace(path)
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    lost = 0
    for evs, nom, mid, res in pmap(run_history, hists):
        tr.hist(evs, nom=nom, mid=mid, res=res)
        lost += bool(evs) and evs[-1]["op"] == "lost"
        if lost == 8:
            break
    tr.close()
    return tr.n
