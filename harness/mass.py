"""Mass properties of vehicles made of boxes (P09)."""
import json, os, tempfile, traceback
from harness.common import *
from hypervehicle import Vehicle
from hypervehicle.geometry import Line
from hypervehicle.components import SweptComponent, CompositeComponent
from hypervehicle.components.polygon import Cube

V = Vector3
U = 0.25  # lattice unit


def swept(b, res, **kw):
    (x0, y0, z0), (x1, y1, z1) = [[c * U for c in p] for p in b]

    def sec(x):
        pts = [V(x, y0, z0), V(x, y0, z1), V(x, y1, z1), V(x, y1, z0)]
        return [Line(p, r) for p, r in zip(pts, pts[1:] + pts[:1])]

    return SweptComponent([sec(x0), sec(x1)], stl_resolution=res, verbosity=0, **kw)


def component(e, name):
    if e["kind"] == "swept":
        c = swept(e["c"][0], e["res"], name=name)
    else:
        c = CompositeComponent(stl_resolution=e["res"], verbosity=0, name=name)
        for b in e["c"]:
            if e["kind"] == "cubes":
                mid = [(p + r) / 2 * U for p, r in zip(*b)]
                c.add_component(Cube((b[1][0] - b[0][0]) / 2 * U, centre=V(*mid), stl_resolution=e["res"], verbosity=0))
            else:
                c.add_component(swept(b, e["res"]))
    c._multiprocess = False
    return c


def motion(o):
    return ("translate", V(o[1] * U, o[2] * U, o[3] * U)) if o[0] == "t" else ("rotate", 90 * o[2], o[1])


def flat(vol, mass, area, cog, moi):
    return [micro(vol), micro(mass), micro(area)] + [micro(x) for x in np.asarray(cog).ravel()] + [micro(x) for x in np.asarray(moi).ravel()]


def read(fn):
    with open(fn) as f:
        return [float(x) for x in f.read().split(",")]


def run_hist(h):
    evs = []
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            v = Vehicle()
            v.configure(name="v", verbosity=loud(h))
            n = 0
            keys = lambda: list(v.get_non_ghost_components())
            for e in h["ev"]:
                e = dict(e)
                o = e["op"]
                if o == "add":
                    n += 1
                    named = (n + len(h["ev"][0]["c"])) % 2 == 0
                    f = lambda: v.add_component(component(e, f"part{n}" if named else None), transformations=[motion(m) for m in e["ops"]])
                elif o == "vt":
                    f = lambda: v.add_vehicle_transformations([motion(m) for m in e["ops"]])
                elif o == "after":
                    f = lambda: v.analyse_after_generating(dict(zip(keys(), map(float, e["d"]))))
                elif o == "generate":
                    f = v.generate
                elif o == "transform":
                    f = lambda: v.transform([motion(m) for m in e["ops"]])
                elif o == "analyse":
                    # densities may be given in any order
                    dens = list(zip(keys(), map(float, e["d"])))
                    f = lambda: v.analyse(dict(dens[::-1] if len(dens) % 2 else dens))
                elif o == "results":
                    f = lambda: v.analysis_results
                elif o == "export":
                    f = lambda: v.to_stl(prefix="x")
                r, e["err"] = attempt(f)
                if o == "analyse" and not e["err"]:
                    cp = v.component_properties
                    e["ret"] = flat(r[0], r[1], 0, r[2], r[3])
                    e["att"] = flat(v.volume, v.mass, v.area, v.cog, v.moi)
                    e["parts"] = [flat(cp["volume"][k], cp["mass"][k], cp["area"][k], cp["cog"][k], cp["moi"][k]) for k in keys()]
                if o == "results":
                    e["has"] = bool(r)
                    e["ret"] = flat(r["volume"], r["mass"], 0, r["cog"], r["moi"]) if r else []
                if o == "export" and not e["err"]:
                    e["has"] = os.path.exists("x_properties")
                    e["ret"] = []
                    if e["has"]:
                        import pandas as pd

                        t = pd.read_csv("x_properties/x_volmass.csv", index_col=0)
                        e["ret"] = flat(t.loc["vehicle", "volume"], t.loc["vehicle", "mass"], t.loc["vehicle", "area"], read("x_properties/x_cog.txt"), read("x_properties/x_moi.txt"))
                evs.append(e)
        except Exception:
            evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
        finally:
            os.chdir(cwd)
    return evs


def drive(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_hist, hists):
        tr.hist(evs)
    tr.close()
    return tr.n
