"""Interleaved generators and vehicles (P19)."""
import json, os, traceback
from harness.common import *
import hypervehicle.hangar as hangar
from hypervehicle import Vehicle
from hypervehicle.generator import Generator
from hypervehicle.geometry import Line
from hypervehicle.components import SweptComponent, RevolvedComponent

V = Vector3


class ParametricUser(Generator):
    """a generator as users write them"""

    shared = [("translate", V(0.5, 0, 0))]

    def __init__(self, **kwargs):
        self.width = 1.0
        self.height = 2.0
        super().__init__(**kwargs)

    def create_instance(self):
        v = Vehicle()
        v.configure(name="user", verbosity=0)
        w, k = self.width, self.height
        cs = lambda x: [Line(V(x, a, b), V(x, c, d)) for a, b, c, d in ((0, 0, w, 0), (w, 0, w, k), (w, k, 0, k), (0, k, 0, 0))]
        v.add_component(SweptComponent([cs(0.0), cs(1.5)], stl_resolution=1), transformations=self.shared)
        v.add_component(RevolvedComponent(Line(V(0, 0.2), V(w, 0.4)), stl_resolution=1), name="body", reflection_axis="x")
        v.add_vehicle_transformations(("rotate", 90, "z"))
        v.add_vehicle_transformations([("translate", V(0, 0, k))])
        v.add_property("width", w)
        return v


KINDS = {
    "D21": ("ParametricD21", ("R_b", 1, 1.25), ("L_w", 16, 15)),
    "Falcon9": ("ParametricFalcon9", ("L_b", 60, 50), ("f_L", 6, 5.5)),
    "Finner": ("ParametricFinner", ("total_length", 10.0, 12.0), ("fin_height", 1.0, 1.5)),
    "HIFiRE4": ("ParametricHIFiRE4", ("R", 0.2, 0.25), ("L_b", 4, 3.5)),
    "HIFiRE8": ("ParametricHIFiRE8", ("L", 1.2, 1.4), ("R_base", 0.175, 0.2)),
    "HTV": ("ParametricHTV", ("h", 0.1, 0.125), ("flap_angle", 15, 10)),
    "ReFEX": ("ParametricReFEX", ("L_b", 2.5, 2.75), ("wing_span", 0.35, 0.5)),
    "Waverider": ("ParametricWaverider", ("length", 1, 1.25), ("aoa", 3.0, 2.0)),
    "Wedge": ("ParametricWedge", ("wingspan", 1, 1.5), ("thickness", 0.1, 0.2)),
    "X43": ("ParametricX43", ("body_length", 3.7, 3.9), ("wing_span", 0.4, 0.5)),
    "User": (None, ("width", 1.0, 1.5), ("height", 2.0, 2.5)),
}


def generator(kind, kw):
    k = KINDS[kind]
    c = getattr(hangar, k[0]) if k[0] else ParametricUser
    return c(**{k[n][0]: k[n][2] for n in kw})


def look(v):
    out = []
    for c in v.components:
        ps = list(c.patches.values())
        for p in ps[:: max(1, len(ps) // 4)]:
            w, err = attempt(lambda: p(0.3, 0.6))
            out.append(BADPT if err else point(w))
    return out


def reference(x):
    """in a process of its own"""
    kind, kw = x

    def f():
        v = generator(kind, kw).create_instance()
        v.verbosity = 0
        v.generate()
        return look(v)

    pts, err = attempt(f)
    return {"kind": kind, "kw": list(kw), "pts": pts if not err else [[NAN, NAN, NAN]]}


def run_history(x):
    ops, ref = x
    gens, inst, evs = [], [], []
    try:
        for e in ops:
            e = dict(e)
            k = e["op"]
            if k == "gen":
                g, err = attempt(lambda: generator(e["kind"], e["kw"]))
                gens.append((e["kind"], g))
            elif k == "set":
                kind, g = gens[e["g"] - 1]
                n = KINDS[kind][e["n"]]
                setattr(g, n[0], n[2])
                err = ""
            elif k == "create":
                v, err = attempt(gens[e["g"] - 1][1].create_instance)
                inst.append(v)
                v.verbosity = 0
            elif k == "build":
                _, err = attempt(inst[e["k"] - 1].generate)
            elif k == "shift":
                _, err = attempt(lambda: inst[e["k"] - 1].transform([("translate", V(*[float(c) for c in e["v"]]))]))
            e["rej"], e["err"] = bool(err), err
            e["pts"] = [look(v) for v in inst]
            e["attr"] = [[micro(getattr(g, KINDS[kind][n][0])) for n in (1, 2)] for kind, g in gens]
            evs.append(e)
    except Exception:
        evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
    return evs


def drive(path, seed, tier, genfile):
    import multiprocessing

    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    keys = [(k, kw) for k in KINDS for kw in ((), (1,), (2,), (1, 2))]
    with multiprocessing.get_context("fork").Pool(6, maxtasksperchild=1) as pool:
        ref = pool.map(reference, keys, chunksize=1)
    menu = {k: [{"def": micro(p[1]), "alt": micro(p[2])} for p in v[1:]] for k, v in KINDS.items()}
    tr = Trace(path)
    for ops, evs in zip(hists, pmap(run_history, [(o, None) for o in hists])):
        used = {e["kind"] for e in ops if e["op"] == "gen"}
        tr.hist(evs, ref=[r for r in ref if r["kind"] in used], menu={k: v for k, v in menu.items() if k in used})
    tr.close()
    return tr.n
