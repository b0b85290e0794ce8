"""Sensitivity studies (P16) and their tables (P17)."""
import json, os, tempfile, traceback
import pandas as pd
from harness.common import *
from harness.mass import swept
from harness.tess import OnePatch
from hypervehicle import Vehicle
from hypervehicle.generator import Generator
from hypervehicle.geometry.surface import CoonsPatch
from hypervehicle.utilities import SensitivityStudy

NAMES = ["alpha", "b_2", "Chord"]


def form(f, env):
    a, b, c = env
    s = lambda v, i: v[i] / v[3]
    return [s(f["b"], i) + a * s(f["d"][0], i) + b * s(f["d"][1], i) + c * s(f["d"][2], i) + a * b * s(f["q"], i) for i in range(3)]


def scalar(f, env):
    a, b, c = env
    return f[0] + f[1] * a + f[2] * b + f[3] * c + f[4] * a * b


def number(v):
    return v[0] // v[1] if v[0] % v[1] == 0 and (v[0] + v[1]) % 2 else v[0] / v[1]


def component(c, env, name):
    if c["k"] == "sheet":
        p = [Vector3(*form(f, env)) for f in c["p"]]
        o = OnePatch(CoonsPatch(p00=p[0], p10=p[1], p11=p[2], p01=p[3]), stl_resolution=c["n"], verbosity=0, name=name)
    else:
        lo, sz = form(c["p"][0], env), form(c["p"][1], env)
        o = swept([[4 * x for x in lo], [4 * (x + y) for x, y in zip(lo, sz)]], c["n"], name=name)
    o._multiprocess = False
    return o


def generator(tpl):
    class G(Generator):
        def create_instance(self):
            env = [getattr(self, n) for n in NAMES]
            v = Vehicle()
            v.configure(name="craft", verbosity=loud(tpl))
            for k, c in enumerate(tpl["comps"]):
                v.add_component(component(c, env, f"part{k}" if tpl["named"] else None))
            mv = form(tpl["mv"], env)
            if any(mv) or any(any(d[:3]) for d in tpl["mv"]["d"]):
                v.add_vehicle_transformations(("translate", Vector3(*mv)))
            for k, f in enumerate(tpl["props"]):
                v.add_property(f"prop{k}", scalar(f, env))
            if tpl["dens"]:
                v.analyse_after_generating(dict(zip(v.get_non_ghost_components(), map(float, tpl["dens"]))))
            return v

    for n, x in zip(NAMES, tpl["def"]):
        setattr(G, n, number(x))
    return G


def rows(df, cols):
    return [[micro(x) for x in r] for r in df[cols].values.tolist()]


def cols(names):
    return [f"d{c}d{n}" for n in names for c in "xyz"]


def observe(e, st, tpl, names):
    v = st.nominal_vehicle_instance
    keys = list(v.get_non_ghost_components())
    ps = st.parameter_sensitivities
    xyz = ["x", "y", "z"]
    e["tabs"] = [[rows(ps[n][k], xyz + ["dx", "dy", "dz", "magnitude"] + cols([n])) for k in keys] for n in names]
    e["comb"] = [rows(st.component_sensitivities[k], xyz + cols(names)) for k in keys]
    e["nom"] = [[[micro(x) for x in r] for r in np.unique(v.get_non_ghost_components()[k].mesh.vectors.reshape(-1, 3), axis=0)] for k in keys]
    if tpl["props"]:
        e["props"] = [[micro(st.property_sensitivities[n][f"prop{k}"]) for k in range(len(tpl["props"]))] for n in names]
    if tpl["dens"]:
        s = st.scalar_sensitivities
        e["scal"] = [[micro(s[n]["volume"]), micro(s[n]["mass"])] + [micro(x) for x in np.ravel(s[n]["cog"])] + [micro(x) for x in np.ravel(s[n]["moi"])] for n in names]
        t = st.component_scalar_sensitivities
        e["cscal"] = [[[micro(t[n].loc[k, c]) for c in ("volume", "mass", "area")] for k in keys] for n in names]


def dvdp(e, st, tpl, n):
    par = {NAMES[k - 1]: number(x) for k, x in e["par"]}
    ovr = {NAMES[k - 1]: number(x) for k, x in e["ovr"]}
    p0, o0 = dict(par), dict(ovr)
    kw = {}
    if ovr or n % 2:
        kw["overrides"] = ovr
    if e["pert"] != [5, 1] or n % 2:
        kw["perturbation"] = number(e["pert"])
    if e["stl"] == "no":
        kw["write_nominal_stl"] = False
    elif e["stl"] == "pre":
        kw["nominal_stl_prefix"] = "pre"
    for f in os.listdir():
        if f.endswith(".stl"):
            os.remove(f)

    def go():
        r = st.dvdp(par, **kw)
        if set(r) != set(par):
            raise ValueError("parameters")
        observe(e, st, tpl, list(par))

    _, e["err"] = attempt(go)
    e["kept"] = par == p0 and list(par) == list(p0) and ovr == o0
    e["files"] = len([f for f in os.listdir() if f.endswith(".stl")])
    return e


def run_hist(h):
    evs = []
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            tpl = h["ev"][0]
            st = SensitivityStudy(generator(tpl), verbosity=loud(tpl))
            for n, e in enumerate(h["ev"]):
                e = dict(e)
                if e["op"] == "dvdp":
                    dvdp(e, st, tpl, n + len(tpl["comps"]))
                evs.append(e)
        except Exception:
            evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
        finally:
            os.chdir(cwd)
    return evs


def drive(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_hist, hists):
        tr.hist(evs)
    tr.close()
    return tr.n


def computed(st, names):
    """what the study holds, as the files should"""
    v = st.nominal_vehicle_instance
    keys = list(v.get_non_ghost_components())
    xyz = ["x", "y", "z"]
    out = {"comb": [rows(st.component_sensitivities[k], xyz + cols(names)) for k in keys]}
    out["props"] = [[micro(x) for x in st.property_sensitivities[n].values()] for n in names] if st.property_sensitivities else []
    s = st.scalar_sensitivities
    out["cog"] = [[micro(x) for x in np.ravel(s[n]["cog"])] for n in names] if s else []
    out["moi"] = [[micro(x) for x in np.ravel(s[n]["moi"])] for n in names] if s else []
    t = st.component_scalar_sensitivities
    out["vm"] = [[micro(t[n].loc[k, c]) for k in t[n].index for c in t[n].columns] for n in names] if t else []
    return out


def on_disk(d, keys, names, like):
    """the same, read back from a directory"""
    xyz = ["x", "y", "z"]
    sub = os.path.join(d, "scalar_sensitivities")
    out = {"comb": [rows(pd.read_csv(os.path.join(d, f"{k}_sensitivity.csv")), xyz + cols(names)) for k in keys]}
    out["all"] = rows(pd.read_csv(os.path.join(d, "all_components_sensitivity.csv")), xyz + cols(names))
    out["props"], out["cog"], out["moi"], out["vm"] = [], [], [], []
    if like["props"]:
        t = pd.read_csv(os.path.join(sub, "property_sensitivity.csv"), index_col=0)
        out["props"] = [[micro(x) for x in t[n].tolist()] for n in names]
    if like["cog"]:
        for w in ("cog", "moi"):
            for n in names:
                with open(os.path.join(sub, f"{n}_{w}_sensitivity.txt")) as f:
                    out[w].append([micro(x) for x in f.read().split(",")])
        t = pd.read_csv(os.path.join(sub, "volmass_sensitivity.csv"), index_col=0)
        out["vm"] = [[micro(x) for x in t[n].tolist()] for n in names]
    return out


def run_csv(h):
    evs = []
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            os.mkdir("out")
            tpl = h["ev"][0]
            st = SensitivityStudy(generator(tpl), verbosity=loud(tpl))
            wrote, keys, names = {}, [], []
            for n, e in enumerate(h["ev"][1:]):
                e = dict(e)
                if e["op"] == "dvdp":
                    par = {NAMES[k - 1]: number(x) for k, x in e["par"]}
                    ovr = {NAMES[k - 1]: number(x) for k, x in e["ovr"]}
                    _, err = attempt(lambda: st.dvdp(par, ovr, number(e["pert"]), write_nominal_stl=False))
                    if err:  # not the subject here
                        break
                    keys, names = list(st.nominal_vehicle_instance.get_non_ghost_components()), list(par)
                    evs.append({"op": "dvdp"})
                    continue
                where = ["", "out", "new"][e["dir"]]
                e["dir"] += 1
                e["held"] = [] if not keys else [computed(st, names)]
                r, e["err"] = attempt(lambda: st.to_csv() if not where else st.to_csv(where if n % 2 else os.path.join(d, where)))
                e["after"] = [] if not keys else [computed(st, names)]
                e["disk"], e["ret"] = [{"st": "none"}, {"st": "none"}, {"st": "none"}], True
                if not e["err"]:
                    wrote[where] = (keys, names, e["held"][0] if keys else None)
                    e["ret"] = os.path.realpath(r) == os.path.realpath(os.path.join(where, "all_components_sensitivity.csv"))
                for k, w in enumerate(["", "out", "new"]):
                    if w in wrote:
                        x, err = attempt(lambda: on_disk(w, *wrote[w]))
                        e["disk"][k] = {"st": "ok", "v": x} if not err else {"st": "unreadable"}
                    elif any(f.endswith("sensitivity.csv") for f in (os.listdir(w or ".") if os.path.isdir(w or ".") else [])):
                        e["disk"][k] = {"st": "unexpected"}
                evs.append(e)
        except Exception:
            evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
        finally:
            os.chdir(cwd)
    return evs


def drive_csv(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_csv, hists):
        tr.hist(evs)
    tr.close()
    return tr.n
