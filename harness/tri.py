"""Sensitivity tables matched to surface files (P17)."""
import json, os, tempfile, traceback
import xml.etree.ElementTree as ET
import pandas as pd
from harness.common import *
from hypervehicle.utilities import append_sensitivities_to_tri

CELLS = "0 1 2\n 0 2 1\n"


def text(x, k):
    """a number of thousandths, written in different ways"""
    return (f"{x / 1000:.12f}", f"{x / 1000!r}", f"{x / 1000:.8e}")[k % 3]


def surface(pts):
    body = "".join("\n " + "\t".join(text(c, k + j) for j, c in enumerate(p)) for k, p in enumerate(pts)) + "\n"
    return (
        '<VTKFile type="UnstructuredGrid"><UnstructuredGrid><Piece NumberOfPoints="%d" NumberOfCells="2">'
        '<Points><DataArray type="Float64" NumberOfComponents="3" format="ascii">%s</DataArray></Points>'
        '<Cells><DataArray type="Int32" Name="connectivity" format="ascii">%s</DataArray></Cells>'
        "</Piece></UnstructuredGrid></VTKFile>" % (len(pts), body, CELLS)
    )


def nums(t):
    return [[micro(x) for x in line.split()] for line in t.splitlines() if line.strip()]


def run_hist(h):
    evs = []
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            os.mkdir("here")
            tri = "Components.i.tri"
            for n, e in enumerate(h["ev"]):
                e = dict(e)
                if e["op"] == "file":
                    pts = e["pts"]
                    with open(tri, "w") as f:
                        f.write(surface(pts))
                    evs.append(e)
                    continue
                cols = ["x", "y", "z"] + [f"d{c}d{p}" for p in e["par"] for c in "xyz"]
                names = []
                for k, t in enumerate(e["tabs"]):
                    fn = os.path.join("here" if k % 2 else "", f"part{n}{k}_sensitivity.csv")
                    pd.DataFrame([[x / 1000 for x in p + v] for p, v in t], columns=cols).to_csv(fn, index=False)
                    names.append(fn)
                out = {0: None, 1: "here", 2: f"new{n}"}[e["out"]]
                kw = {"outdir": out} if out else {}
                comb = "all_components_sensitivity.csv"
                if e["name"]:
                    comb = kw["combined_sens_fn"] = "everything.csv"
                # a combined file of an earlier run, of other values
                old = os.path.join("here" if n % 2 else "", comb)
                if 0 in e["list"]:
                    pd.DataFrame([[x / 1000 for x in p] + [7.5] * (len(cols) - 3) for p in pts], columns=cols).to_csv(old, index=False)
                files = [names[k - 1] if k else old for k in e["list"]]
                if n % 2:
                    files = [os.path.abspath(x) for x in files]
                given = list(files)
                if n % 3:
                    kw["components_filepath"] = os.path.join(d, tri)

                def f():
                    r = append_sensitivities_to_tri(files, match_tolerance=e["tol"] / 1000, rounding_tolerance=e["rt"] / 1000, verbosity=loud(e), **kw)
                    piece = ET.parse(tri).getroot()[0][0]
                    pd_ = [a for a in piece.iter("DataArray") if (a.get("Name") or "").endswith("_sens")]
                    e["arrays"] = [[a.get("Name"), nums(a.text)] for a in pd_]
                    e["kept"] = bool(
                        nums(piece[0][0].text) == [[1000 * c for c in p] for p in pts]
                        and piece[1][0].text.split() == CELLS.split()
                        and piece.get("NumberOfPoints") == str(len(pts))
                        and files == given
                    )
                    t = pd.read_csv(os.path.join(out or "", comb))
                    e["comb"] = [[micro(x) for x in row] for row in t[cols].values.tolist()]
                    return micro(r)

                e["frac"], e["err"] = attempt(f, NAN)
                evs.append(e)
        except Exception:
            evs.append({"op": "lost", "what": traceback.format_exc()[-1500:]})
        finally:
            os.chdir(cwd)
    return evs


def drive(path, seed, tier, genfile):
    with open(genfile) as f:
        hists = [json.loads(line) for line in f]
    tr = Trace(path)
    for evs in pmap(run_hist, hists):
        tr.hist(evs)
    tr.close()
    return tr.n
