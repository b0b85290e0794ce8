"""What decides each property: model checking runs and conformance parts."""

GEO = {"module": "MCGeo", "cfg": "MCGeo.cfg", "thorough": "MCGeo_thorough.cfg"}

PLANS = {
    "P12": {
        "mc": [GEO],
        "parts": [{"driver": "geo:drive_paths", "trace": "GeoTrace"}],
        "technique": "TLA+ denotational semantics of paths (exact rationals), laws model checked with TLC, evaluations of random nested path terms by the code validated by TLC against it",
        "note": "Exhaustive over the modelled terms up to the nesting depth of the configuration; the code is bound by trace validation of seeded random terms, so unlisted terms are sampled. Values compared to 1e-6 in doubles (larger where the code interpolates numerically). Trusts TLC and the driver's translation of terms into constructor calls.",
    },
    "P13": {
        "mc": [GEO],
        "parts": [{"driver": "geo:drive_surfs", "trace": "GeoTrace"}],
        "technique": "TLA+ denotational semantics of surface patches (exact rationals), laws model checked with TLC, evaluations of random nested patch terms by the code validated by TLC against it",
        "note": "As P12. Rotation angles are rational points of the unit circle and slopes Pythagorean so that expectations are exact.",
    },
}

LIFE = {"module": "MCLife", "cfg": "MCLife.cfg", "thorough": "MCLife_thorough.cfg"}

INST = {"module": "MCInst", "cfg": "MCInst.cfg", "thorough": "MCInst_thorough.cfg"}


def life(mode, quick, thorough):
    return {
        "driver": "life:drive", "trace": "LifeTrace",
        "gen": {"module": "LifeGen", "cfg": f"LifeGen_{mode}.cfg", "quick": (quick, 40), "thorough": (thorough, 40)},
    }


LIFE_NOTE = (
    "The lifecycle model is checked exhaustively to the bounds of the configuration (objects, steps); the code is bound by replaying random "
    "histories chosen by TLC from the same specification, with every refusal, patch, mesh, file and registry entry validated by TLC. Patches are "
    "compared at four corners and one inner point to 2e-4. Trusts TLC and the driver's translation of operations into calls."
)
LIFE_TECH = "TLA+ state machine of the vehicle lifecycle, {} model checked with TLC; histories generated by TLC from it replayed into the code and the recorded behaviour validated by TLC"

PLANS.update(
    {
        "P01": {"mc": [LIFE], "parts": [life("options", 400, 6000), life("wings", 24, 300)], "technique": LIFE_TECH.format("order of operations"), "note": LIFE_NOTE},
        "P02": {"mc": [LIFE], "parts": [life("mesh", 400, 5000)], "technique": LIFE_TECH.format("freshness of meshes and idempotence of generation"), "note": LIFE_NOTE},
        "P10": {"mc": [LIFE], "parts": [life("registry", 400, 5000)], "technique": LIFE_TECH.format("registry invariants"), "note": LIFE_NOTE},
        "P11": {"mc": [LIFE], "parts": [life("export", 400, 5000)], "technique": LIFE_TECH.format("export invariants"), "note": LIFE_NOTE + " The PyMesh back end of merging is not installed; a recording stand-in takes its place."},
        "P18": {"mc": [LIFE], "parts": [life("composite", 120, 1500)], "technique": LIFE_TECH.format("completeness of composites"), "note": LIFE_NOTE},
        "P19": {"mc": [LIFE, INST], "parts": [life("copy", 300, 4000), {"driver": "inst:drive", "trace": "InstTrace", "gen": {"module": "InstGen", "cfg": "InstGen.cfg", "quick": (80, 30), "thorough": (400, 30)}}], "technique": LIFE_TECH.format("separation of copies"), "note": LIFE_NOTE},
    }
)

MESHMC = {"module": "MCMesh", "cfg": "MCMesh.cfg", "thorough": "MCMesh_thorough.cfg"}
PLANS.update(
    {
        "P03": {
            "mc": [MESHMC],
            "parts": [{"driver": "fault:drive", "trace": "FaultTrace", "gen": {"module": "FaultGen", "cfg": "FaultGen.cfg", "quick": (320, 40), "thorough": (4000, 40)}}],
            "technique": "TLA+ model of meshing by concurrent workers with faults at any point, model checked with TLC; request histories with failing patches generated by TLC, replayed into the code (in parallel and sequential mode) and validated by TLC",
            "note": "All schedules and fault points of the model within its bounds; the code is driven with patches that raise at a chosen grid vertex, switched on and off between requests. A worker process that is killed rather than raising is outside the model.",
        },
        "P04": {
            "mc": [MESHMC],
            "parts": [{"driver": "fault:drive_sched", "trace": "SchedTrace", "gen": {"module": "SchedGen", "cfg": "SchedGen.cfg", "quick": (160, 60), "thorough": (2500, 60)}}],
            "technique": "TLA+ model of concurrent workers, independence of completion order model checked with TLC; schedules generated by TLC imposed on the code's worker processes and the meshes validated by TLC",
            "note": "Every interleaving of the model within its bounds; in the code completion orders are imposed by patches that wait for each other, and the number of workers by the reported processor count.",
        },
    }
)

TESS = {"module": "MCTess", "cfg": "MCTess.cfg", "thorough": "MCTess_thorough.cfg"}
PLANS.update(
    {
        "P05": {
            "mc": [TESS],
            "parts": [{"driver": "tess:drive", "trace": "TessTrace"}],
            "technique": "TLA+ specification of the tessellation (exact rationals) with coverage, winding and boundary facts model checked by TLC for all resolutions and clusterings within bounds; meshes made by the code validated triangle by triangle by TLC",
            "note": "Meshes of seeded random patches and swept components through every public route (utility function, component, vehicle, composite); single precision coordinates compared to 2.5e-5.",
        },
    }
)

CLOSED = "TLA+ characterisation of closed, oriented surfaces (model checked with TLC on the specified tessellation of boxes and cubes for all small resolutions); whole component meshes made by the code, welded, validated by TLC{}"
PLANS.update(
    {
        "P06": {
            "mc": [TESS],
            "parts": [{"driver": "closed:drive", "trace": "ClosedTrace"}],
            "technique": CLOSED.format(", with exact volumes where these are rational"),
            "note": "Seeded random bodies, resolutions, motions and reflections. Vertices are welded within 1e-4, volumes compared to 5e-4 relative. Mirror images come out inside out, a known finding the stored reference meshes of the test suite depend on.",
        },
        "P07": {
            "mc": [TESS],
            "parts": [{"driver": "closed:drive_wings", "trace": "ClosedTrace"}],
            "technique": CLOSED.format(", together with the points the parameters demand"),
            "note": "Seeded random planforms, thicknesses, leading edge widths and shapes, flap and rudder settings, breakpoints and resolutions; angles are rational points of the unit circle so that positions are exact.",
        },
    }
)

PLANS["P08"] = {
    "mc": [{"module": "MCCheck", "cfg": "MCCheck.cfg", "thorough": "MCCheck_thorough.cfg"}],
    "parts": [{"driver": "check:drive", "trace": "CheckTrace"}],
    "technique": "TLA+ definition of sound meshes and admissible repairs, their consequences model checked with TLC over all small meshes and point placements; verdicts and repaired meshes of the code validated by TLC",
    "note": "Verdicts are exact on integer meshes (closed, open, flipped, duplicated, degenerate, with normals stored against the winding); repairs are judged on dyadic points so that merging is exact in single precision.",
}

PLANS["P09"] = {
    "mc": [{"module": "MCMass", "cfg": "MCMass.cfg", "thorough": "MCMass_thorough.cfg"}],
    "parts": [{"driver": "mass:drive", "trace": "MassTrace", "gen": {"module": "MassGen", "cfg": "MassGen.cfg", "quick": (320, 40), "thorough": (4000, 40)}}],
    "technique": "TLA+ specification of mass properties (exact rationals) and of analysis requests on a vehicle; composition, splitting, order and motion laws model checked with TLC; histories generated by TLC replayed into the code and every reported number validated by TLC",
    "note": "Solids are boxes on a lattice, moved by translations and quarter turns, so that all expected values are exact; single precision meshes are compared to 4e-5 (moments of inertia 3e-4). Closed bodies in general are the subject of P06.",
}

PLANS["P14"] = {
    "mc": [{"module": "MCVec", "cfg": "MCVec.cfg", "thorough": "MCVec_thorough.cfg"}],
    "parts": [{"driver": "vect:drive", "trace": "VecTrace", "gen": {"module": "VecGen", "cfg": "VecGen.cfg", "quick": (1500, 40), "thorough": (20000, 40)}}],
    "technique": "TLA+ state machine of names, objects and values of vectors (exact rationals), frame conditions and algebraic laws model checked with TLC; operation histories generated by TLC replayed into the code with the values of all names after every step validated by TLC",
    "note": "Component and scalar types vary over Python and numpy numbers and arrays (of arrays the first entry is followed). Values are compared to 8e-6.",
}

PLANS["P15"] = {
    "mc": [{"module": "MCClus", "cfg": "MCClus.cfg", "thorough": "MCClus_thorough.cfg"}],
    "parts": [{"driver": "clus:drive", "trace": "ClusTrace"}],
    "technique": "TLA+ specification of Roberts clustering at the points where it is rational, its ends, order, mirror and direction laws model checked with TLC; function values, point sets and structured grids of the code validated by TLC",
    "note": "Exact where (beta+1)/(beta-1) is a power of a small whole number and the exponent is whole; for other stretching factors the laws (ends, strict increase, mirroring, direction of clustering) are validated on sampled point sets, to 4e-6.",
}

SENS = {"module": "MCSens", "cfg": "MCSens.cfg", "thorough": "MCSens_thorough.cfg"}
PLANS["P16"] = {
    "mc": [SENS],
    "parts": [{"driver": "sens:drive", "trace": "SensTrace", "gen": {"module": "SensGen", "cfg": "SensGen.cfg", "quick": (250, 20), "thorough": (3000, 20)}}],
    "technique": "TLA+ specification of parametric generators and finite differences (exact rationals), independence and linearity laws model checked with TLC; generators and study histories generated by TLC run through the code and every table, scalar and property validated by TLC",
    "note": "Generators are polynomial in up to three numbers (sheets and boxes, with products), so that expectations are exact; single precision meshes bound the comparison to 1e-5 divided by the change of the parameter. Rows are compared as sets.",
}

PLANS["P17"] = {
    "mc": [{"module": "MCTri", "cfg": "MCTri.cfg", "thorough": "MCTri_thorough.cfg"}],
    "parts": [
        {"driver": "sens:drive_csv", "trace": "CsvTrace", "gen": {"module": "SensGen", "cfg": "CsvGen.cfg", "quick": (150, 20), "thorough": (1500, 20)}},
        {"driver": "tri:drive", "trace": "TriTrace", "gen": {"module": "TriGen", "cfg": "TriGen.cfg", "quick": (400, 20), "thorough": (5000, 20)}},
    ],
    "technique": "TLA+ state machines of tables on disk and of surface files with appended data, matching laws model checked with TLC; histories of studies, tables and appends generated by TLC replayed into the code and every file read back validated by TLC",
    "note": "Tables are compared with what the study holds (P16 is about its correctness); points, rows, tolerances and roundings of the appends are generated away from equality so that floating point cannot decide a comparison. Tables without rows and parameter names containing dxd are outside.",
}

PLANS["P20"] = {
    "mc": [{"module": "MCRefuse", "cfg": "MCRefuse.cfg", "thorough": "MCRefuse_thorough.cfg"}],
    "parts": [{"driver": "refuse:drive", "trace": "RefuseTrace"}],
    "technique": "TLA+ decision rules for meaningful requests, for swept bodies model checked with TLC to be exactly those whose patches join; requests with and without a meaning made to the code and every outcome validated by TLC",
    "note": "Covers the constructors, operators and calls that document a refusal; sections are lines between exact points, gaps are at least 4e-6.",
}
