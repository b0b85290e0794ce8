"""python -m harness.main module:function trace seed tier [generated histories]"""
import importlib, json, os, sys, traceback

mod, fn = sys.argv[1].split(":")
out = sys.argv[2]
f = getattr(importlib.import_module("harness." + mod), fn)
try:
    n = f(out, int(sys.argv[3]), sys.argv[4], *sys.argv[5:])
    print("histories", n)
except Exception as e:
    # the code under test raising where the specification has no failure is an
    # observation; anything else is an error of the driver
    frames = traceback.extract_tb(e.__traceback__)
    traceback.print_exc()
    if not any(fr.filename.startswith("/repo/src/") for fr in frames):
        sys.exit(3)
    with open(out, "w") as g:
        g.write(json.dumps({"ev": [{"op": "lost", "what": traceback.format_exc()[-1500:]}]}) + "\n")
