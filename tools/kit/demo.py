#!/usr/bin/env python3
"""demo.py DEMO.cpp NDIM GEOM EOS GRAVITY [SETUP] [program|alone]: builds the sources of the current directory with
the stand-ins beside this file in a scratch directory, runs the demonstration there, removes everything."""
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
os.environ["VH_REPO"] = os.getcwd()
os.environ["LC_ALL"] = "C.UTF-8"
sys.path.insert(0, os.path.join(here, "lib"))
sys.dont_write_bytecode = True
import build  # noqa: E402

cpp, nd, geom, eos, grav = sys.argv[1:6]
setup = sys.argv[6] if len(sys.argv) > 6 else "vsetup"
alone = "alone" in sys.argv
scratch = tempfile.mkdtemp(prefix="demo_")
try:
    shutil.copytree(here, os.path.join(scratch, "kit"))
    shutil.copy(cpp, os.path.join(scratch, "kit", "demo.cpp"))
    build.VERIF = os.path.join(scratch, "kit")
    files = ["demo.cpp"] + ([] if alone else ["lib/sim.cpp", "lib/ref.cpp"])
    try:
        exe = build.Builder(scratch).build([(files, build.Config(int(nd), geom, eos, grav, setup), not alone)])[0]
    except build.BuildError as e:
        print(e)
        sys.exit(3)
    d = os.path.join(scratch, "run.d")
    os.mkdir(d)
    r = subprocess.run([exe], cwd=d, timeout=250)
    sys.exit(0 if r.returncode == 0 else 1)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
