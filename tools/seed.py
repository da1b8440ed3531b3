#!/usr/bin/env python3
"""seed.py DEFS.py [ID...]: makes and tries planted bugs. DEFS.py defines SEEDS, a list of dicts:
id, property, edits [(file, old, new)], config "ndim geom eos grav [setup] [alone]", demo (C++ text), needs, breaks.
seed.py --try ID [CHECK...]: applies seeded/ID in a scratch copy and runs the checks on it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def copy_repo():
    d = tempfile.mkdtemp(prefix="seedrepo_")
    r = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", r], check=True)
    subprocess.run("cp -a /repo/vendor/. %s/vendor/" % r, shell=True, check=True)
    return d, r


def kit(dst):
    k = os.path.join(dst, "kit")
    shutil.rmtree(k, ignore_errors=True)
    for x in ("shim", "setups"):
        shutil.copytree(os.path.join(VERIF, x), os.path.join(k, x))
    os.makedirs(os.path.join(k, "lib"))
    for f in ("build.py", "vh.hpp", "vh.cpp", "sim.hpp", "sim.cpp", "ref.hpp", "ref.cpp", "prog.hpp", "prog.cpp"):
        shutil.copy(os.path.join(VERIF, "lib", f), os.path.join(k, "lib"))
    for f in ("common.hpp", "component.hpp", "v1d.hpp"):
        shutil.copy(os.path.join(VERIF, "checks", f), os.path.join(k, "lib"))
    for f in ("demo.py", "demo.hpp"):
        shutil.copy(os.path.join(VERIF, "tools/kit", f), os.path.join(k, "" if f.endswith("py") else "lib"))


def run_demo(s, r):
    p = subprocess.run(["bash", os.path.join(SEEDED, s, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout.strip()[-500:]


def run_check(pid, r):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "lib/check.py"), pid], env=dict(os.environ, VH_REPO=r), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    return p.returncode, v, p.stdout


def make(s):
    d, r = copy_repo()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return "%s: %d matches in %s of %r" % (s["id"], n, f, old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
        dst = os.path.join(SEEDED, s["id"])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        open(os.path.join(dst, "demo.cpp"), "w").write(s["demo"].lstrip())
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec python3 -B "$here/kit/demo.py" "$here/demo.cpp" %s\n' % s["config"])
        kit(dst)
        bad = run_demo(s["id"], r)
        subprocess.run(["git", "-C", r, "checkout", "-q", "."], check=True)
        good = run_demo(s["id"], r)
        subprocess.run(["git", "-C", r, "apply", os.path.join(dst, "patch.diff")], check=True)
        if good[0] != 0 or bad[0] == 0 or bad[0] == 3:
            return "%s: BAD DEMO clean %s patched %s" % (s["id"], good, bad)
        rc, v, out = run_check(s["property"], r)
        return "%s: demo ok (%s); check %s rc=%d %s" % (s["id"], bad[1][:150], s["property"], rc, v[:1] if v else out[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "--kits":
        for x in sorted(os.listdir(SEEDED)):
            if os.path.exists(os.path.join(SEEDED, x, "demo.cpp")):
                kit(os.path.join(SEEDED, x))
        return
    if a[0] == "--try":
        d, r = copy_repo()
        try:
            m = json.load(open(os.path.join(SEEDED, a[1], "meta.json")))
            subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, a[1], "patch.diff")], check=True)
            for pid in a[2:] or [m["property"]]:
                rc, v, out = run_check(pid, r)
                print(a[1], pid, rc, v[:2] if v else out[-400:], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    g = {}
    exec(open(a[0]).read(), g)
    for s in g["SEEDS"]:
        if len(a) > 1 and s["id"] not in a[1:]:
            continue
        print(make(s), flush=True)


if __name__ == "__main__":
    main()
