"""Builds the real program of /repo against the stand-ins, out of tree."""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")

PCH = """
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <mpi.h>
#include <pdi.h>
#include <paraconf.h>
#include <hdf5.h>
#include <Kokkos_Core.hpp>
"""


class BuildError(Exception):
    pass


class Config:
    """One way of configuring the program."""

    def __init__(self, ndim=1, geom="Cartesian", eos="PerfectGas", grav="Uniform", setup="vsetup", unified=False):
        self.ndim, self.geom, self.eos, self.grav, self.setup, self.unified = ndim, geom, eos, grav, setup, unified

    @property
    def name(self):
        return "%dd_%s_%s_%s_%s%s" % (self.ndim, self.geom[:4], self.eos.replace("+", ""), self.grav, self.setup, "_u" if self.unified else "")

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self.name == o.name


def repo_sources():
    src, incs = [], set()
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        if d == os.path.join(REPO, "src"):
            dirs[:] = [x for x in dirs if x != "setups"]
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                src.append(os.path.join(d, f))
            if f.endswith((".hpp", ".h", ".ipp")):
                incs.add(d)
    return src, sorted(incs)


class Builder:
    def __init__(self, out, jobs=8, opt="-O1", runs_only=False):
        self.out, self.opt, self.runs_only = out, opt, runs_only
        self.pool = cf.ThreadPoolExecutor(jobs)
        self.src, self.incs = repo_sources()
        self.memo = {}

    def _run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])

    def _gen(self, c):
        g = os.path.join(self.out, "gen_" + c.name)
        os.makedirs(g, exist_ok=True)
        for d, _, files in os.walk(os.path.join(REPO, "src")):
            for f in files:
                if not f.endswith(".in"):
                    continue
                t = open(os.path.join(d, f)).read()
                for k, v in (("Heraclespp_EOS", c.eos), ("Heraclespp_GEOM", c.geom), ("Heraclespp_NDIM", str(c.ndim)),
                             ("Heraclespp_GRAVITY", c.grav), ("Heraclespp_SETUP", c.setup),
                             ("GIT_BUILD_STRING", "v-build"), ("GIT_BRANCH", "v-branch"),
                             ("DATE_STRING", "2000-01-01"), ("TIME_STRING", "00:00:00")):
                    t = t.replace("@%s@" % k, v)
                t = re.sub(r"@[A-Za-z_]+@", "unset", t)
                open(os.path.join(g, f[:-3]), "w").write(t)
        return g

    def flags(self, c, gen):
        setup = os.path.join(VERIF, "setups/vsetup") if c.setup == "vsetup" else os.path.join(REPO, "src/setups", c.setup)
        f = ["-std=c++20", self.opt, "-ffp-contract=off", "-w"]
        if c.unified:
            f.append("-DKSHIM_UNIFIED")
        inc = ["shim/kokkos", "shim/mpi", "shim/io", "lib"]
        f += ["-I" + os.path.join(VERIF, i) for i in inc] + ["-I" + gen, "-I" + setup]
        f += ["-I" + os.path.join(VERIF, "setups/vsetup")] if c.setup != "vsetup" else []
        f += ["-I" + os.path.join(REPO, "vendor/inih/include")]
        f += ["-I" + d for d in self.incs]
        f += ['-DMY_SETUP="%s"' % c.setup, "-DHERACLESPP_GRAVITY_" + c.grav, "-DVH_CONFIG=\"%s\"" % c.name]
        return f

    def uses_setup(self, src):
        """does a source (or any header of the program) but main.cpp refer to the problem?"""
        if not hasattr(self, "_setup_text"):
            self._setup_text = False
            for d in self.incs:
                for f in os.listdir(d):
                    if f.endswith((".hpp", ".h", ".ipp", ".in")) and re.search(r'MY_SETUP|["</]setup\.hpp[">]', open(os.path.join(d, f), errors="replace").read()):
                        self._setup_text = True
        return self._setup_text or bool(re.search(r'MY_SETUP|["</]setup\.hpp[">]', open(src, errors="replace").read()))

    def pch(self, c):
        """precompiled stand-in headers; do not depend on the configuration (but on unified)"""
        d = os.path.join(self.out, "pch_u" if c.unified else "pch")
        os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "vh_pch.hpp")
        open(h, "w").write(PCH)
        f = ["-std=c++20", self.opt, "-ffp-contract=off", "-w"] + (["-DKSHIM_UNIFIED"] if c.unified else [])
        f += ["-I" + os.path.join(VERIF, i) for i in ("shim/kokkos", "shim/mpi", "shim/io", "lib")]
        self._run(["g++"] + f + ["-x", "c++-header", h, "-o", h + ".gch"])
        return h

    def once(self, key, fn):
        if key not in self.memo:
            self.memo[key] = self.pool.submit(fn)
        return self.memo[key]

    def _cc(self, src, obj, flags, pch=None):
        cmd = ["gcc" if src.endswith(".c") else "g++"] + flags
        if pch:
            cmd += ["-include", pch]
        cache = os.environ.get("VH_CACHE")  # development only
        if cache:
            e = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if e.returncode == 0:
                k = os.path.join(cache, hashlib.sha256(e.stdout + " ".join(x for x in cmd if not x.startswith(("-I", "/"))).encode()).hexdigest() + ".o")
                if os.path.exists(k):
                    shutil.copy(k, obj)
                    return obj
                self._run(cmd + ["-c", src, "-o", obj])
                shutil.copy(obj, k + ".%d" % os.getpid())
                os.replace(k + ".%d" % os.getpid(), k)
                return obj
        self._run(cmd + ["-c", src, "-o", obj])
        return obj

    def _common(self, c):
        """what does not depend on the configuration: starts while the headers are precompiled"""
        tag = "u" if c.unified else "c"
        fl = ["-std=c++20", self.opt, "-ffp-contract=off", "-w"] + (["-DKSHIM_UNIFIED"] if c.unified else [])
        fl += ["-I" + os.path.join(VERIF, i) for i in ("shim/kokkos", "shim/mpi", "shim/io", "lib")]
        inih = ["-w", self.opt, "-I" + os.path.join(REPO, "vendor/inih/include")]
        todo = [(os.path.join(VERIF, s), tag, fl) for s in ("shim/mpi/mpi_shim.cpp", "shim/io/io_shim.cpp", "lib/vh.cpp", "shim/kokkos/kshim_runtime.cpp")]
        todo += [(os.path.join(REPO, "vendor/inih/src/INIReader.cpp"), "inih", ["-std=c++20"] + inih), (os.path.join(REPO, "vendor/inih/src/ini.c"), "inih", inih)]
        objs = []
        for s, t, f in todo:
            o = os.path.join(self.out, "%s_%s.o" % (t, re.sub(r"[^A-Za-z0-9]", "_", s)))
            objs.append(self.once((o,), lambda s=s, o=o, f=f: self._cc(s, o, f)))
        return objs

    def _inih_san(self, san):
        """no program, but the input file reader and the explorer, instrumented"""
        fl = ["-w", self.opt, "-I" + os.path.join(REPO, "vendor/inih/include"), "-I" + os.path.join(VERIF, "lib")] + san
        objs = []
        for s, f in ((os.path.join(REPO, "vendor/inih/src/INIReader.cpp"), ["-std=c++20"]), (os.path.join(REPO, "vendor/inih/src/ini.c"), []), (os.path.join(VERIF, "lib/vh.cpp"), ["-std=c++20"])):
            o = os.path.join(self.out, "san_%s.o" % re.sub(r"[^A-Za-z0-9]", "_", s))
            objs.append(self.once((o,), lambda s=s, o=o, f=f: self._cc(s, o, f + fl)))
        return objs

    def build(self, jobs):
        """jobs: list of (harness cpp files, Config, with program?) -> executables"""
        pchs = {}
        for _, c, *_r in jobs:
            pchs.setdefault(c.unified, self.once(("pch", c.unified), lambda c=c: self.pch(c)))
        common = {c.unified: self._common(c) for _, c, *_r in jobs}
        pchs = {k: v.result() for k, v in pchs.items()}
        plans = []
        for files, c, prog, *more in jobs:
            gen = self._gen(c)
            san = list(more[0]) if more else []
            fl = self.flags(c, gen)
            pch = pchs[c.unified]
            objs = []

            def add(src, extra=(), usepch=True, tag=None, flags=None, c=c, fl=fl, pch=pch, objs=objs):
                o = os.path.join(self.out, "%s_%s.o" % (tag or c.name, re.sub(r"[^A-Za-z0-9]", "_", src)))
                fk = (o, tuple(extra))
                objs.append(self.once(fk, lambda: self._cc(src, o, (flags or fl) + list(extra), pch if usepch else None)))

            # heaviest first
            for f in files:
                src = os.path.join(VERIF, f)
                if f.endswith(".c"):
                    add(src, san, False, "c", ["-w", self.opt, "-I" + os.path.join(REPO, "vendor/inih/include")])
                elif san:
                    add(src, san, False, "san")
                else:
                    add(src, ["-DVH_RUNS_ONLY"] if self.runs_only else [])
            if prog:
                main = [s for s in self.src if s.endswith("/main.cpp")]
                # objects that cannot depend on the problem are shared by the problems
                core = Config(c.ndim, c.geom, c.eos, c.grav, "core", c.unified).name
                for s in main + [s for s in self.src if not s.endswith("/main.cpp")]:
                    alone = s.endswith("/main.cpp") or self.uses_setup(s)
                    add(s, ["-Dmain=hmain"] if s.endswith("/main.cpp") else [], tag=None if alone else core)
                add(os.path.join(gen, "git_version.cpp"))
                add(os.path.join(VERIF, "lib/prog.cpp"), tag="u" if c.unified else "c")
            objs += self._inih_san(san) if san else common[c.unified]
            plans.append((files, c, objs, san))
        exes = []
        links = []
        for n, (files, c, objs, san) in enumerate(plans):
            exe = os.path.join(self.out, "x%d_%s" % (n, c.name))
            objs = [o.result() for o in objs]
            links.append(self.pool.submit(self._run, ["g++", "-o", exe] + san + objs))
            exes.append(exe)
        for l in links:
            l.result()
        return exes


if __name__ == "__main__":
    # build.py OUT CPP NDIM GEOM EOS GRAV : for use by hand
    out, cpp, nd, geom, eos, grav = (sys.argv[1:] + ["1", "Cartesian", "PerfectGas", "Uniform"][len(sys.argv) - 3:])[:6]
    os.makedirs(out, exist_ok=True)
    try:
        print(Builder(out).build([([cpp], Config(int(nd), geom, eos, grav), True)])[0])
    except BuildError as e:
        print(e)
        sys.exit(2)
