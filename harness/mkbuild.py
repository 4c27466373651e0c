#!/usr/bin/env python3
"""Generates build/ninja files that compile /repo's pinocchio-free core (working tree) and the drivers.

Only what a driver needs is compiled: unresolved references (the single-precision instantiations that
virtual cast methods mention) are left unresolved unless the driver asks for them.
"""
import os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CFG_HPP = """#pragma once
#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI
#define CROCODDYL_DLLAPI
"""

BASE = ["utils/exception", "utils/stop-watch", "state-base", "states/euclidean", "action-base",
        "optctrl/shooting", "activation-base?", "residual-base", "cost-base", "costs/residual", "costs/cost-sum",
        "constraint-base", "constraints/residual", "constraints/constraint-manager", "actions/lqr",
        "actions/diff-lqr", "actions/unicycle", "diff-action-base", "actuation-base", "control-base",
        "integ-action-base", "integrator/euler", "integrator/rk", "controls/poly-zero", "controls/poly-one",
        "controls/poly-two-rk"]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def mirror():
    """Copy the working tree's sources into the build folder, touching only what differs: what is rebuilt
    then depends on contents, never on the time stamps of a checkout."""
    dst = os.path.join(OUT, "mirror")
    keep = set()
    for top in ("include/crocoddyl", "src/core", "src/multibody"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith((".hpp", ".hxx", ".h", ".cpp", ".in")):
                    continue
                src = os.path.join(d, f)
                rel = os.path.relpath(src, REPO)
                keep.add(rel)
                t = os.path.join(dst, rel)
                data = open(src, "rb").read()
                try:
                    if open(t, "rb").read() == data:
                        continue
                except OSError:
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                with open(t, "wb") as o:
                    o.write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            t = os.path.join(d, f)
            if os.path.relpath(t, dst) not in keep:
                os.unlink(t)
    return dst


def driver_info():
    """A driver declares what it links in its first lines: // LINK: pattern pattern ...  // FLAGS: ..."""
    out = {}
    for src in sorted(glob.glob(os.path.join(VERIF, "harness/drivers/*.cpp"))):
        name = os.path.splitext(os.path.basename(src))[0]
        link, flags, scalars, opts = [], "", ["double"], []
        for line in open(src):
            if not line.startswith("//"):
                break
            m = re.match(r"// (LINK|FLAGS|SCALARS|OPTS): *(.*)", line)
            if m:
                if m.group(1) == "LINK":
                    link += m.group(2).split()
                elif m.group(1) == "FLAGS":
                    flags = m.group(2)
                elif m.group(1) == "SCALARS":
                    scalars = m.group(2).split()
                else:
                    opts += m.group(2).split()
        out[name] = (src, link, flags, scalars, opts)
    return out


def main():
    inc = os.path.join(OUT, "include")
    tree = mirror()
    pch = open(os.path.join(tree, "include/crocoddyl/core/pch.hpp")).read()
    pch = "".join(l for l in pch.splitlines(True) if not l.startswith("#include <pinocchio/"))
    write_if_changed(os.path.join(inc, "crocoddyl/core/pch.hpp"), pch)
    # the cones do not use pinocchio, only their common header does
    pch = open(os.path.join(tree, "include/crocoddyl/multibody/pch.hpp")).read()
    pch = "".join(l for l in pch.splitlines(True) if not l.startswith("#include <pinocchio/"))
    write_if_changed(os.path.join(inc, "crocoddyl/multibody/pch.hpp"), pch)
    write_if_changed(os.path.join(inc, "crocoddyl/config.hpp"), CFG_HPP)
    write_if_changed(os.path.join(inc, "crocoddyl/config.hh"), "#pragma once\n")
    ipopt = subprocess.run(["pkg-config", "--cflags", "--libs", "ipopt"], capture_output=True, text=True).stdout.split()
    icf = " ".join(x for x in ipopt if not x.startswith("-l") and not x.startswith("-L"))
    ilib = " ".join(x for x in ipopt if x.startswith("-l") or x.startswith("-L"))
    cxx = ("-std=c++14 -O1 -g0 -DNDEBUG -DEIGEN_DONT_PARALLELIZE -Wno-deprecated-declarations -D_GLIBCXX_ASSERTIONS "
           "-DCROCODDYL_WITH_IPOPT -I%s -I%s/include -I%s/harness/common -isystem /usr/include/eigen3 %s" % (inc, tree, VERIF, icf))
    L = ["cxxflags = " + cxx, "",
         "rule pch", "  command = g++ $cxxflags $extra -x c++-header $in -o $out -MMD -MF $out.d", "  depfile = $out.d", "  deps = gcc", "",
         "rule cc", "  command = g++ $cxxflags $extra $pchf -c $in -o $out -MMD -MF $out.d", "  depfile = $out.d", "  deps = gcc", "",
         "rule link", "  command = g++ $in -o $out $lflags -lboost_serialization -lboost_filesystem -lboost_system %s -lpthread" % ilib, ""]
    objs = {}  # (variant, rel, scalar) -> path
    src = os.path.join(tree, "src/core")
    cpps = [os.path.relpath(p, src) for p in glob.glob(src + "/**/*.cpp", recursive=True)]
    tmpl = [os.path.relpath(p, src) for p in glob.glob(src + "/**/*.in", recursive=True)]
    tmpl = [t for t in tmpl if not re.search(r"(^|/)codegen/|numdiff/cost\.", t)]
    rels = {}
    for c in cpps:
        rels[c[:-4]] = (c, None)
    for t in tmpl:
        rels[re.sub(r"\.cpp(_fptype)?\.in$", "", t)] = (t, True)

    # multibody/: the cones, which only mention pinocchio in a common header;
    # mb/: what needs a rigid-body library, for the drivers that ask for the stand-in (OPTS: minipin)
    mb = os.path.join(tree, "src/multibody")
    for t in glob.glob(mb + "/**/*.in", recursive=True):
        r = os.path.relpath(t, mb)
        n = re.sub(r"\.cpp(_fptype)?\.in$", "", r)
        rels[("multibody/" if re.fullmatch("friction-cone|wrench-cone|cop-support", n) else "mb/") + n] = (os.path.join("..", "multibody", r), True)
    for t in glob.glob(mb + "/**/*.cpp", recursive=True):
        r = os.path.relpath(t, mb)
        rels["mb/" + r[:-4]] = (os.path.join("..", "multibody", r), None)

    variants = {}

    def variant(flags):
        if flags not in variants:
            v = "v%d" % len(variants)
            variants[flags] = v
            vi = os.path.join(OUT, "pch", v)
            write_if_changed(os.path.join(vi, "pch_all.hpp"), '#include "crocoddyl/core/pch.hpp"\n#include <pinocchio/utils/static-if.hpp>\n#include <Eigen/Dense>\n#include <map>\n#include <set>\n#include <vector>\n#include <string>\n#include <iostream>\n#include <fstream>\n#include <memory>\n#include <cmath>\n#include <limits>\n' + ('#include "pinocchio/minipin.hpp"\n' if "/minipin" in flags else ""))
            g = os.path.join(vi, "pch_all.hpp.gch")
            L.append("build %s: pch %s" % (g, os.path.join(vi, "pch_all.hpp")))
            L.append("  extra = " + flags)
        return variants[flags]

    def obj(rel, scalar, flags):
        v = variant(flags)
        key = (v, rel, scalar)
        if key in objs:
            return objs[key]
        f, is_t = rels[rel]
        if is_t:
            text = open(os.path.join(src, f)).read().replace("@SCALAR_TYPE@", scalar)
            text += "\n" + "\n"
            s = os.path.join(OUT, "gen", rel + "-" + scalar + ".cpp")
            write_if_changed(s, text)
            o = os.path.join(OUT, "obj", v, rel + "-" + scalar + ".o")
        else:
            s = os.path.join(src, f)
            o = os.path.join(OUT, "obj", v, rel + ".o")
        vi = os.path.join(OUT, "pch", v)
        L.append("build %s: cc %s | %s" % (o, s, os.path.join(vi, "pch_all.hpp.gch")))
        L.append("  extra = " + flags)
        L.append("  pchf = -include %s" % os.path.join(vi, "pch_all.hpp"))
        objs[key] = o
        return o

    for name, (s, link, flags, scalars, opts) in driver_info().items():
        if "minipin" in opts:
            flags = (flags + " -I%s/harness/minipin" % VERIF).strip()
        v = variant(flags)
        want = []
        for pat in link:
            if pat == "ALL":
                want += sorted(rels)
            else:
                m = [r for r in sorted(rels) if re.fullmatch(pat, r)]
                want += m
        seen, ol = set(), []
        for r in want:
            if r in seen:
                continue
            seen.add(r)
            if rels[r][1]:
                for sc in scalars:
                    ol.append(obj(r, sc, flags))
            else:
                ol.append(obj(r, None, flags))
        vi = os.path.join(OUT, "pch", v)
        o = os.path.join(OUT, "obj", v, "drv_" + name + ".o")
        L.append("build %s: cc %s | %s" % (o, s, os.path.join(vi, "pch_all.hpp.gch")))
        L.append("  extra = " + flags)
        L.append("  pchf = -include %s" % os.path.join(vi, "pch_all.hpp"))
        exe = os.path.join(OUT, "bin", name)
        L.append("build %s: link %s %s" % (exe, o, " ".join(ol)))
        L.append("  lflags = %s %s" % (flags, "" if "strict" in opts else "-Wl,--unresolved-symbols=ignore-all"))
        L.append("build %s: phony %s" % (name, exe))
    write_if_changed(os.path.join(OUT, "build.ninja"), "\n".join(L) + "\n")


if __name__ == "__main__":
    main()
