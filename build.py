#!/usr/bin/env python3
"""Build the harness of one or more properties from /repo's working tree.

usage: build.py P01 [P02 ...] | all      (prints nothing but errors; binaries in build/bin)
Everything is rebuilt when its inputs changed (content of /repo/src, /repo/polytope_c,
/verif/harness), decided by hashing, never by time stamps.
"""
import sys, os, re, hashlib, subprocess, glob, concurrent.futures, fcntl

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
FLAGS = ["-std=c++14", "-O1", "-g1", "-DNDEBUG", "-DLINUX=1", "-DBoost_FOUND=1", "-w"] + SAN
MPII = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split()
MPIL = subprocess.run(["mpicxx", "--showme:link"], capture_output=True, text=True).stdout.split()
LIBS = ["-lsiloh5", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.a", "-lcrypto", "-lcurl", "-lpthread", "-lsz", "-lz", "-ldl", "-lm"]
INC = ["-I" + BUILD + "/gen", "-I" + REPO + "/src", "-I" + REPO + "/polytope_c", "-I" + VERIF + "/harness", "-I/usr/include/hdf5/serial"] + MPII

DEFS = ["HAVE_MPI", "HAVE_HDF5", "HAVE_SILO", "HAVE_BOOST", "HAVE_BOOST_VORONOI"]
LIBSRC = ["KeyTraits.cc", "predicates.cc", "PLC_CSG.cc", "QuantizedTessellation2d.cc", "QuantizedTessellation3d.cc",
          "clipQuantizedTessellation2d.cc", "clipQuantizedTessellation3d.cc", "snapToBoundary.cc", "MeshEditor.cc",
          "BoostTessellator.cc", "DistributedTessellator.cc", "SerialDistributedTessellator.cc", "SiloWriter_2d.cc",
          "SiloWriter_3d.cc", "SiloReader_2d.cc", "SiloReader_3d.cc", "SiloUtils.cc", "ErrorHandler.cc", "polytope_internal_abort.cc"]
CSRC = ["polytope_c.cc", "polytope_plc.cc", "polytope_tessellator.cc", "polytope_tessellation.cc", "polytope_read_silo.cc", "polytope_write_silo.cc"]


def libsources():
    """The library sources /repo's own CMakeLists.txt compiles in this configuration (names as listed
    there), so that a file added by a change is compiled too."""
    names = list(LIBSRC)
    try:
        txt = open(REPO + "/src/CMakeLists.txt").read()
        for n in re.findall(r"[A-Za-z0-9_]+\.cc\b", txt):
            if n not in names and n not in ("TriangleTessellator.cc", "TetgenTessellator.cc", "BoostOrphanage.cc", "VoroPP_2d.cc", "VoroPP_3d.cc") and os.path.exists(REPO + "/src/" + n):
                names.append(n)
    except OSError:
        pass
    return [REPO + "/src/" + n for n in names if os.path.exists(REPO + "/src/" + n)] + [REPO + "/polytope_c/" + n for n in CSRC]


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def configure(src, dst):
    txt = open(src).read()
    txt = txt.replace("@POLYTOPE_VERSION_MAJOR@", "1").replace("@POLYTOPE_VERSION_MINOR@", "0").replace("@C_REAL_TYPE@", "double")
    txt = re.sub(r"#cmakedefine (\w+)", lambda m: "#define " + m.group(1) if m.group(1) in DEFS else "/* #undef %s */" % m.group(1), txt)
    write_if_changed(dst, txt)


_hash = {}
def fhash(p):
    if p not in _hash:
        _hash[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return _hash[p]


def compile_one(job):
    src, obj, flags = job
    dep, stamp = obj + ".d", obj + ".h"
    key0 = hashlib.sha1(" ".join(flags + INC).encode()).hexdigest()
    def key():
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [d for d in deps if d.startswith((REPO, VERIF, BUILD))]
        return hashlib.sha1((key0 + "".join(d + fhash(d) for d in sorted(set(deps)))).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(stamp):
        try:
            if open(stamp).read() == key():
                return None
        except OSError:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(["g++"] + flags + INC + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        errs = [l for l in r.stderr.splitlines() if "error" in l or "undefined" in l] or r.stderr.splitlines()[-20:]
        return src + ":\n" + "\n".join(errs[:20])
    open(stamp, "w").write(key())
    return None


def main():
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(VERIF + "/harness/[A-Z][0-9][0-9].cc"))
    os.makedirs(BUILD + "/gen", exist_ok=True); os.makedirs(BUILD + "/bin", exist_ok=True)
    lock = open(BUILD + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    configure(REPO + "/src/polytope.hh.in", BUILD + "/gen/polytope.hh")
    configure(REPO + "/polytope_c/polytope_c.h.in", BUILD + "/gen/polytope_c.h")
    jobs, libobjs = [], []
    for s in libsources():
        o = BUILD + "/lib/" + os.path.basename(s) + ".o"; libobjs.append(o); jobs.append((s, o, FLAGS))
    hobjs = {}
    common = [VERIF + "/harness/pbt.cc"]
    for s in common + [VERIF + "/harness/%s.cc" % i for i in ids]:
        o = BUILD + "/h/" + os.path.basename(s) + ".o"; hobjs[s] = o
    # Longest first.
    jobs = [(s, o, FLAGS) for s, o in hobjs.items() if s not in common] + jobs + [(s, hobjs[s], FLAGS) for s in common]
    big = ("P0", "P1", "P2", "clip", "Distributed", "BoostTess", "MeshEd", "predicates")
    jobs.sort(key=lambda j: 0 if os.path.basename(j[0]).startswith(big) else 1)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n"); return 2
    for i in ids:
        objs = [hobjs[VERIF + "/harness/%s.cc" % i]] + [hobjs[c] for c in common] + libobjs
        out = BUILD + "/bin/" + i
        key = hashlib.sha1("".join(fhash_now(o) for o in objs).encode()).hexdigest()
        if os.path.exists(out) and os.path.exists(out + ".h") and open(out + ".h").read() == key:
            continue
        ar = BUILD + "/libpolytope.a"
        if os.path.exists(ar):
            os.remove(ar)
        subprocess.run(["ar", "rcs", ar] + libobjs, check=True)
        r = subprocess.run(["g++"] + SAN + ["-o", out] + objs[:-len(libobjs)] + [ar, ar] + MPIL + LIBS, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:] + "\n"); return 2
        open(out + ".h", "w").write(key)
    return 0


def fhash_now(p):
    return hashlib.sha1(open(p, "rb").read()).hexdigest()


if __name__ == "__main__":
    sys.exit(main())
