#!/usr/bin/env python3
"""Builds the simulator: library sources of the working tree (instrumented) + scenarios + runtime (uninstrumented)."""
import argparse, concurrent.futures as cf, glob, hashlib, os, subprocess, sys, time

MODS = ["core", "io", "matching", "projection", "routing", "traffic_rules", "validation"]
# compile-time order: the slowest translation units first
SLOW = ["LaneletMap.cpp", "RoutingGraph.cpp", "RouteBuilder.cpp", "RoutingGraphBuilder.cpp", "BinHandler.cpp", "Route.cpp", "OsmHandlerLoad.cpp",
        "OsmHandlerWrite.cpp", "LaneletMatching.cpp", "Lanelet.cpp"]
LIBS = ["-lboost_serialization", "-lboost_filesystem", "-lboost_program_options", "-lpugixml", "-lGeographicLib", "-lstdc++", "-lm", "-ldl", "-lpthread"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", required=True)
    ap.add_argument("--sim", required=True)
    ap.add_argument("--cache", required=True)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("scen", nargs="+")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(a.cache, exist_ok=True)
    inc, headers, srcs = [], [], []
    for m in MODS:
        base = f"{a.repo}/lanelet2_{m}"
        inc += [f"-I{base}/include", f"-I{base}/include/lanelet2_{m}"]
        for r, _, fs in os.walk(base):
            if os.sep + "test" in r[len(base):] or os.sep + "python" in r[len(base):]:
                continue
            headers += [os.path.join(r, f) for f in fs if f.endswith((".h", ".hpp", ".ipp", ".hh", ".inl"))]
            if r[len(base):].startswith("/src"):
                for f in fs:
                    p = os.path.join(r, f)
                    if f.endswith((".cpp", ".cc", ".cxx")) and "/tools" not in r[len(base):]:
                        with open(p, errors="replace") as fh:
                            if "int main(" in fh.read():
                                continue
                        srcs.append(p)
    simh = [os.path.join(a.sim, f) for f in os.listdir(a.sim) if f.endswith(".h")]
    inc += ["-isystem/usr/include/eigen3", f"-I{a.sim}"]
    warn = ["-w"]
    inst = ["clang++", "-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fno-pie"] + TSAN + warn
    # a rewritten path prefix keeps reported source positions independent of where the tree lies
    plain = ["clang++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-Wall", "-Wno-unused-function", "-fno-threadsafe-statics"]
    hd = digest(headers, "h")
    sd = digest(simh, "s")
    jobs = []
    for s in srcs:
        jobs.append((s, inst + inc, hd, "-DSIM_LIB=1"))
    extra = {f"{a.sim}/h.cpp", f"{a.sim}/spec.cpp", f"{a.sim}/stdshim.cpp", f"{a.sim}/geoshim.cpp"}
    for s in a.scen:  # helpers a scenario includes come with a source file of the same name
        for line in open(s):
            if line.startswith('#include "') and line.rstrip().endswith('_util.h"'):
                helper = f"{a.sim}/" + line.split('"')[1][:-2] + ".cpp"
                if os.path.exists(helper):
                    extra.add(helper)
    for s in a.scen + sorted(extra):
        jobs.append((os.path.abspath(s), inst + inc, hd + sd, ""))
    for s in ["rt.cpp", "plan.cpp", "driver.cpp"]:
        jobs.append((f"{a.sim}/{s}", plain + [f"-I{a.sim}"], sd, ""))

    def weight(j):
        b = os.path.basename(j[0])
        if b.startswith("scen_") or b in ("h.cpp", "spec.cpp") or b.endswith("_util.cpp"):
            return (0, b)
        return (1 + SLOW.index(b), b) if b in SLOW else (50, b)

    jobs.sort(key=lambda j: (1, "") if os.path.basename(j[0]) == "LaneletMap.cpp" else weight(j) if weight(j)[0] else (2, ""))

    def comp(j):
        src, cmd, hdig, extra = j
        key = digest([src], " ".join(cmd) + hdig + extra)[:32]
        obj = os.path.join(a.cache, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(obj):
            t = time.time()
            tmp = obj + f".{os.getpid()}.tmp"
            rc, out = sh(cmd + ([extra] if extra else []) + ["-c", src, "-o", tmp])
            if rc:
                return src, None, out
            os.rename(tmp, obj)
            if out and a.verbose:
                print(out)
            if a.verbose:
                print(f"  {time.time() - t:6.1f}s {os.path.basename(src)}", flush=True)
        else:
            os.utime(obj)
        return src, obj, ""

    objs, bad = {}, False
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for src, obj, out in ex.map(comp, jobs):
            if obj is None:
                bad = True
                sys.stderr.write(f"compile failed: {src}\n{out}\n")
            objs[src] = obj
    if bad:
        return 2
    rt = [objs[f"{a.sim}/{s}"] for s in ["plan.cpp", "driver.cpp", "rt.cpp"]]
    lib = [objs[s] for s in sorted(srcs)]
    scen = [o for s, o in objs.items() if o not in rt and o not in lib]
    key = digest(lib + scen + rt, "link4")[:32]
    final = os.path.join(a.cache, "sim." + key)
    if not os.path.exists(final):
        tmp = final + f".{os.getpid()}.tmp"
        rc, out = sh(["clang++", "-no-pie", "-rdynamic", "-fuse-ld=lld", "-o", tmp] + lib + scen + rt + LIBS)
        if rc and "lld" in out:
            rc, out = sh(["clang++", "-no-pie", "-rdynamic", "-o", tmp] + lib + scen + rt + LIBS)
        if rc:
            sys.stderr.write(out)
            return 2
        os.rename(tmp, final)
    os.makedirs(os.path.dirname(os.path.abspath(a.out)), exist_ok=True)
    tmp = a.out + f".{os.getpid()}.tmp"
    if os.path.lexists(tmp):
        os.unlink(tmp)
    os.symlink(os.path.abspath(final), tmp)
    os.replace(tmp, a.out)
    # keep the cache bounded
    fs = sorted(glob.glob(a.cache + "/*"), key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if total < 6 << 30 or time.time() - os.path.getmtime(f) < 3600:
            break
        total -= os.path.getsize(f)
        os.unlink(f)
    if a.verbose:
        print(f"built in {time.time() - t0:.1f}s", flush=True)
    return 0


sys.exit(main())
