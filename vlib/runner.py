"""Runs the harnesses of one property: compile the real sources and the harness to LLVM IR, execute symbolically,
replay every counterexample against a native build of the same sources, write the evidence."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
BUILD = os.environ.get("VF_BUILD", VERIF + "/build")
FW = REPO + "/src/easyMockFramework"
GENDIR = REPO + "/src/easyMockGenerate"
FWINC = ["-I" + FW + "/include"]
GENINC = ["-I" + GENDIR + "/include"]
T0 = time.time()


class Harness:
    """One harness: a C/C++ file with vf_main(), compiled together with real sources."""
    def __init__(self, name, src, srcs=(), defs=(), incs=(), gen=None, time=200, thorough=None, reach=(), bounds="",
                 steps=None, paths=None, tier="both", finding=None, tdefs=None, solver_ms=20000, cstd=None, must_complete=True, symdefs=(), parts=(), shim=False, wraps=(), cpp=False, streams=True, symincs=()):
        self.name = name; self.src = src; self.srcs = list(srcs); self.defs = list(defs); self.incs = list(incs)
        self.gen = gen              # generated mocks: (shape header, [generator options])
        self.time = time            # engine seconds, quick tier
        self.ttime = thorough or time * 4
        self.tdefs = tdefs          # other defines in the thorough tier
        self.reach = list(reach); self.bounds = bounds
        self.steps = steps; self.paths = paths; self.tier = tier; self.solver_ms = solver_ms
        self.must_complete = must_complete
        self.symdefs = list(symdefs)
        self.parts = list(parts)    # further harness files, compiled like the harness
        self.shim = shim            # replace <filesystem>, <fstream>, ... in the sources of the generator
        self.cpp = cpp              # C++ mocks: model the streams in the harness too
        self.streams = streams      # model the streams of the C++ library (not where Boost needs <locale>)
        self.symincs = list(symincs)  # directories of /verif with replacements of headers, for the symbolic execution
        self.wraps = list(wraps)    # C library functions which the harness replaces in the native replay


class Fail(Exception):
    pass


def sh(cmd, timeout=600, cwd=None, env=None, mem_gb=None):
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=lim, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, (out or "") + "\n[timeout]"


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    with Lock(BUILD + "/engine.lock"):
        rc, out = sh(["bash", VERIF + "/engine/build.sh", BUILD + "/engine"], timeout=600)
    if rc:
        raise Fail("the symbolic executor does not build:\n" + out[-3000:])
    return BUILD + "/engine/vfsym"


def tree_key(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(d, f)
                h.update(fp.encode())
                try:
                    h.update(open(fp, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:24]


def drop_stale(out):
    """removes the objects of sources whose text changed since they were built, whatever their times say"""
    src, now = REPO + "/src/easyMockGenerate", {}
    for d, ds, fs in os.walk(src):
        for f in fs:
            fp = os.path.join(d, f)
            now[fp[len(src):]] = hashlib.sha256(open(fp, "rb").read()).hexdigest()
    try:
        old = json.load(open(out + "/sources.json"))
    except (OSError, ValueError):
        old = {}
    changed = {f for f in set(now) | set(old) if now.get(f) != old.get(f)}
    headers = [f for f in changed if not f.endswith(".cpp")]
    for d, ds, fs in os.walk(out + "/obj"):
        for f in fs:
            rel = "/src" + os.path.join(d, f)[len(out + "/obj"):]
            if f.endswith(".o") and (headers or rel[:-2] + ".cpp" in changed):
                os.unlink(os.path.join(d, f))
    json.dump(now, open(out + "/sources.json", "w"))


def build_generator():
    """EasyMockGenerate from the current tree, in a build directory of our own."""
    out = BUILD + "/gen"
    with Lock(BUILD + "/gen.lock"):
        key = tree_key([REPO + "/src"])
        exe = out + "/EasyMockGenerate"
        if os.path.exists(exe) and os.path.exists(out + "/key") and open(out + "/key").read() == key:
            return exe
        os.makedirs(out, exist_ok=True)
        drop_stale(out)
        rc, log = sh(["bash", VERIF + "/vlib/build_generator.sh", out, REPO], timeout=700)
        if rc or not os.path.exists(exe):
            raise Fail("EasyMockGenerate does not build:\n" + log[-3000:])
        open(out + "/key", "w").write(key)
        return exe


SYMF = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-builtin", "-w", "-c", "-emit-llvm", "-fno-strict-aliasing",
        "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DBACKTRACE_SUPPORT", "-DVF_SYMBOLIC", "-I" + VERIF + "/rt"]
NATF = ["-O1", "-U_FORTIFY_SOURCE", "-g", "-w", "-c", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-builtin-malloc", "-DBACKTRACE_SUPPORT", "-DVF_NATIVE", "-I" + VERIF + "/rt", "-fPIC"]


def is_c(p):
    return p.endswith(".c")


class Run:
    def __init__(self, prop, tier, jobs=8):
        self.prop = prop; self.tier = tier
        self.work = BUILD + "/work/" + prop
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = BUILD + "/replay/" + prop
        shutil.rmtree(self.replays, ignore_errors=True)
        self.pool = cf.ThreadPoolExecutor(jobs)
        self.futs = {}
        self.flock = threading.Lock()
        self.sem = threading.Semaphore(jobs)

    # ---- memoised compile steps
    def memo(self, key, fn):
        with self.flock:
            ent = self.futs.get(key)
            if ent is None:
                ent = self.futs[key] = {"ev": threading.Event()}
                mine = True
            else:
                mine = False
        if mine:
            try:
                ent["val"] = fn()
            except BaseException as e:
                ent["err"] = e
            ent["ev"].set()
        ent["ev"].wait()
        if "err" in ent:
            raise ent["err"]
        return ent["val"]

    def compile(self, src, defs, incs, mode, extra=()):
        key = (src, tuple(defs), tuple(incs), mode, tuple(extra))
        def go():
            h = hashlib.sha256(repr(key).encode()).hexdigest()[:12]
            out = "%s/%s-%s.%s" % (self.work, os.path.basename(src).replace(".", "_"), h, "bc" if mode == "sym" else "o")
            c = is_c(src)
            if mode == "sym":
                cmd = [LLVM + ("/clang" if c else "/clang++")] + SYMF
            else:
                # -w would also silence the error for undeclared functions
                cmd = ["gcc" if c else "g++"] + [x for x in NATF if not (c and x == "-w")]
            cmd += ["-std=gnu11", "-Werror=implicit-function-declaration"] if c else ["-std=c++17"]
            cmd += list(defs) + list(incs) + list(extra) + [src, "-o", out]
            rc, log = sh(cmd, timeout=300)
            if rc:
                raise Fail("does not compile (%s): %s\n%s" % ("clang to IR" if mode == "sym" else "gcc", src, log[:2500]))
            return out
        return self.memo(key, go)

    def generate(self, shape, opts):
        key = ("gen", tuple(shape), tuple(opts))
        def go():
            exe = build_generator()
            d = self.work + "/gen-" + hashlib.sha256(repr(key).encode()).hexdigest()[:10]
            os.makedirs(d + "/out")
            for one in [x[1:] for x in shape if x.startswith("+")]:   # included by the headers
                shutil.copy(one, d)
            for n, one in enumerate(x for x in shape if not x.startswith("+")):   # one mock per header, all in the same directory
                hdr = d + "/" + os.path.basename(one)
                shutil.copy(one, hdr)
                cmd = [exe, "-i", hdr, "-o", d + "/out"] + list(opts)
                rc, log = sh(cmd, timeout=60, cwd=d)
                files = sorted(os.listdir(d + "/out"))
                if rc or len(files) != 2 * n + 2:
                    raise GenFail("EasyMockGenerate fails on %s (exit %d, wrote %s)\n%s" % (one, rc, files, log[-1500:]), " ".join(cmd))
            return d
        return self.memo(key, go)

    # ---- one harness
    def one(self, h):
        r = {"name": h.name, "bounds": h.bounds, "status": "ok", "violations": []}
        t0 = time.time()
        try:
            self._one(h, r)
        except GenFail as e:
            r["status"] = "violation"
            d = self.replays + "/" + h.name
            os.makedirs(d, exist_ok=True)
            open(d + "/log.txt", "w").write(str(e))
            r["violations"].append({"msg": e.short, "replay": d + "/log.txt", "reproduced": True})
        except Fail as e:
            r["status"] = "error"
            r["error"] = str(e)
        r["wall"] = round(time.time() - t0, 2)
        return r

    def inputs_of(self, h, mode):
        defs = ["-D" + d for d in (h.tdefs if self.tier == "thorough" and h.tdefs is not None else h.defs)]
        incs = list(h.incs)
        units = []   # (src, defs, incs, extra)
        srcs = [((s, ()) if isinstance(s, str) else s) for s in h.srcs]   # or (source, [further defines])
        srcs = [(s if s.startswith("/") else REPO + "/" + s, ["-D" + x for x in d]) for s, d in srcs]
        if any(s.startswith(FW) for s, _ in srcs):   # sources which the framework has got since
            srcs += [(f, []) for f in sorted(glob.glob(FW + "/src/*.c") + glob.glob(FW + "/src/*.cpp")) if os.path.basename(f) not in ("MockedFunction.c", "cstring.c", "easyMock.cpp", "easyMock_glueStdlib.c", "easyMock_matcher.cpp")]
        shim = (["-I" + VERIF + "/rt/shim"] if h.shim else []) + ["-I" + VERIF + "/" + x for x in h.symincs]
        gens = []
        std = ["-I" + VERIF + "/rt/shimstd"]
        if h.gen:
            shape, opts = h.gen
            d = self.generate(tuple("+" + VERIF + "/" + x[1:] if x[0] == "+" else VERIF + "/" + x for x in ([shape] if isinstance(shape, str) else shape)), opts)
            incs += ["-I" + d + "/out", "-I" + d]
            for f in sorted(os.listdir(d + "/out")):
                if f.endswith((".c", ".cpp")):
                    gens.append(d + "/out/" + f)
        hsrc = VERIF + "/harness/" + h.src
        sd = ["-D" + x for x in h.symdefs] if mode == "sym" else []
        for s, d in srcs:
            if s.startswith(FW):
                units.append((s, d, ([] if is_c(s) else std) + FWINC))
            else:
                units.append((s, sd + d, shim + (std if h.shim and h.streams else []) + (list(h.incs) or GENINC)))
        for s in gens:
            units.append((s, sd, std + incs + FWINC))
        units.append((hsrc, defs + sd, shim + (std if h.cpp or (h.shim and h.streams) else []) + incs + (GENINC if h.shim else FWINC)))
        for x in h.parts:
            gens.append(VERIF + "/harness/" + x)
            units.append((VERIF + "/harness/" + x, defs + sd, incs + FWINC))
        if mode == "sym":
            units.append((VERIF + "/rt/sym_c.c", [], []))
            units.append((VERIF + "/rt/sym_cxx.cpp", sd, []))
        else:
            units.append((VERIF + "/rt/native.cpp", [], []))
        return units, gens, hsrc

    def _one(self, h, r):
        engine = self.memo("engine", build_engine)
        units, gens, hsrc = self.inputs_of(h, "sym")
        bcs = []
        futs = []
        def comp(u):
            try:
                with self.sem:
                    return self.compile(u[0], u[1], u[2], "sym")
            except Fail as e:
                return e
        with cf.ThreadPoolExecutor(8) as ex:
            done = list(ex.map(comp, units))
        for (s, d, i), e in zip(units, done):
            if not isinstance(e, Fail):
                bcs.append(e)
            else:
                if s in gens or (s == hsrc and h.gen):
                    # the mock itself (or its documented interface) does not compile: confirm with the real compiler
                    try:
                        self.compile(s, d, i, "nat", ["-Werror=int-conversion"] if is_c(s) else [])
                    except Fail as e2:
                        raise GenFail("the generated mock, or a test using its documented interface, does not compile:\n" + str(e2), "generated mock does not compile")
                raise e
        out = self.work + "/" + h.name + ".json"
        th = self.tier == "thorough"
        tl = h.ttime if th else h.time
        if not th:
            tl = max(5, min(tl, 800 - (time.time() - T0)))
        cmd = [engine, "-o", out, "--repo", REPO, "--time", str(tl), "--solver-ms", str(h.solver_ms * (3 if th else 1))]
        if h.steps:
            cmd += ["--max-steps", str(h.steps)]
        if h.paths:
            cmd += ["--max-paths", str(h.paths)]
        with self.sem:
            rc, log = sh(cmd + bcs, timeout=tl + 60, mem_gb=10)
        r["engine_rc"] = rc
        if h.gen and "multiply defined" in log and not os.path.exists(out):
            # the mock and the rest of the test program define the same function: confirm with the real linker
            try:
                self.native_build(h)
            except Fail as e:
                if "multiple definition" in str(e):
                    raise GenFail("a generated mock defines what it must not:\n" + log[-500:] + str(e), "a generated mock defines a function which it must not define")
        if rc not in (0, 1, 2) or not os.path.exists(out):
            raise Fail("the symbolic executor stopped (%s): %s" % (rc, log[-1500:]))
        j = json.load(open(out))
        r["j"] = j
        if h.gen and any(x.startswith("call of external ") for x in j["unmodelled"]):
            # something the mock declares may be defined nowhere: confirm with the real linker
            try:
                self.native_build(h)
            except Fail as e:
                names = self.undefined_of_mock(h, str(e))
                if names:
                    raise GenFail("a generated mock does not define %s\n%s" % (", ".join(names), e), "a generated mock does not define a function which it declares")
        missing = [w for w in h.reach if w not in j["reached"]]
        r["missing_witness"] = missing
        if rc == 1:
            for n, v in enumerate(j["violations"]):
                rep = self.replay(h, v, n)
                v["replay"] = rep["dir"]; v["reproduced"] = rep["ok"]; v["how"] = rep["how"]
                r["violations"].append({"msg": v["msg"], "where": v["where"], "replay": rep["dir"] + "/replay.sh", "reproduced": rep["ok"], "how": rep["how"], "inputs": v["inputs"]})
            r["status"] = "violation" if any(v["reproduced"] for v in r["violations"]) else "unreproduced"
        elif rc == 2:
            r["status"] = "incomplete"
        if rc == 0 and missing:
            r["status"] = "vacuous"

    def undefined_of_mock(self, h, log):
        shape, opts = h.gen
        d = self.generate(tuple("+" + VERIF + "/" + x[1:] if x[0] == "+" else VERIF + "/" + x for x in ([shape] if isinstance(shape, str) else shape)), opts)
        texts = "".join(open(f, errors="replace").read() for f in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/out/*.h")))
        declared = set(re.findall(r"\b(\w+)\s*\(", texts))
        names = [x.split("(")[0] for x in re.findall(r"undefined reference to [`'\u2018]([^'\u2019\n]+)", log)]
        return sorted(set(x for x in names if x.split("::")[-1] in declared))

    def native_build(self, h):
        def go():
            exes = []
            for tag, extra in (("zero", ["-ftrivial-auto-var-init=zero"]), ("pattern", ["-ftrivial-auto-var-init=pattern"])):
                units, gens, hsrc = self.inputs_of(h, "nat")
                with cf.ThreadPoolExecutor(8) as ex:
                    objs = list(ex.map(lambda u: self.compile(u[0], u[1], u[2], "nat", extra), units))
                exe = "%s/native-%s-%s" % (self.work, h.name, tag)
                wraps = ["-Wl,--wrap=" + w for w in ["malloc", "calloc", "realloc", "exit", "abort", "__assert_fail"] + h.wraps]
                rc, log = sh(["g++", "-fsanitize=address", "-no-pie"] + objs + ["-o", exe] + wraps + [*(["-lctemplate"] if h.shim else []), "-lunwind", "-ldw", "-lelf", "-lstdc++fs", "-ldl", "-lpthread"], timeout=120)
                if rc:
                    raise Fail("native replay does not link: " + log[-6000:])
                exes.append(exe)
            return exes
        return self.memo(("native", h.name), go)

    def replay(self, h, v, n):
        d = "%s/%s-%d" % (self.replays, h.name, n)
        os.makedirs(d, exist_ok=True)
        with open(d + "/inputs.txt", "w") as f:
            for nm, hx in v["inputs"]:
                f.write("%s\t%s\n" % (nm, hx))
        with open(d + "/violation.txt", "w") as f:
            f.write("%s\n%s\n" % (v["msg"], v["where"]))
        try:
            exes = self.native_build(h)
        except Fail as e:
            open(d + "/log.txt", "w").write(str(e))
            return {"dir": d, "ok": False, "how": "native build failed: " + str(e)[:300]}
        last = ""
        for exe in exes:
            shutil.copy(exe, d + "/" + os.path.basename(exe))
            for fill in (0xbe, 0, 0xff, 1):
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=78:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill)
                rc, log = sh([exe, d + "/inputs.txt"], timeout=40, env=env, cwd=d)
                last = "exit %s\n%s" % (rc, log[-3000:])
                hang = rc in (-14, 142, -9)
                if rc in (77, 78, -11, -6, -8, -4, 134, 139) or (hang and ("HANG" in v["msg"] or "recursion" in v["msg"])):
                    open(d + "/log.txt", "w").write(last)
                    with open(d + "/replay.sh", "w") as f:
                        f.write("#!/bin/bash\n# %s\ncd \"$(dirname \"$0\")\"\nASAN_OPTIONS='%s' ./%s inputs.txt\n" % (v["msg"], env["ASAN_OPTIONS"], os.path.basename(exe)))
                    os.chmod(d + "/replay.sh", 0o755)
                    return {"dir": d, "ok": True, "how": last.splitlines()[0] + " " + next((l for l in log.splitlines() if "VF-VIOLATION" in l or "ERROR: AddressSanitizer" in l), "")}
        open(d + "/log.txt", "w").write(last)
        return {"dir": d, "ok": False, "how": "not reproduced natively: " + last[:200]}


class GenFail(Fail):
    def __init__(self, text, short):
        super().__init__(text)
        self.short = short


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def run_property(prop, harnesses, tier, seed, level_note, assumptions, only=None, verbose=False):
    t0 = time.time()
    run = Run(prop, tier)
    hs = [h for h in harnesses if (h.tier in ("both", tier)) and (not only or re.search(only, h.name))]
    known = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    if os.path.exists(VERIF + "/known_findings.json") is False:
        known = []
    results = list(cf.ThreadPoolExecutor(max(1, len(hs))).map(run.one, hs))
    bad, found, notes, errors = [], [], [], []
    agg = {"paths": 0, "steps": 0, "forks": 0, "asserts_checked": 0, "assert_queries": 0}
    sol = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "cache_hits": 0, "sat_by_evaluation": 0, "seconds": 0.0, "max_seconds": 0.0}
    funcs, samples, unmod, per = set(), [], set(), []
    for r in results:
        j = r.get("j")
        e = {"harness": r["name"], "status": r["status"], "bounds": r["bounds"], "wall_s": r["wall"]}
        if j:
            for k in agg:
                agg[k] += j[k]
            for k in sol:
                sol[k] = max(sol[k], j["solver"][k]) if k == "max_seconds" else sol[k] + j["solver"][k]
            funcs.update(j["functions"])
            unmod.update(j["unmodelled"])
            samples += ["%s: %s" % (r["name"], s) for s in j["samples"][:1]]
            e.update({"paths": j["paths"], "pending": j["pending"], "queries": j["solver"]["queries"], "solver_s": round(j["solver"]["seconds"], 3), "assertions_decided": j["asserts_checked"], "witnesses_reached": j["reached"], "incomplete": j["incomplete"]})
        if r.get("error"):
            e["error"] = r["error"][:600]
        for v in r["violations"]:
            k = next((k for k in known if k["harness"] == r["name"] and k["msg"] == v["msg"]), None)
            if k and v["reproduced"]:
                found.append((k, v))
            elif v["reproduced"]:
                bad.append((r["name"], v))
            else:
                notes.append("%s: counterexample not reproduced natively, not reported: %s (%s)" % (r["name"], v["msg"], v.get("how", "")))
        if r["violations"]:
            e["violations"] = [{k: v.get(k) for k in ("msg", "where", "reproduced", "how")} for v in r["violations"]]
        if r["status"] in ("error", "vacuous"):
            errors.append("%s: %s %s" % (r["name"], r["status"], r.get("error") or "witness not reached: " + ", ".join(r.get("missing_witness", []))))
        if r["status"] == "incomplete":
            notes.append("%s: incomplete: %s" % (r["name"], j["incomplete"]))
        per.append(e)
    ok = [r for r in results if r.get("j")]
    cov = {
        "states": agg["paths"], "transitions": agg["steps"], "traces_validated_against_impl": sum(1 for r in results for v in r["violations"] if v.get("reproduced")),
        "samples": samples[:12] or ["(no path drew an input)"],
        "paths_explored": agg["paths"], "forks": agg["forks"], "assertions_decided": agg["asserts_checked"], "assertion_queries": agg["assert_queries"],
        "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sol.items()},
        "functions_encoded": sorted(funcs), "unmodelled": sorted(unmod), "harnesses": per,
        "notes": notes, "errors": errors,
        "exhaustive": bool(ok) and all(r["status"] in ("ok", "violation") for r in results),
        "known_findings_seen": [k["id"] for k, _ in found],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in results:
        j = r.get("j")
        print("%-28s %-12s %6.1fs %s" % (r["name"], r["status"], r["wall"], "paths=%d queries=%d solver=%.1fs asserts=%d" % (j["paths"], j["solver"]["queries"], j["solver"]["seconds"], j["asserts_checked"]) if j else ""))
    for n in notes:
        print("note: " + n)
    for k in dict((k["id"], k) for k, _ in found).values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, v in bad:
        print("violated: %s: %s%s" % (n, v["msg"], " at " + v["where"] if v.get("where") else ""))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, bad[0][1]["replay"]))
        return 1
    for e in errors:
        print("ERROR " + e)
    if errors and (any("vacuous" in e for e in errors) or not ok):
        return 2
    print("%s: no violation in %d harnesses, %d paths, %d solver queries, %.1fs" % (prop, len(ok), agg["paths"], sol["queries"], time.time() - t0))
    return 0
