#!/usr/bin/env python3
"""Builds the library's build variants and the simulator from the current tree, runs one property's seeded simulations,
writes evidence/<id>.json and reports violations with a minimised replay file.
  run_check.py C03              quick check (VERIF_SEED, VERIF_TIER from the environment)
  run_check.py C03 --thorough
  run_check.py --replay FILE    replays a violation
  run_check.py C03 --determinism N   N runs twice each in differently split processes; compares event-log hashes"""
import json, os, re, shutil, subprocess, sys, time, hashlib, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo"); BUILD = os.environ.get("VERIF_BUILD", V + "/build"); NCPU = os.cpu_count() or 4
ENV = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "TARGET_ARCH", "T1HA_EXTRA_CFLAGS")}; ENV["LC_ALL"] = "C"
sys.path.insert(0, V + "/tools")
from checks import CHECKS, VARIANTS

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def repo_files(): return [p for p in glob.glob(REPO + "/*") + glob.glob(REPO + "/src/*") if os.path.isfile(p) and not p.endswith((".o", ".a", ".so", ".md", "/test"))]

def build_variant(name, bits, key):
    cc, flags, cflags = VARIANTS[name]; m = "-m32" if bits == 32 else ""
    out = f"{BUILD}/lib/{key}/{name}{bits}"; so = out + "/v.so"
    if os.path.exists(so): return so
    tmp = out + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    for f in glob.glob(REPO + "/*"):
        b = os.path.basename(f)
        if b != "_build" and not b.endswith((".o", ".a", ".so")): os.symlink(f, tmp + "/" + b)
    a = ["make", "-s", "-C", tmp, "CC=" + cc, "libt1ha.a"]
    a += ["CFLAGS=" + " ".join([cflags, flags, m, "-fno-stack-protector -Wno-error"])] if cflags else ["T1HA_EXTRA_CFLAGS=" + (flags + " " + m).strip() + " -Wno-error"]
    r = sh(a)
    if r.returncode == 0: # client code of this configuration
        r = sh([cc] + (cflags or "-std=c11 -O2 -D_DEFAULT_SOURCE").split() + flags.split() + ([m] if m else []) + ["-fPIC", "-Dt1ha_IMPORTS", "-fno-stack-protector", "-I" + REPO, "-c", "-o", "client.o", V + "/sim/client.c"], cwd=tmp)
    if r.returncode == 0:
        r = sh(["gcc"] + ([m] if m else []) + ["-shared", "-nostdlib", "-o", "v.so", "client.o", "-Wl,--whole-archive", "libt1ha.a", "-Wl,--no-whole-archive", "-lgcc"], cwd=tmp)
    if r.returncode: raise RuntimeError(f"build variant {name}/{bits} failed:\n{r.stdout[-3000:]}")
    for f in os.listdir(tmp):
        if f != "v.so": os.unlink(tmp + "/" + f)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return so

WRAPPED = "clock_gettime gettimeofday time nanosleep sched_getcpu sched_setaffinity prctl syscall sigaction access mmap munmap ioctl read close sysconf".split() # services of the tool that sim/tool.cc provides
def build_tool(bits): # the repository's test/benchmark tool as a shared object, built by the project's Makefile
    fs = [p for p in glob.glob(REPO + "/tests/**", recursive=True) if os.path.isfile(p)] + repo_files(); key = digest(fs, str(WRAPPED)); out = f"{BUILD}/tool/{key}/{bits}"; so = out + "/tool.so"
    for p in glob.glob(f"{BUILD}/tool/*"):
        if os.path.basename(p) != key: shutil.rmtree(p, ignore_errors=True)
    if os.path.exists(so): return so
    tmp = out + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp); m = "-m32" if bits == 32 else ""
    for f in glob.glob(REPO + "/*"):
        b = os.path.basename(f)
        if b not in ("_build", "test") and not b.endswith((".o", ".a", ".so", ".s", ".i")): os.symlink(f, tmp + "/" + b)
    rule = "verif-tool: $(OBJ_LIST) $(BENCH_EXTRA) tests/main.c ; $(CC) $(CFLAGS_TEST) -c -Dmain=tool_main -o verif_main.o tests/main.c && $(CXX) %s -shared -Wl,-Bsymbolic %s -o tool.so verif_main.o $(OBJ_LIST) $(BENCH_EXTRA) -lm" % (m, " ".join("-Wl,--wrap=" + w for w in WRAPPED))
    open(tmp + "/verif.mk", "w").write(rule + "\n")
    r = sh(["make", "-s", "-j4", "-C", tmp, "CC=gcc", "CXX=g++", "T1HA_EXTRA_CFLAGS=" + ("-fPIC " + m).strip() + " -Wno-error", "-f", "Makefile", "-f", "verif.mk", "verif-tool"])
    if r.returncode: raise RuntimeError(f"building the tool ({bits} bits) failed:\n{r.stdout[-3000:]}")
    for f in os.listdir(tmp):
        if f != "tool.so": os.unlink(tmp + "/" + f)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return so

SRC = ["util", "model", "refvals", "os", "loader", "machine", "decode", "common", "stepworld", "simcpu", "tool", "main"]
def compile_sim(bits, key):
    d = f"{BUILD}/sim/{key}/{bits}"; exe = d + "/sim"
    if os.path.exists(exe): return [], exe, d
    os.makedirs(d, exist_ok=True); m = ["-m32"] if bits == 32 else []; jobs = []
    for f in SRC + sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/sim/prop_*.cc")):
        jobs.append(["g++"] + m + ["-std=c++17", "-O2", "-g", "-w", "-I" + REPO, "-c", f"{V}/sim/{f}.cc", "-o", f"{d}/{f}.o"])
    return jobs, exe, d
def run_jobs(ex, jobs):
    for r in ex.map(lambda j: sh(j), jobs):
        if r.returncode: raise RuntimeError("building the simulator failed:\n" + r.stdout[-3000:])

def prepare(chk, bits_list):
    t = time.time(); os.makedirs(BUILD, exist_ok=True)
    lk = digest(repo_files() + [V + "/sim/client.c"]); sk = digest(glob.glob(V + "/sim/*"), digest([REPO + "/t1ha.h"]))
    for sub, k in (("lib", lk), ("sim", sk)): # keep only what matches the current tree
        for p in glob.glob(f"{BUILD}/{sub}/*"):
            if os.path.basename(p) != k: shutil.rmtree(p, ignore_errors=True)
    sims = {}; libs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {}
        for b in bits_list:
            for v in chk["variants"]: futs[(v, b)] = ex.submit(build_variant, v, b, lk)
        jobs = []; links = []
        for b in bits_list:
            j, exe, d = compile_sim(b, sk); jobs += j
            sims[b] = exe
            if j: links.append((["g++"] + (["-m32"] if b == 32 else []) + ["-no-pie"] + ["-Wl,--export-dynamic-symbol=" + x for x in ["malloc", "realloc"] + ["__wrap_" + w for w in WRAPPED]] + ["-o", exe + ".tmp"] + [x[-1] for x in j] + ["-ldl"], exe))
        run_jobs(ex, jobs)
        for l, exe in links:
            r = sh(l)
            if r.returncode: raise RuntimeError("linking the simulator failed:\n" + r.stdout[-3000:])
            os.rename(exe + ".tmp", exe)
        for b in bits_list if chk.get("tool") else (): libs[("tool", b)] = build_tool(b)
        for k, f in futs.items(): # a configuration that does not compile breaks no property; the default one must
            try: libs[k] = f.result()
            except RuntimeError as e:
                if k[0] == "d": raise
                libs[k] = None; print(f"configuration {k[0]}{k[1]} does not build and is left out: {str(e).strip().splitlines()[-1]}")
    dic = f"{BUILD}/dict.txt"; vals = set()
    for p in glob.glob(REPO + "/src/*") + [REPO + "/t1ha.h"]:
        if "selfcheck" in os.path.basename(p): continue
        for w in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", open(p, errors="replace").read()):
            try: x = int(w, 0) if not re.fullmatch(r"0\d+", w) else int(w, 8)
            except ValueError: continue
            if 8 < x < 2 ** 64: vals.add(x)
    open(dic, "w").write("\n".join(map(str, sorted(vals))) + "\n")
    return libs, sims, dic, time.time() - t

def images(libs, chk, bits): return ",".join(f"{v}={libs[(v, bits)]}" for v in chk["variants"] if libs[(v, bits)])
def known():
    out = []
    p = V + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--setup": # everything a check needs is (re)built by the check itself; this warms the simulator's build
        libs, sims, dic, tb = prepare({"variants": ["d"]}, [64, 32]); print(f"simulator built in {tb:.0f} s"); return 0
    pid = a[0]; chk = CHECKS[pid]; thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"; tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time(); bits_list = chk.get("bits", [64, 32])
    try: libs, sims, dic, tb = prepare(chk, bits_list)
    except RuntimeError as e: print(e); return 2
    tmp = tempfile.mkdtemp(prefix="sim", dir=BUILD)
    try: return check(pid, chk, tier, seed, bits_list, libs, sims, dic, tb, t0, tmp, a)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check(pid, chk, tier, seed, bits_list, libs, sims, dic, tb, t0, tmp, a):
    per = NCPU // len(bits_list); jobs = []
    det = int(a[a.index("--determinism") + 1]) if "--determinism" in a else 0
    def cmd(b, start, stride, count, tl, extra): return [sims[b], "--prop", pid, "--images", images(libs, chk, b), "--dict", dic, "--seed", str(seed), "--start", str(start), "--stride", str(stride), "--count", str(count), "--time", str(tl)] + (["--tool", libs[("tool", b)]] if chk.get("tool") else []) + (["--known", ",".join(f[1] for f in known() if f[0] == pid)] if any(f[0] == pid for f in known()) else []) + extra
    def hashes(b, n, split, tag):
        fs = []
        with ThreadPoolExecutor(split) as ex:
            def one(k):
                f = f"{tmp}/h{tag}.{b}.{k}"; sh(cmd(b, k, split, (n - k + split - 1) // split, 100000, ["--hashes", f])); return f
            fs = list(ex.map(one, range(split)))
        return {l.split()[0]: l.split()[1] for f in fs if os.path.exists(f) for l in open(f)}
    if det:
        bad = 0
        for b in bits_list:
            h1 = hashes(b, det, 8, "a"); h2 = hashes(b, det, 3, "b"); d = [k for k in h1 if h1[k] != h2.get(k)]
            print(f"{pid} {b}-bit: {len(h1)} runs twice (8 and 3 processes), {len(d)} differ", d[:5]); bad += len(d) + (len(h1) != det)
        return 2 if bad else 0
    counts = chk["thorough" if tier == "thorough" else "quick"]; tl = chk.get("tmax", 240) if tier == "quick" else chk.get("tmax_thorough", 3000)
    procs = []
    for b in bits_list:
        n = counts[b] if isinstance(counts, dict) else counts
        for k in range(per):
            o = f"{tmp}/{b}.{k}"; c = cmd(b, k, per, (n - k + per - 1) // per, tl, ["--out", o + ".json", "--viol", o + ".viol", "--shapes", o + ".shp", "--shrink", "60"])
            procs.append((b, k, o, subprocess.Popen(c, stdout=open(o + ".log", "w"), stderr=subprocess.STDOUT, env=ENV)))
    errs = []; viols = []; tot = dict(runs=0, nontrivial=0, steps=0, calls=0, switches=0, deaths=0, nonrepro=0); faults = {}; probes = {}; shapes = set(); samples = []; rule = ""; simwall = 0
    open_ = list(procs)
    for b, k, o, p in procs:
        rc = p.wait(); log = open(o + ".log").read()
        if rc not in (0, 1) or not os.path.exists(o + ".json"): errs.append((b, k, rc, log[-1500:])); continue
        d = json.load(open(o + ".json"))
        for x in tot: tot[x] += d[x]
        for src, dst in ((d["faults"], faults), (d["probes"], probes)):
            for x, n in src.items(): dst[x] = dst.get(x, 0) + n
        raw = open(o + ".shp", "rb").read(); shapes.update((b, raw[i:i + 8]) for i in range(0, len(raw), 8)); rule = d["rule"]; simwall += d["wall"]
        if len(samples) < 4: samples += [f"[{b}-bit] " + s for s in d["samples"][:1]]
        if d["violation"]: viols.append((b, d["violation"], o + ".viol"))
    # cross-check between the builds and between processes: the same runs again, split differently
    dn = chk.get("recheck", 60); detbad = 0; cross = 0
    if not viols and not errs and dn:
        hs = {b: (hashes(b, dn, 4, "a"), hashes(b, dn, 3, "b")) for b in bits_list}
        for b in bits_list: detbad += sum(hs[b][0][k] != hs[b][1].get(k) for k in hs[b][0])
        if chk.get("cross") and len(bits_list) == 2:
            x, y = hs[64][0], hs[32][0]; cross = len(x); diff = [k for k in x if x[k] != y.get(k)]
            if diff: errs.append((0, 0, 0, f"runs {diff[:5]} differ between 64- and 32-bit although both agree with the reference model"))
        if detbad: errs.append((0, 0, 0, f"{detbad} runs are not deterministic"))
    wall = time.time() - t0; lines = []; rc = 0; kn = known(); nv = 0
    for f in kn:
        if f[0] == pid: lines.append(f"KNOWN-FINDING: property={pid} {f[3]} (class {f[1]}, met in {probes.get('known finding: ' + f[1], 0)} of {tot['runs']} runs)")
    for b, v, path in viols:
        body = open(path).read() if os.path.exists(path) else ""
        if any(f[0] == pid and f[1] == v["class"] and re.search(f[2], body) for f in kn): continue
        os.makedirs(V + "/replays", exist_ok=True); dst = f"{V}/replays/{pid}-{b}bit-seed{seed}-run{v['run']}.txt"; shutil.copy(path, dst); nv += 1
        if rc == 0: lines.append(f"VIOLATION property={pid} replay={dst}")
        lines.append(f"  {b}-bit run {v['run']} ({v['class']}): {v['msg']}"); rc = 1
    if errs and not rc:
        rc = 3
    for e in errs: lines.append(f"harness error in worker {e[0]}/{e[1]} (exit {e[2]}): {e[3]}")
    hours = max(wall, 1e-9) / 3600
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "wall_s": round(wall, 2), "violations": nv,
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(shapes), "rule": rule, "samples": samples,
                       "nontrivial_runs": tot["nontrivial"], "simulated_instructions": tot["steps"], "library_calls": tot["calls"], "context_switches": tot["switches"],
                       "runs_per_hour": int(tot["runs"] / hours), "seeds_per_hour": int(tot["runs"] / hours), "seed_rule": "run i of VERIF_SEED s is simulated from the single PRNG seed mix(mix(s)^mix(2i+1)); every run has its own seed",
                       "simulated_time": f"{probes['simulated microseconds'] / 1e6:.0f} simulated seconds of the measured clocks" if "simulated microseconds" in probes else f"{tot['steps']} simulated machine instructions (the library has no clock; the instruction is the unit of simulated time)",
                       "faults_injected": faults, "probes": probes, "distinct_measure": "distinct hashes of the run's event log (schedule points, faults and results)",
                       "real_components": chk["real"], "stub_components": chk["stub"], "variants": [f"{v}{b}" for b in bits_list for v in chk["variants"] if libs[(v, b)]], "variants_not_built": [f"{v}{b}" for b in bits_list for v in chk["variants"] if not libs[(v, b)]],
                       "batch_process_deaths": tot["deaths"], "violations_not_reproduced": tot["nonrepro"], "determinism_rechecked_runs": dn * len(bits_list) if not viols else 0, "cross_bitness_runs_compared": cross, "build_s": round(tb, 1)},
          "assumptions": chk["assumptions"]}
    os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    lines.append(f"{pid} {tier}: {tot['runs']} runs ({len(shapes)} distinct), {tot['calls']} calls, {tot['steps']} stepped instructions, build {tb:.0f} s, total {wall:.0f} s")
    for l in lines: print(l)
    return rc

def replay(path):
    t = open(path).read(); m = re.search(r"# property (\S+) seed (\d+)", t); b = int(re.search(r"# bits (\d+)", t).group(1)); pid = m.group(1); chk = CHECKS[pid]
    libs, sims, dic, tb = prepare(chk, [b])
    return subprocess.call([sims[b], "--prop", pid, "--images", images(libs, chk, b), "--replay", path] + (["--tool", libs[("tool", b)]] if chk.get("tool") else []), env=ENV)
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); sys.exit(rc)
