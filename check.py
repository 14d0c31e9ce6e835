#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.  usage: check.py ID [quick|thorough]"""
import sys, os, subprocess, json, time, glob, shutil, tempfile, hashlib, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CARDS_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS
SKIP = {"webcards.cxx", "webrepo.cxx", "string.cxx", "vector.cxx", "mysql.cxx"}
COMMON = ["-std=c++17", "-D_GNU_SOURCE", "-DNDEBUG", '-DPACKAGE_VERSION="3"', "-D_LARGEFILE_SOURCE", "-D_FILE_OFFSET_BITS=64", "-w", "-I" + V + "/shim"]
IRF = ["clang++-18", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-fno-pie", "-emit-llvm", "-c"] + COMMON
NAF = ["clang++-18", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"] + COMMON
# C library functions of the code under test that have no effect outside the process
PURE = set("""__cxa_allocate_exception __cxa_atexit __cxa_begin_catch __cxa_end_catch __cxa_free_exception __cxa_rethrow __cxa_throw __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_pure_virtual
__dso_handle __errno_location __gxx_personality_v0 __isoc23_sscanf __isoc99_sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoull __isoc23_strtoll strtol strtoul strtoull strtoll strtod atoi atol atof __xpg_basename basename dirname bcmp memchr memrchr memcmp memcpy memmove
memset mempcpy rawmemchr strchr strrchr strcmp strcpy stpcpy strcat strncat strdup strndup strerror strerror_r strlen strnlen strncmp strcasecmp strncasecmp strncpy strtok strtok_r strsep strstr strcasestr strspn strcspn strpbrk memmem isspace isalpha isdigit isalnum isxdigit
isupper islower isprint ispunct toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc malloc calloc realloc free abort snprintf sprintf vsnprintf vsprintf sscanf abs labs div ldiv qsort bsearch sqrt pow floor ceil round log log10 fmod
_Unwind_Resume __stack_chk_fail __assert_fail difftime rand srand ffs __cxa_get_exception_ptr __tls_get_addr _GLOBAL_OFFSET_TABLE_ __cxa_throw_bad_array_new_length setjmp _setjmp longjmp fnmatch regerror mktime""".split())

def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

class Build:
    def __init__(self, work):
        self.w = work; self.src = os.path.join(REPO, "src"); self.errors = []
        self.files = sorted(f for f in os.listdir(self.src) if f.endswith(".cxx") and f not in SKIP)
        self.pool = cf.ThreadPoolExecutor(8)
    def extra(self, f): return {"tools.cxx": ["-Dmain=tools_main"], "cards.cxx": ["-Dmain=cards_main"], "pkgrepo_main.cxx": ["-Dmain=pkgrepo_main"]}.get(f, [])
    def one(self, flags, f, out):
        r = run(flags + self.extra(f) + [f, "-o", out], cwd=self.src)
        if r.returncode: self.errors.append(f + ": " + r.stdout[-1500:])
        return out if r.returncode == 0 else None
    def ir(self, need): return [self.pool.submit(self.one, IRF, f, f"{self.w}/{f}.bc") for f in self.files]
    def native(self): return [self.pool.submit(self.one, NAF, f, f"{self.w}/{f}.o") for f in self.files]
    def harness(self, h):
        p = f"{V}/harness/{h}.cpp"
        i = ["-iquote", self.src, "-I" + V + "/rt"]
        r = run(IRF + i + [p, "-o", f"{self.w}/h_{h}.bc"])
        if r.returncode: self.errors.append(h + ": " + r.stdout[-2500:]); return False
        return True
    def harness_native(self, h):
        i = ["-iquote", self.src, "-I" + V + "/rt"]
        r = run(NAF + i + [f"{V}/harness/{h}.cpp", "-o", f"{self.w}/h_{h}.o"])
        return r.returncode == 0
    def link_natives(self, objs, harnesses):
        """Renames every OS entry point of the code under test to its model, then links one replay binary per harness."""
        b = f"{V}/build"; model = [f"{b}/n_{x}.o" for x in ("env", "env_net", "streams", "native")]
        out = run(["llvm-nm-18", "--defined-only"] + model).stdout
        mods = {m[2:] for m in re.findall(r"[TDBR] (m_\w+)", out)}
        und = set(re.findall(r"U (\w+)", run(["llvm-nm-18", "-u"] + objs).stdout))
        stub = [u for u in und if not u.startswith("_Z") and u not in mods and u not in PURE and not re.match(r"__(asan|ubsan|sanitizer)|sx_", u)]
        with open(f"{self.w}/redef", "w") as f:
            for m in sorted(mods): f.write(f"{m} m_{m}\n")
            for s in stub: f.write(f"{s} sx_unmodelled\n")
        list(self.pool.map(lambda o: run(["llvm-objcopy-18", "--redefine-syms=" + self.w + "/redef", o]), objs))
        def link(h):
            if not self.harness_native(h): return None
            r = run(["clang++-18", "-fsanitize=address", f"{self.w}/h_{h}.o"] + objs + model + ["-o", f"{self.w}/n_{h}"])
            if r.returncode: self.errors.append("link " + h + ": " + r.stdout[-1500:]); return None
            return f"{self.w}/n_{h}"
        return dict(zip(harnesses, self.pool.map(link, harnesses)))

FILLS = ["malloc_fill_byte=190:max_malloc_fill_size=4096", "malloc_fill_byte=0:max_malloc_fill_size=4096", "malloc_fill_byte=255:max_malloc_fill_size=4096", "malloc_fill_byte=1:max_malloc_fill_size=4096"]
def native_run(binary, rec, params, cwd, fill=0):
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:max_allocation_size_mb=2048:allocator_may_return_null=0:symbolize=1:fast_unwind_on_malloc=1:" + FILLS[fill])
    try: r = run([binary, rec] + params, cwd=cwd, env=e, timeout=90)
    except subprocess.TimeoutExpired: return -14, "TIMEOUT"
    return r.returncode, r.stdout
def reproduces(tag, msg, rc, out):
    if tag.startswith("assert:"): return f"ASSERT-FAIL {tag[7:]} {msg}\n" in out
    if tag.startswith("hang"): return rc == -14
    if tag.startswith("uncaught"): return "terminate called" in out or rc == -6
    return "AddressSanitizer" in out or rc in (-11, -6, -7, -8, -4)

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]; t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1"))
    r = run(["bash", V + "/setup.sh"])
    if r.returncode: print("engine build failed\n" + r.stdout[-3000:]); 
    work = tempfile.mkdtemp(prefix=f"sxcheck-{pid}-")
    try: rc = decide(pid, tier, spec, seed, work, t0)
    finally:
        if not os.environ.get("SX_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    sys.exit(rc)

def known():
    p = f"{V}/known-findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def decide(pid, tier, spec, seed, work, t0):
    b = Build(work); jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    hs = list(dict.fromkeys(j["h"] for j in jobs)); files = None
    irf = b.ir(files); hf = {h: b.pool.submit(b.harness, h) for h in hs}
    bcs = [f.result() for f in irf]; ok = {h: f.result() for h, f in hf.items()}
    bcs = [x for x in bcs if x]
    nat = b.native()
    rts = [f"{V}/build/rt_{x}.bc" for x in ("cxxrt", "streams", "libc", "env", "env_net")]
    def low(h):
        if not ok[h]: return None
        r = run([V + "/build/lower", f"{work}/{h}.sx", "harness", f"{work}/h_{h}.bc"] + bcs + rts)
        if r.returncode: b.errors.append(f"lower {h}: " + r.stdout[-800:]); return None
        return f"{work}/{h}.sx"
    sx = dict(zip(hs, b.pool.map(low, hs)))
    nobjs = None; bins = {}
    results = []; 
    budget = spec.get("budget", 600 if tier == "thorough" else 150)
    tstart = time.time()
    for n, j in enumerate(jobs):
        if not sx[j["h"]]: results.append((j, None, None)); continue
        od = f"{work}/out{n}"; os.mkdir(od)
        params = dict(j.get("params", {})); params.update(j.get(tier, {}))
        left = max(5, budget - (time.time() - tstart))
        tmo = min(params.pop("timeout", 60 if tier == "quick" else 300), left)
        only = "assert:" + pid + (",mem:,uncaught:,hang:" if j.get("memory") else "")
        cmd = [V + "/build/symx", sx[j["h"]], "harness", od, f"timeout={tmo}", "procs=8", "samples=8", "walk=10", f"seed={seed}", "only=" + only] + [f"{k}={v}" for k, v in params.items()]
        r = run(cmd); st = json.load(open(od + "/stats.json")) if os.path.exists(od + "/stats.json") else None
        if st is None: b.errors.append(f"symx {j['h']}: rc={r.returncode} " + r.stdout[-500:])
        results.append((j, st, od))
    # native replay of counterexamples and of sampled paths
    objs = [f.result() for f in nat]; objs = [o for o in objs if o]
    bins = b.link_natives(objs, hs)
    kf = [k for k in known() if k["property"] == pid]; seen_known = {}
    violations = []; unconfirmed = []; validated = 0; mismatches = []; samples = []
    rep = f"{V}/evidence/replay"; os.makedirs(rep, exist_ok=True)
    for n, (j, st, od) in enumerate(results):
        if st is None: continue
        params = dict(j.get("params", {})); params.update(j.get(tier, {})); params.pop("timeout", None)
        pl = [f"{k}={v}" for k, v in params.items()]; binary = bins.get(j["h"])
        done = set()
        for vf in sorted(glob.glob(od + "/viol-*.txt"), key=lambda p: int(re.findall(r"viol-(\d+)", p)[0])):
            t = open(vf, errors="replace").read(); tag = re.search(r"^tag (.*)$", t, re.M).group(1); msg = re.search(r"^msg (.*)$", t, re.M).group(1)
            key = (tag, msg if tag.startswith("assert:") else "")
            if key in done: continue
            conf = False; out = "no native build"
            for fill in range(len(FILLS) if "\nun " in t or not tag.startswith("assert:") else 1):
                if not binary: break
                rc, out = native_run(binary, vf, pl, work, fill)
                if reproduces(tag, msg, rc, out): conf = True; break
            if conf:
                done.add(key)
                k = next((k for k in kf if k["tag"] == tag and (k.get("message") in (None, msg)) and all(x in t or x in out for x in k.get("contains", []))), None)
                if k: seen_known[k["id"]] = k; continue
                dst = f"{rep}/{pid}-{j['h']}-{len(violations)}.txt"
                with open(dst, "w") as f: f.write(f"# harness {j['h']} params {' '.join(pl)}\n" + t + "\n# native replay\n" + out[-6000:])
                violations.append((tag, msg, dst))
            else: unconfirmed.append({"tag": tag, "msg": msg, "harness": j["h"], "native": out[-300:]})
        unconfirmed[:] = [u for u in unconfirmed if (u["tag"], u["msg"] if u["tag"].startswith("assert:") else "") not in done or u["harness"] != j["h"]]
        for sf in sorted(glob.glob(od + "/sample-*.txt"))[:6]:
            t = open(sf, errors="replace").read()
            ins = re.findall(r"^in (.*)$", t, re.M); want = re.findall(r"^tr (.*)$", t, re.M)
            if len(samples) < 6: samples.append({"harness": j["h"], "inputs": ins[:24], "trace": want[:12]})
            if not binary: continue
            rc, out = native_run(binary, sf, pl, work)
            got = re.findall(r"^tr (.*)$", out, re.M)
            if rc in (0, 77) and got == want: validated += 1
            else: mismatches.append({"harness": j["h"], "rc": rc, "want": want[:8], "got": got[:8], "out": out[-400:]})
    # vacuity: every witness point of every harness must have been reached
    missing = []; incomplete = []
    for j, st, od in results:
        if st is None: incomplete.append(j["h"] + ": not encoded"); continue
        w = {int(k) for k in st["witness"]}; m = [x for x in j.get("witness", []) if x not in w]
        if m: missing.append({"harness": j["h"], "witness": m})
        if st["timeouts"] or st["limits"] or st["unsupported"] or st["stopped"] or st["z3_unknown"] or st["worker_status"]:
            incomplete.append(f"{j['h']}: timeouts={st['timeouts']} limits={st['limits']} ({st['limit_msg']}) unsupported={st['unsupported']} ({st['unsupported_msg']}) stopped={st['stopped']} unknown={st['z3_unknown']} status={st['worker_status']}")
    S = lambda k: sum(st[k] for _, st, _ in results if st)
    repo_syms = set()
    if any(st for _, st, _ in results):
        syms = run(["llvm-nm-18", "--defined-only"] + bcs).stdout; repo_syms = set(re.findall(r" [TtWV] (\S+)", syms))
    fns = set(); [fns.update(st["functions"]) for _, st, _ in results if st]
    names = [f for f in sorted(fns & repo_syms) if "__gnu_cxx" not in f and not re.match(r"_ZNK?St|_ZSt|_ZN9__gnu", f)]
    dem = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n") if names else []
    cov = {"states": S("paths"), "transitions": S("symbolic_branches"), "traces_validated_against_impl": validated, "samples": samples,
           "functions_encoded": [d for d in dem if d][:400], "bounds": spec["bounds"] if tier == "quick" or "bounds_thorough" not in spec else spec["bounds_thorough"],
           "harnesses": [{"harness": j["h"], "params": {**j.get("params", {}), **j.get(tier, {})}, "paths": st["paths"], "wall_s": st["wall_s"], "max_inputs": st["max_inputs"], "instructions": st["instructions"], "witness_hits": st["witness"]} for j, st, _ in results if st],
           "queries": {"z3": S("z3_queries"), "z3_sat": S("z3_sat"), "z3_unsat": S("z3_unsat"), "z3_unknown": S("z3_unknown"), "answered_by_single_byte_domain": S("domain_decisions"), "cached": S("cache_hits")},
           "solver_time_s": round(S("z3_ns") / 1e9, 3), "assertions_checked": S("assertions"), "assertions_discharged_by_solver": S("assertions_by_solver"), "assertions_concrete_on_solver_feasible_path": S("assertions_concrete_on_path"),
           "instructions_executed": S("instructions"), "exhaustive": not incomplete and not missing, "incomplete": incomplete, "vacuity_missing": missing, "trace_mismatches": mismatches[:5], "unconfirmed_counterexamples": unconfirmed[:8], "build_errors": b.errors[:5],
           "known_findings_seen": sorted(seen_known), "counterexamples": [{"tag": t, "msg": m, "replay": p} for t, m, p in violations]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": spec.get("assumptions", []) + GENERIC, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: paths={S('paths')} branches={S('symbolic_branches')} z3={S('z3_queries')} asserts={S('assertions')} validated={validated} mismatches={len(mismatches)} wall={time.time()-t0:.1f}s")
    for e in b.errors[:5]: print("BUILD:", e[:1500])
    for i in incomplete: print("INCOMPLETE:", i)
    for m in missing: print("VACUOUS:", m)
    for m in mismatches[:3]: print("MISMATCH:", json.dumps(m)[:600])
    for u in unconfirmed[:5]: print("UNCONFIRMED:", json.dumps(u)[:600])
    for k in kf:
        if k["id"] in seen_known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for t, m, p in violations: print(f"  {t}: {m}"); print(f"VIOLATION property={pid} replay={p}")
    return 1 if violations else 0
GENERIC = ["clang 18 -O1 bitcode of /repo/src is what is executed; libstdc++ headers are those of gcc 13; stream classes are a re-implementation (shim/)",
           "operating system, libarchive, libcurl, OpenSSL and zstd are models (rt/env*.cpp) executed identically by the symbolic run and the native replay",
           "single-threaded; memory allocation never fails; x86-64 Linux"]
if __name__ == "__main__": main()
