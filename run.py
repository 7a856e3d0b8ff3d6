#!/usr/bin/env python3
"""Solver-based checking of mcy/best.  usage: run.py PROPERTY [--tier quick|thorough]
Compiles harness/<PROPERTY>*.cc against /repo's current tree to LLVM IR, lets engine/sx decide
every entry, replays what it reports against a native sanitized build of the same sources,
and writes evidence/<PROPERTY>.json."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("VP_REPO", "/repo"); H = V + "/harness"
CACHE = V + "/build/cache"
NCPU = os.cpu_count() or 4
CXX = "clang++-17"; CXXN = "clang++-18"
BASE = ["-D_LIBCPP_ENABLE_HARDENED_MODE=1", "-std=c++20", "-stdlib=libc++", "-U_FORTIFY_SOURCE", "-w", "-iquote", R, "-I", H]
UB = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,array-bounds,bool"
BC = BASE + ["-O1", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-builtin-memmem", "-fno-pic",
  "-gline-tables-only", "-fsanitize=" + UB, "-fsanitize-trap=all", "-emit-llvm", "-c", "-D_LIBCPP_DISABLE_EXTERN_TEMPLATE=1"]
ASAN = BASE + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope",
  "-include", H + "/native.h", "-DVP_NATIVE=1", "-c"]
PLAIN = BASE + ["-O0", "-g1", "-fno-omit-frame-pointer", "-include", H + "/native.h", "-DVP_NATIVE=1", "-c"]
ASAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:hard_rss_limit_mb=4000",
            "UBSAN_OPTIONS": "exitcode=98:print_stacktrace=0"}

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)

class BuildError(Exception): pass

def compile_one(src, flags, suffix, log):
    """compile with a cache keyed on the preprocessed text and the flags"""
    pp = sh([CXX] + [f for f in flags if f not in ("-c", "-emit-llvm")] + ["-E", src], cwd=R)
    if pp.returncode: raise BuildError(src + "\n" + pp.stderr[-4000:])
    key = hashlib.sha256((" ".join(flags) + "\0" + pp.stdout).encode()).hexdigest()[:32]
    out = f"{CACHE}/{key}{suffix}"
    if os.path.exists(out):
        os.utime(out); return out
    tmp = f"{out}.{os.getpid()}.{time.monotonic_ns()}"
    r = sh([CXX] + flags + [src, "-o", tmp], cwd=R)
    if r.returncode: raise BuildError(src + "\n" + r.stderr[-6000:])
    os.replace(tmp, out)
    return out

def build_engine():
    exe = V + "/engine/sx"
    r = sh(["make", "-s", "-C", V + "/engine"])
    if r.returncode or not os.path.exists(exe): raise BuildError("engine: " + r.stderr[-2000:])
    return exe

def prune_cache():
    fs = sorted(glob.glob(CACHE + "/*"), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 3e9: break
        tot -= os.path.getsize(f)
        try: os.unlink(f)
        except OSError: pass

def lib_sources(want_cli):
    out = []
    for f in sorted(glob.glob(R + "/best/**/*.cc", recursive=True)):
        rel = os.path.relpath(f, R)
        if rel.endswith("_test.cc") or rel.startswith("best/test/") or rel.endswith("toy.cc"): continue
        if rel.startswith("best/cli/") and not want_cli: continue
        out.append(f)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None; keep = False; verbose = False; nonative = False
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--only": only = args.pop(0)
        elif a == "-v": verbose = True
        elif a == "--no-native": nonative = True
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    prune_cache()
    rep_dir = f"{V}/replays/{prop}"
    shutil.rmtree(rep_dir, ignore_errors=True); os.makedirs(rep_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w", dir=V + "/build")
    try:
        return run(prop, tier, seed, only, verbose, nonative, t0, rep_dir, work)
    except BuildError as e:
        print("ERROR: cannot build: " + str(e)); return 3
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(work, ignore_errors=True)

def load_known():
    known = {}
    p = V + "/known_findings.json"
    if os.path.exists(p):
        for k in json.load(open(p))["known"]: known.setdefault(k["property"], {})[k["id"]] = k
    return known

def run(prop, tier, seed, only, verbose, nonative, t0, rep_dir, work):
    srcs = sorted(glob.glob(f"{H}/{prop}.cc") + glob.glob(f"{H}/{prop}_*.cc"))
    if not srcs: print("no harness for", prop); return 3
    text = {s: open(s).read() for s in srcs}
    cli = any("VP-LINK-CLI" in t for t in text.values())
    t = ["-DVP_TIER=%d" % (tier == "thorough")]
    budget = float(os.environ.get("VP_BUDGET", "0")) or (600 if tier == "quick" else 5400)
    entry_time = {"quick": 400, "thorough": 3000}[tier]
    pool = cf.ThreadPoolExecutor(NCPU)
    feng = pool.submit(build_engine)
    hb = {s: pool.submit(compile_one, s, BC + t, ".bc", None) for s in srcs}
    libs = lib_sources(cli)
    lb = [pool.submit(compile_one, s, BC, ".bc", None) for s in libs]
    hn = {s: pool.submit(compile_one, s, ASAN + t, ".asan.o", None) for s in srcs}
    ln = [pool.submit(compile_one, s, ASAN, ".asan.o", None) for s in libs]
    rt = pool.submit(compile_one, H + "/rt.cc", ASAN, ".asan.o", None)
    exe = feng.result()
    libbc = [f.result() for f in lb]
    jobs = []
    allbc = f"{work}/lib.bc"
    r = sh(["llvm-link-18"] + libbc + ["-o", allbc])
    if r.returncode: raise BuildError("llvm-link: " + r.stderr[-3000:])
    for s in srcs:
        out = f"{work}/{os.path.basename(s)}.bc"
        r = sh(["llvm-link-18", "--only-needed", hb[s].result(), allbc, "-o", out])
        if r.returncode: raise BuildError("llvm-link: " + r.stderr[-3000:])
        r = sh([exe, out, "--list"])
        for e in sorted(r.stdout.split()):
            if only is None or re.search(only, e): jobs.append((s, out, e))
    # longest first: use the order hints of earlier runs if any
    hint = {}
    hp = f"{V}/hints.json"
    if os.path.exists(hp): hint = json.load(open(hp))
    jobs.sort(key=lambda j: -hint.get(prop + ":" + j[2], 5))
    def native_link(s):
        o = f"{work}/{os.path.basename(s)}.native"
        r = sh([CXXN, "-stdlib=libc++", "-fuse-ld=lld", "-rdynamic", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-o", o, hn[s].result(), rt.result()] + [f.result() for f in ln] + ["-lm", "-ldl"])
        if r.returncode: raise BuildError("native link: " + r.stderr[-3000:])
        return o
    def engine(job):
        s, bc, e = job
        out = f"{work}/{e}.json"
        left = max(5, budget - (time.time() - t0))
        cmd = [exe, bc, "--entry", e, "--out", out, "--time", str(min(entry_time, left)), "--seed", str(seed)]
        if "VP-FORK-INDEX" in text[s]: cmd.append("--fork-index")
        if tier == "thorough" and os.environ.get("VP_CROSS", "") == "1": cmd.append("--cross")
        try:
            r = sh(["prlimit", "--as=%d" % (24 << 30)] + cmd, timeout=min(entry_time, left) + 60)
        except subprocess.TimeoutExpired:
            return job, None, "engine timeout"
        if not os.path.exists(out): return job, None, f"engine failed ({r.returncode}): " + r.stderr[-500:]
        return job, json.load(open(out)), r.stderr
    eng = cf.ThreadPoolExecutor(NCPU)
    futs = [eng.submit(engine, j) for j in jobs]
    natives = {} if nonative else {s: pool.submit(native_link, s) for s in srcs}
    plain = {}
    def native_run(binary, e, inputs, tag, pre=None, env=ASAN_ENV, to=20):
        p = f"{work}/{e}.{tag}.txt"
        with open(p, "w") as f:
            for n, b, v in inputs: f.write(f"{n} {b} {v}\n")
        try:
            r = sh((pre or []) + [binary, e, p], timeout=to, env={**os.environ, **env}, cwd=work)
        except subprocess.TimeoutExpired:
            return 124, [], "does not terminate"
        ob = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("OBS ")]
        return r.returncode, ob, (r.stdout + r.stderr)[-2500:]
    def reproduces(s, e, v, tag):
        code, ob, txt = native_run(natives[s].result(), e, v["inputs"], tag)
        if code not in (0, 60, 77): return f"sanitized build: exit {code}", txt
        if s not in plain:
            o = f"{work}/{os.path.basename(s)}.plain"
            objs = list(pool.map(lambda a: compile_one(*a), [(s, PLAIN + t, ".plain.o", None)] + [(x, PLAIN, ".plain.o", None) for x in libs + [H + "/rt.cc"]]))
            r = sh([CXX, "-stdlib=libc++", "-fuse-ld=lld", "-rdynamic", "-o", o] + objs + ["-lm", "-ldl"])
            if r.returncode: raise BuildError("plain link: " + r.stderr[-3000:])
            plain[s] = o
        code, ob, txt = native_run(plain[s], e, v["inputs"], tag, to=20)
        if code not in (0, 60, 77): return f"plain build: exit {code}", txt
        code, ob, txt = native_run(plain[s], e, v["inputs"], tag, pre=["valgrind", "-q", "--error-exitcode=97", "--undef-value-errors=yes", "--leak-check=no"], to=90)
        if code not in (0, 60, 77): return f"valgrind: exit {code}", txt
        return None, txt
    known = load_known().get(prop, {})
    agg = dict(paths=0, completed=0, crashes=0, instructions=0, forks=0, asserts=0, obligations=0, memchecks=0, queries=0, sat=0, unsat=0, unknown=0, fallback=0, cross=0, cross_bad=0, solver_s=0.0)
    functions, lines, stubs, entries, problems, samples = set(), {}, set(), [], [], []
    validated = mism = 0
    viol = []; kfs = {}; unconfirmed = []
    newhint = {}
    def handle(job, res, err):
        nonlocal validated, mism
        s, bc, e = job
        if res is None:
            problems.append(f"{e}: {err}"); entries.append({"entry": e, "result": "error"}); return
        st = res["stats"]
        for k in agg: agg[k] = agg[k] + st[k]
        newhint[prop + ":" + e] = round(st["wall_s"], 1)
        functions.update(res["functions"]); stubs.update(res["stubs"])
        for f, ls in res["lines"].items(): lines.setdefault(f, set()).update(ls)
        if res["incomplete"]: problems.append(f"{e}: incomplete: " + "; ".join(res["incomplete"]))
        if res["complete"] and res["unreached"] and not res["violations"]: problems.append(f"{e}: vacuous: unreached " + ", ".join(res["unreached"]))
        entries.append({"entry": e, "complete": res["complete"], "paths": st["paths"], "queries": st["queries"], "solver_s": round(st["solver_s"], 2), "wall_s": round(st["wall_s"], 2), "violations": len(res["violations"])})
        if not nonative:
            for i, p in enumerate(res["samples"]):
                code, ob, txt = native_run(natives[s].result(), e, p["inputs"], f"s{i}")
                want = 60 if p["crashed"] else 0
                if code == want and ob == p["obs"]:
                    validated += 1
                    if len(samples) < 12 and i < 2: samples.append({"entry": e, "inputs": {n: int(v) for n, b, v in p["inputs"]}, "crashed": p["crashed"], "observed": p["obs"], "native": "agrees"})
                elif not res["violations"]:
                    mism += 1; problems.append(f"{e}: native run disagrees with the encoding on a sampled path: exit {code} (want {want}) obs {ob[:8]} vs {p['obs'][:8]} {txt[-300:]}")
                    viol.append((e, {"kind": "native", "msg": "native run of a path the encoding accepts fails", "where": "", "inputs": p["inputs"]}, f"exit {code}", txt)) if code not in (0, 60, 77) else None
        seen = {}
        for i, v in enumerate(res["violations"]):
            if v["kf"] and v["kf"] in known:
                kfs.setdefault(v["kf"], []).append(v)
            key = (v["kind"], v["msg"])
            if seen.get(key, 0) >= 2: continue
            how, txt = (None, "") if nonative else reproduces(s, e, v, f"v{i}")
            if how:
                seen[key] = seen.get(key, 0) + 1
                if v["kf"] and v["kf"] in known: continue
                viol.append((e, v, how, txt))
            else: unconfirmed.append({"entry": e, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "inputs": v["inputs"], "native": txt[-300:]})
    for f in cf.as_completed(futs):
        handle(*f.result())
        if viol and not verbose:  # one reproduced violation settles the verdict
            for g in futs: g.cancel()
            break
    wall = time.time() - t0
    if os.environ.get("VP_LINES"): json.dump({f: sorted(l) for f, l in lines.items()}, open(os.environ["VP_LINES"], "w"))
    vlines = []
    for i, (e, v, how, txt) in enumerate(viol):
        p = f"{rep_dir}/{e}-{i}.txt"
        with open(p, "w") as f:
            f.write(f"# property {prop}, entry {e}: {v['kind']}: {v['msg']}\n# at {v['where']}\n# reproduced by the {how}\n")
            for n, b, val in v["inputs"]: f.write(f"{n} {b} {val}\n")
            f.write("# native output:\n" + "".join("# " + l + "\n" for l in txt.splitlines()))
        vlines.append((p, e, v))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
      "coverage": {"states": agg["paths"], "transitions": agg["instructions"], "traces_validated_against_impl": validated, "samples": samples or ["none"],
        "explanation": "states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = IR instructions executed symbolically; traces_validated = path models replayed on the native sanitized build with equal outcome and observations",
        "entries": sorted(entries, key=lambda x: x["entry"]), "functions_encoded": sorted(functions), "lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
        "bounds": bounds_of(text.values()), "assert_checks": agg["asserts"], "obligations": agg["obligations"], "memory_accesses_checked": agg["memchecks"], "crash_paths": agg["crashes"],
        "queries": agg["queries"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"], "fallback_solver_calls": agg["fallback"], "solver_s": round(agg["solver_s"], 2), "cross_checked": agg["cross"], "cross_disagreements": agg["cross_bad"],
        "stubs": sorted(stubs), "incomplete_or_problems": problems, "unconfirmed_counterexamples": unconfirmed, "complete": not problems and not viol and len(entries) == len(jobs)},
      "assumptions": ["libc/libc++ externals modelled as in engine/sx.cpp (" + (", ".join(sorted(stubs)) or "none beyond memory functions") + ")", "x86-64, clang-17 -O1 IR with UB traps, NDEBUG undefined", "bounds as stated per entry"] ,
      "wall_s": round(wall, 2), "violations": len(viol)}
    with open(f"{V}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    if os.environ.get("VP_HINTS"):
        hint.update(newhint); json.dump(hint, open(hp, "w"), indent=0, sort_keys=True)
    print(f"{prop} [{tier}]: {len(entries)}/{len(jobs)} entries, {agg['paths']} paths, {agg['queries']} queries, solver {agg['solver_s']:.1f}s, {validated} native replays agree, {wall:.1f}s")
    if verbose:
        for x in sorted(entries, key=lambda x: -x.get("wall_s", 0)): print("  ", x)
    for x in problems: print("NOTE:", x)
    for u in unconfirmed: print("UNCONFIRMED (does not reproduce natively):", u["entry"], u["kind"], u["msg"], u["where"][:300], u["inputs"][:12])
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}" + ("" if k in kfs else "  (not observed on this tree)"))
    for p, e, v in vlines:
        print(f"  {e}: {v['kind']}: {v['msg']} @ {v['where'][:400]} inputs {v['inputs'][:16]}")
        print(f"VIOLATION property={prop} replay={p}")
    if viol: return 1
    if any(x["result"] == "error" for x in entries if "result" in x) or mism: return 2
    return 0

def bounds_of(texts):
    out = []
    for t in texts: out += [m.group(1).strip() for m in re.finditer(r"// BOUND:(.*)", t)]
    return out

sys.exit(main())
