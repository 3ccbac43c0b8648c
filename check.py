#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property.

1. Re-reads /repo's current sources (clang AST), regenerates every proof obligation
   of the functions the property depends on and discharges them with Z3.
2. Runs the labelled bounded stand-ins, if the property has any.
3. Only if an obligation is not discharged (or a stand-in fails): searches for a
   concrete failing input with the native harness, and reports the violation."""
import sys, os, json, time, subprocess, tempfile, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.environ.get("VCG_REEXEC") != "1":
    os.environ["VCG_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(HERE, "vcg"))
REPO = os.environ.get("VCG_REPO", "/repo")
SRCS = "alloc_fits chkmalloc datemjd free_fits oicheck oifile oifilter oiiter oimerge read_fits write_fits".split()


def run_fn(job):
    """worker: verify one function, return plain data"""
    name, modname, cfg = job
    import contract, importlib
    t0 = time.time()
    try:
        specs = importlib.import_module(modname).SPECS
        r = contract.verify(TU, name, specs, config=cfg)
        return dict(name=name, error=r.error, wall=r.wall, solver=r.solver_time, loops=r.loops,
                    obls=[dict(name=o.name, kind=o.kind, line=o.line, status=o.status, backend=o.backend, time=o.time,
                               detail=o.detail) for o in r.obls],
                    inv=r.inv_log, models=sorted(r.models), inlined=sorted(r.inlined), contracts=sorted(r.contracts))
    except Exception as e:       # noqa - the verifier gave up: undecided
        import traceback
        return dict(name=name, error="verifier: %s: %s" % (type(e).__name__, e), tb=traceback.format_exc(), wall=time.time() - t0,
                    solver=0.0, loops=0, obls=[], inv=[], models=[], inlined=[], contracts=[])


def worker(job, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    q.put(run_fn(job))


def verify_all(jobs, limit):
    """run the jobs in up to 8 processes; a job that exceeds the limit is undecided"""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    import sym
    sym.SLOTS = ctx.Semaphore(max(2, os.cpu_count() or 8))
    todo, running, out = list(jobs), [], []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < int(os.environ.get("VCG_JOBS", "8")):
            j = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(j, q))
            p.start()
            running.append((j, p, q, time.time()))
        for item in list(running):
            j, p, q, ts = item
            res = None
            try:
                res = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        res = q.get(timeout=0.2)
                    except Exception:
                        res = dict(name=j[0], error="verifier process died", wall=time.time() - ts, solver=0.0, loops=0,
                                   obls=[], inv=[], models=[], inlined=[], contracts=[])
                elif time.time() - t0 > limit:
                    p.kill()
                    res = dict(name=j[0], error="verifier exceeded its time limit", wall=time.time() - ts, solver=0.0, loops=0,
                               obls=[], inv=[], models=[], inlined=[], contracts=[])
            if res is not None:
                out.append(res)
                p.join()
                running.remove(item)
    order = {j[0]: k for k, j in enumerate(jobs)}
    return sorted(out, key=lambda r: order[r["name"]])


def build_native(d):
    cf = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
    exe = os.path.join(d, "harness")
    objs, procs = [], []
    base = ["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + os.path.join(HERE, "native"),
            "-I" + os.path.join(REPO, "src/oifitslib")] + cf
    files = [os.path.join(HERE, "native", "harness.c")] + [os.path.join(REPO, "src/oifitslib", s + ".c") for s in SRCS]
    for f in files:
        o = os.path.join(d, os.path.basename(f) + ".o")
        objs.append(o)
        procs.append(subprocess.Popen(base + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    log = ""
    for p in procs:
        log += p.communicate()[0].decode("utf8", "replace")
    if any(p.returncode for p in procs):
        return None, log
    r = subprocess.run(base + objs + ["-lglib-2.0", "-lcfitsio", "-lm", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return (exe if r.returncode == 0 else None), log + r.stdout.decode("utf8", "replace")


def run_native(exe, mode, seed, n, d, timeout):
    """-> (failed?, text, cases)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:exitcode=99:log_path=%s" % (1, os.path.join(d, "asan")), UBSAN_OPTIONS="print_stacktrace=1")
    out = ""
    step, done, t0 = max(1, n // 8), 0, time.time()
    procs = []
    for k in range(8):
        procs.append((k, subprocess.Popen([exe, mode, str(seed + k * 1000003), str(step)], cwd=d, env=env,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    failed, text = False, ""
    for k, p in procs:
        try:
            o = p.communicate(timeout=max(1, timeout - (time.time() - t0)))[0].decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            p.kill()
            o = "TIMEOUT (the run did not terminate)"
            p.communicate()
            p.returncode = 98
        m = re.search(r"OK (\d+) cases", o)
        if p.returncode == 0 and m:
            done += int(m.group(1))
        elif p.returncode == 9:
            return False, "no native mode " + mode, 0
        else:
            if p.returncode != 98 or not text:
                failed = True
                text = "command: harness %s %d %d -> exit %s\n%s\n" % (mode, seed + k * 1000003, step, p.returncode, o[-3000:])
    for f in sorted(os.listdir(d)):
        if f.startswith("asan"):
            text += open(os.path.join(d, f), errors="replace").read()[:6000]
            break
    return failed, text, done


def ignored(P, o):
    """postconditions and frames of a shared contract that another property decides"""
    return bool(P.get("ignore")) and o["kind"] in ("post", "frame") and re.search(P["ignore"], o["name"]) is not None


def main():
    global TU
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import props, cast, contract
    P = props.PROPS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "replay_%s.txt" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    failures, results, skipped = [], [], []
    try:
        TU = cast.load_all(P["files"])
        contract.TU = TU
    except Exception as e:
        failures.append("front end: %s" % e)
        TU = None
    if TU is not None:
        cfg = dict(P.get("config", {}))
        if tier == "thorough":
            cfg.update(timeout=60000, cand_timeout=10000, cand_tries=6)
        jobs = []
        for g in P["groups"]:
            import importlib
            specs = importlib.import_module(g["spec"]).SPECS
            for fn in g["fns"]:
                if fn not in TU.funcs and specs[fn].helper:
                    skipped.append(fn)
                    continue
                jobs.append((fn, g["spec"], dict(cfg, **g.get("config", {}))))
        results = verify_all(jobs, 550 if tier == "quick" else 6000)
        for r in results:
            if r["error"]:
                failures.append("%s: %s" % (r["name"], r["error"]))
            for o in r["obls"]:
                if o["status"] != "proved" and not ignored(P, o):
                    failures.append("obligation %s (line %s) not discharged: %s" % (o["name"], o["line"], o["detail"]))
    tv = time.time() - t0
    # extra deductive steps that are not function contracts (e.g. CBMC, lemmas)
    extra = []
    for x in P.get("extra", []):
        e = x(tier, REPO)
        extra.append(e)
        failures += e.get("failures", [])
    bounded = P.get("bounded")
    nat = dict(failed=False, text="", cases=0)
    if bounded or failures:
        d = tempfile.mkdtemp(prefix="vp_native_")
        try:
            exe, log = build_native(d)
            if exe is None:
                nat["text"] = "native harness did not build:\n" + log[-3000:]
                if not failures:
                    failures.append("native harness did not build against the current tree")
            else:
                n = P.get("cases", 4000) * (1 if not failures else 5) * (1 if tier == "quick" else 20)
                for mode in P["native"]:
                    f, text, c = run_native(exe, mode, seed, n, d, 120 if tier == "quick" else 1200)
                    nat["cases"] += c
                    if f:
                        nat.update(failed=True, text=nat["text"] + text)
                        break
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if nat["failed"] and not failures:
        failures.append("bounded stand-in failed (native run)")
    obls = [o for r in results for o in r["obls"]]
    obls = [o for o in obls if not ignored(P, o)]
    nob = len(obls) + sum(e.get("obligations", 0) for e in extra)
    nok = sum(o["status"] == "proved" for o in obls) + sum(e.get("discharged", 0) for e in extra)
    models = sorted({m for r in results for m in r["models"]})
    bk = {}
    for o in obls:
        bk[o["backend"]] = bk.get(o["backend"], 0) + 1
    kinds = {}
    for o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 2), violations=1 if failures else 0,
              coverage=dict(
                  obligations=nob, discharged=nok,
                  checker_cmd="python3 check.py %s (Z3 %s in-process)" % (pid, __import__("z3").get_version_string()),
                  trusted_base=props.TRUSTED + P.get("trusted", []),
                  functions_under_contract=[r["name"] for r in results],
                  functions_inlined=sorted({f for r in results for f in r["inlined"]}),
                  contracts_used_at_call_sites=sorted({f for r in results for f in r["contracts"]}),
                  external_functions_modelled=models, helpers_absent_from_source=skipped,
                  obligations_by_kind=kinds, obligations_by_backend=bk, loops_cut_by_invariants=sum(r["loops"] for r in results),
                  solver_seconds=round(sum(r["solver"] for r in results), 2), verification_wall_s=round(tv, 2),
                  extra=[{k: v for k, v in e.items() if k != "failures"} for e in extra],
                  per_function=[dict(fn=r["name"], obligations=len(r["obls"]), proved=sum(o["status"] == "proved" for o in r["obls"]),
                                     wall_s=round(r["wall"], 2), error=r["error"]) for r in results]),
              assumptions=props.ASSUMPTIONS + P.get("assumptions", []))
    if bounded:
        ev["coverage"]["bounded_stand_ins"] = dict(
            label="bounded - not counted as proved", what=bounded, cases=nat["cases"], seed=seed)
        ev["coverage"]["evaluations"] = nat["cases"]
    if P["level"] == "other":
        ev["coverage"]["explanation"] = P["explanation"]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in props.known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if failures:
        with open(replay, "w") as f:
            f.write("property %s: %d failure(s)\n\n" % (pid, len(failures)))
            for x in failures:
                f.write("  - %s\n" % x)
            f.write("\nverifier output\n")
            for r in results:
                f.write("%s: %d/%d obligations discharged, error=%s\n" % (
                    r["name"], sum(o["status"] == "proved" for o in r["obls"]), len(r["obls"]), r["error"]))
                if r.get("tb"):
                    f.write(r["tb"])
            f.write("\nreplay against the real code (native/harness.c, address+undefined sanitizers)\n%s\n" % (nat["text"] or "%d cases, none failed" % nat["cases"]))
        for x in failures[:8]:
            print("FAILED " + x)
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if nat["failed"] else " no-failing-input-found"))
        sys.exit(1)
    print("%s: %d obligations discharged for %d functions in %.1f s%s" % (
        pid, nok, len(results), time.time() - t0, "" if not bounded else "; %d bounded native cases" % nat["cases"]))
    sys.exit(0)


if __name__ == "__main__":
    main()
