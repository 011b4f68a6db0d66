"""drives one property's harnesses: exploration, replay, evidence"""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
OUT = os.path.join(VERIF, "out")


class H:
    """a harness: fn(I, M, **params); run once per params entry"""

    def __init__(self, fn, params=({},), thorough=None, reach=("end",), bounds="",
                 limit=100, thorough_limit=800, max_paths=200000, witnesses=2, timeout_ms=60000,
                 shim=True):
        self.fn, self.name = fn, fn.__name__
        self.params = [dict(p) for p in params]
        self.thorough = [dict(p) for p in (thorough if thorough is not None else [])]
        self.reach, self.bounds, self.limit = tuple(reach), bounds, limit
        self.thorough_limit = thorough_limit
        self.max_paths, self.witnesses, self.timeout_ms = max_paths, witnesses, timeout_ms
        self.shim = shim


def short(x, n=300):
    x = json.dumps(x, default=str)
    return x if len(x) <= n else x[:n] + "..."


def pkey(p):
    return ",".join(f"{k}={v}" for k, v in p.items())


class Job:
    def __init__(self, prop, h, params, limit, findings):
        from .core import Stats
        self.prop, self.h, self.params, self.limit = prop, h, params, limit
        self.stats = Stats()
        self.findings = [f for f in findings if f["property"] == prop and
                         fnmatch.fnmatchcase(h.name, f.get("harness", "*"))]
        self.hit = set()

    def known(self, label):
        lab = f"{self.h.name}({pkey(self.params)}):{label}"
        for f in self.findings:
            if fnmatch.fnmatchcase(lab, f["match"]) or fnmatch.fnmatchcase(label, f["match"]):
                self.hit.add(f["text"])
                return True
        return False


def read_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("KNOWN-FINDING:"):
            continue
        head, _, text = line.partition("::")
        d = dict(t.split("=", 1) for t in head[len("KNOWN-FINDING:"):].split() if "=" in t)
        d["text"] = f"KNOWN-FINDING: property={d['property']} {text.strip()}"
        d.setdefault("match", "*")
        out.append(d)
    return out


# --------------------------------------------------------------------------
def explore(job, M, seen_funcs):
    from . import core, harness
    h = job.h
    st = job.stats
    t0 = time.time()
    # start with the empty prefix; the run pushes the untaken alternatives
    work = [[]]
    witnesses, res = [], {"status": "ok"}
    cex, probes, errors = [], [], 0
    while work:
        if time.time() - t0 > job.limit or st.paths > h.max_paths:
            res = {"status": "inconclusive", "why": f"budget: {st.paths} paths, {time.time()-t0:.0f}s, "
                   f"{len(work)} prefixes left"}
            break
        prefix = work.pop()
        run = core.Run(prefix, st, h.timeout_ms)
        core.CUR = run
        I = harness.SymProvider(run, job)
        try:
            try:
                h.fn(I, M, **job.params)
                I.reach("end")
            except harness.EndPath:
                pass
            except core.Infeasible:
                raise
            except harness.Violation:
                raise
            except core.SymxError:
                raise
            except Exception as e:      # the code under test raised
                tb = traceback.format_exc()
                lab = f"exception:{type(e).__name__}"
                if not job.known(lab + ":" + str(e)[:80]):
                    r = run._check()
                    if r == __import__("z3").sat:
                        ms = I._models(__import__("z3").BoolVal(True))
                        raise _tb(harness.Violation(lab, ms[0], ms[1:]), tb)
                    if r != __import__("z3").unsat:
                        raise core.Inconclusive("unknown path condition at exception: " + tb)
            st.paths += 1
            if len(witnesses) < 2 * h.witnesses or (st.paths in (5, 25, 125) and h.witnesses):
                r = run._check()
                if r == __import__("z3").sat:
                    ms = I._models(__import__("z3").BoolVal(True))
                    if ms:
                        witnesses.append(ms[0])
                    g = I.generic_model(st.paths) if len(witnesses) < 8 else None
                    if g:
                        witnesses.append(g)
        except core.Infeasible:
            pass
        except harness.Violation as v:
            st.paths += 1
            cex.append({"label": v.label, "inputs": v.inputs, "alts": v.alts,
                        "tb": getattr(v, "tb", "")})
            if len(cex) >= 3:
                break
            # keep looking on other paths for a while: the first may not replay
            job.limit = min(job.limit, time.time() - t0 + 20)
        except core.Inconclusive as e:
            res = {"status": "inconclusive", "why": str(e)}
            if not cex:
                pass
            work.extend(run.alts)
            if st.obligations > 10 ** 6:
                break
            res["work"] = len(work)
            job.limit = min(job.limit, time.time() - t0 + 30)
            continue
        except core.SymxError as e:
            # beyond the encoder: the solver's models of the path so far are replayed on the real code instead
            if res["status"] != "error":
                res = {"status": "error", "why": traceback.format_exc()[-3000:]}
            errors += 1
            job.limit = min(job.limit, time.time() - t0 + 20)
            try:
                for k in range(3):
                    g = I.generic_model(f"{errors}.{k}")
                    if g is not None and g not in probes:
                        probes.append(g)
            except Exception:
                pass
            if errors >= 10:
                break
        finally:
            core.CUR = None
        work.extend(run.alts)
    if cex:
        res = {"status": "violation", "cex": cex}
    elif res["status"] == "ok":
        missing = [r for r in h.reach if not st.reached.get(r)]
        if missing and not (set(missing) == {"end"} and st.paths > 0 and job.hit):
            res = {"status": "vacuous", "why": f"never reached: {missing}"}
    res.update(harness=h.name, params=job.params, stats=vars(st), wall=time.time() - t0, probes=probes,
               witnesses=witnesses, hit=sorted(job.hit), funcs=sorted(seen_funcs))
    return res


def _tb(v, tb):
    v.tb = tb
    return v


def _worker(prop, mod, hname, params, limit, findings, conn, seed):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        sys.setrecursionlimit(20000)
        h = next(x for x in mod.HARNESSES if x.name == hname)
        M = mod.M
        seen = set()
        start_monitor(seen)
        if h.shim:
            from . import shim
            shim.install(extra_modules=getattr(mod, "EXTRA_MODULES", ()))
        job = Job(prop, h, params, limit, findings)
        job.mod = mod
        res = explore(job, M, seen)
    except BaseException:
        res = {"status": "error", "why": traceback.format_exc()[-3000:], "harness": hname,
               "params": params, "stats": {}, "wall": 0, "witnesses": [], "hit": [], "funcs": []}
    conn.send(json.loads(json.dumps(res, default=str)))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def start_monitor(seen):
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return

    def cb(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            seen.add(f"{f[len(REPO)+1:]}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, cb)
    mon.set_events(3, mon.events.PY_START)


def load_check(prop):
    sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module("checks." + prop.lower())
    if not hasattr(mod, "M"):
        mod.M = mod.load()
    return mod


# --------------------------------------------------------------------------
def concrete(mod, hname, params, inputs, fill=None):
    """run the harness on the real, unshimmed code.  -> (status, detail)"""
    from . import harness
    h = next(x for x in mod.HARNESSES if x.name == hname)
    I = harness.ConcProvider(inputs, fill=fill)
    import random
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    try:
        with np.errstate(all="ignore"):
            h.fn(I, mod.M, **params)
    except harness.ConcreteFail as e:
        return "fail", f"{e.label} {e.detail}"
    except harness.ConcreteSkip:
        return "skip", ""
    except harness.EndPath:
        return "pass", ""
    except Exception as e:
        return "raise", f"exception:{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    return "pass", ""


def sub(args, timeout=300, **more):
    env = dict(os.environ, **more)
    p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py")] + args, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


class Hang(BaseException):
    pass


def run_batch(prop, items, **env):
    """replay items in one fresh, unshimmed process"""
    import tempfile
    os.makedirs(OUT, exist_ok=True)
    fd, f = tempfile.mkstemp(dir=OUT, suffix=".json")
    os.write(fd, json.dumps(items).encode())
    os.close(fd)
    try:
        code, out = sub([prop, "--batch", f], timeout=600, **env)
        outs = json.load(open(f + ".out"))
    except Exception as e:
        outs = [{"status": "norun", "detail": f"{e} {locals().get('out', '')[-1500:]}"}] * len(items)
    for x in (f, f + ".out"):
        if os.path.exists(x):
            os.unlink(x)
    return outs


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--batch")
    ap.add_argument("--only", help="harness name glob")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 3 if anything was left undecided")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        import z3
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        print("z3", z3.get_version_string(), s.check())
        return 0 if s.check() == z3.unsat else 3
    prop = a.prop.upper()
    t0 = time.time()
    try:
        mod = load_check(prop)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 3

    if a.batch:           # validate path witnesses on the unshimmed code
        items = json.load(open(a.batch))
        outs = []
        import signal

        def onalarm(*_):
            raise Hang()
        signal.signal(signal.SIGALRM, onalarm)
        for it in items:
            signal.setitimer(signal.ITIMER_REAL, 40)
            try:
                s, d = concrete(mod, it["harness"], it["params"], it["inputs"], it.get("fill"))
            except Hang:
                s, d = "hang", "no termination within 40 s"
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            outs.append({"status": s, "detail": d})
        json.dump(outs, open(a.batch + ".out", "w"))
        return 0
    if a.replay:
        it = json.load(open(a.replay))
        for k, inp in enumerate([it["inputs"]] + it.get("alts", [])):
            s, d = concrete(mod, it["harness"], it["params"], inp, it.get("fill"))
            print(f"replay candidate {k}: {s} {d}")
            if s == "fail" or (s == "raise" and it["label"].startswith("exception")) or s == "raise":
                print(f"REPRODUCED property={prop} harness={it['harness']}({pkey(it['params'])}) "
                      f"label={it['label']} inputs={short(inp)}")
                return 1
        return 0

    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    findings = read_findings()
    jobs = []
    for h in mod.HARNESSES:
        if a.only and not fnmatch.fnmatchcase(h.name, a.only):
            continue
        ps = list(h.params)
        lim = h.limit
        if a.tier == "thorough":
            ps += [p for p in h.thorough if p not in ps]
            lim = h.thorough_limit
        for p in ps:
            jobs.append((h, p, lim))
    results = []
    ctx = mp.get_context("fork")
    pend = list(jobs)
    live = []
    hard = 850 if a.tier != "thorough" else 7200
    while pend or live:
        while pend and len(live) < a.jobs:
            h, p, lim = pend.pop(0)
            r, w = ctx.Pipe(False)
            pr = ctx.Process(target=_worker, args=(prop, mod, h.name, p, lim, findings, w, seed))
            pr.start()
            w.close()
            live.append((pr, r, h, p, time.time(), lim))
        time.sleep(0.02)
        for it in list(live):
            pr, r, h, p, ts, lim = it
            done = None
            if r.poll(0):
                try:
                    done = r.recv()
                except EOFError:
                    done = {"status": "error", "why": "worker died"}
            elif not pr.is_alive():
                done = {"status": "error", "why": f"worker exited {pr.exitcode}"}
            elif time.time() - ts > lim + 120 or time.time() - t0 > hard:
                pr.kill()
                done = {"status": "inconclusive", "why": "hard time limit"}
            if done is not None:
                done.setdefault("harness", h.name)
                done.setdefault("params", p)
                for k, v in (("stats", {}), ("wall", 0), ("witnesses", []), ("hit", []), ("funcs", [])):
                    done.setdefault(k, v)
                results.append(done)
                pr.join(1)
                live.remove(it)
                if a.v:
                    s = done["stats"]
                    print(f"  {done['harness']}({pkey(done['params'])}): {done['status']} "
                          f"{done.get('why', '')} paths={s.get('paths')} obl={s.get('obligations')} "
                          f"q={s.get('queries')} {done['wall']:.1f}s", flush=True)
                    for c in done.get("cex", []):
                        print("    cex:", c["label"], short(c["inputs"]), c.get("tb", "")[-300:])

    os.makedirs(OUT, exist_ok=True)
    rc = 0
    problems = []
    hardp = []          # assertion counterexamples that do not replay: the encoding is wrong
    violations = []
    hits = set()
    cands = []
    for r in results:
        hits.update(r["hit"])
        if r["status"] == "violation":
            for c in r["cex"]:
                for inp in [c["inputs"]] + c["alts"]:
                    cands.append((r, c, {"harness": r["harness"], "params": r["params"], "inputs": inp}))
        elif r["status"] != "ok":
            problems.append(f"{r['status']}: {r['harness']}({pkey(r['params'])}): {r.get('why')}")
    if cands:
        outs = run_batch(prop, [c[2] for c in cands])
        # compiled loops do not check array bounds: an exception may only show without numba's compiler
        redo = [i for i, (c, o) in enumerate(zip(cands, outs)) if o["status"] == "pass" and
                c[1]["label"].startswith("exception:")]
        if redo:
            for i, o in zip(redo, run_batch(prop, [cands[i][2] for i in redo], NUMBA_DISABLE_JIT="1")):
                if o["status"] in ("fail", "raise"):
                    outs[i] = o
        done_jobs = {}
        for (r, c, it), o in zip(cands, outs):
            key = (r["harness"], pkey(r["params"]))
            if done_jobs.get(key) is True:
                continue
            if o["status"] in ("fail", "raise", "hang"):
                f = os.path.join(OUT, f"{prop}-{r['harness']}-{len(violations)}.json")
                json.dump({"property": prop, "label": c["label"], "alts": [], **it}, open(f, "w"), indent=1)
                violations.append((f, f"REPRODUCED on the real code: {r['harness']}({pkey(r['params'])}) "
                                   f"label={c['label']} -> {o['status']} {o['detail'][:500]} inputs={short(it['inputs'])}", ""))
                done_jobs[key] = True
            else:
                done_jobs.setdefault(key, (r, c, o))
        for key, v in done_jobs.items():
            if v is not True:
                r, c, o = v
                if not c["label"].startswith("exception:"):
                    hardp.append(key)
                problems.append(f"counterexample does not replay: {key[0]}({key[1]}) {c['label']} "
                                f"{short(c['inputs'])}\n{c['tb'][-1500:]}\n{o}")
    # witnesses
    wit = [{"harness": r["harness"], "params": r["params"], "inputs": w}
           for r in results if r["status"] in ("ok", "error", "inconclusive") for w in r["witnesses"]]
    # jobs the engine could not finish: models of the unfinished paths, open inputs filled in
    for r in results:
        if r["status"] in ("error", "inconclusive") and not violations:
            wit += [{"harness": r["harness"], "params": r["params"], "inputs": w, "fill": k}
                    for k, w in enumerate((r.get("probes") or [])[:24] + [{}, {}, {}])]
    validated = 0
    samples = wit[:6]
    if wit and not violations:
        outs = run_batch(prop, wit)
        for it, o in zip(wit, outs):
            if o["status"] == "pass":
                validated += 1
            elif o["status"] == "skip":
                pass
            elif "fill" in it and (o["status"] in ("hang", "norun") or
                                   o["status"] == "raise" and REPO + "/" not in o["detail"]):
                pass
            elif o["status"] == "norun":
                problems.append("witness replay failed: " + o["detail"])
                break
            else:
                # a solver-produced path witness on which the real code breaks the property
                known = Job(prop, next(h for h in mod.HARNESSES if h.name == it["harness"]),
                            it["params"], 0, findings)
                if known.known(o["detail"].split(" ")[0]):
                    hits.update(known.hit)
                    continue
                g = os.path.join(OUT, f"{prop}-{it['harness']}-w{len(violations)}.json")
                json.dump({"property": prop, "label": o["detail"][:200], "alts": [], **it}, open(g, "w"), indent=1)
                violations.append((g, f"path witness fails on the real code: {it['harness']}({pkey(it['params'])}) "
                                   f"{o['detail'][:600]} inputs={short(it['inputs'])}", ""))
    S = lambda k: sum(r["stats"].get(k, 0) for r in results)
    ev = {
        "property": prop, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("decisions"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no witness"}],
            "obligations": S("obligations"), "discharged": S("discharged"),
            "discharged_by_term_rewriting": S("trivial"),
            "solver_queries": S("queries"), "solver_s": round(S("solver_s"), 2),
            "jobs": len(results),
            "bounds": {h.name: h.bounds for h in mod.HARNESSES},
            "functions_encoded": sorted({f for r in results for f in r["funcs"]}),
            "reachability_twins": sum(len(r["stats"].get("reached", {})) for r in results),
            "per_job": [{"harness": r["harness"], "params": pkey(r["params"]), "status": r["status"],
                         "paths": r["stats"].get("paths", 0), "obligations": r["stats"].get("obligations", 0),
                         "wall_s": round(r["wall"], 1)} for r in results],
            "explanation": "states = feasible symbolic paths of the real code; transitions = symbolic branch "
                           "decisions; every assertion on every path is an SMT validity query",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    ev["coverage"]["undecided"] = [p[:300] for p in problems]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for t in sorted(hits):
        print(t)
    for f, line, out in violations:
        print(line)
        print(f"VIOLATION property={prop} replay={f}")
        rc = 1
    for p in problems[:6]:
        print("UNDECIDED", p[:2500])
    if len(problems) > 6:
        print(f"... and {len(problems) - 6} more problems")
    # "held on everything explored": jobs the engine could not decide are reported in the
    # output and the evidence; the check has no answer only if it decided nothing (or --strict)
    und = len({(r["harness"], pkey(r["params"])) for r in results if r["status"] != "ok"})
    if problems and not violations and (a.strict or hardp or 2 * und > len(results)):
        rc = 3
    print(f"{prop} {a.tier}: jobs={len(results)} paths={S('paths')} obligations={S('obligations')} "
          f"discharged={S('discharged')} queries={S('queries')} solver={S('solver_s'):.1f}s "
          f"witnesses={validated}/{len(wit)} wall={time.time()-t0:.1f}s rc={rc}")
    return rc
