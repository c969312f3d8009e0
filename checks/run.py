"""Run the check of one property:  run.py P01 [--replay FILE] [--case NAME]"""
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("THESEUS_REPO", "/repo")
EVID = os.environ.get("VERIF_SCRATCH_EVIDENCE", os.path.join(ROOT, "evidence"))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
sys.dont_write_bytecode = True
# the packages are imported from the repository's working tree
sys.path[:0] = [ROOT, os.path.join(ROOT, "checks"), REPO, os.path.join(REPO, "torchlie"), os.path.join(REPO, "torchkin")]

import warnings  # noqa: E402
warnings.filterwarnings("ignore")
import fnmatch  # noqa: E402

import torch  # noqa: E402

torch.set_num_threads(1)
sys.setrecursionlimit(20000)

from symtorch import harness as H  # noqa: E402
from symtorch import smt  # noqa: E402
from symtorch import tensor as T  # noqa: E402


def load(pid):
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module(f[:-3])
    raise SystemExit("no check for " + pid)


def known_findings(pid):
    """finding: property=P01 case=<glob> label=<glob> :: what fails"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, what = line[len("finding:"):].split("::", 1)
            d = dict(x.split("=", 1) for x in head.split())
            if d["property"] == pid:
                out.append((d["case"], d["label"], what.strip()))
    return out


def run_case(name, fn, kwargs, opts, seed, budget):
    for k in smt.STATS:
        smt.STATS[k] = type(smt.STATS[k])()
    T.OPCOUNT.clear()
    t = time.time()
    for setup in opts.get("setup", ()):
        setup()
    ex = H.Explorer(name, fn, kwargs, opts, seed, budget)
    ex.run()
    # vacuity: a case whose paths were all infeasible proves nothing
    if ex.stats["paths"] == 0 and not ex.undecided and not ex.violations:
        ex.undecided.append("vacuous: no feasible path")
    return dict(case=name, stats=ex.stats, violations=ex.violations, known=ex.known, undecided=ex.undecided,
                functions=sorted(ex.functions), smt=dict(smt.STATS), ops=dict(T.OPCOUNT), wall=time.time() - t,
                witness=ex.witness_env, cands=sorted(ex.cands))


def pool(cases, seed, budget, jobs, limit):
    """one forked process per case; no more cases are started once several violate, or the run's time is up"""
    pend = list(cases)
    running = {}
    out = []
    t00 = time.time()
    stop = int(os.environ.get("VERIF_STOP", "6"))
    while pend or running:
        if pend and sum(bool(r.get("violations")) for r in out) >= stop:
            pend = []
            if stop == 1:
                limit = -1
        if time.time() - t00 > limit:
            out += [dict(case=c[0], error="the run's time limit") for c in pend]
            pend = []
            for pid, (c, r, t0, buf) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                out.append(dict(case=c[0], error="the run's time limit"))
            break
        while pend and len(running) < jobs:
            c = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = run_case(c[0], c[1], c[2], c[3], seed, c[3].get("budget", budget))
                except BaseException as e:  # noqa
                    res = dict(case=c[0], error="%s: %s" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                    f.flush()
                os._exit(0)
            os.close(w)
            running[pid] = (c, r, time.time(), bytearray())
        # collect
        import select
        fds = {v[1]: k for k, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.2)
        for fd in ready:
            pid = fds[fd]
            b = os.read(fd, 1 << 20)
            if b:
                running[pid][3].extend(b)
                continue
            c, r, t0, buf = running.pop(pid)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out.append(pickle.loads(bytes(buf)))
            except Exception:
                out.append(dict(case=c[0], error="process ended without a result"))
        now = time.time()
        for pid, (c, r, t0, buf) in list(running.items()):
            if now - t0 > c[3].get("budget", budget) * 1.5 + 20:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                running.pop(pid)
                out.append(dict(case=c[0], error="timeout"))
    return out


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(pid)
    t0 = time.time()
    cases = mod.cases(tier)
    if "--replay" in args:
        rec = json.load(open(args[args.index("--replay") + 1]))
        for name, fn, kw, opts in cases:
            if name == rec["case"]:
                ex = H.Explorer(name, fn, kw, opts, seed)
                for setup in opts.get("setup", ()):
                    setup()
                c = ex.numrun(rec["env"])
                for l, m in c.fail:
                    print("REPRODUCED %s: %s" % (l, m))
                if getattr(c, "tb", None):
                    print(c.tb)
                sys.exit(1 if c.fail else 0)
        sys.exit("no such case")
    if "--case" in args:
        pat = args[args.index("--case") + 1]
        cases = [c for c in cases if fnmatch.fnmatch(c[0], pat)]
    known = known_findings(pid)
    budget = getattr(mod, "BUDGET", 120) if tier == "quick" else getattr(mod, "BUDGET_THOROUGH", 900)
    prepared = []
    for name, fn, kw, opts in cases:
        opts = dict(opts)
        opts["known"] = [l for c, l, w in known if fnmatch.fnmatch(name, c)]
        prepared.append((name, fn, kw, opts))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    if "--inproc" in args:
        res = [run_case(n, f, k, o, seed, budget) for n, f, k, o in prepared]
    else:
        res = pool(prepared, seed, budget, jobs, float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "86400")))
    order = {c[0]: i for i, c in enumerate(prepared)}
    res.sort(key=lambda r: order[r["case"]])
    rc = 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    tot, st = {}, {}
    funcs, ops, undec, errs, samples = set(), {}, [], [], []
    nviol = nknown = 0
    shown = set()
    for r in res:
        if "error" in r:
            errs.append((r["case"], r["error"]))
            if "-v" in args:
                print(r.get("tb"))
            continue
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k in ("nodes", "max_terms") else tot.get(k, 0) + v
        for k, v in r["smt"].items():
            st[k] = max(st.get(k, 0), v) if k == "max" else st.get(k, 0) + v
        funcs |= set(r["functions"])
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        undec += [(r["case"], u) for u in r["undecided"]]
        if r["witness"] and len(samples) < 3:
            samples.append(dict(case=r["case"], path_witness=r["witness"]))
        if "-v" in args:
            s = r["stats"]
            print("%-40s %6.1fs paths=%d leaves=%d obl=%d id=%d z3=%d und=%d wit=%d nodes=%d terms=%d defopen=%d float=%d" % (
                r["case"], r["wall"], s["paths"], s["leaves"], s["obligations"], s["identities"], s["z3_decided"],
                len(r["undecided"]), s["witnesses"], s["nodes"], s["max_terms"], s.get("definedness_open", 0), s.get("float_const", 0)))
            for u in r["undecided"][:4]:
                print("      undecided:", u)
            for u in r["cands"][:4]:
                print("      not reproduced:", u)
        for v in r["known"]:
            what = [w for c, l, w in known if fnmatch.fnmatch(r["case"], c) and fnmatch.fnmatch(v["label"], l)]
            nknown += 1
            for w in what[:1]:
                if w not in shown:
                    shown.add(w)
                    print("KNOWN-FINDING: property=%s %s" % (pid, w))
        for v in r["violations"]:
            nviol += 1
            path = os.path.join(EVID, "replay", "%s_%d.json" % (pid, nviol))
            json.dump(dict(property=pid, **{k: v[k] for k in ("case", "label", "msg", "env", "source")}),
                      open(path, "w"), indent=1, default=str)
            if nviol <= 10:
                print("  case %s: %s: %s  (%s)" % (v["case"], v["label"], v["msg"], v["source"]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
    bad = set(c for c, _ in undec) | set(c for c, _ in errs)
    for c, u in undec[:20]:
        print("UNDECIDED %s: %s" % (c, u))
    for c, e in errs[:20]:
        print("UNDECIDED %s: %s" % (c, e))
    if rc == 0 and len(bad) * 2 > len(prepared):
        rc = 2
    wall = time.time() - t0
    cov = dict(
        explanation=mod.EXPLAIN + "  Each case runs the real functions on symbolic tensors; obligations are decided "
        "per path: normalised modulo the atoms' relations and posed to z3 as 'path condition and residual nonzero'.",
        bounds=mod.BOUNDS, cases=len(prepared), cases_undecided=sorted(bad),
        undecided=[("%s: %s" % u)[:300] for u in undec + errs][:40],
        functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
        paths=tot.get("paths", 0), leaves=tot.get("leaves", 0), forks=tot.get("forks", 0),
        obligations=tot.get("obligations", 0), decided_identities=tot.get("identities", 0),
        decided_also_by_solver_without_normalisation=tot.get('raw_confirmed', 0),
        decided_by_nonlinear_query=tot.get("z3_decided", 0), definedness_obligations=tot.get("definedness", 0),
        definedness_open=tot.get("definedness_open", 0), residual_only_float_literal=tot.get("float_const", 0),
        queries=st.get("queries", 0), queries_unsat=st.get("unsat", 0), queries_sat=st.get("sat", 0),
        queries_unknown=st.get("unknown", 0), raw_queries=st.get("raw", 0), raw_unsat=st.get("raw_unsat", 0),
        solver_time_s=round(st.get("time", 0.0), 3), max_query_s=round(st.get("max", 0.0), 3),
        path_witnesses_replayed_on_real_code=tot.get("witnesses", 0), infeasible_paths=tot.get("vacuous_paths", 0),
        paths_without_witness=tot.get("unwitnessed_paths", 0),
        symbolic_aten_ops=dict(sorted(ops.items(), key=lambda x: -x[1])[:40]),
        known_findings_seen=nknown, samples=samples)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=mod.ASSUMPTIONS,
              wall_s=round(wall, 2), violations=nviol)
    if len(res) < len(prepared):
        cov["stopped_early"] = "%d cases were not started after several violations" % (len(prepared) - len(res))
    if "--case" not in args:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d cases, %d paths, %d obligations, %d violations, %d undecided cases, %.1fs" % (
        pid, len(prepared), tot.get("paths", 0), tot.get("obligations", 0), nviol, len(bad), wall))
    sys.exit(rc)


if __name__ == "__main__":
    main()
