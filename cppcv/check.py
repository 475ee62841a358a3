"""Runs the check of one property:  python3-vt -m cppcv.check C01 [--tier quick|thorough]"""
import sys, os, json, time, mmap, importlib, traceback, subprocess, tempfile, shutil, pickle, signal
import z3
from .front import TU, REPO, Unsupported, FrontError, CLANG, flags
from .engine import Engine, Obligation
from . import logic as L

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("CPPCV_JOBS", "8"))


def run_forked(tasks, fn, nproc=NPROC):
    """fork a child per task (at most nproc at a time); fn(task) -> picklable result"""
    results = [None] * len(tasks)
    running = {}
    queue = list(enumerate(tasks))
    while queue or running:
        while queue and len(running) < nproc:
            i, t = queue.pop(0)
            fd, path = tempfile.mkstemp(prefix="cppcv")
            os.close(fd)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    r = fn(t)
                    with open(path, "wb") as f: pickle.dump(r, f)
                except BaseException:
                    code = 3
                    with open(path, "wb") as f: pickle.dump({"crash": traceback.format_exc()}, f)
                finally:
                    os._exit(code)
            running[pid] = (i, path)
        pid, st = os.wait()
        if pid in running:
            i, path = running.pop(pid)
            try:
                with open(path, "rb") as f: results[i] = pickle.load(f)
            except Exception:
                results[i] = {"crash": "worker ended with status %d" % st}
            os.unlink(path)
    return results


def chains(obls):
    """runs of obligations along one path: the hypotheses of each extend those of the one before"""
    out, cur, ids = [], [], None
    for o in obls:
        h = [f.get_id() for f in o.hyps]
        if z3.is_true(o.goal): cur.append(o); continue
        if ids is not None and len(cur) < 150 and h[:len(ids)] == ids: cur.append(o)
        else:
            if cur: out.append(cur)
            cur = [o]
        ids = h
    if cur: out.append(cur)
    return out


def split(obls, n):
    """n lists of whole chains, of about the same size"""
    ps = [[] for _ in range(n)]
    for ch in sorted(chains(obls), key=len, reverse=True): min(ps, key=len).extend(ch)
    return [p for p in ps if p]


class Lost:
    """how many obligations failed so far, over all workers"""
    def __init__(self): self.m = mmap.mmap(-1, 8)
    def __len__(self): return int.from_bytes(self.m[:4], "little")
    def append(self, name): self.m[:4] = (len(self) + 1).to_bytes(4, "little")


def prove_obls(obls, timeout, seeds=(0,), lost=None):
    lost = [] if lost is None else lost
    return [d for ch in chains(obls) for d in prove_chain(ch, timeout, seeds, lost)]


GIVE_UP = 3      # after this many failures the workers try the rest only briefly: the verdict no longer depends on them


def prove_chain(obls, timeout, seeds, lost):
    out = []
    hard = [o for o in obls if not z3.is_true(o.goal)]
    s = None
    if len(hard) > 1:
        s = z3.Solver()
        s.set("auto_config", False); s.set("smt.mbqi", False)
        s.add(L.with_axioms(hard[-1].hyps + [o.goal for o in hard]))
    n = 0
    for o in obls:
        if z3.is_true(o.goal):
            out.append(dict(name=o.name, where=o.where, status="proved", backend="trivial", secs=0.0)); continue
        t0 = time.time()
        if len(lost) >= 4 * GIVE_UP:
            out.append(dict(name=o.name, where=o.where, status="unknown", backend="not tried", secs=0.0, goal=str(o.goal)[:300])); continue
        if s is not None:
            s.add(o.hyps[n:]); n = len(o.hyps)
            s.push(); s.add(z3.Not(o.goal)); s.set("timeout", 1000 if len(lost) >= GIVE_UP else int(min(timeout, 4) * 1000))
            r = s.check()
            s.pop()
            if r == z3.unsat:
                out.append(dict(name=o.name, where=o.where, status="proved", backend="z3", secs=round(time.time() - t0, 3))); continue
        if len(lost) >= GIVE_UP:
            if s is None:
                r = L.prove(o.hyps, o.goal, timeout=2, seeds=seeds[:1])
            else: r = L.Result("unknown", "not tried to the end", time.time() - t0)
        else: r = L.prove(o.hyps, o.goal, timeout=timeout, seeds=seeds)
        if r.status != "proved": lost.append(o.name)
        d = dict(name=o.name, where=o.where, status=r.status, backend=r.backend, secs=round(r.secs, 3))
        if r.status != "proved":
            d["goal"] = str(o.goal)[:2000]
            d["hyps"] = [str(h)[:600] for h in o.hyps][-60:]
        out.append(d)
    return out


def verify_contract(arg):
    mod, tu, c, timeout, inner, disabled = arg
    t0 = time.time()
    res = dict(name=c.name, function=c.qual, file=c.tu, status="ok", obligations=[], inlined=[], used=[], paths=0)
    try:
        m = (getattr(c, "models", None) or mod.models)(tu)
        m.contracts = [x for x in m.contracts if x.name not in disabled]
        ex = Engine(tu, c, m, dict(maxpaths=c.maxpaths))
        obls = ex.run()
    except Unsupported as e:
        res["status"] = "unsupported"; res["reason"] = str(e); res["secs"] = time.time() - t0
        if os.environ.get("CPPCV_TRACE"): res["trace"] = traceback.format_exc()
        return res
    except RecursionError as e:
        res["status"] = "unsupported"; res["reason"] = "recursion limit"; res["secs"] = time.time() - t0
        return res
    except Exception as e:
        res["status"] = "unsupported"; res["reason"] = "internal: " + traceback.format_exc()[-1500:]; res["secs"] = time.time() - t0
        return res
    res["paths"] = ex.npaths
    res["inlined"] = sorted(ex.inlined)
    res["used"] = sorted(ex.used_contracts)
    res["trusted"] = sorted(ex.trusted)
    res["gen_secs"] = round(time.time() - t0, 2)
    if not obls or getattr(ex, "completed", 0) == 0:
        res["status"] = "vacuous"; return res
    hard = [o for o in obls if not z3.is_true(o.goal)]
    lost = Lost()
    if len(hard) > 12 and inner > 1:
        chunks = split(obls, inner)
        parts = run_forked(chunks, lambda ch: prove_obls(ch, timeout, lost=lost), inner)
        for p in parts:
            if isinstance(p, dict):
                res["status"] = "unsupported"; res["reason"] = "solver worker: " + p.get("crash", ""); return res
            res["obligations"] += p
    else:
        res["obligations"] = prove_obls(obls, timeout, lost=lost)
    # retry what failed with more time and other seeds
    bad = [i for i, o in enumerate(res["obligations"]) if o["status"] != "proved"]
    if bad and len(bad) <= 40:
        byk = {}
        for o in obls: byk.setdefault((o.name, o.where, str(o.goal)[:2000]), []).append(o)
        def again(i):
            d = res["obligations"][i]
            for o in byk.get((d["name"], d["where"], d.get("goal")), []):
                r = prove_obls([o], timeout * 2, seeds=(0, 7))[0]
                if r["status"] != "proved": return r
            return dict(d, status="proved", backend="z3/cvc5 (retry)")
        while bad:
            part, bad = bad[:NPROC], bad[NPROC:]
            for i, r in zip(part, run_forked(part, again, NPROC)):
                if isinstance(r, dict) and "crash" not in r: res["obligations"][i] = r
            if any(res["obligations"][i]["status"] != "proved" for i in part): break
    # vacuity: the hypotheses of some completed path must be consistent
    van = []
    for pc in getattr(ex, "exit_pcs", [])[:6]:
        r = L.prove(pc, z3.BoolVal(False), timeout=2)
        van.append(r.status)
    res["vacuity"] = van
    if van and all(v == "proved" for v in van): res["status"] = "vacuous"
    res["secs"] = round(time.time() - t0, 2)
    return res


def tu_job(arg):
    mod, f, contracts, timeout, disabled = arg
    t0 = time.time()
    try:
        tu = TU(f, getattr(mod, "FILTER", "graphql"))
    except FrontError as e:
        return dict(front_error=str(e))
    ft = time.time() - t0
    inner = max(1, min(4, NPROC // max(1, min(len(contracts), NPROC)) + 1))
    rs = run_forked([(mod, tu, c, timeout, inner, disabled) for c in contracts], verify_contract)
    out = []
    for c, r in zip(contracts, rs):
        if "crash" in r:
            r = dict(name=c.name, function=c.qual, file=c.tu, status="unsupported", reason="worker: " + r["crash"][-800:], obligations=[])
        out.append(r)
    return dict(front_secs=ft, cmd=tu.cmd, results=out)


def verify_all(mod, timeout, only=None, disabled=()):
    groups = {}
    for c in mod.contracts:
        if c.trusted or (only and not any(o in c.name for o in only)): continue
        f = c.tu if os.path.isabs(c.tu) else (os.path.join(HERE, c.tu) if c.tu.startswith("tu/") else os.path.join(REPO, c.tu))
        groups.setdefault(f, []).append(c)
    jobs = [(mod, f, cs, timeout, set(disabled)) for f, cs in groups.items() if not all(c.name in disabled for c in cs)]
    return jobs, run_forked(jobs, tu_job, max(2, NPROC // 2))


# ------------------------------------------------------------------ concrete replay on the real code
def build_harness(mod, work):
    h = mod.HARNESS
    exe = os.path.join(work, "harness")
    srcs = [os.path.join(HERE, "replay", h["main"])]
    for s in h["sources"]: srcs.append(os.path.join(REPO, s))
    objs = []
    fl = ["-std=c++17", "-O1", "-g0", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + os.path.join(HERE, "replay")] + \
         [x for x in flags() if x.startswith("-D")] + h.get("flags", [])
    def comp(s):
        o = os.path.join(work, os.path.basename(s) + ".o")
        p = subprocess.run(["nice", CLANG] + fl + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o if p.returncode == 0 else "ERR " + p.stdout.decode()[-3000:]
    objs = run_forked(srcs, comp)
    for o in objs:
        if isinstance(o, dict) or o.startswith("ERR"): return None, str(o)
    p = subprocess.run([CLANG] + objs + ["-o", exe, "-lpthread"] + h.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0: return None, p.stdout.decode()[-3000:]
    return exe, None


class Harness:
    """builds the harness (in the background when wanted) and searches with it"""
    def __init__(self, mod):
        self.mod, self.work, self.pid = mod, None, None

    def start(self):
        if self.work or not getattr(self.mod, "HARNESS", None): return
        self.work = tempfile.mkdtemp(prefix="cppcv_h_")
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                exe, err = build_harness(self.mod, self.work)
                with open(os.path.join(self.work, "build.txt"), "w") as f: f.write(err or "")
            finally:
                os._exit(0)

    def close(self):
        if self.pid:
            try:
                os.killpg(self.pid, signal.SIGKILL); os.waitpid(self.pid, 0)
            except OSError: pass
            self.pid = None
        if self.work: shutil.rmtree(self.work, ignore_errors=True)

    def search(self, seed, secs, modes=None):
        """returns (ran, failure-or-None, info)"""
        if not getattr(self.mod, "HARNESS", None): return False, None, "no harness"
        self.start()
        if self.pid:
            try: os.waitpid(self.pid, 0)
            except ChildProcessError: pass
            self.pid = None
        exe = os.path.join(self.work, "harness")
        if not os.path.exists(exe):
            try: err = open(os.path.join(self.work, "build.txt")).read()
            except OSError: err = "the harness was not built"
            return False, None, err
        modes = modes or self.mod.HARNESS.get("modes") or []
        try:
            p = subprocess.run([exe, "--search", str(seed), str(secs)] + modes, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 2 + 60, cwd=self.work)
            out = p.stdout.decode("utf8", "replace")
            for l in out.split("\n"):
                if l.startswith("FAIL "): return True, l[5:], out[-2000:]
            if p.returncode != 0:
                return True, "crash with status %d: %s" % (p.returncode, (out + p.stderr.decode("utf8", "replace"))[-800:]), out
            return True, None, out[-2000:]
        except subprocess.TimeoutExpired:
            return True, "no answer within %d s (does not terminate)" % (secs * 2 + 60), ""


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    only = [a[2:] for a in argv[1:] if a.startswith("-k")]
    t0 = time.time()
    sys.path.insert(0, HERE)
    import glob
    modname = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "specs", pid.lower() + "_*.py"))][0]
    mod = importlib.import_module("specs." + modname)
    timeout = getattr(mod, "TIMEOUT", 10) * (3 if tier == "thorough" else 1)
    kf_path = os.path.join(HERE, "known_findings.json")
    known = [k for k in (json.load(open(kf_path)) if os.path.exists(kf_path) else []) if k.get("property") == pid and k.get("status") == "open"]
    verbose = "-v" in argv

    harness = Harness(mod)
    if not only and (getattr(mod, "ALWAYS_BOUNDED", None) or getattr(mod, "EAGER_HARNESS", False) or tier == "thorough"): harness.start()
    jobs, rs = verify_all(mod, timeout, only)
    fns, front_err, cmds = [], [], []
    for j, r in zip(jobs, rs):
        if "crash" in r: front_err.append(r["crash"]); continue
        if "front_error" in r: front_err.append(r["front_error"]); continue
        cmds.append(r["cmd"]); fns += r["results"]
    # contracts of internal helpers may be too specific for refactored code: inline the helper instead
    internal = {c.name for c in mod.contracts if getattr(c, "internal", False)}
    badint = {r["name"] for r in fns if r["name"] in internal and (r["status"] != "ok" or any(o["status"] != "proved" for o in r["obligations"]))}
    if badint:
        j2, r2 = verify_all(mod, timeout, only, badint)
        fns2 = []
        for j, r in zip(j2, r2):
            if "results" in r: fns2 += [x for x in r["results"] if x["name"] not in badint]
        inl = {q for x in fns2 for q in x.get("inlined", [])}
        covered = {x["name"] for x in fns if x["name"] in badint and x["function"] in inl}   # still verified, as part of their callers
        if fns2 and all(x["status"] == "ok" for x in fns2):
            fns = fns2 + [x for x in fns if x["name"] in badint and x["name"] not in covered]
        else:
            dropped = {x["name"]: x for x in fns2 if x["status"] == "ok"}
            fns = [dropped.get(x["name"], x) for x in fns]
    lem = []
    if not only:
        def lemma_job(l):
            try:
                return dict(name=l.name, status="ok", obligations=prove_obls(l.obligations(), timeout * 2), function="lemma", file="")
            except (Unsupported, FrontError) as e:
                return dict(name=l.name, status="unsupported", reason=str(e), obligations=[], function="lemma", file="")
        ls = getattr(mod, "LEMMAS", [])
        for l, r in zip(ls, run_forked(ls, lemma_job)):
            if "crash" in r: r = dict(name=l.name, status="unsupported", reason="worker: " + r["crash"][-600:], obligations=[], function="lemma", file="")
            lem.append(r)
    failed, unsup = [], []
    for r in fns + lem:
        if r["status"] in ("unsupported", "vacuous"): unsup.append(r)
        for o in r["obligations"]:
            if o["status"] != "proved": failed.append((r, o))
    if front_err and not failed:
        # the tree does not parse as before: nothing was decided
        unsup.append(dict(name="front end", function="*", reason=front_err[0][-500:], status="unsupported", obligations=[]))

    violations = []
    bounded = []
    harness_secs = getattr(mod, "HARNESS_SECS", 20) * (5 if tier == "thorough" else 1)
    hres = None
    need = failed or unsup or badint or tier == "thorough" or getattr(mod, "ALWAYS_BOUNDED", None)
    if need and getattr(mod, "HARNESS", None) and not only:
        ran, bad, info = harness.search(seed, harness_secs, None if (failed or unsup or badint or tier == "thorough") else getattr(mod, "ALWAYS_BOUNDED"))
        hres = dict(ran=ran, failure=bad, info=info)
        if bad is not None:
            sig = bad.split(" ")[0]
            kn = [k for k in known if k.get("case") and bad.startswith(k["case"])]
            if kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[0]["what"]))
            else: violations.append(dict(kind="input", input=bad, obligations=[o["name"] for _, o in failed]))
    harness.close()
    if failed and not any(v["kind"] == "input" for v in violations):
        rest = []
        for r, o in failed:
            kn = [k for k in known if k.get("obligation") and k["obligation"] == o["name"]]
            if kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[0]["what"]))
            else: rest.append((r, o))
        if rest: violations.append(dict(kind="obligation", obligations=[dict(o, function=r["function"]) for r, o in rest]))
    for r in unsup:
        bounded.append(dict(function=r.get("function"), contract=r["name"], reason=r.get("reason", r["status"]),
                            bound="concrete search on the real code, seed %d, %d s" % (seed, harness_secs) if hres and hres["ran"] else "not decided"))
    nob = sum(len(r["obligations"]) for r in fns + lem)
    dis = sum(1 for r in fns + lem for o in r["obligations"] if o["status"] == "proved")
    be = {}
    for r in fns + lem:
        for o in r["obligations"]:
            b = be.setdefault(o["backend"], [0, 0.0]); b[0] += 1; b[1] = round(b[1] + o["secs"], 3)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(obligations=nob, discharged=dis, checker_cmd="python3-vt -m cppcv.check %s --tier %s" % (pid, tier),
                            trusted_base=getattr(mod, "TRUSTED", []) + ["clang 18 front end (typed AST)", "cppcv symbolic executor and C++/std models", "z3, cvc5"],
                            functions=[dict(contract=r["name"], function=r["function"], file=r["file"], status=r["status"], reason=r.get("reason"), paths=r.get("paths"),
                                            obligations=len(r["obligations"]), discharged=sum(1 for o in r["obligations"] if o["status"] == "proved"),
                                            inlined=r.get("inlined"), callee_contracts=r.get("used"), vacuity_probe=r.get("vacuity"), secs=r.get("secs")) for r in fns + lem],
                            backends={k: dict(obligations=v[0], secs=v[1]) for k, v in be.items()},
                            bounded=bounded + getattr(mod, "BOUNDED", []), harness=hres, front_end=cmds),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d functions/lemmas, %d obligations, %d discharged, %d outside reach, %.1fs" % (pid, len(fns) + len(lem), nob, dis, len(unsup), time.time() - t0))
    for r in unsup: print("  outside the verifier's reach: %s: %s" % (r["name"], r.get("reason", r["status"])[:1500 if verbose else 300]))
    for r, o in failed[:40]: print("  not discharged: %s %s" % (o["name"], o["where"]))
    if verbose:
        for r in fns: print("   ", r["name"], r["status"], len(r["obligations"]), "paths", r.get("paths"), "secs", r.get("secs"), "vac", r.get("vacuity"))
    if violations:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        rp = os.path.join(HERE, "out", "%s-violation.json" % pid)
        json.dump(dict(property=pid, violations=violations, harness=hres, replay="build replay/%s against /repo and run it with --search %d" % ((getattr(mod, "HARNESS", None) or {}).get("main"), seed)), open(rp, "w"), indent=1)
        tail = "" if any(v["kind"] == "input" for v in violations) else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, tail))
        return 1
    if any(b["bound"] == "not decided" for b in bounded):
        # nothing can be said about these functions: not a violation, but say so loudly
        print("  NOTE: %d functions were not decided" % sum(1 for b in bounded if b["bound"] == "not decided"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
