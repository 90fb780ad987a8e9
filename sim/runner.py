"""Seeded search over schedules and fault sequences, replay, minimisation, evidence."""
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class RunTimeout(BaseException):
    pass


class Result:
    __slots__ = ("violation", "sim_ps", "faults", "probes", "states", "digest", "edges", "nontrivial", "cfg")

    def __init__(self):
        self.violation = None
        self.sim_ps = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.digest = hashlib.sha256()
        self.edges = 0
        self.nontrivial = False
        self.cfg = ""

    def log(self, *a):
        self.digest.update(repr(a).encode())

    def state(self, *a):
        if len(self.states) < 4000:
            self.states.add(int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "little"))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, kind, n=1):
        self.probes[kind] += n


def load_check(prop):
    mod = importlib.import_module("sim.checks." + prop.lower())
    return mod.CHECK


# --------------------------------------------------------------------------------------
_designs = collections.OrderedDict()


def design(key, builder):
    """Per-process cache of compiled designs (elaborated once per configuration)."""
    if key in _designs:
        _designs.move_to_end(key)
        return _designs[key]
    v = builder()
    _designs[key] = v
    while len(_designs) > 24:
        _designs.popitem(last=False)
    return v


def is_repo_failure(tb):
    """An exception raised while *elaborating* the code under test (not inside the harness)."""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + "/") for f in frames)


def run_plan(check, plan, timeout=None):
    """Execute one plan.  Violations come back in the result; harness errors raise."""
    from .kernel import Violation
    from .fhdl2c import SimModelError
    res = Result()
    if timeout:
        def onalarm(s, f):
            raise RunTimeout()
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(timeout)
    try:
        check.execute(plan, res)
    except Violation as v:
        res.violation = {"class": v.cls, "msg": v.msg, "info": v.info}
        res.log("violation", v.cls, v.msg)
    except SimModelError:
        raise
    except Exception as e:
        tb = e.__traceback__
        if is_repo_failure(tb):
            fr = [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + "/")][-1]
            res.violation = {"class": "elaboration", "msg": "%s: %s" % (type(e).__name__, str(e)[:300]),
                             "info": {"where": fr.name}}
            res.log("elaboration", str(e))
        else:
            raise
    finally:
        if timeout:
            signal.alarm(0)
    return res


def prop_seed(vseed, prop, i):
    h = hashlib.sha256(("%s/%s/%d" % (vseed, prop, i)).encode()).digest()
    return int.from_bytes(h[:7], "little")


def make_plan(check, vseed, tier, i):
    rng = random.Random(prop_seed(vseed, check.PROP, i))
    plan = check.gen(rng, tier, i)
    plan["seed"] = rng.getrandbits(48)
    return plan


def jsonable(o):
    return json.loads(json.dumps(o))


# --------------------------------------------------------------------------------------
_G = {}


def _winit(prop, vseed, tier, deadline):
    sys.dont_write_bytecode = True
    _G["check"] = load_check(prop)
    _G["vseed"], _G["tier"], _G["deadline"] = vseed, tier, deadline


def _prebuild(cfg):
    """compile one configuration so that workers find it in the cache"""
    check = _G["check"]
    try:
        check.build(cfg)
        return (cfg, None)
    except Exception as e:
        if is_repo_failure(e.__traceback__):
            return (cfg, None)     # reported as a violation by the runs themselves
        return (cfg, traceback.format_exc())


def _wrun(idx_list):
    check = _G["check"]
    out = []
    for i in idx_list:
        if time.time() > _G["deadline"]:
            break
        try:
            plan = jsonable(make_plan(check, _G["vseed"], _G["tier"], i))
            r = run_plan(check, plan, timeout=300)
            out.append((i, r.violation, r.sim_ps, dict(r.faults), dict(r.probes), r.states, r.digest.hexdigest(),
                        r.edges, r.nontrivial, r.cfg, None))
        except RunTimeout:
            out.append((i, None, 0, {}, {}, set(), "", 0, False, "", "run %d: wall timeout" % i))
        except Exception:
            out.append((i, None, 0, {}, {}, set(), "", 0, False, "", "run %d: %s" % (i, traceback.format_exc())))
    return out


def chunks(l, n):
    return [l[k:k + n] for k in range(0, len(l), n)]


# --------------------------------------------------------------------------------------
def load_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_finding(f, prop, plan, viol):
    if f.get("status") != "known" or f["property"] != prop:
        return False
    m = f["match"]
    if m.get("class") != viol["class"]:
        return False
    for k, v in m.get("info", {}).items():
        if viol["info"].get(k) != v:
            return False
    for k, v in m.get("cfg", {}).items():
        if plan.get("cfg", {}).get(k) != v:
            return False
    return True


# --------------------------------------------------------------------------------------
def _try(check, plan, cls, memo):
    key = json.dumps(plan, sort_keys=True)
    if key in memo:
        return memo[key]
    try:
        r = run_plan(check, jsonable(plan), timeout=120)
        ok = r.violation is not None and r.violation["class"] == cls
    except (Exception, RunTimeout):
        ok = False
    memo[key] = ok
    return ok


def minimise(check, plan, viol, budget=60.0):
    """ddmin over the plan's op and fault lists, then integer shrinking; same violation class."""
    t0 = time.time()
    cls = viol["class"]
    memo = {}
    cur = copy.deepcopy(plan)

    def alive():
        return time.time() - t0 < budget
    changed = True
    while changed and alive():
        changed = False
        for name in sorted(k for k, v in cur.items() if isinstance(v, list)):
            if name in getattr(check, "FIXED", ()):
                continue
            n = 2
            while len(cur[name]) >= 1 and alive():
                lst = cur[name]
                step = max(1, (len(lst) + n - 1) // n)
                for a in range(0, len(lst), step):
                    cand = copy.deepcopy(cur)
                    cand[name] = lst[:a] + lst[a + step:]
                    if _try(check, cand, cls, memo):
                        cur = cand
                        changed = True
                        n = max(n - 1, 2)
                        break
                    if not alive():
                        break
                else:
                    if step == 1:
                        break
                    n = min(len(lst), n * 2)
        if hasattr(check, "simplify"):
            for cand in check.simplify(copy.deepcopy(cur)):
                if not alive():
                    break
                if cand != cur and _try(check, cand, cls, memo):
                    cur = cand
                    changed = True
                    break
    return cur, len(memo)


def plan_size(plan):
    return {k: len(v) for k, v in plan.items() if isinstance(v, list)}


def write_replay(prop, vseed, tier, idx, plan, viol, orig_size, tries):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-run%d.json" % (prop, vseed, idx))
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": vseed, "tier": tier, "run": idx, "violation": viol,
                   "plan": plan, "size_before": orig_size, "size_after": plan_size(plan),
                   "minimiser_runs": tries}, f, indent=1, sort_keys=True)
    return path


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    check = load_check(rp["property"])
    r = run_plan(check, jsonable(rp["plan"]), timeout=600)
    if r.violation is None:
        print("REPLAY: no violation (the tree no longer shows it)")
        return 0
    same = (r.violation["class"] == rp["violation"]["class"] and r.violation["msg"] == rp["violation"]["msg"])
    print("REPLAY: %s: %s" % (r.violation["class"], r.violation["msg"]))
    print("REPLAY: %s" % ("identical to the recorded violation" if same else "DIFFERS from the recorded violation"))
    print("VIOLATION property=%s replay=%s" % (rp["property"], path))
    return 1


# --------------------------------------------------------------------------------------
def run_check(prop):
    t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = load_check(prop)
    check.PROP = prop
    n = check.RUNS[tier]
    if os.environ.get("VERIF_RUNS"):
        n = int(os.environ["VERIF_RUNS"])
    cap = float(os.environ.get("VERIF_CAP", 420 if tier == "quick" else 6 * 3600))
    workers = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
    deadline = t0 + cap
    print("check %s tier=%s VERIF_SEED=%d planned runs=%d workers=%d" % (prop, tier, vseed, n, workers), flush=True)
    ctx = mp.get_context("fork")
    results = []
    errors = []
    cut = False
    with ctx.Pool(workers, _winit, (prop, vseed, tier, deadline)) as pool:
        cfgs = check.configs(tier) if hasattr(check, "configs") else []
        for cfg, err in pool.imap_unordered(_prebuild, cfgs, 1):
            if err:
                errors.append("prebuild %r: %s" % (cfg, err))
        t_build = time.time() - t0
        if not errors:
            # runs sharing a configuration index modulo len(cfgs) go together
            per = max(1, min(check.CHUNK if hasattr(check, "CHUNK") else 16, n // workers + 1))
            if cfgs:
                order = sorted(range(n), key=lambda i: (i % len(cfgs), i))
            else:
                order = list(range(n))
            # keep chunks small and interleave configurations
            ch = chunks(order, per)
            stop_after = 8
            nviol = 0
            for out in pool.imap_unordered(_wrun, ch, 1):
                for o in out:
                    results.append(o)
                    if o[10]:
                        errors.append(o[10])
                    if o[1]:
                        nviol += 1
                if nviol > 400 or len(errors) > 5:
                    cut = True
                    pool.terminate()
                    break
    results.sort(key=lambda o: o[0])
    done = [o for o in results if not o[10]]
    wall_runs = time.time() - t0
    if errors:
        for e in errors[:3]:
            print("HARNESS-ERROR", e, flush=True)
        # a violation elsewhere is still worth reporting, but errors must not pass silently
        if not any(o[1] for o in done):
            print("check %s: harness error, no verdict" % prop)
            return 2
    findings = load_findings()
    new = []
    known = collections.OrderedDict()
    plans = {}
    for o in done:
        if not o[1]:
            continue
        plan = jsonable(make_plan(check, vseed, tier, o[0]))
        hit = None
        for f in findings:
            if match_finding(f, prop, plan, o[1]):
                hit = f
                break
        if hit:
            known.setdefault(hit["id"], [hit, 0])[1] += 1
        else:
            new.append((o[0], plan, o[1]))
    # known findings are demonstrated on every run by their own recorded plans
    rc = 0
    for f in findings:
        if f["property"] != prop or f.get("status") != "known":
            continue
        shown = f["id"] in known
        if not shown and f.get("plan"):
            r = run_plan(check, jsonable(f["plan"]), timeout=300)
            shown = r.violation is not None and match_finding(f, prop, f["plan"], r.violation)
        if shown:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    viol_report = None
    if new:
        idx, plan, viol = new[0]
        small, tries = minimise(check, plan, viol, budget=float(os.environ.get("VERIF_MIN_BUDGET", "45")))
        r = run_plan(check, jsonable(small), timeout=300)
        if r.violation is None or r.violation["class"] != viol["class"]:
            small, r = plan, run_plan(check, jsonable(plan), timeout=300)
        if r.violation is None:
            print("HARNESS-ERROR run %d did not repeat: nondeterminism in the harness" % idx)
            return 2
        path = write_replay(prop, vseed, tier, idx, small, r.violation, plan_size(plan), tries)
        print("violation class=%s run=%d: %s" % (r.violation["class"], idx, r.violation["msg"]))
        print("violating runs: %d of %d" % (len(new), len(done)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        viol_report = path
        rc = 1
    minruns = check.MIN_RUNS if hasattr(check, "MIN_RUNS") else max(1, n // 10)
    if rc == 0 and len(done) < min(n, minruns):
        print("check %s: only %d of %d runs finished before the wall cap; no verdict" % (prop, len(done), n))
        rc = 2
    # ---------------------------------------------------------------- evidence
    faults, probes = collections.Counter(), collections.Counter()
    states = set()
    simps = edges = 0
    digs = set()
    nontriv = set()
    percfg = collections.Counter()
    for o in done:
        faults.update(o[3])
        probes.update(o[4])
        states |= o[5]
        simps += o[2]
        edges += o[7]
        digs.add(o[6])
        if o[8]:
            nontriv.add(o[6])
        percfg[o[9]] += 1
    wall = time.time() - t0
    samples = []
    for i in (0, 1, n // 2):
        if i < n:
            try:
                s = json.dumps(jsonable(make_plan(check, vseed, tier, i)), sort_keys=True)
                samples.append(s if len(s) < 1500 else s[:1500] + "...")
            except Exception:
                pass
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(nontriv),
            "rule": check.RULE,
            "samples": samples,
            "planned_runs": n,
            "runs_per_hour": int(len(done) / max(wall_runs, 1e-3) * 3600),
            "seeds_per_hour": int(len(done) / max(wall_runs, 1e-3) * 3600),
            "simulated_time_us": simps / 1e6,
            "simulated_clock_edges": edges,
            "fault_kinds_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "probes_never_hit": sorted(p for p in getattr(check, "PROBES", ()) if not probes.get(p)),
            "faults_never_hit": sorted(p for p in getattr(check, "FAULTS", ()) if not faults.get(p)),
            "distinct_states": len(states),
            "distinct_states_measure": check.STATE_MEASURE,
            "distinct_executions": len(digs),
            "runs_per_configuration": dict(sorted(percfg.items())),
            "components_real": check.REAL,
            "components_stubbed": check.STUB,
            "known_findings_seen": {k: v[1] for k, v in known.items()},
            "workers": workers,
            "build_wall_s": round(t_build, 2),
            "stopped_early": cut,
        },
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if ev["coverage"]["probes_never_hit"] or ev["coverage"]["faults_never_hit"]:
        print("note: never hit: probes %s faults %s" % (ev["coverage"]["probes_never_hit"], ev["coverage"]["faults_never_hit"]))
    print("check %s: %d runs, %d distinct non-trivial, %.0f us simulated, %d states, %.1f s, rc=%d" % (
        prop, len(done), len(nontriv), simps / 1e6, len(states), wall, rc), flush=True)
    return rc


def determinism(prop, count=20, vseed=None):
    """print one digest per run, for diffing across processes, seeds and PYTHONHASHSEED"""
    vseed = int(os.environ.get("VERIF_SEED", "1")) if vseed is None else vseed
    check = load_check(prop)
    check.PROP = prop
    for i in range(count):
        r = run_plan(check, jsonable(make_plan(check, vseed, "quick", i)))
        print(prop, vseed, i, r.digest.hexdigest(), r.sim_ps, r.edges, r.violation and r.violation["class"])
