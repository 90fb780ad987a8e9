import random

from migen import *
from litevideo.input.chansync import ChanSync

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from .. import runner, chainstat

P = 10000
LANEX = (0x00000, 0x15555, 0x2f0f0)


class Check:
    PROP = "C04"
    RUNS = {"quick": 12000, "thorough": 300000}
    CHUNK = 30
    MIN_RUNS = 100
    RULE = ("one run = three lanes carrying numbered characters in control and active periods, skewed against each other, with skew "
            "changes, lane glitches, validity drops and resets between lines; non-trivial when aligned lines were expected "
            "with non-zero skew and >= 20 active characters were compared")
    STATE_MEASURE = "hash of (skew triple, aligned expected, which lanes are in control at the output)"
    REAL = ["litevideo.input.chansync.ChanSync", "litex CSR bank"]
    STUB = ["the three decoded lanes", "CPU on the CSR bus"]
    ASSUMPTIONS = ["a complete line for alignment has >= 12 control and >= 16 active characters",
                   "skew is at most depth-2"]
    FAULTS = ("skew-change", "lane-glitch", "valid-drop", "reset", "late-lane", "dead-lane")
    PROBES = ("lines-compared", "realigned", "csr-checked", "max-skew", "chain-status-set")

    def configs(self, tier):
        return [{"n": 3, "depth": 8}, {"n": 3, "depth": 16}, {"n": 2, "depth": 8}, {"n": 3, "depth": 8}, {"n": 3, "depth": 12}]

    def build(self, cfg):
        def b():
            cs = ChanSync(nchan=cfg["n"]) if cfg["depth"] == 8 else ChanSync(nchan=cfg["n"], depth=cfg["depth"])
            m = CSRTop(cs)
            keep = [cs.valid_i, cs.chan_synced] + m.keep
            for i in range(cfg["n"]):
                keep += getattr(cs, "data_in%d" % i).flatten() + getattr(cs, "data_out%d" % i).flatten()
            return m, Design(m, keep=keep)
        return runner.design("C04" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        if i % 60 == 17:
            return chainstat.gen(rng)
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        mx = cfg["depth"] - 2

        def skew():
            k = rng.random()
            if k < .1:
                return [0] * cfg["n"]
            s = [rng.choice([0, rng.randrange(mx + 1), mx]) for _ in range(cfg["n"])]
            return [x - min(s) for x in s]
        ops = [["skew"] + skew()]
        for _ in range(rng.randrange(3, 12)):
            k = rng.random()
            if k < .62:
                ops.append(["line", rng.choice([12, 13, 16, 24, 40]), rng.choice([16, 17, 20, 33, 64])])
            elif k < .74:
                ops.append(["line", rng.choice([1, 2, 5, 8, 12]), rng.choice([1, 2, 3, 7, 16])])
            elif k < .83:
                ops.append(["skew"] + skew())
            elif k < .90:
                ops.append(["glitch", rng.randrange(cfg["n"]), rng.randrange(1, 4)])
            elif k < .95:
                ops.append(["drop", rng.randrange(1, 30)] if rng.random() < .4 else ["adrop", rng.choice([1, 2, 5, 20]), rng.randrange(0, 64), rng.choice([12, 20, 33])])
            else:
                ops.append(["reset", rng.randrange(1, 4)])
            if rng.random() < .5:
                for _ in range(3):
                    ops.append(["line", rng.randrange(cfg["depth"] + 4, 40), rng.randrange(2 * cfg["depth"], 50)])
        return {"cfg": cfg, "ops": ops}

    def execute(self, plan, res):
        if plan.get("chain"):
            return chainstat.execute(plan, res, {"channel-sync"})
        cfg = plan["cfg"]
        m, d = self.build(cfg)
        n = cfg["n"]
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1500)
        k.clock("pix", P)
        k.clock("sys", rng.choice([7000, 10000, 17000]), phase=rng.randrange(7000) + 1)
        mv = d.mv
        cs = m.dut
        ins = [getattr(cs, "data_in%d" % i) for i in range(n)]
        outs = [getattr(cs, "data_out%d" % i) for i in range(n)]
        wi = [[d.widx(getattr(x, f)) for f in ("raw", "d", "c", "de")] for x in ins]
        ri = [[d.ridx(getattr(x, f)) for f in ("raw", "d", "c", "de")] for x in outs]
        wv, rs = d.widx(cs.valid_i), d.ridx(cs.chan_synced)
        res.cfg = repr(sorted(cfg.items()))
        pad = cfg["depth"]
        # ---- global character list and timeline of events
        de = []                       # per global index
        ev = {}                       # global index -> events
        lines = []                    # (start of active, end, must be aligned, skew)
        good, aligned = 0, False
        sk = [0] * n
        realigned = False

        def control(c):
            de.extend([0] * c)
        for op in plan["ops"]:
            if op[0] == "line":
                control(op[1])
                ok = op[1] >= pad + 4 and op[2] >= 2 * pad
                if ok and good >= 1 and not aligned:
                    aligned = True
                    if realigned:
                        res.probe("realigned")
                    realigned = True
                lines.append((len(de), len(de) + op[2], aligned, tuple(sk)))
                de.extend([1] * op[2])
                good = good + 1 if ok else 0
            elif op[0] == "adrop":
                # the input becomes invalid in the middle of a line: only the report is affected
                control(op[3])
                ev.setdefault(len(de) + min(op[2], 47), []).append(["drop", op[1]])
                lines.append((len(de), len(de) + 48, aligned, tuple(sk)))
                de.extend([1] * 48)
            else:
                control(2 * pad + 4)
                ev.setdefault(len(de), []).append(op)
                if op[0] == "glitch":
                    control(2 * pad + 4)
                    lines.append((len(de), len(de) + 16, False, tuple(sk)))
                    de.extend([1] * 16)
                else:
                    control(2 * pad + 4)
                good = 0
                if op[0] == "drop":
                    continue         # the data keep flowing: alignment is not lost, only the report
                if op[0] == "skew":
                    sk = list(op[1:])
                    res.fault("skew-change")
                    if max(sk) == cfg["depth"] - 2:
                        res.probe("max-skew")
                aligned = False
        control(2 * pad + 4)
        cc = [[rng.getrandbits(2) for _ in range(n)] for _ in de]
        N = len(de)
        cur = {"sk": [0] * n, "glitch": None, "drop": 0, "i": 0}
        rec = []
        rstw = d.widx(d.cds["pix"].rst)

        def hook():
            rec.append((tuple((mv[a], mv[b], mv[c], mv[e]) for a, b, c, e in ri), mv[rs], cur.get("v", 0), mv[rstw]))
            i = cur["i"]
            cur["i"] = i + 1
            for op in ev.get(i, ()):
                if op[0] == "skew":
                    cur["sk"] = op[1:]
                elif op[0] == "glitch":
                    cur["glitch"] = [op[1], i + 2 * pad + 8, op[2]]
                    res.fault("lane-glitch")
                elif op[0] == "drop":
                    cur["drop"] = op[1]
                    res.fault("valid-drop")
                elif op[0] == "reset":
                    cur["rst"] = op[1]
                    res.fault("reset")
            for l in range(n):
                j = i - cur["sk"][l]
                g = cur["glitch"]
                e = de[j] if 0 <= j < N else 0
                if g and g[0] == l and g[1] <= i < g[1] + g[2]:
                    e ^= 1
                v = (j if 0 <= j < N else 0) ^ LANEX[l]
                a, b, c, w = wi[l]
                mv[a] = v & 1023
                mv[b] = v >> 10
                mv[c] = cc[j][l] if 0 <= j < N else 0
                mv[w] = e
            cur["v"] = cur.get("vn", 0)      # value sampled by the edge now
            cur["vn"] = 0 if cur["drop"] > 0 else 1
            mv[wv] = cur["vn"]
            if cur["drop"]:
                cur["drop"] -= 1
            mv[d.widx(d.cds["pix"].rst)] = 1 if cur.get("rst", 0) > 0 else 0
            if cur.get("rst", 0):
                cur["rst"] -= 1
        k.hook("pix", hook)
        k.run(P * (N + 2 * pad + 8))
        res.log(rec)
        self.judge(cfg, rec, lines, cc, N, res)
        # the CPU's view: all lanes idle in control now, lanes aligned
        csr = CSRMaster(k, m)
        got = {}

        def cpu():
            for _ in range(6):
                yield
            got["s"] = yield from csr.read("channels_synced")
        k.thread("sys", cpu())
        k.run(k.now + 20 * 17000)
        res.probe("csr-checked")
        if got.get("s") != rec[-1][1]:
            raise Violation("csr", "channels_synced reads %r, chan_synced is %d" % (got.get("s"), rec[-1][1]))
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]

    def judge(self, cfg, rec, lines, cc, N, res):
        n = cfg["n"]
        at = [dict() for _ in range(n)]
        for t, (o, s, v, r) in enumerate(rec):
            for l in range(n):
                raw, dd, c, e = o[l]
                if e:
                    at[l].setdefault((raw | dd << 10) ^ LANEX[l], []).append((t, c))
            if t + 1 < len(rec):
                nctl = sum(1 for x in o if not x[3])
                s2 = rec[t + 1][1]
                vs = rec[t + 1][2]
                if r:
                    continue
                if not vs:
                    if s2:
                        raise Violation("report-invalid", "channel sync reported one clock after the input was invalid (t=%d)" % t)
                elif nctl == n and not s2:
                    raise Violation("report-missing", "all lanes show control together at t=%d but channel sync is not reported" % t)
                elif 0 < nctl < n and s2:
                    raise Violation("report-wrong", "lanes disagree about control at t=%d but channel sync is reported" % t)
        for a, b, al, sk in lines:
            if not al:
                continue
            res.probe("lines-compared")
            res.state(sk, b - a)
            if any(sk) and b - a >= 16:
                res.nontrivial = True
            prev = None
            for j in range(a, b):
                ts = [at[l].get(j, []) for l in range(n)]
                for l in range(n):
                    if len(ts[l]) == 0:
                        raise Violation("lost", "skew %r: character %d of an aligned line (%d..%d) missing on lane %d" % (sk, j, a, b - 1, l))
                    if len(ts[l]) > 1:
                        raise Violation("duplicated", "skew %r: character %d repeated on lane %d" % (sk, j, l))
                    if ts[l][0][1] != cc[j][l]:
                        raise Violation("field", "character %d of lane %d came out with other c bits" % (j, l))
                if len({x[0][0] for x in ts}) != 1:
                    raise Violation("misaligned", "skew %r: character %d leaves the lanes at clocks %r" % (sk, j, [x[0][0] for x in ts]))
                t = ts[0][0][0]
                if prev is not None and t != prev + 1:
                    raise Violation("gap", "skew %r: character %d leaves %d clocks after its predecessor" % (sk, j, t - prev))
                prev = t
                if rec[t][1] == 0 and rec[t][2]:
                    # reported low on an aligned active character: only legitimate right after invalid input
                    if not any(not x[2] for x in rec[max(0, t - (b - a) - 200):t + 1]):
                        raise Violation("report-missing", "skew %r: aligned active character %d while channel sync is not reported" % (sk, j))


CHECK = Check()
