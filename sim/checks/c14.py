import random

from .. import vout, fullsize
from ..kernel import Violation, Kernel, CSRMaster
from ..vout import CoreRun, gen_geom, gen_huge, gen_common, gen_base


class Check:
    PROP = "C14"
    RUNS = {"quick": 1500, "thorough": 60000}
    CHUNK = 10
    MIN_RUNS = 60
    RULE = ("one run = one configuration scanned out for several frames while memory commands, read data and the consumer stall by seeded schedules; every active pixel "
            "is compared with the memory word it must carry; non-trivial when >= 3 whole frames were compared")
    STATE_MEASURE = "hash of (mode, fifo depth, latency class, stall kinds, frame words against fifo depth, non-zero underflow)"
    REAL = ["litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader)", "litedram LiteDRAMDMAReader", "litex AsyncFIFO, CSR bank"]
    STUB = ["memory controller (in Python; in the full-size runs compiled gateware)", "video consumer", "CPU on the CSR bus"]
    ASSUMPTIONS = ["the buffer length is the number of words a frame uses: hres*vres, or every clock of the frame in raw mode", "one configuration per run (changes: C15)"]
    FAULTS = ("command-stall", "read-latency", "consumer-stall", "metastable-sample", "torn-crossing")
    PROBES = ("frame-shown", "full-size-frame", "underflow-read", "underflow-exact", "underflow-nonzero", "underflow-beyond-2**16")
    WANT = {"data", "address", "stuck", "read-data-refused", "write-command"}

    FULL = [{"mode": "rgb", "depth": 512}, {"mode": "ycbcr422", "depth": 64}, {"mode": "raw", "depth": 64}, {"mode": "rgb", "depth": 512, "cd": "sys"}]

    def configs(self, tier):
        return [{"mode": "rgb", "depth": 16}, {"mode": "ycbcr422", "depth": 64}, {"mode": "raw", "depth": 16}, {"mode": "rgb", "depth": 4},
                {"mode": "rgb", "depth": 512, "cd": "sys"}, {"mode": "raw", "depth": 64}]

    def build(self, cfg):
        return vout.core_design(cfg["mode"], cfg["depth"], cfg.get("cd", "pix"))

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        if i % 500 == 43:
            # whole frames of a standard timing
            return fullsize.gen(rng, self.FULL[i // 500 % len(self.FULL)], tier == "thorough")
        if i % 100 == 61:
            # long stretches without output: the full width of the counter matters
            return {"long": 1, "cfg": self.FULL[i // 100 % 4], "n": [rng.choice([rng.randrange(300, 70000), rng.randrange(70000, 1 << 20), rng.randrange(1 << 20, 1 << 23),
                    (1 << 24) + rng.randrange(5000)]) for _ in range(2)], "pp": rng.choice([6734, 10000, 13468]), "ps": rng.choice([8000, 10000, 12500])}
        p = gen_common(rng)
        if i % 400 == 7 or i % 40 == 27:
            # buffers longer than 2**16 words; very wide or high frames
            p["cs"] = p["ds"] = p["rs"] = []
            p["lat"] = [2, 6]
            cfg = cfgs[i // 40 % len(cfgs)]
            g = gen_huge(rng, i % 400 == 7)
            n = (g[3] + 1) * (g[7] + 1) if cfg["mode"] == "raw" else g[0] * g[4]
            p.update(cfg=cfg, huge=1, ops=[["cfg", g, gen_base(rng, 0, n)], ["en", 1], ["frames", 2], ["en", 0]])
            return p
        big = rng.random() < (.2 if tier == "thorough" else .05)
        g = gen_geom(rng, 4000 if big else 500, cfg["mode"] == "ycbcr422")
        ops = [["uf", 1]] if rng.random() < .5 else []
        ops += [["cfg", g, gen_base(rng, 0, (g[3] + 1) * (g[7] + 1) if cfg["mode"] == "raw" else g[0] * g[4])], ["en", 1]]
        for _ in range(rng.randrange(1, 6)):
            ops.append(["frames", rng.randrange(1, 3)])
            ops.append(["wait", rng.randrange(0, 100)])
            if rng.random() < .6:
                ops.append(["ufread"])
            if rng.random() < .2:
                ops.append(["uf", rng.getrandbits(1)])
        p.update(cfg=cfg, ops=ops)
        return p

    FIXED = ("cs", "ds", "rs", "lat", "g", "base", "thr", "slow")

    def simplify(self, plan):
        if plan.get("full"):
            yield from fullsize.simplify(plan)

    def execute_long(self, plan, res):
        cfg = plan["cfg"]
        cd = cfg.get("cd", "pix")
        m, d = fullsize.design(cfg["mode"], cfg["depth"], cd)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=rng.choice([0, 1000]))
        ps, pp = plan["ps"], plan["pp"]
        k.clock("sys", ps, phase=rng.randrange(ps) + 1)
        if cd != "sys":
            k.clock(cd, pp, phase=rng.randrange(pp) + 1)
        else:
            pp = ps
        csr = CSRMaster(k, m)
        st = {}

        def act(update):
            t0 = k.now
            if not update:
                yield from csr.write("underflow_enable", 1)
                st["on"] = (t0, k.now)
                return
            yield from csr.write("underflow_update", 1)
            t1 = k.now
            for _ in range(8 + 6 * pp // ps):
                yield
            v = yield from csr.read("underflow_counter")
            lo, hi = (t0 - st["on"][1]) // pp - 8, (t1 - st["on"][0]) // pp + 8
            if not lo <= v <= hi:
                raise Violation("underflow", "underflow counter reads %d after between %d and %d clocks without valid output" % (v, max(lo, 0), hi))
            res.probe("underflow-read")
            res.probe("underflow-nonzero", int(v > 0))
            if v >= 1 << 16:
                res.probe("underflow-beyond-2**16")
            st["n"] = st.get("n", 0) + 1
        k.run(k.now + 100 * ps)
        k.thread("sys", act(False))
        for n in plan["n"]:
            k.run(k.now + n * pp + 100 * ps)
            k.thread("sys", act(True))
            k.run(k.now + 200 * ps + 200 * pp)
        if st.get("n", 0) < len(plan["n"]):
            raise Violation("hang", "CPU access did not finish")
        res.sim_ps, res.edges = k.now, d.mv[d.C_EDGES]
        res.fault("metastable-sample", d.mv[d.C_METAN])
        res.log(st)
        res.cfg = "long-" + cfg["mode"]
        res.state("long", cfg["mode"], [n.bit_length() for n in plan["n"]])
        res.nontrivial = True

    def execute(self, plan, res):
        if plan.get("long"):
            return self.execute_long(plan, res)
        if plan.get("full"):
            return fullsize.execute(plan, res, self.WANT)
        r = CoreRun(plan, res, self.WANT)
        r.run()
        c = plan["cfg"]
        res.cfg = c["mode"] + str(c["depth"]) + c.get("cd", "")
        if not r.broken:
            r.check_underflow()
        if r.hist:
            n = r.hist[0]["n"]
            res.state(c["mode"], c["depth"], plan["lat"][1], bool(r.cs.stalled), bool(r.ds.stalled), bool(r.hs.stalled), min(3, n // c["depth"]), bool(r.ninv > 100))
        res.nontrivial = len(r.shown) >= 3


CHECK = Check()
