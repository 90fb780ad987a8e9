from .. import vout, fullsize
from ..kernel import Violation
from ..vout import CoreRun, gen_geom, gen_huge, gen_common, gen_base


class Check:
    PROP = "C13"
    RUNS = {"quick": 1500, "thorough": 60000}
    CHUNK = 10
    MIN_RUNS = 60
    RULE = ("one run = the real scan-out core with a seeded memory, a stalling consumer and a CPU that programs geometries, enables, disables and reprograms; "
            "every accepted clock is compared with the programmed frame; non-trivial when >= 3 whole frames were compared")
    STATE_MEASURE = "hash of (hblank bucket, vblank bucket, resolution bucket, number of geometries used, consumer stalling or not)"
    REAL = ["litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader)", "litedram LiteDRAMDMAReader", "litex AsyncFIFO, CSR bank"]
    STUB = ["memory controller (in Python; in the full-size runs compiled gateware)", "video consumer", "CPU on the CSR bus"]
    ASSUMPTIONS = ["1 <= hres <= hsync_start < hsync_end <= hscan and likewise vertically; hscan and vscan are the last clock and line (total minus one)",
                   "the buffer length is hres*vres words", "geometry registers are rewritten while disabled"]
    FAULTS = ("command-stall", "read-latency", "consumer-stall", "metastable-sample", "torn-crossing")
    PROBES = ("frame-shown", "full-size-frame", "geometry-change", "disable-mid-frame")
    WANT = {"geometry", "unstable", "no-stop", "stopped-mid-frame", "stuck", "output-while-disabled"}

    FULL = [{"mode": "rgb", "depth": 512}, {"mode": "ycbcr422", "depth": 64}, {"mode": "raw", "depth": 64}, {"mode": "rgb", "depth": 512, "cd": "sys"}]

    def configs(self, tier):
        return [{"mode": "rgb", "depth": 16}, {"mode": "ycbcr422", "depth": 64}, {"mode": "rgb", "depth": 64, "cd": "sys"}]

    def build(self, cfg):
        return vout.core_design(cfg["mode"], cfg["depth"], cfg.get("cd", "pix"))

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        if i % 500 == 41:
            # whole frames of a standard timing
            return fullsize.gen(rng, self.FULL[i // 500 % len(self.FULL)], tier == "thorough")
        p = gen_common(rng)
        if i % 16 == 5:
            # one frame that needs all bits of the timing registers
            g = gen_huge(rng)
            p["cs"] = p["ds"] = []
            p["lat"] = [2, 6]
            p.update(cfg=cfg, huge=1, ops=[["cfg", g, gen_base(rng, 0, g[0] * g[4])], ["en", 1], ["frames", 3], ["en", 0]])
            return p
        ops = []
        n = rng.randrange(1, 5)
        for j in range(n):
            big = tier == "thorough" and rng.random() < .1
            g = gen_geom(rng, 4000 if big else 500, cfg["mode"] == "ycbcr422")
            ops.append(["cfg", g, gen_base(rng, j, g[0] * g[4])])
            ops.append(["en", 1])
            ops.append(["frames", rng.randrange(1, 4)])
            ops.append(["wait", rng.randrange(0, 200)])
            if j < n - 1 or rng.random() < .4:
                ops.append(["en", 0])
                if rng.random() < .5:
                    ops.append(["wait", rng.choice([1, 10, 100, 3000])])
        p.update(cfg=cfg, ops=ops)
        return p

    FIXED = ("cs", "ds", "rs", "lat", "g", "base", "thr", "slow")

    def simplify(self, plan):
        if plan.get("full"):
            yield from fullsize.simplify(plan)

    def execute(self, plan, res):
        if plan.get("full"):
            return fullsize.execute(plan, res, self.WANT)
        r = CoreRun(plan, res, self.WANT)
        r.run()
        res.cfg = plan["cfg"]["mode"] + str(plan["cfg"]["depth"]) + plan["cfg"].get("cd", "")
        geoms = {tuple(h["t"]) for h in r.hist}
        if len(geoms) > 1:
            res.probe("geometry-change")
        if any(o == ["en", 0] for o in plan["ops"]):
            res.probe("disable-mid-frame")
        for g in geoms:
            res.state(min(g[3] - g[0], 9), min(g[7] - g[4], 6), min(g[0], 20), min(g[4], 10), len(geoms), bool(r.hs.stalled))
        res.nontrivial = len(r.shown) >= 3


CHECK = Check()
