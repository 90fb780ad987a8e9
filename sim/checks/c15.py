from .. import vout, fullsize
from ..kernel import Violation
from ..vout import CoreRun, gen_geom, gen_common, gen_base


class Check:
    PROP = "C15"
    RUNS = {"quick": 1500, "thorough": 60000}
    CHUNK = 10
    MIN_RUNS = 60
    RULE = ("one run = a history of buffer flips, disabling, reprogramming and re-enabling and resets of the pixel domain at random moments of the scan-out, with memory and consumer stalls; every shown frame is "
            "attributed to one written configuration; non-trivial when >= 2 different configurations were shown")
    STATE_MEASURE = "hash of (mode, fifo depth against frame size, flips, restarts, configurations shown)"
    REAL = ["litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader)", "litedram LiteDRAMDMAReader", "litex AsyncFIFO, CSR bank"]
    STUB = ["memory controller (in Python; in the full-size runs compiled gateware)", "video consumer", "CPU on the CSR bus"]
    ASSUMPTIONS = ["only the buffer base is rewritten while enabled (each register write is atomic, a set of registers is not)",
                   "the buffer length is the number of words a frame uses", "a configuration may wait up to %d frames in the queue" % vout.LAG,
                   "a reset of the pixel domain outlasts the memory's answers and does not follow an enabling shorter than eight bus cycles; the ten frames after it may show queued configurations again"]
    FAULTS = ("command-stall", "read-latency", "consumer-stall", "metastable-sample", "torn-crossing", "flip", "restart", "quick-restart", "reset")
    PROBES = ("frame-shown", "full-size-frame", "flip-while-shown", "configurations-shown")
    WANT = {"data", "geometry", "address", "stuck", "no-stop", "stopped-mid-frame", "not-shown", "output-while-disabled"}

    FULL = [{"mode": "rgb", "depth": 512}, {"mode": "ycbcr422", "depth": 64}, {"mode": "raw", "depth": 64}, {"mode": "rgb", "depth": 512, "cd": "sys"}]

    def configs(self, tier):
        return [{"mode": "rgb", "depth": 16}, {"mode": "ycbcr422", "depth": 64}, {"mode": "rgb", "depth": 512}, {"mode": "rgb", "depth": 16, "cd": "sys"},
                {"mode": "raw", "depth": 16}]

    def build(self, cfg):
        return vout.core_design(cfg["mode"], cfg["depth"], cfg.get("cd", "pix"))

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        if i % 500 == 47:
            # whole frames of a standard timing
            return fullsize.gen(rng, self.FULL[i // 500 % len(self.FULL)], tier == "thorough")
        p = gen_common(rng)
        b = 0
        g = gen_geom(rng, 300, cfg["mode"] == "ycbcr422")
        ops = [["cfg", g, gen_base(rng, b, 1024)], ["en", 1]]
        for _ in range(rng.randrange(2, 9)):
            k = rng.random()
            if rng.random() < .8:
                ops.append(["frames", rng.randrange(1, 9)])
            if rng.random() < .8:
                ops.append(["wait", rng.randrange(0, 300)])
            if k < .55:
                b += 1
                ops.append(["flip", gen_base(rng, b, 1024)])
            else:
                ops.append(["en", 0])
                ops.append(["wait", rng.choice([0, 1, 4, 20, 100, 1000, 4000, 12000])])
                if rng.random() < .6:
                    b += 1
                    if rng.random() < .5:
                        g = gen_geom(rng, 300, cfg["mode"] == "ycbcr422")
                    ops.append(["cfg", g, gen_base(rng, b, 1024)])
                ops.append(["en", 1])
        if rng.random() < .3:
            ops.append(["frames", rng.randrange(1, 9)])
            ops.append(["en", 0])
        if cfg.get("cd") != "sys" and rng.random() < .3:
            # the pixel clock is lost and comes back, at any moment
            for _ in range(rng.choice([1, 1, 2])):
                j = rng.randrange(2, len(ops) + 1)
                ops[j:j] = [["wait", rng.randrange(600)], ["lock", rng.choice([4, 10, 60, 400])], ["frames", 12]]
        p.update(cfg=cfg, ops=ops)
        return p

    FIXED = ("cs", "ds", "rs", "lat", "g", "base", "thr", "slow")

    def simplify(self, plan):
        if plan.get("full"):
            yield from fullsize.simplify(plan)

    def execute(self, plan, res):
        if plan.get("full"):
            return fullsize.execute(plan, res, self.WANT)
        o = plan["ops"]
        for a, b in zip(o, o[1:]):
            if a == ["en", 0]:
                res.fault("quick-restart" if b[0] == "wait" and b[1] < 50 else "restart")
        res.fault("flip", sum(x[0] == "flip" for x in o))
        r = CoreRun(plan, res, self.WANT)
        r.run()
        c = plan["cfg"]
        res.cfg = c["mode"] + str(c["depth"]) + c.get("cd", "")
        n = len(set(r.shown))
        res.probe("configurations-shown", n)
        if r.hist:
            res.state(c["mode"], min(3, r.hist[0]["n"] // c["depth"]), sum(x[0] == "flip" for x in o), o.count(["en", 0]), n)
        res.nontrivial = n >= 2


CHECK = Check()
