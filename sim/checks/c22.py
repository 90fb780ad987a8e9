import random

from ..kernel import Kernel, Violation
from .. import runner, terminal


class Check:
    PROP = "C22"
    RUNS = {"quick": 10000, "thorough": 40000}
    CHUNK = 8
    MIN_RUNS = 60
    RULE = ("one run = a seeded history of Wishbone accesses (single, back to back, held cycle, foreign traffic between them, system and video resets in between) "
            "with the video side running on an unrelated, jittering or stopped clock; every read is compared with a byte-array model, and all bytes touched, their "
            "neighbours and (in part of the runs) the whole memory are read back at the end; non-trivial when >= 20 reads of written bytes were compared")
    STATE_MEASURE = "hash of (configuration, operation kinds in order, clock ratio bucket, resets)"
    REAL = ["litevideo.terminal.core.Terminal with its memory and initial content files"]
    STUB = ["Wishbone master (and foreign bus traffic)"]
    ASSUMPTIONS = ["Wishbone classic rules: an access is held until acknowledged; addresses inside the 8896 bytes"]
    FAULTS = ("foreign-traffic", "sys-reset", "vga-reset", "vga-clock-stop", "clock-jitter", "back-to-back")
    PROBES = ("reads-compared", "initial-byte-read", "full-readback", "last-byte")

    def configs(self, tier):
        return [{"blank": 0, "pads": 0}, {"blank": 1, "pads": 1}]

    def build(self, cfg):
        return terminal.build(cfg)

    def gen(self, rng, tier, i):
        cfg = self.configs(tier)[i % 2]
        ops = []
        pool = [rng.randrange(terminal.SIZE) for _ in range(rng.randrange(2, 30))] + [0, 1, 4799, 4800, 8895]
        pool += [a ^ (1 << rng.randrange(13)) for a in pool if (a ^ 4096) < terminal.SIZE]
        pool = [a for a in pool if 0 <= a < terminal.SIZE]
        for _ in range(rng.randrange(5, 60)):
            r = rng.random()
            gap = rng.choice([0, 0, 0, 1, 1, 2, 3, 10, 100])
            if r < .4:
                ops.append(["w", rng.choice(pool), rng.getrandbits(8), rng.randrange(2), gap])
            elif r < .7:
                ops.append(["r", rng.choice(pool), 0, rng.randrange(2), gap])
            elif r < .8:
                ops.append([rng.choice(["wrun", "rrun"]), rng.choice(pool), rng.randrange(2, 60), rng.randrange(2), gap])
            elif r < .92:
                ops.append(["foreign", rng.choice(pool), rng.randrange(1, 6), rng.randrange(3), gap])
            elif r < .96:
                ops.append([rng.choice(["srst", "vrst"]), 0, rng.randrange(1, 4), 0, gap])
            else:
                ops.append([rng.choice(["vstop", "vgo"]), 0, rng.randrange(1, 4), 0, gap])
        return {"cfg": cfg, "ops": ops, "full": int(rng.random() < .12), "psys": rng.choice([5000, 8000, 10000, 20000, 39721, 100000]),
                "pvga": rng.choice([39722, 39722, 40000, 10000, 7001]), "jit": rng.choice([0, 0, 500, 2000])}

    def execute(self, plan, res):
        m, d = self.build(plan["cfg"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"])
        mv = d.mv
        ps, pv = plan["psys"], plan["pvga"]
        k.clock("sys", ps, phase=rng.randrange(ps) + 1, jitter=min(plan["jit"], ps // 4))
        k.clock("vga", pv, phase=rng.randrange(pv) + 1, jitter=min(plan["jit"], pv // 4))
        if plan["jit"]:
            res.fault("clock-jitter")
        init = terminal.initial(plan["cfg"])
        model = list(init)
        wb = terminal.WB(k, m.t.bus, model, res)
        srst, vrst = d.widx(d.cds["sys"].rst), d.widx(d.cds["vga"].rst)
        touched = set()
        done = []
        nreads = [0]

        def cpu():
            yield
            for op, a, v, hold, gap in plan["ops"]:
                if op in ("w", "r"):
                    yield from wb.access(op == "w", a, v, hold)
                    if op == "r" and a in touched:
                        nreads[0] += 1
                    elif op == "r":
                        res.probe("initial-byte-read")
                    if op == "w":
                        touched.add(a)
                elif op in ("wrun", "rrun"):
                    for j in range(v):
                        b = (a + j) % terminal.SIZE
                        yield from wb.access(op == "wrun", b, rng.getrandbits(8), hold)
                        if op == "wrun":
                            touched.add(b)
                        else:
                            nreads[0] += b in touched
                    res.fault("back-to-back", v)
                elif op == "foreign":
                    # another slave is addressed, or the bus is granted without a strobe
                    cyc, stb = ((0, 1), (1, 0), (0, 0))[hold]
                    yield from wb.idle(v, cyc=cyc, stb=stb, adr=a, we=1, dw=rng.getrandbits(8))
                    mv[wb.cyc] = mv[wb.stb] = 0
                    res.fault("foreign-traffic")
                elif op == "srst":
                    yield from wb.idle(3)
                    mv[srst] = 1
                    yield from wb.idle(v)
                    mv[srst] = 0
                    yield from wb.idle(2)
                    res.fault("sys-reset")
                elif op == "vrst":
                    mv[vrst] = 1
                    yield from wb.idle(v * 8)
                    mv[vrst] = 0
                    res.fault("vga-reset")
                elif op == "vstop":
                    k.clock_stop("vga")
                    res.fault("vga-clock-stop")
                elif op == "vgo" and not k.clock_running("vga"):
                    k.clock("vga", pv)
                if gap:
                    yield from wb.idle(gap)
            if plan["full"]:
                back = list(range(terminal.SIZE))
                res.probe("full-readback")
            else:
                near = set()
                for a in touched:
                    for b in [a - 1, a, a + 1] + [a ^ (1 << j) for j in range(13)]:
                        if 0 <= b < terminal.SIZE:
                            near.add(b)
                back = sorted(near)
                if len(back) > 400:
                    back = sorted(set(rng.sample(back, 300)) | set(rng.sample(sorted(touched), min(100, len(touched)))))
            for a in back:
                yield from wb.access(0, a)
                nreads[0] += a in touched
            if 8895 in touched:
                res.probe("last-byte")
            done.append(1)
        st = k.thread("sys", cpu())
        lim = 200000
        while not st["done"] and lim:
            k.run(k.now + 200 * ps)
            lim -= 1
        res.cfg = "blank%d" % plan["cfg"]["blank"]
        res.probe("reads-compared", wb.n)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.state(res.cfg, tuple(o[0] + str(min(o[4], 2)) for o in plan["ops"][:10]), ps // 5000)
        res.nontrivial = nreads[0] >= 20


CHECK = Check()
