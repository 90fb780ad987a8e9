import random

from migen import *
from litevideo.output.pattern import ColorBarsPattern, VerticalLinesPattern, DotsPattern

from ..fhdl2c import Design
from ..kernel import Kernel, Violation
from ..dram import Stall, gen_stall
from .. import runner

CLS = {"bars": ColorBarsPattern, "lines": VerticalLinesPattern, "dots": DotsPattern}
BARS = [(255, 255, 255), (255, 255, 0), (0, 255, 255), (0, 255, 0), (255, 0, 255), (255, 0, 0), (0, 0, 255), (0, 0, 0)]


def pixel(kind, n, w):
    x, y = n % w, n // w
    if kind == "bars":
        return BARS[x * 8 // w]
    if kind == "lines":
        return (255,) * 3 if x & 1 else (0,) * 3
    return (255,) * 3 if (x + y) & 1 else (0,) * 3


class Check:
    PROP = "C18"
    RUNS = {"quick": 4000, "thorough": 200000}
    CHUNK = 40
    MIN_RUNS = 200
    RULE = ("one run = one pattern source, a programmed width, a consumer with a seeded stall schedule and resets at random moments; every accepted pixel is "
            "compared with the pattern; non-trivial when more than two lines were accepted and the consumer stalled")
    STATE_MEASURE = "hash of (pattern, width bucket, stall kinds, number of resets, lines bucket)"
    REAL = ["litevideo.output.pattern ColorBarsPattern, VerticalLinesPattern, DotsPattern"]
    STUB = ["pixel consumer", "width parameter"]
    ASSUMPTIONS = ["width a multiple of eight (of two for the lines and dots), valid from some time after reset on and then constant"]
    FAULTS = ("consumer-stall", "reset", "late-parameter")
    PROBES = ("pixels", "line-wrap")

    def configs(self, tier):
        return [{"kind": c} for c in CLS]

    def build(self, cfg):
        def b():
            m = CLS[cfg["kind"]]()
            s, p = m.source, m.sink
            return m, Design(m, keep=[s.valid, s.ready, s.r, s.g, s.b, p.valid, p.hres])
        return runner.design("C18-" + cfg["kind"], b)

    def gen(self, rng, tier, i):
        cfg = self.configs(tier)[i % 3]
        w = 8 * rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 60)] + ([240, 511, 480] if tier == "thorough" or rng.random() < .03 else []))
        if cfg["kind"] != "bars":
            w += rng.choice([0, 0, 2, 4, 6])
        segs = [[rng.randrange(1, max(2, min(4 * w, 900))), rng.choice([0, 0, 1, 3, 20])] for _ in range(rng.randrange(1, 4))]
        if i % 120 < 6:
            # the widest lines, to beyond their ends
            w = rng.choice([4088, 4080, 3840, 2048, 2056, 2560, 1920, 8 * rng.randrange(240, 512)])
            segs = segs[:1] + [[int(w * rng.choice([1.1, 2.1, 3.2])), 0]]
        return {"cfg": cfg, "w": w, "segs": segs, "rs": gen_stall(rng) if rng.random() < .9 else []}

    FIXED = ("rs",)

    def execute(self, plan, res):
        kind, w = plan["cfg"]["kind"], plan["w"]
        m, d = self.build(plan["cfg"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"])
        k.clock("sys", 10000)
        mv = d.mv
        s = m.source
        rv, wr = d.ridx(s.valid), d.widx(s.ready)
        rc = [d.ridx(x) for x in (s.r, s.g, s.b)]
        wpv = d.widx(m.sink.valid)
        wrst = d.widx(d.cds["sys"].rst)
        st = Stall(plan["rs"], rng)
        S = {"n": 0, "rdy": 0, "held": None, "rst": 0, "tot": 0, "idle": 0, "pv": 0}

        def hook():
            if S["rst"]:
                S["rst"] -= 1
                if S["rst"] == 0:
                    mv[wrst] = 0
                S["held"] = None
                return
            v = mv[rv]
            if v and not S["pv"]:
                raise Violation("no-parameter", "a pixel is presented before the width is known")
            if not v:
                if S["held"] is not None:
                    raise Violation("withdrawn", "pixel %d was withdrawn before it was accepted" % S["n"])
                S["idle"] += S["pv"]
                if S["idle"] > 16:
                    raise Violation("stuck", "no pixel although the width is known")
            else:
                S["idle"] = 0
                c = tuple(mv[x] for x in rc)
                e = pixel(kind, S["n"], w)
                if S["held"] is not None and c != S["held"]:
                    raise Violation("unstable", "pixel %d changed from %r to %r while it waited" % (S["n"], S["held"], c))
                S["held"] = c
                if S["rdy"]:
                    if c != e:
                        raise Violation("pattern", "accepted pixel %d (column %d of line %d, width %d) is %r, the pattern's is %r" % (
                            S["n"], S["n"] % w, S["n"] // w, w, c, e))
                    S["n"] += 1
                    S["tot"] += 1
                    S["held"] = None
            S["rdy"] = st()
            mv[wr] = S["rdy"]
        k.hook("sys", hook)
        lines = 0
        for i, (n, late) in enumerate(plan["segs"]):
            d.set(m.sink.hres, rng.getrandbits(12))
            S["pv"] = 0
            mv[wpv] = 0
            S["rst"] = rng.randrange(1, 4) if i else 1
            if i:
                res.fault("reset")
            mv[wrst] = 1
            S["n"] = S["idle"] = 0
            S["held"] = None
            k.run(k.now + (late + 5) * 10000)
            if late:
                res.fault("late-parameter")
            d.set(m.sink.hres, w)
            mv[wpv] = 1
            S["pv"] = 1
            for _ in range(200):
                if S["n"] >= n:
                    break
                k.run(k.now + (n + 50) * 10000)
                if _ > 30:
                    st.off = True
            if S["n"] < n:
                raise Violation("stuck", "only %d of %d pixels were offered" % (S["n"], n))
            lines = max(lines, S["n"] // w)
            if lines:
                res.probe("line-wrap")
            res.log(S["n"])
        res.cfg = kind
        res.probe("pixels", S["tot"])
        res.fault("consumer-stall", st.stalled)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.state(kind, min(w // 8, 12), tuple(x[0] for x in plan["rs"]), len(plan["segs"]), min(lines, 5))
        res.nontrivial = lines >= 2 and st.stalled > 0


CHECK = Check()
