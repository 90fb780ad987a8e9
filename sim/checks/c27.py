"""Pass-through: HDMIIn and VideoOutCore on one memory, with software handing captured buffers to the output."""
import random

from ..kernel import Violation
from ..dram import Stall, ReadPort
from ..vout import TN, DW, DATA, LAG
from ..hdmiin import port_signals
from ..receiver import Receiver, AW, build, gen_mild
from . import c01
from litevideo.output.core import VideoOutCore
from litedram.common import LiteDRAMNativePort

SPLASH = (1 << AW) - (1 << 14)


def extend(mode, depth):
    def f(hdmi):
        port = LiteDRAMNativePort("read", 30, DW[mode], clock_domain="opix")
        hdmi.submodules.vout = v = VideoOutCore(port, mode, depth)
        hdmi.oport = port
        s = v.source
        return [s.valid, s.ready, s.de, s.hsync, s.vsync, s.data] + port_signals(port), (("opix",),)
    return f


def build_pass(cfg):
    return build({k: x for k, x in cfg.items() if k != "od"}, "pass-%d" % cfg["od"], extend(cfg["mode"], cfg["od"]))


class PassRx(Receiver):
    make = staticmethod(build_pass)

    def __init__(self, cfg, plan, res, *a):
        Receiver.__init__(self, cfg, plan, res, *a)
        k, d, rng, hdmi = self.k, self.d, self.rng, self.hdmi
        self.al = (cfg["w"] // 8).bit_length() - 1
        self.nb = DW[cfg["mode"]]
        self.pf = cfg["w"] // self.nb
        self.mask = (1 << DATA[cfg["mode"]]) - 1
        self.fw = len(self.frames[0].words)
        self.npx = self.geom[0] * self.geom[1]
        for j in range(self.fw):
            self.wp_mem[SPLASH + j] = rng.getrandbits(cfg["w"])
        self.hist = [(SPLASH, self.pixels(SPLASH))]     # buffers handed to the output
        self.super = []                                 # frames begun on the output when each was superseded
        self.nframe = 0                                 # frames begun
        self.px = []
        self.first = 0
        self.newest = -1
        self.fresh = set()
        self.vprev = 0
        self.free = [16 + (self.fw + 3) * i for i in range(plan["ring"])]
        self.held = []                                  # (buffer, frame count from which it is free)
        s = hdmi.vout.source
        self.sv, self.sr, self.sde, self.svs = d.ridx(s.valid), d.widx(s.ready), d.ridx(s.de), d.ridx(s.vsync)
        self.sdata = s.data
        self.rdy = 0
        self.ors = Stall(plan["ors"], rng)
        self.po = plan["po"]
        k.clock("opix", self.po, phase=1 + rng.randrange(self.po))
        k.hook("opix", self.opix)
        self.ocs = Stall(plan["ocs"], rng)
        ReadPort(k, hdmi.oport, "opix", self.ocs, Stall([], rng), self.read, lambda a: None, latency=tuple(plan["lat"]), rng=rng)

    def pixels(self, base):
        return [(self.wp_mem[base + j] >> (self.pf - 1 - i) * self.nb) & self.mask for j in range(self.fw) for i in range(self.pf)]

    # -- memory: one pixel per word on the output's port, the first one in the high bits
    def read(self, a):
        return (self.wp_mem.get(a // self.pf, 0) >> (self.pf - 1 - a % self.pf) * self.nb) & ((1 << self.nb) - 1)

    # -- software
    def prepare(self):
        csr, p = self.csr, "vout_initiator_"
        for n, v in zip(TN, self.plan["og"]):
            yield from csr.write(p + n, v)
        yield from csr.write(p + "base", SPLASH << self.al)
        yield from csr.write(p + "length", self.fw << self.al)
        yield from csr.write(p + "enable", 1)

    def alloc(self, fw):
        while self.held and self.held[0][1] <= self.nframe:
            self.free.append(self.held.pop(0)[0])
        if not self.free:
            self.res.probe("no-free-buffer")
            return None
        b = self.free.pop(0)
        for j in range(fw):
            self.wp_mem.pop(b + j, None)
        return b

    def captured(self, b, w):
        if self.rng.random() * 100 < self.plan["skip"]:
            self.held.append((b, 0))         # not shown
            return
        if None in w:
            raise Violation("capture", "a captured frame has words that were never written")
        off = self.rng.random() * 100 < self.plan["restart"]
        if off:
            # the output is switched off for a while, the buffer replaced before, meanwhile or after
            yield from self.csr.write("vout_initiator_enable", 0)
            yield from self.wait(self.rng.choice([0, 3, 20, 300, 3000]))
            on_first = self.rng.getrandbits(1)
            if on_first:
                yield from self.csr.write("vout_initiator_enable", 1)
                yield from self.wait(self.rng.choice([0, 0, 5, 100]))
            self.res.fault("output-restart")
        n = len(self.hist)
        self.hist.append((b, self.pixels(b)))
        yield from self.csr.write("vout_initiator_base", b << self.al)
        self.super.append(self.nframe)
        if off and not on_first:
            yield from self.wait(self.rng.choice([0, 0, 5, 100]))
            yield from self.csr.write("vout_initiator_enable", 1)
        if n > 1:
            self.held.append((self.hist[n - 1][0], self.nframe + LAG + 1))
        self.res.fault("flip")

    # -- video out
    def opix(self):
        mv = self.mv
        if mv[self.sv] and self.rdy:
            vs = mv[self.svs]
            if mv[self.sde]:
                if not self.px:
                    self.nframe += 1
                self.px.append(self.d.get(self.sdata) & self.mask)
                if len(self.px) > self.npx:
                    raise Violation("shown", "more than %d pixels are shown between two vertical syncs" % self.npx)
            if vs and not self.vprev:
                if self.px:
                    self.frame(self.px)
                self.px = []
            self.vprev = vs
        self.rdy = self.ors()
        mv[self.sr] = self.rdy

    def frame(self, px):
        if len(px) != self.npx:
            raise Violation("shown", "a shown frame has %d pixels instead of %d" % (len(px), self.npx))
        h = self.hist
        hit = [i for i in range(len(h)) if h[i][1] == px]
        if not hit:
            best = max(range(len(h)), key=lambda i: sum(a == b for a, b in zip(h[i][1], px)))
            j = next(j for j in range(len(px)) if px[j] != h[best][1][j])
            other = [i for i in range(len(h)) if h[i][1][j:j + 4] == px[j:j + 4]]
            raise Violation("shown", "frame %d on the output is none of the %d buffers handed over; closest is number %d, from which it differs at pixel %d: %06x instead of %06x%s" % (
                self.nframe, len(h) - 1, best, j, px[j], h[best][1][j], "; number %d has that" % other[0] if other else ""))
        if hit[-1] < self.first:
            raise Violation("order", "buffer number %d is shown after number %d" % (hit[-1], self.first))
        j = hit[-1]
        if j < len(self.super) and self.nframe - self.super[j] > LAG:
            raise Violation("stale", "buffer number %d is still shown %d frames after software replaced it" % (j, self.nframe - self.super[j]))
        self.first = min(i for i in hit if i >= self.first)
        self.newest = max(self.newest, j)
        if j:
            self.fresh.add(j)
            self.res.probe("shown-frame")

    def judge_missed(self, got):
        pass                # C01 counts captures; here software may have no buffer to load

    def run(self, events=()):
        Receiver.run(self, events)
        og = self.plan["og"]
        T = (og[3] + 1) * (og[7] + 1)
        n0 = self.nframe
        k = self.k
        lim = k.now + 6 * T * (LAG + 4) * self.po
        while self.newest < len(self.hist) - 1:
            if self.nframe > n0 + LAG + 2 or k.now > lim:
                raise Violation("not-shown", "the last captured buffer (number %d) is not shown %d frames later (newest shown: %d)" % (len(self.hist) - 1, self.nframe - n0, self.newest))
            k.run(k.now + T * self.po)


class Check(c01.Check):
    PROP = "C27"
    RUNS = {"quick": 1200, "thorough": 30000}
    CHUNK = 4
    MIN_RUNS = 40
    RULE = ("one run = a disturbed then clean link into the real HDMI input, which captures into the same memory the real video output scans; software hands each captured buffer to the output and "
            "reuses buffers no longer queued there; non-trivial when at least two captured frames were shown after a disturbance")
    STATE_MEASURE = "hash of (front end, format, signalling, kinds of disturbance, buffers handed over, buffers seen on the output)"
    REAL = ["litevideo.input.HDMIIn whole", "litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader)", "litedram DMA reader and writer, litex CSR bank and event manager"]
    STUB = ["video source and cable", "clock recovery and lane capture in word configurations, their primitives in bit-level ones", "memory behind both ports (width conversion: first pixel in the high bits)", "software", "video consumer"]
    ASSUMPTIONS = ["input and output have the same size and pixel format (the two rgb memory formats differ in which end red is; words are compared)",
                   "software reuses a buffer only %d output frames after it was replaced" % LAG, "memory stalls are short enough for the capture FIFO"]
    FAULTS = tuple(c01.Check.FAULTS) + ("flip", "output-restart", "output-stall")
    PROBES = ("frame-captured", "words-compared", "shown-frame", "no-free-buffer", "bit-level", "capture-before-recovery")
    RX = PassRx
    FIXED = ("skew", "phase", "mode", "cs", "ds", "og", "ocs", "ors", "lat")

    def configs(self, tier):
        o = []
        for hdmi, mode, w, od in ((0, "ycbcr422", 64, 64), (1, "rgb", 64, 16), (1, "ycbcr422", 128, 256), (0, "rgb", 128, 64)):
            o.append({"front": "word", "hdmi": hdmi, "mode": mode, "w": w, "depth": 256, "slots": 2 + hdmi, "od": od})
        o.append({"front": "xc7", "hdmi": 0, "mode": "ycbcr422", "w": 64, "depth": 256, "slots": 2, "od": 64})
        o.append({"front": "xc6", "hdmi": 1, "mode": "rgb", "w": 64, "depth": 256, "slots": 2, "od": 64, "inv": ["data1"]})
        return o

    def build(self, cfg):
        return build_pass(cfg)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        n = len(cfgs)
        j = i % n
        while j % 300 == 113 or j % 1000 == 613:
            j += n
        p = c01.Check.gen(self, rng, tier, j)
        t = p["mode"]
        h, v = t[0], t[4]
        hs = h + rng.choice([0, 1, 3])
        he = hs + rng.randrange(1, 6)
        ht = he + rng.choice([0, 1, 6])
        vs = v + rng.choice([0, 1])
        ve = vs + 1
        p.update(tail=None, og=[h, hs, he, ht, v, vs, ve, ve + rng.choice([0, 1])], po=rng.choice([6700, 8000, 10100, 13400, 20000]), skip=rng.choice([0, 0, 20, 50]), restart=rng.choice([0, 0, 20, 50]),
                 ring=rng.choice([5, 12, 24, 40]), frames=rng.randrange(8, 13), reload=rng.choice([0, 0, 100, 800]),
                 ors=[] if rng.random() < .6 else gen_mild(rng), ocs=[] if rng.random() < .5 else gen_mild(rng), lat=rng.choice([[1, 1], [2, 6], [4, 16]]))
        return p

    def execute(self, plan, res):
        c01.Check.execute(self, plan, res)
        rx = self.rx
        res.fault("output-stall", rx.ors.stalled)
        res.log(len(rx.hist), rx.nframe, sorted(rx.fresh))
        res.state(res.cfg, len(rx.hist), tuple(sorted(rx.fresh)))
        res.nontrivial = res.nontrivial and len(rx.fresh) >= 2

    def simplify(self, plan):
        yield from c01.Check.simplify(self, plan)
        for k in ("ors", "ocs"):
            if plan[k]:
                yield dict(plan, **{k: []})
        for k in ("skip", "restart"):
            if plan[k]:
                yield dict(plan, **{k: 0})


CHECK = Check()
