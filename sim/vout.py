"""Scan-out harness: the real VideoOutCore between a memory-controller stand-in, a CPU and a video consumer."""
import random

from migen import *
from litevideo.output.core import VideoOutCore
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import Kernel, Violation, CSRTop, CSRMaster
from .dram import Stall, gen_stall, ReadPort
from .hdmiin import port_signals
from . import runner

DW = {"raw": 32, "rgb": 32, "ycbcr422": 16}
DATA = {"raw": 32, "rgb": 24, "ycbcr422": 16}
AW = 30            # words; with 32-bit words the whole 32-bit byte address space
TN = ("hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan")
LAG = 12          # frames a configuration may wait in the queue


def core_design(mode, depth, cd="pix"):
    def b():
        port = LiteDRAMNativePort("read", AW, DW[mode], clock_domain=cd)
        m = CSRTop(VideoOutCore(port, mode, depth))
        m.port = port
        s = m.dut.source
        return m, Design(m, keep=[s.valid, s.ready, s.de, s.hsync, s.vsync, s.data] + port_signals(port) + m.keep, unrelated=(("sys",), ("pix",)))
    return runner.design("vout-%s-%d-%s" % (mode, depth, cd), b)


def gen_geom(rng, maxpix=700, even=False):
    while True:
        h = rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(4, 40)])
        if even:
            h += h & 1
        v = rng.choice([1, 2, rng.randrange(1, 6), rng.randrange(1, 20)])
        hs = h + rng.choice([0, 0, 1, 3])
        he = hs + rng.randrange(1, 6)
        ht = he + rng.choice([0, 0, 1, 2, 6])
        vs = v + rng.choice([0, 0, 1, 2])
        ve = vs + rng.randrange(1, 3)
        vt = ve + rng.choice([0, 0, 1, 3])
        if (ht + 1) * (vt + 1) <= maxpix:
            return [h, hs, he, ht, v, vs, ve, vt]


def gen_huge(rng, area=False):
    """geometries that need every bit of the timing registers: a very wide or a very high frame, or (area) more than 2**16 words"""
    def dim(a):
        h = a
        hs = h + rng.choice([0, 1, 3, rng.randrange(40)])
        he = hs + rng.randrange(1, 40)
        return [h, hs, he, he + rng.randrange(0, 30)]

    def small():
        h = rng.randrange(1, 4)
        hs = h + rng.randrange(0, 2)
        return [h, hs, hs + 1, hs + 1 + rng.randrange(0, 2)]
    if area:
        h = rng.randrange(1200, 3900, 2)
        v = 65536 // h + rng.randrange(1, 3)
        return dim(h) + [v, v, v + 1, v + 1]
    if rng.random() < .6:
        return dim(rng.choice([rng.randrange(2048, 3980, 2), rng.randrange(1000, 2048, 2), 3980])) + small()
    g = small()
    g[0] += g[0] & 1
    g = [g[0], max(g[0], g[1]), max(g[0], g[1]) + 1, max(g[0], g[1]) + 1 + rng.randrange(0, 2)]
    return g + dim(rng.choice([rng.randrange(2048, 3980), rng.randrange(1000, 2048), 3980]))


def frame_tokens(t):
    """(de, hs, vs) of every clock of a frame, counted from its first active pixel"""
    h, hs, he, ht, v, vs, ve, vt = t
    out = []
    for y in range(vt + 1):
        for x in range(ht + 1):
            out.append((int(x < h and y < v), int(hs <= x < he), int(vs <= y < ve)))
    return out


def word(a, dw):
    x = (a * 0x9E3779B1 + 0x7F4A7C15) & 0xffffffffffff
    x ^= x >> 15
    x = (x * 0x2C1B3C6D + a) & 0xffffffffffff
    x ^= x >> 17
    return x & ((1 << dw) - 1)


class CoreRun:
    """Runs plan["ops"]; raises only violations whose class is in `want`."""
    def __init__(self, plan, res, want):
        self.plan, self.res, self.want = plan, res, want
        cfg = plan["cfg"]
        self.mode = mode = cfg["mode"]
        self.m, self.d = m, d = core_design(mode, cfg["depth"], cfg.get("cd", "pix"))
        self.rng = rng = random.Random(plan["seed"])
        self.k = k = Kernel(d, plan["seed"], metaw=rng.choice([0, 1000]))
        self.cd = cd = cfg.get("cd", "pix")
        self.pp, self.ps = plan["pp"], plan["ps"]
        k.clock("sys", self.ps, phase=rng.randrange(self.ps) + 1)
        if cd != "sys":
            k.clock(cd, self.pp, phase=rng.randrange(self.pp) + 1)
        else:
            self.pp = self.ps
        self.mv = mv = d.mv
        s = m.dut.source
        self.rv, self.wr = d.ridx(s.valid), d.widx(s.ready)
        self.rde, self.rhs, self.rvs = d.ridx(s.de), d.ridx(s.hsync), d.ridx(s.vsync)
        self.dmask = (1 << DATA[mode]) - 1
        self.shift = {32: 2, 16: 1}[DW[mode]]
        self.csr = CSRMaster(k, m)
        self.hist = []           # configurations written: dict(t=geometry, base, toks, T, npix)
        self.cur = {"t": None, "base": None}
        self.en = 0
        self.first = 0           # smallest history index a new frame may show
        self.fr = None           # frame being shown
        self.shown = []          # history candidates of finished frames
        self.nfirst = 0
        self.idle = 0            # clocks since the last accepted token
        self.gap = False         # the output was idle (not memory-stalled) before this token
        self.lead = 0
        self.inv = []            # time, cumulative clocks without valid output
        self.ninv = 0
        self.npixclk = 0
        self.rdyv = 0
        self.prev = None
        self.tok = 0
        self.exact = 0
        self.disabled_at = None
        self.frames_after = 0
        self.hs = Stall(plan["rs"], rng)
        self.cs, self.ds = Stall(plan["cs"], rng), Stall(plan["ds"], rng)
        lat = plan["lat"]
        k.hook(cd, self.pix)
        self.port = ReadPort(k, m.port, cd, self.cs, self.ds, lambda a: word(a, DW[mode]), self.on_cmd, latency=(lat[0], lat[1]), rng=rng)
        self.done = False
        self.locks = any(o[0] == "lock" for o in plan["ops"])
        self.uf = []
        self.times = []

    def bad(self, cls, msg):
        if cls in self.want:
            raise Violation(cls, msg)
        self.broken = True
        raise StopIteration

    # ---- memory side
    def on_cmd(self, a):
        for h in self.hist[max(0, self.first - 1):]:
            if h["base"] <= a < h["base"] + h["n"]:
                return
        for h in self.hist:
            if h["base"] <= a < h["base"] + h["n"]:
                return
        if "address" in self.want:
            raise Violation("address", "read of word %05x, outside every configured frame buffer" % a)

    # ---- video side
    inrst = False
    locks = False
    relax = 0                    # frames that may still be replays of the parameter queue

    def pix(self):
        mv = self.mv
        v = mv[self.rv]
        if self.inrst:
            v = 0
            self.idle = 0
        self.npixclk += 1
        if not v:
            self.ninv += 1
        self.inv.append(self.ninv)
        self.times.append(self.k.now)
        if self.prev is not None and "unstable" in self.want:
            if not v:
                raise Violation("unstable", "a presented clock was withdrawn before it was accepted")
            tok = (mv[self.rde], mv[self.rhs], mv[self.rvs], self.k.get(self.m.dut.source.data) if mv[self.rde] else None)
            if tok != self.prev:
                raise Violation("unstable", "a presented clock changed from %r to %r before it was accepted" % (self.prev, tok))
        self.prev = None
        if v:
            data = self.k.get(self.m.dut.source.data)
            if self.rdyv:
                self.accept(mv[self.rde], mv[self.rhs], mv[self.rvs], data)
                self.idle = 0
            else:
                self.prev = (mv[self.rde], mv[self.rhs], mv[self.rvs], data if mv[self.rde] else None)
        else:
            self.idle += 1
        self.rdyv = self.hs()
        mv[self.wr] = self.rdyv

    def accept(self, de, hs, vs, data):
        self.tok += 1
        if self.mode == "raw":
            return self.accept_raw(data, de)
        fr = self.fr
        gap = self.idle > 0
        if fr is not None:
            ok = []
            fin = False
            worst = None
            for c in fr["c"]:
                h = self.hist[c]
                n = fr["n"]
                if n < h["T"]:
                    if h["toks"][n] == (de, hs, vs):
                        if de and c in fr["cd"] and data != self.exp(h, n, fr["np"]):
                            worst = (h, data, self.exp(h, n, fr["np"]))
                            if "data" in self.want:
                                continue
                        ok.append(c)
                    elif gap and n >= h["T"] - 2 and not de:
                        fr["slack"] = fr.get("slack", 0) + 1
                        if fr["slack"] <= 3:
                            ok.append(c)
                elif de:
                    fin = True
                elif gap or fr.get("slack"):
                    fr["slack"] = fr.get("slack", 0) + 1
                    if fr["slack"] <= 3:
                        ok.append(c)
            if not ok and fin or (de and gap and any(fr["n"] >= self.hist[c]["T"] - 2 for c in fr["c"]) and not ok):
                self.finish()
                fr = None
            elif not ok:
                if worst is not None:
                    h, got, e = worst
                    self.bad("data", "pixel %d of frame %d shows %06x, its buffer at %05x holds %06x there" % (
                        fr["np"], len(self.shown), got & self.dmask, h["base"], e))
                h = self.hist[fr["c"][0]]
                self.bad("geometry", "clock %d of frame %d is de=%d hsync=%d vsync=%d, programmed %s" % (
                    fr["n"], len(self.shown), de, hs, vs, h["toks"][fr["n"]] if fr["n"] < h["T"] else "start of the next frame (geometry %r)" % (h["t"],)))
            else:
                fr["c"] = ok
                fr["n"] += 1
                fr["np"] += de
                return
        # between frames
        if not self.hist or not self.everen:
            self.bad("output-while-disabled", "a clock is output although nothing was ever enabled")
        if not de:
            self.lead += 1
            if self.lead > 2 or hs or vs:
                self.bad("geometry", "%d clocks (de=%d hsync=%d vsync=%d) before the first active pixel of a frame" % (self.lead, de, hs, vs))
            return
        self.lead = 0
        self.nfirst += 1
        if self.disabled_at is not None:
            self.frames_after += 1
            if self.frames_after > LAG:
                self.bad("no-stop", "still showing frames %d frames after being disabled" % self.frames_after)
        cand = [i for i in range(self.first, len(self.hist))]
        self.fr = fr = {"c": cand, "cd": set(cand), "n": 0, "np": 0}
        e0 = [c for c in cand if data & self.dmask == self.exp(self.hist[c], 0, 0)]
        if "data" in self.want:
            if not e0:
                self.bad("data", "the first pixel of frame %d shows %06x, no configured buffer begins with it (expected one of %s)" % (
                    len(self.shown), data & self.dmask, ["%06x" % self.exp(self.hist[c], 0, 0) for c in cand[:4]]))
            fr["c"] = e0
        fr["c"] = [c for c in fr["c"] if self.hist[c]["toks"][0] == (de, hs, vs)]
        if not fr["c"]:
            self.bad("geometry", "the first clock of frame %d is de=%d hsync=%d vsync=%d" % (len(self.shown), de, hs, vs))
        fr["n"] = fr["np"] = 1

    def accept_raw(self, data, de):
        """raw mode: the words of each frame, one per clock, in order (where blanking is, is part of the data)"""
        if not self.hist or not self.everen:
            self.bad("output-while-disabled", "a clock is output although nothing was ever enabled")
        fr = self.fr
        if fr is None:
            self.nfirst += 1
            if self.disabled_at is not None:
                self.frames_after += 1
                if self.frames_after > LAG:
                    self.bad("no-stop", "still showing frames %d frames after being disabled" % self.frames_after)
            fr = self.fr = {"c": list(range(self.first, len(self.hist))), "n": 0}
        ok = [c for c in fr["c"] if fr["n"] < self.hist[c]["T"] and data == word(self.hist[c]["base"] + fr["n"], 32)]
        if not ok:
            self.bad("data", "clock %d of frame %d shows %08x, its buffer at %05x holds %08x there" % (
                fr["n"], len(self.shown), data, self.hist[fr["c"][0]]["base"], word(self.hist[fr["c"][0]]["base"] + fr["n"], 32)))
        fr["c"] = ok
        fr["n"] += 1
        if fr["n"] == min(self.hist[c]["T"] for c in ok):
            self.finish()

    def exp(self, h, n, npx):
        return word(h["base"] + npx, DW[self.mode]) & self.dmask

    def finish(self):
        fr = self.fr
        c = fr["c"]
        self.shown.append(c[0])
        if self.relax:
            self.relax -= 1
        else:
            self.first = max(self.first, c[0])
        self.res.probe("frame-shown")
        self.fr = None

    # ---- CPU
    def push_hist(self):
        t, b = self.cur["t"], self.cur["base"]
        toks = frame_tokens(t)
        if self.hist and self.hist[-1]["t"] == t and self.hist[-1]["base"] == b:
            return
        self.hist.append({"t": t, "base": b, "toks": toks, "T": len(toks), "n": self.words(t)})

    everen = False

    def words(self, t):
        return (t[3] + 1) * (t[7] + 1) if self.mode == "raw" else t[0] * t[4]

    def cpu(self):
        csr = self.csr
        for op in self.plan["ops"]:
            if op[0] == "cfg":
                if self.en:
                    continue
                for nme, val in zip(TN, op[1]):
                    yield from csr.write("initiator_" + nme, val)
                yield from csr.write("initiator_base", op[2] << self.shift)
                n = self.words(op[1])
                yield from csr.write("initiator_length", n << self.shift)
                self.cur = {"t": op[1], "base": op[2]}
            elif op[0] == "en":
                if self.cur["t"] is None:
                    continue
                if op[1] and not self.en:
                    self.push_hist()
                    self.everen = True
                    self.disabled_at = None
                    self.frames_after = 0
                    self.en_at = self.k.now
                if not op[1] and self.en:
                    self.frames_after = 0
                self.en = op[1]
                yield from csr.write("initiator_enable", op[1])
                if op[1] and self.locks:
                    # long enough to fill the parameter queue: a reset of its reading side shows all of it
                    for _ in range(8):
                        yield
                if not op[1]:
                    self.disabled_at = self.k.now
                    self.frames_after = 0
            elif op[0] == "flip":
                if self.cur["t"] is None:
                    continue
                self.cur = {"t": self.cur["t"], "base": op[1]}
                if self.en:
                    self.push_hist()
                    self.res.probe("flip-while-shown")
                yield from csr.write("initiator_base", op[1] << self.shift)
            elif op[0] == "lock":
                # the pixel clock is lost: its domain is reset until well after the memory has answered everything
                if self.cd == "sys":
                    continue
                yield from self.lock(op[1])
            elif op[0] == "frames":
                n0 = self.nfirst
                for _ in range(1000000):
                    if self.nfirst - n0 >= op[1] or self.stuck():
                        break
                    yield
            elif op[0] == "wait":
                for _ in range(op[1]):
                    yield
            elif op[0] == "uf":
                t = self.k.now
                yield from csr.write("underflow_enable", op[1])
                if op[1]:
                    if getattr(self, "uf_on", None) is None:
                        self.uf_on = (t, self.k.now)
                else:
                    self.uf_on = None
                    self.uf_off = self.k.now
                    for _ in range(8 + 4 * self.pp // self.ps):
                        yield
            elif op[0] == "ufread":
                t0 = self.k.now
                yield from csr.write("underflow_update", 1)
                t1 = self.k.now
                for _ in range(8 + int(10 * self.pp / self.ps)):
                    yield
                v = yield from csr.read("underflow_counter")
                self.uf.append((getattr(self, "uf_on", None), getattr(self, "uf_off", 0), t0, t1, v))
        self.done = True

    def lock(self, n):
        k = self.k
        rst = self.d.widx(self.d.cds[self.cd].rst)
        self.inrst, self.prev = True, None
        self.mv[rst] = 1
        t = k.now + n * self.pp
        while k.now < t or self.port.q:
            yield
        self.mv[rst] = 0
        self.fr = self.prev = None
        self.lead = self.idle = self.frames_after = 0
        # only the reading side of the queue was reset, so what it held (and read before) comes out again
        self.relax = 10
        self.first = max(0, self.first - 10)
        self.inrst = False
        self.res.fault("reset")

    def stuck(self):
        return self.idle > 3000

    def cum(self, t):
        import bisect
        i = bisect.bisect_right(self.times, t)
        return self.inv[i - 1] if i else 0

    def run(self):
        k = self.k
        k.thread("sys", self.cpu())
        self.broken = False
        try:
            for _ in range(60000):
                k.run(k.now + 100 * self.ps)
                if self.done:
                    break
            # faults stop; everything must come to rest in the programmed state
            self.hs.off = self.cs.off = self.ds.off = True
            n0 = self.nfirst
            for _ in range(3000 if not self.plan.get("huge") else 30000):
                k.run(k.now + 60 * self.pp)
                if self.en:
                    if self.nfirst - n0 >= LAG + 2 or self.stuck():
                        break
                elif self.idle > 400:
                    break
            if self.en:
                if self.stuck() or self.nfirst - n0 < LAG + 2:
                    self.bad("stuck", "enabled, memory and consumer ready, but no output for %d clocks" % self.idle)
                if self.shown and self.shown[-1] != len(self.hist) - 1 and self.hist[self.shown[-1]] != self.hist[-1]:
                    self.bad("not-shown", "configuration %d (base %05x) is still not shown %d frames after it was written" % (
                        len(self.hist) - 1, self.hist[-1]["base"], LAG))
            else:
                if self.idle <= 400:
                    self.bad("no-stop", "output goes on after being disabled")
                if self.fr is not None and not any(self.fr["n"] >= self.hist[c]["T"] - 2 for c in self.fr["c"]):
                    h = self.hist[self.fr["c"][0]]
                    self.bad("stopped-mid-frame", "output stopped at clock %d of a frame of %d" % (self.fr["n"], h["T"]))
        except (StopIteration, RuntimeError) as e:
            if isinstance(e, RuntimeError) and not isinstance(e.__cause__, StopIteration):
                raise
        self.res.sim_ps, self.res.edges = k.now, self.mv[self.d.C_EDGES]
        self.res.log(self.shown, self.tok, self.ninv, [u[-1] for u in self.uf])
        self.res.fault("command-stall", self.cs.stalled)
        self.res.fault("read-latency", self.ds.stalled)
        self.res.fault("consumer-stall", self.hs.stalled)
        self.res.fault("metastable-sample", self.mv[self.d.C_METAN])
        self.res.fault("torn-crossing", self.mv[self.d.C_TEARN])

    def check_underflow(self):
        for on, off, t0, t1, v in self.uf:
            sl = 2 * self.ps + 8 * self.pp + 3000
            if on is None:
                # counter is held at zero while disabled; one enabled reading may be in flight
                if t0 > off + 8 * self.ps + 4 * self.pp and v != 0:
                    raise Violation("underflow", "counter reads %d while disabled" % v)
                continue
            a, b = on
            if t0 < b + 8 * self.ps + 4 * self.pp:
                continue
            lo = self.cum(t0) - self.cum(b + 5 * self.ps + 2 * self.pp)
            hi = self.cum(t1 + sl) - self.cum(a)
            if not lo <= v <= hi:
                raise Violation("underflow", "underflow counter reads %d, between %d and %d clocks had no valid output" % (v, lo, hi))
            self.res.probe("underflow-read")
            if lo == hi:
                self.res.probe("underflow-exact")
            if v:
                self.res.probe("underflow-nonzero")


def gen_common(rng, stall=True):
    p = {"pp": rng.choice([6734, 10000, 13468, 25000, 39722]), "ps": rng.choice([8000, 10000, 12500, 20000]) + rng.choice([0, rng.randrange(60)]),
         "cs": gen_stall(rng), "ds": gen_stall(rng), "lat": rng.choice([[1, 1], [2, 6], [5, 20], [1, 60]]), "rs": []}
    if not stall:
        p["cs"], p["ds"], p["lat"] = [], [], [2, 2]
    k = rng.random()
    if k < .5:
        p["rs"] = gen_stall(rng)
    return p


def gen_base(rng, i, n):
    """disjoint buffers; the last one ends at the top of memory"""
    if i == 0 and rng.random() < .2:
        return (1 << AW) - n
    if rng.random() < .15:
        return ((rng.randrange(1, 1 << (AW - 19)) * 8 + i) << 16) - rng.randrange(1, 1 + n)      # across a boundary
    low = 1024 * (1 + i * 7 + rng.randrange(5)) + rng.choice([0, 1, 512])
    return low | (rng.getrandbits(AW - 18) << 18 if rng.random() < .5 else 0)
