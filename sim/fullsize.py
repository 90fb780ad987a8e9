"""Scan-out at full size.  The memory, the consumer and the reference frame are gateware too (written here, from the
documentation), so that whole 1920x1080 frames run at the speed of the compiled model; Python only programs registers and
reads the verdict.  The environment is seeded through its stall generators."""
import random

from migen import *
from migen.genlib.fifo import SyncFIFOBuffered
from litevideo.output.core import VideoOutCore
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import Kernel, Violation, CSRTop, CSRMaster
from . import runner
from .vout import DW, DATA, AW, TN, LAG, gen_base

# total and active sizes and sync pulses of standard timings: hres hsync_start hsync_end htotal vres vsync_start vsync_end vtotal
MODES = [
    (640, 656, 752, 800, 480, 490, 492, 525),
    (800, 840, 968, 1056, 600, 601, 605, 628),
    (1024, 1048, 1184, 1344, 768, 771, 777, 806),
    (1280, 1390, 1430, 1650, 720, 725, 730, 750),
    (1280, 1328, 1440, 1688, 1024, 1025, 1028, 1066),
    (1600, 1664, 1856, 2160, 1200, 1201, 1204, 1250),
    (1920, 2008, 2052, 2200, 1080, 1084, 1089, 1125),
    (2560, 2608, 2640, 2720, 1440, 1443, 1448, 1481),
]


class Rand(Module):
    """xorshift32; o is true with probability thr/256, in bursts if slow"""
    def __init__(self, seed, thr, slow):
        s = Signal(32, reset=seed)
        a, b = Signal(32), Signal(32)
        self.o = Signal()
        phase = Signal()
        self.comb += [a.eq(s ^ (s << 13)), b.eq(a ^ (a >> 17))]
        self.sync += [s.eq(b ^ (b << 5)), If((s[8:16] == 0) | ~slow, phase.eq(s[0] | ~slow))]
        self.comb += self.o.eq((s[16:24] < thr) & phase)


def hash32(a):
    h = Signal(32)
    p = Signal(32)
    return h, p, [p.eq(a * 0x9E3779B1), h.eq(p ^ (p >> 15))]


class Env(Module):
    def __init__(self, port, source, mode):
        raw = mode == "raw"
        self.thr = [Signal(9, name="thr%d" % i) for i in range(3)]
        self.slow = [Signal(name="slow%d" % i) for i in range(3)]
        self.base = [Signal(32, name="envbase%d" % i) for i in range(2)]
        self.length = Signal(32)
        self.allow = Signal(2)
        self.g = [Signal(16, name="envg%d" % i) for i in range(8)]
        self.off = Signal()
        st = []
        for i in range(3):
            r = Rand(0x1234567 * (i + 3) & 0xffffffff, self.thr[i], self.slow[i])
            self.submodules += r
            st.append(r.o)
        # ---- memory
        delay = []
        v, a = Signal(), Signal(AW)
        self.comb += [v.eq(port.cmd.valid & port.cmd.ready & ~port.cmd.we), a.eq(port.cmd.addr)]
        outside = Signal()
        wide = Signal(32)
        self.comb += [wide.eq(a), outside.eq(v & ~(((wide - self.base[0])[:AW] < self.length) | ((wide - self.base[1])[:AW] < self.length)))]
        for i in range(5):
            v2, a2 = Signal(), Signal(AW)
            self.sync += [v2.eq(v), a2.eq(a)]
            v, a = v2, a2
        fifo = SyncFIFOBuffered(AW, 64)
        self.submodules += fifo
        h, p, c = hash32(fifo.dout)
        self.comb += c
        self.comb += [fifo.we.eq(v), fifo.din.eq(a), port.cmd.ready.eq((fifo.level < 48) & ~st[0]),
                      port.rdata.valid.eq(fifo.readable & ~st[1]), port.rdata.data.eq(h), fifo.re.eq(port.rdata.ready & ~st[1])]
        # ---- consumer
        self.comb += source.ready.eq(~st[2])
        take = Signal()
        self.comb += take.eq(source.valid & source.ready)
        # ---- reference
        x, y, n = Signal(16), Signal(16), Signal(32)
        run = Signal()
        cur = Signal(32)
        sel = Signal()
        self.frames = Signal(32)
        self.seen = Signal(2)
        self.last = Signal()
        self.err = Signal(4)
        self.ex, self.ey, self.en, self.egot, self.eexp, self.etok = Signal(16), Signal(16), Signal(32), Signal(32), Signal(32), Signal(6)
        self.tokens = Signal(64)
        lead = Signal(3)
        self.idle = Signal(32)
        self.hole = hole = Signal()
        G = self.g
        m = (1 << DATA[mode]) - 1
        h0, _, c0 = hash32(self.base[0])
        h1, _, c1 = hash32(self.base[1])
        addr = Signal(32)
        hx, _, cx = hash32(addr)
        tok = Cat(source.de, source.hsync, source.vsync)
        exp = Signal(3)
        first = Signal()
        self.comb += c0 + c1 + cx
        self.comb += [
            addr.eq(cur + n), first.eq((x == 0) & (y == 0)),
            exp.eq(Cat((x < G[0]) & (y < G[4]), (x >= G[1]) & (x < G[2]), (y >= G[5]) & (y < G[6]))) ]
        ok0, ok1 = Signal(), Signal()
        self.comb += [ok0.eq(self.allow[0] & ((source.data & m) == (h0 & m))), ok1.eq(self.allow[1] & ((source.data & m) == (h1 & m)))]

        def fail(code, e, got):
            return [If(self.err == 0, self.err.eq(code), self.ex.eq(x), self.ey.eq(y), self.en.eq(n), self.egot.eq(got), self.eexp.eq(e), self.etok.eq(Cat(tok, exp)))]
        adv = [If(x == G[3] - 1, x.eq(0), If(y == G[7] - 1, y.eq(0), self.frames.eq(self.frames + 1), n.eq(0)).Else(y.eq(y + 1))).Else(x.eq(x + 1))]
        start = [self.seen.eq(self.seen | Mux(ok1, 2, 1)), self.last.eq(ok1), cur.eq(Mux(ok1, self.base[1], self.base[0])),
                 If(~(ok0 | ok1), fail(4, 0, source.data))]
        dat = [If(first, start).Elif((source.data & m) != (hx & m), fail(2, hx & m, source.data & m)), n.eq(n + 1)]
        self.sync += [
            If(outside, fail(3, 0, port.cmd.addr)),
            If(source.valid, self.idle.eq(0)).Else(self.idle.eq(self.idle + 1)),
            If(take,
                self.tokens.eq(self.tokens + 1),
                If(~run & ~source.de & (not raw),
                    lead.eq(lead + 1),
                    If((lead == 2) | source.hsync | source.vsync, fail(1, 0, 0))
                ).Else(
                    run.eq(1),
                    adv,
                    If((tok != exp) & (not raw), fail(1, 0, 0)),
                    If(source.de | raw, dat),
                    # advancing to the next frame wins over n + 1
                    If((x == G[3] - 1) & (y == G[7] - 1), n.eq(0))
                ))]
        self.outs = [self.frames, self.seen, self.last, self.err, self.ex, self.ey, self.en, self.egot, self.eexp, self.etok, self.tokens, self.idle]
        self.ins = self.thr + self.slow + self.base + [self.length, self.allow] + self.g


def design(mode, depth, cd):
    def b():
        port = LiteDRAMNativePort("read", AW, DW[mode], clock_domain=cd)
        m = CSRTop(VideoOutCore(port, mode, depth))
        m.port = port
        env = Env(port, m.dut.source, mode)
        m.submodules.env = ClockDomainsRenamer(cd)(env)
        m.env = env
        return m, Design(m, keep=env.outs + env.ins + m.keep)
    return runner.design("full-%s-%d-%s" % (mode, depth, cd), b)


def gen(rng, cfg, big=False):
    """a plan: one standard timing (or the largest the registers allow), a flip in the middle, seeded stalls"""
    if big:
        g = list(rng.choice(MODES[5:]))
    else:
        g = list(rng.choice(MODES))
    n = g[3] * g[7] if cfg["mode"] == "raw" else g[0] * g[4]
    b0 = gen_base(rng, 0, n)
    while True:
        b1 = rng.randrange(0, (1 << AW) - n)
        if abs(b1 - b0) > n:
            break
    return {"full": 1, "cfg": cfg, "g": g, "base": [b0, b1], "thr": [rng.choice([0, 0, 40, 128]), rng.choice([0, 0, 40, 100]), rng.choice([0, 0, 30, 128])],
            "slow": [rng.getrandbits(1) for _ in range(3)], "pp": rng.choice([6734, 10000, 13468]), "ps": rng.choice([8000, 10000, 12500]),
            "at": rng.randrange(0, 1000), "frames": 1}


CLS = {1: "geometry", 2: "data", 3: "address", 4: "data"}


def execute(plan, res, want):
    cfg = plan["cfg"]
    mode, cd = cfg["mode"], cfg.get("cd", "pix")
    m, d = design(mode, cfg["depth"], cd)
    rng = random.Random(plan["seed"])
    k = Kernel(d, plan["seed"], metaw=rng.choice([0, 1000]))
    ps, pp = plan["ps"], plan["pp"]
    k.clock("sys", ps, phase=rng.randrange(ps) + 1)
    if cd != "sys":
        k.clock(cd, pp, phase=rng.randrange(pp) + 1)
    else:
        pp = ps
    e = m.env
    G = plan["g"]
    shift = {32: 2, 16: 1}[DW[mode]]
    n = G[3] * G[7] if mode == "raw" else G[0] * G[4]
    for i in range(3):
        d.set(e.thr[i], plan["thr"][i])
        d.set(e.slow[i], plan["slow"][i])
        res.fault(("command-stall", "read-latency", "consumer-stall")[i], int(plan["thr"][i] > 0))
    for s, v in zip(e.g, G):
        d.set(s, v)
    d.set(e.length, n)
    d.set(e.base[0], plan["base"][0])
    d.set(e.base[1], plan["base"][1])
    d.set(e.allow, 1)
    csr = CSRMaster(k, m)
    state = {}

    def program():
        t = (G[0], G[1], G[2], G[3] - 1, G[4], G[5], G[6], G[7] - 1)
        for nme, v in zip(TN, t):
            yield from csr.write("initiator_" + nme, v)
        yield from csr.write("initiator_base", plan["base"][0] << shift)
        yield from csr.write("initiator_length", n << shift)
        yield from csr.write("initiator_enable", 1)

    def flip():
        d.set(e.allow, 3)
        yield from csr.write("initiator_base", plan["base"][1] << shift)
    frame = G[3] * G[7] * pp
    k.thread("sys", program())

    def verdict():
        err = d.get(e.err)
        if err:
            x, y, i, got, exp = (d.get(s) for s in (e.ex, e.ey, e.en, e.egot, e.eexp))
            tk = d.get(e.etok)
            f = d.get(e.frames)
            msg = {1: "clock %d of line %d of frame %d is de,hsync,vsync=%s, programmed %s" % (x, y, f, bin(tk & 7 | 8)[:2:-1], bin(tk >> 3 | 8)[:2:-1]),
                   2: "pixel %d of frame %d shows %x, its buffer holds %x there" % (i, f, got, exp),
                   3: "read of word %x, outside the frame buffers" % got,
                   4: "the first pixel of frame %d shows %x, no buffer in force begins with it" % (f, got)}[err]
            if CLS[err] in want:
                raise Violation(CLS[err], "full size %dx%d: %s" % (G[0], G[4], msg))
            return False
        if d.get(e.idle) > 4000 + max(plan["thr"]) * 20:
            if "stuck" in want:
                raise Violation("stuck", "full size %dx%d: enabled, memory and consumer ready, no output for %d clocks" % (G[0], G[4], d.get(e.idle)))
            return False
        return True

    def until(cond, limit):
        end = k.now + limit
        while k.now < end:
            k.run(k.now + max(frame // 50, 3000 * pp))
            if not verdict():
                return False
            if cond():
                return True
        return None
    ok = until(lambda: d.get(e.frames) >= plan["frames"], frame * (plan["frames"] + 4) * 3)
    if ok:
        k.run(k.now + frame * plan["at"] // 1000)
        # the base is checked against both from the write on; only frames that start after it may show it
        f0 = d.get(e.frames)
        k.thread("sys", flip())
        ok = until(lambda: d.get(e.last), frame * (LAG + 2) * 3) if "not-shown" in want or plan.get("wait") else True
        if ok:
            d.set(e.allow, 2 if d.get(e.last) else 3)
            res.probe("flip-while-shown")
            f1 = d.get(e.frames)
            ok = until(lambda: d.get(e.frames) > f1, frame * 8)
        elif ok is None and "not-shown" in want:
            raise Violation("not-shown", "full size %dx%d: the buffer written in frame %d is still not shown in frame %d" % (G[0], G[4], f0, d.get(e.frames)))
    if ok is None and "stuck" in want:
        raise Violation("stuck", "full size %dx%d: %d frames in %d frame times" % (G[0], G[4], d.get(e.frames), k.now // frame))
    res.probe("frame-shown", d.get(e.frames))
    res.probe("full-size-frame", d.get(e.frames))
    res.sim_ps, res.edges = k.now, d.mv[d.C_EDGES]
    res.fault("metastable-sample", d.mv[d.C_METAN])
    res.log(d.get(e.frames), d.get(e.tokens), d.get(e.seen), d.get(e.err))
    res.cfg = mode + str(cfg["depth"]) + cfg.get("cd", "")
    res.state("full", mode, G[0], G[4], plan["thr"][0] > 0, plan["thr"][1] > 0, plan["thr"][2] > 0)
    res.nontrivial = d.get(e.frames) >= 2


def simplify(plan):
    for i in range(3):
        if plan["thr"][i]:
            yield dict(plan, thr=[0 if j == i else v for j, v in enumerate(plan["thr"])])
    if any(plan["slow"]):
        yield dict(plan, slow=[0, 0, 0])
    for g in MODES:
        if g[0] * g[4] < plan["g"][0] * plan["g"][4]:
            yield dict(plan, g=list(g))
            break
    if plan["at"]:
        yield dict(plan, at=0)
