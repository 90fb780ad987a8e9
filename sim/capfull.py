"""Capture at full size and over long times: the video source, the link and the memory with its reference picture are gateware too
(written here, from the documentation), so that whole 1920x1080 frames, or thousands of small ones, run at the speed of the
compiled model; Python disturbs the link, programs registers, services the slots and reads the verdict."""
import random

from migen import *
import litevideo.input as inp
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import Kernel, Violation, CSRTop, CSRMaster
from . import runner, tmds, hdmiin
from .fullsize import MODES, Rand, hash32

AW = 26
NSLOT = 2


def pixel(f, n, mask):
    """(signals, statements) of the pixel n of frame f: the first one carries the frame number, the others a hash"""
    key = Signal(32)
    h, p, c = hash32(key)
    v = Signal(24)
    return v, c + [key.eq(n + f * 0x10b5f3), v.eq(Mux(n == 0, f, h[8:] & mask))]


class Source(Module):
    def __init__(self, hdmi):
        self.g = G = [Signal(16, name="srcg%d" % i) for i in range(8)]
        self.pol = Signal(2)                 # inverted on the wire: hsync, vsync
        self.hd = Signal()
        self.mask = Signal(24)
        self.noise = Signal(3)               # lanes carrying random bits
        self.phase = [Signal(4, name="srcp%d" % i) for i in range(3)]
        self.skew = [Signal(3, name="srcs%d" % i) for i in range(3)]
        self.f = f = Signal(24)
        self.out = [Signal(10, name="srco%d" % i) for i in range(3)]
        x, y, n = Signal(16), Signal(16), Signal(32)
        started = Signal()
        self.sync += [
            If(~started, started.eq(1), y.eq(G[4])).Else(
                If(x == G[3] - 1,
                    x.eq(0),
                    If(y == G[7] - 1, y.eq(0), n.eq(0), f.eq(f + 1)).Else(y.eq(y + 1))
                ).Else(x.eq(x + 1)))]
        de, hs, vs, nxt = Signal(), Signal(), Signal(), Signal()
        # vsync changes together with the start of hsync
        yy = Signal(16)
        self.comb += [
            de.eq((x < G[0]) & (y < G[4])), hs.eq((x >= G[1]) & (x < G[2])),
            yy.eq(Mux(x >= G[1], y, y - 1)), vs.eq((yy >= G[5]) & (yy < G[6]) & ~yy[15]),
            nxt.eq((y == G[7] - 1) | (y + 1 < G[4]))]
        self.sync += If(de & started & ~((x == G[0] - 1) & (y == G[4] - 1)), n.eq(n + 1))
        v, c = pixel(f, n, self.mask)
        self.comb += c
        r = Signal(32, reset=0x9d2c5681)
        a, b = Signal(32), Signal(32)
        self.comb += [a.eq(r ^ (r << 13)), b.eq(a ^ (a >> 17))]
        self.sync += r.eq(b ^ (b << 5))
        # a data byte as either of its two words
        words = []
        for d in range(512):
            q = tmds.q_m(d & 255)
            words.append(q & 0x1ff if d < 256 else q ^ 0xff | 0x200)
        vgb, pre = Signal(), Signal()
        self.comb += [vgb.eq(self.hd & nxt & (x >= G[3] - 2)), pre.eq(self.hd & nxt & (x >= G[3] - 10) & (x < G[3] - 2))]
        for l in range(3):
            mem = Memory(10, 512, init=words)
            port = mem.get_port(async_read=True)
            self.specials += mem, port
            ctl = Signal(2)
            self.comb += [port.adr.eq(Cat(v[8 * l:8 * l + 8], r[9 + l])),
                          ctl.eq(Cat(hs, vs) ^ self.pol if l == 0 else Mux(pre, 2 - l, 0))]
            w = Signal(10)
            self.sync += [
                If(self.noise[l], w.eq(r[3 * l + 7:3 * l + 17]))
                .Elif(de, w.eq(port.dat_r))
                .Elif(vgb, w.eq(tmds.VIDEO_GB[l]))
                .Else(w.eq(Array(tmds.CONTROL)[ctl]))]
            hist = [w]
            for i in range(8):
                s = Signal(10)
                self.sync += s.eq(hist[-1])
                hist.append(s)
            two = Signal(20)
            self.comb += two.eq(Array([Cat(hist[i + 1], hist[i]) for i in range(8)])[self.skew[l]])
            self.comb += self.out[l].eq(two >> self.phase[l])
        self.ins = G + [self.pol, self.hd, self.mask, self.noise] + self.phase + self.skew


class Sink(Module):
    """the memory; checks every word against the frame it must belong to"""
    def __init__(self, port, srcf, mask):
        pf = port.data_width // 32
        self.thr = [Signal(9, name="snkthr%d" % i) for i in range(2)]
        self.slow = [Signal(name="snkslow%d" % i) for i in range(2)]
        st = []
        for i in range(2):
            r = Rand(0x7654321 * (2 * i + 3) & 0xffffffff, self.thr[i], self.slow[i])
            self.submodules += r
            st.append(r.o)
        self.base = [Signal(AW, name="snkbase%d" % i) for i in range(NSLOT)]
        self.set = Signal(NSLOT)             # toggled by Python: slot loaded
        self.seen = seen = Signal(NSLOT)
        self.words = F = Signal(AW + 1)
        self.jfrom = Signal(24)
        self.hush = Signal()                 # the link is being disturbed: what is in flight is not judged
        self.err = Signal(4)
        self.ef, self.en, self.egot, self.eexp = Signal(24), Signal(32), Signal(64), Signal(64)
        self.cap = Signal(32)                # complete captures, and of these the judged ones
        self.okf = Signal(32)
        self.done = [Signal(32, name="snkdone%d" % i) for i in range(NSLOT)]
        self.missed = Signal(16)
        cmd, wr = Signal(), Signal()
        out = Signal(8)
        self.comb += [port.cmd.ready.eq((out < 32) & ~st[0]), port.wdata.ready.eq((out != 0) & ~st[1]), port.rdata.valid.eq(0),
                      cmd.eq(port.cmd.valid & port.cmd.ready), wr.eq(port.wdata.ready)]
        self.sync += out.eq(out + cmd - wr)

        def fail(code, got, exp):
            return [If(self.err == 0, self.err.eq(code), self.ef.eq(srcf), self.en.eq(n), self.egot.eq(got), self.eexp.eq(exp))]
        # ---- addresses
        left, nxt, cslot = Signal(AW + 1), Signal(AW), Signal(max=NSLOT)
        n = Signal(32)                       # words of the frame written
        fs = Signal(24)
        cands = [(self.set[i] != seen[i]) & (port.cmd.addr == self.base[i]) for i in range(NSLOT)]
        hit, which = Signal(), Signal(max=NSLOT)
        self.comb += [hit.eq(Cat(*cands) != 0), which.eq(Mux(cands[0], 0, 1))]
        frames = Signal()
        self.sync += [
            If(cmd,
                If(~port.cmd.we, fail(6, 0, 0)),
                If(left == 0,
                    If(hit, left.eq(F - 1), nxt.eq(port.cmd.addr + 1), Array(seen)[which].eq(self.set >> which), cslot.eq(which)).Else(fail(3, port.cmd.addr, 0)),
                    fs.eq(srcf),
                ).Else(
                    left.eq(left - 1), nxt.eq(nxt + 1),
                    If(port.cmd.addr != nxt, fail(3, port.cmd.addr, nxt))))]
        # ---- data: the words of a frame all leave before the first of the next is commanded only if memory is quick; keep the start in a queue of two
        cur, judged = Signal(24), Signal()
        first = Signal()
        v0 = Signal(24)
        self.comb += [first.eq(n == 0), v0.eq(port.wdata.data[32 * (pf - 1):32 * (pf - 1) + 24])]
        self.f0 = f0 = Signal(24)
        self.comb += f0.eq(Mux(first, v0, cur))
        exp = []
        for i in range(pf):
            idx = Signal(32)
            self.comb += idx.eq(n * pf + i)
            v, c = pixel(f0, idx, mask)
            self.comb += c
            exp.insert(0, Cat(v, Replicate(0, 8)))
        e = Signal(64 if pf <= 2 else 32 * pf)
        self.comb += e.eq(Cat(*exp))
        jnow = Signal()
        # the source frame when the first word is commanded, or at most one later when its data leave
        self.comb += jnow.eq(Mux(first, fs >= self.jfrom, judged) & ~self.hush)
        self.last = Signal(24)
        dslot = Signal(max=NSLOT)
        self.sync += [
            If(self.hush, judged.eq(0)),
            If(wr,
                If(~port.wdata.valid, fail(7, 0, 0)),
                If(port.wdata.we != 2**(port.data_width // 8) - 1, fail(8, port.wdata.we, 0)),
                If(first,
                    cur.eq(v0), judged.eq(jnow), dslot.eq(Mux(left == F - 1, which, cslot)),
                    If(jnow & (v0 != fs) & (v0 + 1 != fs), fail(4, v0, fs)).Elif(jnow & (v0 <= self.last) & (self.okf != 0), fail(5, v0, self.last)),
                    If(jnow, self.last.eq(v0)),
                ),
                If(jnow & (port.wdata.data != e), fail(2, port.wdata.data, e)),
                n.eq(n + 1),
                If(n == F - 1, n.eq(0), self.cap.eq(self.cap + 1), self.okf.eq(self.okf + jnow)))]
        self.busy = Signal()
        self.comb += self.busy.eq((left != 0) | (n != 0) | (out != 0))
        self.outs = [self.err, self.ef, self.en, self.egot, self.eexp, self.cap, self.okf, self.busy, self.last, seen]
        self.ins = self.thr + self.slow + self.base + [self.set, self.words, self.jfrom, self.hush]


def design(cfg):
    def b():
        port = LiteDRAMNativePort("write", AW, cfg["w"], clock_domain="sys")
        dut = inp.HDMIIn(hdmiin.make_pads(), port, n_dma_slots=NSLOT, fifo_depth=cfg["depth"], device="word", mode="rgb", hdmi=bool(cfg["hdmi"]))
        m = CSRTop(dut)
        m.hdmi = dut
        src = Source(cfg["hdmi"])
        m.submodules.src = ClockDomainsRenamer("pix")(src)
        snk = Sink(port, src.f, src.mask)
        m.submodules.snk = snk
        for l in range(3):
            m.comb += getattr(dut, "data%d_cap" % l).d.eq(src.out[l])
        m.src, m.snk = src, snk
        return m, Design(m, keep=src.ins + [src.f] + snk.ins + snk.outs + m.keep + [dut.ev.irq, dut.clocking.locked], unrelated=(("sys",), ("pix",)))
    return runner.design("capfull" + repr(sorted(cfg.items())), b)


CFGS = [{"hdmi": 0, "w": 64, "depth": 512}, {"hdmi": 1, "w": 64, "depth": 512}, {"hdmi": 0, "w": 128, "depth": 64}]


def gen(rng, i, soak):
    cfg = CFGS[i % len(CFGS)]
    pf = cfg["w"] // 32
    if soak:
        while True:
            h, v = rng.randrange(16, 70), rng.randrange(1, 8)
            if h * v % pf == 0:
                break
        hb = [rng.randrange(1, 12) + 12 * cfg["hdmi"], rng.randrange(1, 12), rng.randrange(12, 30)]
        vb = [rng.randrange(1, 3), rng.randrange(1, 3), rng.randrange(1, 4)]
        g = [h, h + hb[0], h + hb[0] + hb[1], h + sum(hb), v, v + vb[0], v + vb[0] + vb[1], v + sum(vb)]
        g[5] -= 1            # line in which vsync begins, at the start of hsync
        g[6] -= 1
        if g[5] < v:
            g[5:8] = [x + 1 for x in g[5:8]]
        stages = [[rng.choice([20, 60, 300]), [["none"]]] for _ in range(rng.randrange(3, 8))]
    else:
        g = list(rng.choice([m for m in MODES if m[0] < 2048]))
        stages = [[2, [["none"]]] for _ in range(2)]
    for s in stages[1:]:
        s[1] = []
        for _ in range(rng.randrange(1, 3)):
            s[1].append(rng.choice([["noise", rng.randrange(1, 8), rng.choice([1, 30, 3000])], ["skew"] + [rng.randrange(7) for _ in range(3)],
                                    ["slip", rng.randrange(3), rng.randrange(10)], ["none"]]))
    return {"capfull": 1, "cfg": cfg, "g": g, "pol": rng.getrandbits(2), "hd": int(cfg["hdmi"] and rng.random() < .7), "mask": rng.choice([0xffffff, 0xffffff, 0x0f0f0f, 0x0000ff, 0, 0x800080]),
            "phase": [rng.randrange(10) for _ in range(3)], "skew": [rng.randrange(7) for _ in range(3)],
            "thr": [rng.choice([0, 0, 40, 100]), rng.choice([0, 0, 40, 100])], "slow": [rng.getrandbits(1), rng.getrandbits(1)],
            "pp": rng.choice([6734, 10000, 13468]), "ps": rng.choice([7000, 8000, 10000]), "stages": stages, "late": rng.choice([0, 0, 1, 3])}


MSG = {2: ("picture", "word %(n)d of a captured frame is %(got)x, the picture has %(exp)x"),
       3: ("address", "a write to word %(got)x that no loaded slot allows (next expected %(exp)x)"),
       4: ("late-frame", "a capture begins with the first pixel of frame %(got)d while frame %(exp)d is sent"),
       5: ("repeat", "frame %(got)d is captured after frame %(exp)d"),
       6: ("read-command", "the capture DMA issued a read"),
       7: ("no-write-data", "the memory takes the data of an accepted command but none are presented"),
       8: ("partial-write", "a word is written with byte enables %(got)x")}


def execute(plan, res):
    cfg, G = plan["cfg"], plan["g"]
    m, d = design(cfg)
    rng = random.Random(plan["seed"])
    k = Kernel(d, plan["seed"], metaw=rng.choice([0, 1000]))
    pp, ps = plan["pp"], plan["ps"]
    pf = cfg["w"] // 32
    # memory must keep up: a word every pf pixels
    thr = list(plan["thr"])
    if pf * pp < 2.5 * ps:
        thr = [min(t, 60) for t in thr]
    slow = plan["slow"] if pf * pp > 4 * ps else [0, 0]
    k.clock("pix", pp, phase=rng.randrange(pp) + 1)
    k.clock("sys", ps, phase=rng.randrange(ps) + 1)
    src, snk = m.src, m.snk
    for s, v in zip(src.g, G):
        d.set(s, v)
    d.set(src.pol, plan["pol"])
    d.set(src.hd, plan["hd"])
    d.set(src.mask, plan["mask"])
    for l in range(3):
        d.set(src.phase[l], plan["phase"][l])
        d.set(src.skew[l], plan["skew"][l])
    for i in range(2):
        d.set(snk.thr[i], thr[i])
        d.set(snk.slow[i], slow[i])
        res.fault("memory-stall", int(thr[i] > 0))
    n = G[0] * G[4]
    F = n // pf
    d.set(snk.words, F)
    d.set(m.hdmi.clocking.locked, 1)
    al = (cfg["w"] // 8).bit_length() - 1
    frame = G[3] * G[7] * pp
    csr = CSRMaster(k, m)
    st = {"set": 0, "cap": 0, "slots": [None] * NSLOT}
    d.set(snk.jfrom, 0xffffff)
    lockstep = {}

    def do(gen_):
        lockstep.pop("done", None)

        def t():
            lockstep["v"] = yield from gen_
            lockstep["done"] = 1
        k.thread("sys", t())
        for _ in range(4000):
            k.run(k.now + 50 * ps)
            if "done" in lockstep:
                return lockstep["v"]
        raise Violation("hang", "CPU access did not finish")

    def load(i):
        b = rng.randrange(0, (1 << AW) - F)
        yield from csr.write("dma_slot%d_address" % i, b << al)
        d.set(snk.base[i], b)
        d.set(snk.set, d.get(snk.set) ^ 1 << i)
        st["slots"][i] = b
        yield from csr.write("dma_slot%d_status" % i, 1)

    def init():
        if cfg["hdmi"]:
            yield from csr.write("decode_terc4_dvimode", int(not plan["hd"]))
        yield from csr.write("dma_frame_size", F << al)
        yield from csr.write("dma_ev_enable", (1 << NSLOT) - 1)
        for i in range(NSLOT):
            yield from load(i)

    def service():
        if plan["late"]:
            for _ in range(rng.randrange(plan["late"] * 200)):
                yield
        for i in range(NSLOT):
            s = yield from csr.read("dma_slot%d_status" % i)
            if s == 2:
                a = yield from csr.read("dma_slot%d_address" % i)
                if a >> al != st["slots"][i] + F:
                    raise Violation("slot-address", "slot %d reports address %#x after a frame at %#x" % (i, a >> al, st["slots"][i]))
                st["cap"] += 1
                if d.get(snk.cap) < st["cap"]:
                    raise Violation("early-pending", "slot %d is pending before all words of its frame were written" % i)
                yield from csr.write("dma_slot%d_status" % i, 0)
                yield from csr.write("dma_ev_pending", 1 << i)
                yield from load(i)
        return None

    def verdict():
        e = d.get(snk.err)
        if e:
            c, msg = MSG[e]
            raise Violation(c, ("%dx%d, frame %d sent: " % (G[0], G[4], d.get(src.f))) + msg % {"n": d.get(snk.en), "got": d.get(snk.egot), "exp": d.get(snk.eexp)})

    def pump(until_f):
        while d.get(src.f) < until_f:
            k.run(k.now + min(frame // 3, 20000 * pp))
            verdict()
            if d.get(m.hdmi.ev.irq):
                do(service())
                verdict()
    do(init())
    EXACT = 4
    for frames, dist in plan["stages"]:
        # disturbances first, in the middle of a frame
        k.run(k.now + rng.randrange(frame // pp) * pp // (1 if frame < 10**10 else 4))
        if any(op[0] != "none" for op in dist):
            d.set(snk.jfrom, 0xffffff)
            d.set(snk.hush, 1)
            k.run(k.now + 4 * ps)
        for op in dist:
            if op[0] == "noise":
                res.fault("noise-lane")
                d.set(src.noise, op[1])
                k.run(k.now + op[2] * pp)
                d.set(src.noise, 0)
            elif op[0] == "skew":
                res.fault("lane-skew")
                for l in range(3):
                    d.set(src.skew[l], op[1 + l])
            elif op[0] == "slip":
                res.fault("bit-slip")
                d.set(src.phase[op[1]], op[2])
        d.set(snk.hush, 0)
        verdict()
        f0 = d.get(src.f)
        # captures that begin with a frame from here on are judged
        d.set(snk.jfrom, f0 + EXACT)
        ok0 = d.get(snk.okf)
        pump(f0 + EXACT + frames)
        ok = d.get(snk.okf) - ok0
        res.probe("frame-captured", ok)
        res.probe("words-compared", ok * F)
        res.probe("full-size-frame" if frame > 10**9 else "soak-frame", ok)
        if ok < (frames - 2) // (2 + plan["late"]):
            raise Violation("missed-frame", "%dx%d: %d frames captured of %d sent over the clean link, slots are reloaded at once" % (G[0], G[4], ok, frames))

        def status():
            o = []
            for r, v in (("clocking_locked", 1), ("data0_charsync_char_synced", 1), ("data1_charsync_char_synced", 1), ("data2_charsync_char_synced", 1), ("chansync_channels_synced", 1),
                         ("resdetection_hres", G[0]), ("resdetection_vres", G[4])):
                x = yield from csr.read(r)
                o.append((r, x, v))
            return o
        for r, x, v in do(status()):
            if x != v:
                raise Violation("status", "%s reads %d instead of %d on a clean link" % (r, x, v))
        res.probe("status-checked")
    res.sim_ps, res.edges = k.now, d.mv[d.C_EDGES]
    res.fault("metastable-sample", d.mv[d.C_METAN])
    res.fault("torn-crossing", d.mv[d.C_TEARN])
    res.log(d.get(snk.cap), d.get(snk.okf), d.get(src.f))
    res.cfg = "%s-%d" % ("full" if frame > 10**9 else "soak", cfg["hdmi"])
    res.state("capfull", G[0], G[4], cfg["hdmi"], plan["pol"], tuple(t > 0 for t in thr), len(plan["stages"]))
    res.nontrivial = d.get(snk.okf) >= 2


def simplify(plan):
    if len(plan["stages"]) > 1:
        for i in range(len(plan["stages"])):
            yield dict(plan, stages=plan["stages"][:i] + plan["stages"][i + 1:])
    if any(plan["thr"]):
        yield dict(plan, thr=[0, 0])
    if any(plan["skew"]):
        yield dict(plan, skew=[0, 0, 0])
    if any(plan["phase"]):
        yield dict(plan, phase=[0, 0, 0])
