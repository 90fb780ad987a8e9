"""The whole receive side: a bit stream per lane into the real HDMIIn, a memory, and software that
loads capture slots and collects frames.  Used with generated links (C01) and with the bits
recorded from the real output (C17)."""
import random

from migen import *
import litevideo.input as inp
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import Kernel, Violation, CSRTop, CSRMaster
from .dram import Stall, WritePort
from .vendor import MODELS, ClkGen
from .video import scan
from . import hdmiin, tmds, runner

AW = 20
WER_BITS = 9           # measurement period of the word error counters (2**24 by default: too long to simulate)
SRC_DEPTH = 16384


class Player(Module):
    """plays a bit memory, bit 0 of each word first"""
    def __init__(self, domain, pad_p, pad_n, inverted):
        self.mem = Memory(64, SRC_DEPTH)
        port = self.mem.get_port(async_read=True)
        self.specials += self.mem, port
        sd = getattr(self.sync, domain)
        pos, adr = Signal(6, reset_less=True), Signal(max=SRC_DEPTH, reset_less=True)
        cur = Signal(reset_less=True)
        self.comb += port.adr.eq(adr)
        sd += [cur.eq((port.dat_r >> pos) & 1), pos.eq(pos + 1), If(pos == 63, adr.eq(adr + 1))]
        self.comb += [pad_p.eq(cur), pad_n.eq(~cur)]
        pad_p.other_eye = Signal()


class short_wer:
    """the error counters are built with a short period: their only parameter's default is changed meanwhile"""
    def __enter__(self):
        self.f = inp.WER.__init__
        self.old = self.f.__defaults__
        self.ok = self.old == (24,)
        if self.ok:
            self.f.__defaults__ = (WER_BITS,)
        return self

    def __exit__(self, *a):
        self.f.__defaults__ = self.old


def build(cfg, name="receiver", extend=None):
    """extend(hdmi) adds to the design before its CSRs are collected and returns (signals, clock domain groups)
    cfg: front word|xc7|xc6, hdmi, mode, w, depth, slots, inv"""
    def make(wer):
        if cfg["front"] == "word":
            m, d = hdmiin.word_chain(bool(cfg["hdmi"]), (AW, cfg["w"]), cfg["mode"], cfg["slots"], cfg["depth"], extend=extend)
            m.wer = wer
            return m, d
        inv = tuple(cfg.get("inv", ()))
        pads = hdmiin.make_pads(inv)
        port = LiteDRAMNativePort("write", AW, cfg["w"], clock_domain="sys")
        kw = {"split_mmcm": True} if cfg.get("split") else {}
        dut = inp.HDMIIn(pads, port, n_dma_slots=cfg["slots"], fifo_depth=cfg["depth"], device=cfg["front"], mode=cfg["mode"], hdmi=bool(cfg["hdmi"]), **kw)
        more, groups = extend(dut) if extend else ([], ())
        m = CSRTop(dut)
        m.hdmi, m.port = dut, port
        bit = "ddr_pix5x" if cfg["front"] == "xc7" else "pix10x"
        m.wer = wer
        m.players = []
        for n in ("data0", "data1", "data2"):
            p = Player(bit, getattr(pads, n + "_p"), getattr(pads, n + "_n"), n in inv)
            m.submodules += p
            m.players.append(p)
        d = Design(m, instance_models=MODELS, keep=m.keep + hdmiin.port_signals(port) + [dut.ev.irq] + more,
                   unrelated=(("sys",), ("pix", "pix1p25x", "ddr_pix5x", "pix2x", "pix10x", "pix_o")) + tuple(groups))
        return m, d

    def b():
        with short_wer() as w:
            return make(w.ok)
    return runner.design(name + repr(sorted(cfg.items())), b)


class Frame:
    """start: character index of the vsync edge that begins it, first and last: of its pixels"""
    def __init__(self, start, first, last, words):
        self.start, self.first, self.last, self.words = start, first, last, words


class Receiver:
    """link: three strings of '0'/'1' (wire order, equal length); frames: the clean ones (character positions are
    those of the slowest lane); clean: character index from which the link is clean; geom: (hres, vres);
    marks: list of (character index, fn(receiver)) run when the link has got that far"""
    EXACT = 3          # frames after which a capture that starts must be exact
    STATUS = 4         # frames after which status must be right
    MUST = 5           # frames after which every frame finding a loaded slot must be captured

    def __init__(self, cfg, plan, res, link, frames, clean, geom, same, split, rng):
        self.cfg, self.plan, self.res = cfg, plan, res
        self.m, self.d = self.make(cfg)
        self.k = k = Kernel(self.d, plan["seed"], metaw=1200)
        self.mv = self.d.mv
        self.rng = rng
        self.frames, self.clean, self.geom = frames, clean, geom
        self.same, self.split = same, split
        self.nchar = len(link[0]) // 10
        self.link = link
        self.word = cfg["front"] == "word"
        self.pp, self.ps = plan["ppix"] - plan["ppix"] % 40, plan["psys"]
        self.idx = 0
        self.T = {}                 # character index -> time reached
        self.marks = []
        d = self.d
        self.hdmi = self.m.hdmi
        if self.word:
            self.wi = [d.widx(getattr(self.hdmi, "data%d_cap" % c).d) for c in range(3)]
            self.raw = [[int(x[i:i + 10][::-1], 2) for i in range(0, len(x) - 9, 10)] for x in link]
            self.rst = d.widx(d.cds["pix"].rst)
            self.lock_in = d.widx(self.hdmi.clocking.locked)
        else:
            for x, p in zip(link, self.m.players):
                n = (len(x) + 63) // 64
                x = x.ljust(64 * n, "0")
                for w in range(n):
                    d.mem_set(p.mem, w, int(x[64 * w:64 * w + 64][::-1], 2))
            self.gens = [g for g in d.ctx.models if isinstance(g, ClkGen)]
            self.lock_in = [d.widx(g.lock) for g in self.gens]
        self.start_clocks(1000)
        k.clock("sys", self.ps, phase=1 + rng.randrange(self.ps), jitter=plan.get("jit", 0))
        self.wp_mem = {}
        self.cmdq = []
        cs, ds = Stall(plan["cs"], rng), Stall(plan["ds"], rng)
        self.stalls = (cs, ds)
        self.started = {}           # base address -> time of the latest write command there
        self.bases = {}             # base -> slot
        WritePort(k, self.m.port, "sys", cs, ds, self.on_cmd, self.on_data)
        self.csr = CSRMaster(k, self.m)
        self.csr.rng, self.csr.gap = rng, plan.get("gap", 0)
        self.captures = []          # (start time, seen time, words, base, load time)
        self.loads = []             # (time loaded, base)
        self.obs = []
        self.bad_lane = None        # lane sent known error words after the last frame
        self.wers = []
        self.wdone = set()
        k.hook("pix", self.pix)
        k.thread("sys", self.cpu())

    make = staticmethod(lambda cfg: build(cfg))

    # -- clocks and lock
    def start_clocks(self, delay):
        k, rng, pp = self.k, self.rng, self.pp
        t0 = delay + rng.randrange(pp)
        if self.word:
            k.clock("pix", pp, phase=t0, jitter=self.plan.get("jit", 0))
        elif self.cfg["front"] == "xc7":
            k.clock("ddr_pix5x", pp // 10, phase=t0)
            k.clock("pix1p25x", pp * 4 // 5, phase=t0 + pp // 10 * rng.randrange(8))
            k.clock("pix", pp, phase=t0 + rng.randrange(pp))
            if self.cfg.get("split"):
                k.clock("pix_o", pp, phase=t0 + rng.randrange(pp))
        else:
            k.clock("pix10x", pp // 10, phase=t0)
            k.clock("pix2x", pp // 2, phase=t0)
            k.clock("pix", pp, phase=t0)

    def stop_clocks(self):
        for n in (["pix"] if self.word else ["ddr_pix5x", "pix1p25x", "pix"] + (["pix_o"] if self.cfg.get("split") else []) if self.cfg["front"] == "xc7" else ["pix10x", "pix2x", "pix"]):
            self.k.clock_stop(n)

    def lock(self, v):
        mv = self.mv
        if self.word:
            mv[self.rst] = 1 - v
            mv[self.lock_in] = v
        else:
            for w in self.lock_in:
                mv[w] = v

    def pix(self):
        mv, k = self.mv, self.k
        if self.word:
            i = self.idx
            if i < self.nchar:
                a, b, c = self.wi
                r = self.raw
                mv[a], mv[b], mv[c] = r[0][i], r[1][i], r[2][i]
            self.idx = i + 1
        else:
            self.idx = k.edges("ddr_pix5x" if self.cfg["front"] == "xc7" else "pix10x") // 10
        while self.marks and self.marks[0][0] <= self.idx:
            at, what = self.marks.pop(0)
            if callable(what):
                what()
            else:
                self.T[what] = k.now

    # -- memory
    def on_cmd(self, a):
        self.cmdq.append(a)
        if a in self.bases:
            self.started[a] = self.k.now

    def on_data(self, v):
        self.wp_mem[self.cmdq.pop(0)] = v

    # -- software
    def wait(self, n):
        for _ in range(n):
            yield

    nextb = 16

    def alloc(self, fw):
        """where the next frame goes (None: no buffer is free yet)"""
        b = self.nextb
        self.nextb = (b + fw + 3) % ((1 << AW) - 2 * fw - 8)
        return b

    def prepare(self):
        yield from ()

    def captured(self, b, w):
        yield from ()

    def cpu(self):
        csr, cfg, plan, k = self.csr, self.cfg, self.plan, self.k
        n = cfg["slots"]
        al = (cfg["w"] // 8).bit_length() - 1
        fw = len(self.frames[0].words)
        if csr.has("clocking_mmcm_reset"):
            yield from csr.write("clocking_mmcm_reset", 0)
        if csr.has("clocking_pll_reset"):
            yield from csr.write("clocking_pll_reset", 0)
        if cfg["hdmi"]:
            yield from csr.write("decode_terc4_dvimode", int(not plan.get("hd", 1)))
        yield from csr.write("dma_frame_size", fw << al)
        yield from csr.write("dma_ev_enable", (1 << n) - 1)
        slot = [None] * n

        def load(i):
            b = self.alloc(fw)
            while b is None:
                yield
                b = self.alloc(fw)
            yield from csr.write("dma_slot%d_address" % i, b << al)
            self.bases[b] = i
            self.started.pop(b, None)
            slot[i] = [b, None]
            yield from csr.write("dma_slot%d_status" % i, 1)
            slot[i][1] = k.now
            self.loads.append((k.now, b))
        yield from self.prepare()
        for i in range(n):
            yield from load(i)
        rirq = self.d.ridx(self.hdmi.ev.irq)
        cleared = False
        delay = plan.get("reload", 0)
        while True:
            for mark in ("wer", "tail"):
                if self.m.wer and mark in self.T and mark not in self.wdone:
                    self.wdone.add(mark)
                    v = []
                    for c in range(3):
                        yield from csr.write("data%d_wer_update" % c, 1)
                        yield from self.wait(3)
                        v.append((yield from csr.read("data%d_wer_value" % c)))
                    self.wers.append((mark, v, self.idx))
            polls = 0
            while not self.mv[rirq] and polls < plan.get("poll", 200):
                polls += 1
                yield
            if self.mv[rirq]:
                for i in range(n):
                    s = yield from csr.read("dma_slot%d_status" % i)
                    if s == 2:
                        b, tl = slot[i]
                        a = yield from csr.read("dma_slot%d_address" % i)
                        if a >> al != b + fw:
                            raise Violation("slot-address", "slot %d reports address %#x after a frame at %#x" % (i, a >> al, b))
                        w = [self.wp_mem.get(b + j) for j in range(fw)]
                        self.captures.append((self.started.get(b), k.now, w, b, tl))
                        yield from self.captured(b, w)
                        yield from csr.write("dma_slot%d_status" % i, 0)
                        yield from csr.write("dma_ev_pending", 1 << i)
                        if delay:
                            yield from self.wait(self.rng.randrange(delay))
                        yield from load(i)
            elif "status" in self.T:
                if not cleared:
                    yield from csr.write("frame_overflow", 1)
                    yield from self.wait(10 + 10 * self.pp // self.ps)
                    cleared = True
                o = {}
                for r in ("clocking_locked", "data0_charsync_char_synced", "data1_charsync_char_synced", "data2_charsync_char_synced", "chansync_channels_synced",
                          "resdetection_hres", "resdetection_vres", "frame_overflow"):
                    o[r] = yield from csr.read(r)
                self.obs.append((k.now, o))
                if "end" not in self.T:
                    want = {"clocking_locked": 1, "data0_charsync_char_synced": 1, "data1_charsync_char_synced": 1, "data2_charsync_char_synced": 1, "chansync_channels_synced": 1,
                            "resdetection_hres": self.geom[0], "resdetection_vres": self.geom[1], "frame_overflow": 0}
                    for r, v in want.items():
                        if o[r] != v and (r != "frame_overflow" or not self.plan.get("slowmem")):
                            raise Violation("status", "%s reads %d instead of %d more than %d frames after the link became clean" % (r, o[r], v, self.STATUS))
                    self.res.probe("status-checked")

    # -- the run
    def run(self, events=()):
        """events: (character index, fn)"""
        f = self.frames
        dr = drain(self.plan, self.cfg)
        skip = next((i for i, x in enumerate(f) if x.start >= self.clean + dr), len(f)) if dr else 0
        self.MUST0 = self.MUST + skip

        def at(n):
            n += skip
            return f[n].start if n < len(f) else self.nchar
        self.marks = sorted([(self.clean, "clean"), (at(self.EXACT), "exact"), (at(self.STATUS), "status"), (at(self.MUST), "must"), (f[-1].last, "end")] + self.wmarks() +
                            [(x.first, ("first", i)) for i, x in enumerate(f)] + list(events), key=lambda x: x[0])
        k = self.k
        lim = k.now + (self.nchar + 100) * self.pp * 3 + 10**8
        while "end" not in self.T or self.idx < self.nchar + 4:
            k.run(k.now + 400 * self.pp)
            if k.now > lim:
                raise Violation("no-clock", "the pixel clock did not come back")
        k.run(k.now + 200 * self.pp + (300 + len(f[0].words) // 2) * self.ps)
        self.judge()

    def wmarks(self):
        """when the error counters are read: their last complete period lies in clean frames, and (tail) in the error words after them"""
        self.wlast = self.clean + 3 * (1 << WER_BITS) + 40
        o = [(self.wlast, "wer")] if self.wlast + 200 < self.frames[-1].last else []
        if self.bad_lane is not None:
            o.append((self.nchar - 4 * (1 << WER_BITS) + 100 + 2 * (1 << WER_BITS), "tail"))
            o.append((self.nchar - 4 * (1 << WER_BITS), "tail0"))
        return o

    def judge_wer(self):
        for mark, v, idx in self.wers:
            if mark == "wer" and idx < self.frames[-1].last:
                if any(v):
                    raise Violation("wer", "the word error counters read %r after more than two clean periods" % (v,))
                self.res.probe("wer-clean")
            elif mark == "tail" and idx < self.nchar - 30:
                n = (1 << WER_BITS) // 3
                for c in range(3):
                    lo, hi = (n - 3, n + 3) if c == self.bad_lane else (0, 0)
                    if not lo <= v[c] <= hi:
                        raise Violation("wer", "lane %d counts %d errors in a period of %d words; lane %d gets an invalid word every third word" % (c, v[c], 1 << WER_BITS, self.bad_lane))
                self.res.probe("wer-errors")

    def judge(self):
        self.judge_wer()
        T, res, f = self.T, self.res, self.frames
        got = {}
        for ts, tseen, words, base, tl in self.captures:
            if ts is None:
                raise Violation("capture", "slot at %#x became pending without a write to its first word" % base)
            late = ts >= T["exact"]
            if ts > T.get("tail0", 1 << 62):
                continue          # error words after the last frame
            ws = None
            cand = [i for i in range(len(f)) if ("first", i) in T and T[("first", i)] <= ts]
            fi = cand[-1] if cand else None
            if not late:
                res.probe("capture-before-recovery")
                continue
            if None in words:
                raise Violation("capture", "a captured frame has words that were never written")
            px = [self.split(w) for w in words]
            ok = fi is not None and all(self.same(a, b) for a, b in zip(px, f[fi].words))
            if not ok:
                j = next((j for j in range(len(px)) if not self.same(px[j], f[fi].words[j])), 0)
                other = [i for i in range(len(f)) if all(self.same(a, b) for a, b in zip(px, f[i].words))]
                if other:
                    raise Violation("late-frame", "the capture that started during frame %d holds frame %r" % (fi, other))
                raise Violation("picture", "the capture of clean frame %d (%d frames after the link became clean) differs from the picture at word %d of %d: %r instead of %r" % (
                    fi, fi, j, len(px), px[j][:4], f[fi].words[j][:4]))
            if fi in got:
                raise Violation("repeat", "frame %d was captured twice" % fi)
            got[fi] = 1
            res.probe("frame-captured")
            res.probe("words-compared", len(px))
        self.ncap = len(got)
        self.judge_missed(got)

    def judge_missed(self, got):
        """every clean frame that found a loaded slot must have been captured"""
        T, res, f = self.T, self.res, self.frames
        al = 12 * self.ps + 4 * self.pp
        seen = {c[3] for c in self.captures}
        for i in range(self.MUST0, len(f)):
            t0 = T.get(("first", i))
            if t0 is None or i in got:
                continue
            t1 = T.get(("first", i + 1), 1 << 62)
            if any(t0 <= ts < t1 and b not in seen for b, ts in self.started.items()):
                continue          # being written, or written and not collected yet
            # slots loaded well before the frame and not used by an earlier one
            if any(tl + al < t0 and self.started.get(b, 1 << 62) >= t0 for tl, b in self.loads):
                raise Violation("missed-frame", "clean frame %d found a loaded slot but was not captured (%d captures in all)" % (i, len(self.captures)))
            res.probe("no-slot")


def drain(plan, cfg):
    """characters it takes, at worst, to drain the words a capture FIFO replays when only its pixel side was reset"""
    if not any(f[0] in ("lock", "clk") for f in plan["faults"]):
        return 0
    pp = plan["ppix"] - plan["ppix"] % 40
    return 2 * cfg["depth"] * 3 * plan["psys"] // pp + 50


def gen_mild(rng):
    """stalls that leave most of the bandwidth"""
    out = [["on", rng.randrange(40, 120), 0]]
    for _ in range(rng.randrange(0, 3)):
        out.append(rng.choice([["off", rng.randrange(1, 16), 0], ["rnd", rng.randrange(1, 60), rng.choice([60, 80, 95])], ["on", rng.randrange(1, 50), 0]]))
        out.append(["on", 40, 0])
    return out


def lane_bits(chars):
    """list of 10-bit characters -> wire order string"""
    return "".join(format(w, "010b")[::-1] for w in chars)
