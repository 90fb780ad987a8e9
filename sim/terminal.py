"""Terminal test bench: Wishbone master and the reference picture."""
import os

import numpy as np
from migen import *
from litevideo.terminal import core as tcore

from .fhdl2c import Design
from .kernel import Violation
from . import runner

PALETTE = [0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
           0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff]
PAL = np.array(PALETTE, dtype=np.int64)
FONT = 4800
SIZE = 8896
H = (96, 48, 640, 16)
V = (2, 29, 480, 10)
LINE = sum(H)
FRAME = LINE * sum(V)


class Pads:
    def __init__(self):
        self.red, self.green, self.blue = Signal(8), Signal(8), Signal(8)
        self.hsync, self.vsync = Signal(), Signal()


class Top(Module):
    def __init__(self, cfg):
        self.clock_domains.cd_vga = ClockDomain()
        kw = {}
        if cfg["blank"]:
            kw = dict(font_filename="", screen_init_filename="")
        pads = Pads() if cfg["pads"] else None
        self.submodules.t = t = tcore.Terminal(pads, **kw)
        p = pads or t
        self.out = Signal(26)
        self.comb += self.out.eq(Cat(p.blue, p.green, p.red, p.hsync, p.vsync))


def initial(cfg):
    if cfg["blank"]:
        return [0] * SIZE
    base = os.path.join(runner.REPO, "litevideo", "terminal")
    out = b""
    for n in ("screen-init.bin", "cp437.bin"):
        with open(os.path.join(base, n), "rb") as f:
            out += f.read()
    return list(out)


def build(cfg):
    def b():
        m = Top(cfg)
        bus = m.t.bus
        return m, Design(m, keep=[m.out, bus.adr, bus.dat_w, bus.dat_r, bus.sel, bus.cyc, bus.stb, bus.we, bus.ack], unrelated=(("sys",), ("vga",)))
    return runner.design("term-%d-%d" % (cfg["blank"], cfg["pads"]), b)


class WB:
    """classic-cycle master: generators for a sys-domain thread"""
    def __init__(self, k, bus, model, res):
        d = k.d
        self.k, self.mv, self.res = k, d.mv, res
        self.adr, self.dw, self.sel = d.widx(bus.adr), d.widx(bus.dat_w), d.widx(bus.sel)
        self.cyc, self.stb, self.we = d.widx(bus.cyc), d.widx(bus.stb), d.widx(bus.we)
        self.ack, self.dr = d.ridx(bus.ack), d.ridx(bus.dat_r)
        self.model = model
        self.log = []            # (time, address, value): when each write was acknowledged
        self.t0 = {}
        self.n = 0
        self.mv[self.sel] = 1

    def idle(self, n, rng=None, cyc=None, adr=None, we=None, stb=0, dw=None):
        """n clocks without an access; the bus may carry another slave's traffic"""
        mv = self.mv
        for i in range(n):
            mv[self.stb] = stb
            mv[self.cyc] = 0 if cyc is None else cyc
            if adr is not None:
                mv[self.adr] = adr
            if dw is not None:
                mv[self.dw] = dw
            if we is not None:
                mv[self.we] = we
            yield
            if mv[self.ack]:
                raise Violation("spurious-ack", "acknowledge without an access (cyc=%r stb=%r)" % (cyc, stb))

    def access(self, we, adr, val=0, hold=0):
        mv = self.mv
        mv[self.adr], mv[self.dw], mv[self.we] = adr, val, we
        mv[self.cyc] = mv[self.stb] = 1
        yield                      # inputs active from here on
        t0 = self.k.now
        n = 0
        while not mv[self.ack]:
            n += 1
            if n > 32:
                raise Violation("no-ack", "%s of 0x%04x is not acknowledged within %d clocks" % ("write" if we else "read", adr, n))
            yield
        self.n += 1
        got = mv[self.dr]
        if we:
            self.log.append((t0, self.k.now, adr, val))
            self.model[adr] = val
        else:
            exp = self.model[adr]
            self.res.log(adr, got)
            if got != exp:
                raise Violation("read-data", "read of 0x%04x returned 0x%02x, the byte there is 0x%02x" % (adr, got, exp), area="text" if adr < FONT else "font")
        if not hold:
            mv[self.cyc] = 0
        mv[self.stb] = 0
        return got
