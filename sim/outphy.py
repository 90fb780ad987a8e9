"""Harness around the output side at pin level: pads, serial recorder, decoders."""
from migen import *
from litevideo.output.driver import Driver
from litevideo.output.hdmi.s6 import S6HDMIOutClocking
import litevideo.output as out
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import CSRTop
from .hdmiin import make_pads, port_signals
from .vendor import MODELS, ClkGen
from .tmds import CONTROL_INV, decode_data
from .vout import AW, DW
from . import runner

LANES = ("data0", "data1", "data2", "clk")


class VGAPads:
    def __init__(self, wr, wg, wb):
        self.clk = Signal()
        self.hsync_n, self.vsync_n, self.psave_n = Signal(), Signal(), Signal()
        self.r, self.g, self.b = Signal(wr), Signal(wg), Signal(wb)


class Recorder(Module):
    """last ten bits of every lane, oldest in bit 0, and a sticky flag for a broken differential pair"""
    def __init__(self, pads, bit):
        self.rec = Signal(40)
        self.bad = Signal(4)
        sd = getattr(self.sync, bit)
        for i, n in enumerate(LANES):
            p, q = getattr(pads, n + "_p"), getattr(pads, n + "_n")
            sr = Signal(10, reset_less=True)
            f = Signal(reset_less=True)
            sd += [sr.eq(Cat(sr[1:], p)), If(p == q, f.eq(1))]
            self.comb += [self.rec[10 * i:10 * i + 10].eq(sr), self.bad[i].eq(f)]
        t = Signal()
        self.sync.rec += t.eq(~t)


class Ext(Module):
    """Spartan-6 driver whose clocks come from another output's clocking"""
    def __init__(self, pads, mode):
        self.submodules.own = S6HDMIOutClocking(make_pads(), None)
        self.submodules.drv = Driver("xc6slx45", pads, mode, external_clocking=self.own)
        self.sink = self.drv.sink
        self.get_csrs = self.own.get_csrs


def top_design(cfg):
    """cfg: fam xc6|xc7, kind drv|vo, mode, inv (lane list), vga (widths) or None, ext"""
    def b():
        fam, mode = cfg["fam"], cfg["mode"]
        dev = {"xc7": "xc7a35t", "xc6": "xc6slx45"}[fam]
        vga = cfg.get("vga")
        pads = VGAPads(*vga) if vga else make_pads(cfg.get("inv", ()))
        port = None
        if cfg["kind"] == "drv":
            dut = Ext(pads, mode) if cfg.get("ext") else Driver(dev, pads, mode)
        else:
            port = LiteDRAMNativePort("read", AW, DW[mode], clock_domain="pix")
            dut = out.VideoOut(dev, pads, port, mode=mode, fifo_depth=cfg.get("depth", 64))
        m = CSRTop(dut)
        m.port, m.pads = port, pads
        # the recorder sits next to the device, so domain names come out as the device's
        m.dom = {"pix": "pix", "pix2x": "pix2x", "bit": "ddr_pix5x" if fam == "xc7" else "pix10x"}
        if cfg.get("ext"):
            m.dom = {"pix": "drv_pix", "pix2x": "drv_pix2x", "bit": "drv_pix10x"}
        keep = list(m.keep)
        if not vga:
            m.submodules.recorder = r = Recorder(pads, m.dom["bit"])
            keep += [r.rec, r.bad]
        else:
            keep += [pads.clk, pads.hsync_n, pads.vsync_n, pads.psave_n, pads.r, pads.g, pads.b]
        if port is not None:
            keep += port_signals(port)
        else:
            keep += dut.sink.flatten()
        return m, Design(m, instance_models=MODELS, keep=keep)
    return runner.design("outphy" + repr(sorted(cfg.items())), b)


def start_clocks(k, m, cfg, pp, rng, ps=None):
    """starts every clock; returns the time of the first pixel edge"""
    d = k.d
    dom = m.dom
    t0 = 1000 + rng.randrange(pp)
    k.clock(dom["pix"], pp, phase=t0)
    if cfg["fam"] == "xc6":
        k.clock(dom["pix2x"], pp // 2, phase=t0)
        if not cfg.get("vga"):
            k.clock(dom["bit"], pp // 10, phase=t0)
    elif not cfg.get("vga"):
        k.clock(dom["bit"], pp // 10, phase=t0 + rng.randrange(pp // 10))
    if not cfg.get("vga"):
        k.clock("rec", pp, phase=t0 + rng.randrange(pp))
    k.clock("sys", ps or 10000, phase=1 + rng.randrange(8000))
    return t0


def gens(d):
    return [g for g in d.ctx.models if isinstance(g, ClkGen)]


def bitstr(words):
    return "".join(format(w, "010b")[::-1] for w in words)


def align(lanes):
    """character offset (0..9) at which control characters appear on lane 0"""
    best = None
    s = lanes[0]
    from .tmds import CONTROL
    pats = [format(c, "010b")[::-1] for c in CONTROL]
    score = [0] * 10
    for p in pats:
        i = s.find(p)
        n = 0
        while i >= 0 and n < 4000:
            score[i % 10] += 1
            i = s.find(p, i + 1)
            n += 1
    return max(range(10), key=lambda o: score[o])


def decode(lanes, off):
    """list of (de, hs, vs, r, g, b) per character; de None when the lanes disagree"""
    n = min((len(x) - off) // 10 for x in lanes[:3])
    out = []
    for i in range(n):
        w = [int(x[off + 10 * i:off + 10 * i + 10][::-1], 2) for x in lanes[:3]]
        c = [CONTROL_INV.get(x) for x in w]
        if c[0] is not None and c[1] == 0 and c[2] == 0:
            out.append((0, c[0] & 1, c[0] >> 1, 0, 0, 0))
        elif c[0] is None and c[1] is None and c[2] is None:
            out.append((1, 0, 0, decode_data(w[2]), decode_data(w[1]), decode_data(w[0])))
        else:
            out.append((None, c[0], c[1], c[2], 0, 0))
    return out
