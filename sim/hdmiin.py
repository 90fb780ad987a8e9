"""The real HDMIIn receive chain with the front end (clock recovery and lane capture) either
replaced at word level or kept (bit level, with vendor primitive models)."""
from migen import *
from litex.soc.interconnect.csr import AutoCSR, CSRStatus
import litevideo.input as inp
from litedram.common import LiteDRAMNativePort

from .fhdl2c import Design
from .kernel import CSRTop


class WordCapture(Module, AutoCSR):
    """stands for the serdes: `d` is poked with raw 10-bit words"""
    def __init__(self, pad_p, pad_n, ntbits=8):
        self.d = Signal(10)


class WordClocking(Module, AutoCSR):
    def __init__(self, pads, clkin_freq=None, split=False):
        self._locked = CSRStatus()
        self.locked = Signal()
        self.clock_domains.cd_pix = ClockDomain("pix")
        self.clock_domains.cd_pix_o = ClockDomain("pix_o")
        self.comb += [self._locked.status.eq(self.locked),
                      self.cd_pix_o.clk.eq(self.cd_pix.clk), self.cd_pix_o.rst.eq(self.cd_pix.rst)]


inp.clocking_cls["word"] = WordClocking
inp.datacapture_cls["word"] = WordCapture


class Pads:
    pass


def make_pads(inverted=(), edid=False):
    p = Pads()
    for n in ("clk", "data0", "data1", "data2"):
        for s in "pn":
            x = Signal(name="pad_%s_%s" % (n, s))
            if n in inverted:
                x.inverted = True
            setattr(p, n + "_" + s, x)
    if edid:
        p.scl = Signal()
        p.sda = Signal()
    return p


def word_chain(hdmi=False, dram=None, mode="rgb", nslots=1, fifo_depth=64, more=None, extend=None):
    """dram: (address width, data width) or None"""
    port = None
    if dram is not None:
        port = LiteDRAMNativePort("write", dram[0], dram[1], clock_domain="sys")
    dut = inp.HDMIIn(make_pads(), port, n_dma_slots=nslots, fifo_depth=fifo_depth, device="word", mode=mode, hdmi=hdmi)
    ext, groups = extend(dut) if extend else ([], ())
    top = CSRTop(dut)
    sp = dut.syncpol
    keep = [dut.clocking.locked, dut.data0_cap.d, dut.data1_cap.d, dut.data2_cap.d,
            sp.valid_o, sp.de, sp.hsync, sp.vsync, sp.r, sp.g, sp.b,
            dut.chansync.chan_synced] + [x for n in range(3) for x in getattr(dut.chansync, "data_out%d" % n).flatten()] + [ dut.data0_charsync.synced, dut.data1_charsync.synced, dut.data2_charsync.synced] + top.keep + ext
    if more is not None:
        keep += more(dut)
    if port is not None:
        keep += port_signals(port) + [dut.ev.irq]
    d = Design(top, keep=keep, unrelated=(("sys",), ("pix",)) + tuple(groups))
    top.port = port
    top.hdmi = dut
    return top, d


def port_signals(port):
    return [port.cmd.valid, port.cmd.ready, port.cmd.we, port.cmd.addr,
            port.wdata.valid, port.wdata.ready, port.wdata.data, port.wdata.we,
            port.rdata.valid, port.rdata.ready, port.rdata.data]


class LaneShift:
    """word stream -> raw 10-bit words at an arbitrary bit phase (LSB of a word is sent first)"""
    def __init__(self, phase):
        self.phase = phase
        self.acc = 0
        self.n = phase      # `phase` unknown bits precede the stream

    def push(self, w):
        self.acc |= w << self.n
        self.n += 10
        o = self.acc & 0x3ff
        self.acc >>= 10
        self.n -= 10
        return o

    def slip(self, k):
        """drop k bits (k>0) of the bits in flight or insert -k"""
        if k > 0:
            k = min(k, self.n)
            self.acc >>= k
            self.n -= k
        else:
            self.n -= k
            self.acc <<= -k
