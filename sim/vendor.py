"""Behavioural models of the Xilinx primitives the library instantiates.

A model is chosen by primitive name and sees the instance exactly as written in the code under
test: its clock, data and control connections and its parameters.  Everything software or the
outside world decides (lock, DRP completion, phase detector votes) is an input poked by the
harness and listed in ctx.models.

DDR primitives on clock X shift in the auxiliary domain "ddr_X", which the harness runs at twice
the rate of X."""
from migen import *
from migen.fhdl.structure import _Operator
from migen.fhdl.specials import Instance

from .fhdl2c import SimModelError


class Ports:
    def __init__(self, dr):
        self.dr = dr
        self.i, self.o, self.p = {}, {}, {}
        for it in dr.items:
            if isinstance(it, Instance.Input):
                self.i[it.name] = it.expr
            elif isinstance(it, Instance.Output):
                self.o[it.name] = it.expr
            elif isinstance(it, Instance.Parameter):
                v = it.value
                self.p[it.name] = v.value if isinstance(v, Constant) else v

    def inp(self, n, default=0):
        return self.i.get(n, Constant(default))

    def cd(self, n):
        e = self.i.get(n)
        if isinstance(e, ClockSignal):
            return e.cd
        for cd in getattr(self.dr, "sim_cds", ()):      # the domain's clock signal itself
            if cd.clk is e:
                return cd.name
        raise SimModelError("%s.%s is not a clock domain" % (self.dr.of, n))


def trace(d, s):
    """follow plain renamings of a signal back to where it is made"""
    for _ in range(100):
        if not isinstance(s, Signal) or s.duid not in d.comb_targets:
            break
        sts = d.comb_targets[s.duid][1]
        if len(sts) != 1 or not hasattr(sts[0], "r") or not isinstance(sts[0].r, Signal) or sts[0].l is not s:
            break
        s = sts[0].r
    return s


def ibufds(ctx, dr):
    p = Ports(dr)
    m = Module()
    if "O" in p.o:
        m.comb += p.o["O"].eq(p.inp("I"))
    return m


def ibufds_diff_out(ctx, dr):
    """OB normally is ~I; the harness may let the OB side see another bit (sampling in another eye)."""
    p = Ports(dr)
    m = Module()
    x = getattr(p.inp("I"), "other_eye", None)
    if x is None:
        x = Signal()
    ctx.extra.append(x)
    ctx.models.append(dict(kind="IBUFDS_DIFF_OUT", obx=x, i=p.inp("I"), o=p.o.get("O")))
    if "O" in p.o:
        m.comb += p.o["O"].eq(p.inp("I") ^ 0)       # an operator, so that `trace` stops here
    if "OB" in p.o:
        m.comb += p.o["OB"].eq(~p.inp("I") ^ x)
    return m


def obufds(ctx, dr):
    p = Ports(dr)
    m = Module()
    m.comb += p.o["O"].eq(p.inp("I"))
    if "OB" in p.o:
        m.comb += p.o["OB"].eq(~p.inp("I"))
    return m


def buf(ctx, dr):
    p = Ports(dr)
    m = Module()
    m.comb += p.o["O"].eq(p.inp("I"))
    return m


def idelaye2(ctx, dr):
    p = Ports(dr)
    m = Module()
    cnt = Signal(5, reset=int(p.p.get("IDELAY_VALUE", 0)))
    ld, ce, inc = Signal(), Signal(), Signal()
    m.comb += [ld.eq(p.inp("LD")), ce.eq(p.inp("CE")), inc.eq(p.inp("INC"))]
    if p.p.get("IDELAY_TYPE") == "VARIABLE":
        cnt.reset_less = True
        sd = getattr(m.sync, p.cd("C"))
        sd += If(ld, cnt.eq(int(p.p.get("IDELAY_VALUE", 0)))).Elif(ce, If(inc, cnt.eq(cnt + 1)).Else(cnt.eq(cnt - 1)))
    src = p.inp("IDATAIN") if p.p.get("DELAY_SRC", "IDATAIN") == "IDATAIN" else p.inp("DATAIN")
    m.comb += p.o["DATAOUT"].eq(src ^ 0)
    if "CNTVALUEOUT" in p.o:
        m.comb += p.o["CNTVALUEOUT"].eq(cnt)
    ctx.extra += [cnt, ld, ce, inc]
    ctx.models.append(dict(kind="IDELAYE2", cnt=cnt, src=src, out=p.o["DATAOUT"], domain=p.cd("C"), ld=ld, ce=ce, inc=inc))
    return m


def iserdese2(ctx, dr):
    p = Ports(dr)
    m = Module()
    w = int(p.p.get("DATA_WIDTH", 8))
    src = p.inp("DDLY") if p.p.get("IOBDELAY", "NONE") in ("IFD", "BOTH") else p.inp("D")
    bit = ("ddr_" if p.p.get("DATA_RATE", "DDR") == "DDR" else "") + p.cd("CLK")
    sr = Signal(w, reset_less=True)          # sr[0] oldest
    q = Signal(w, reset_less=True)
    getattr(m.sync, bit).__iadd__(sr.eq(Cat(sr[1:], src)))
    getattr(m.sync, p.cd("CLKDIV")).__iadd__(If(p.inp("RST"), q.eq(0)).Elif(p.inp("CE1"), q.eq(sr)))
    for n in range(1, 9):
        o = p.o.get("Q%d" % n)
        if o is not None:
            m.comb += o.eq(q[w - n] if n <= w else 0)
    ctx.extra += [q]
    ctx.models.append(dict(kind="ISERDESE2", q=q, domain=p.cd("CLKDIV"), src=src))
    return m


def iodelay2(ctx, dr):
    """BUSY rises with the clock that takes CE or CAL and lasts `dur` clocks (poked)."""
    p = Ports(dr)
    m = Module()
    sd = getattr(m.sync, p.cd("CLK"))
    dur = Signal(8, reset=4)
    left = Signal(8, reset_less=True)
    cal, ce, inc, rst = Signal(), Signal(), Signal(), Signal()
    ncal, nrst, ninc, ndec, nbad = [Signal(16, reset_less=True) for _ in range(5)]
    busy = Signal()
    m.comb += [cal.eq(p.inp("CAL")), ce.eq(p.inp("CE")), inc.eq(p.inp("INC")), rst.eq(p.inp("RST")), busy.eq(left != 0)]
    sd += [
        If(left != 0, left.eq(left - 1)),
        If(cal | ce, left.eq(dur), If(left != 0, nbad.eq(nbad + 1))),
        If(cal, ncal.eq(ncal + 1)),
        If(rst, nrst.eq(nrst + 1)),
        If(ce, If(inc, ninc.eq(ninc + 1)).Else(ndec.eq(ndec + 1)))]
    m.comb += [p.o["BUSY"].eq(busy), p.o["DATAOUT"].eq(p.inp("IDATAIN"))]
    ctx.extra += [dur, left, ncal, nrst, ninc, ndec, nbad, busy]
    ctx.models.append(dict(kind="IODELAY2", role=p.p.get("SERDES_MODE"), dur=dur, ncal=ncal, nrst=nrst, ninc=ninc,
                           ndec=ndec, nbad=nbad, busy=busy, domain=p.cd("CLK")))
    return m


def iserdes2(ctx, dr):
    p = Ports(dr)
    m = Module()
    role = p.p.get("SERDES_MODE")
    w = int(p.p.get("DATA_WIDTH", 5))
    sr = Signal(8, reset_less=True)          # sr[7] newest
    q = Signal(8, reset_less=True)
    getattr(m.sync, p.cd("CLK0")).__iadd__(sr.eq(Cat(sr[1:], p.inp("D"))))
    # the fabric side takes a word only when the BUFPLL's strobe reaches the primitive
    getattr(m.sync, p.cd("CLKDIV")).__iadd__(If(p.inp("IOCE"), q.eq(sr)))
    # master: Q4 newest .. Q1; slave continues with older bits, its Q4 is the (newest-4)th
    for n in range(1, 5):
        o = p.o.get("Q%d" % n)
        if o is not None:
            k = 7 - (4 - n) if role == "MASTER" else 3 - (4 - n)
            m.comb += o.eq(q[k])
    if "VALID" in p.o:
        v, idc = Signal(), Signal()
        m.comb += [p.o["VALID"].eq(v), p.o["INCDEC"].eq(idc)]
        ctx.extra += [v, idc]
        ctx.models.append(dict(kind="ISERDES2", valid=v, incdec=idc, domain=p.cd("CLKDIV")))
    return m


def _load_flag(m, clkdiv, bit, nxt):
    """returns (load pulse in the bit domain, word held since the last CLKDIV edge)"""
    n = len(nxt)
    word, tog, tog_d = Signal(n, reset_less=True), Signal(reset_less=True), Signal(reset_less=True)
    getattr(m.sync, clkdiv).__iadd__([word.eq(nxt), tog.eq(~tog)])
    getattr(m.sync, bit).__iadd__(tog_d.eq(tog))
    return tog != tog_d, word


def oserdese2(ctx, dr):
    p = Ports(dr)
    m = Module()
    if p.p.get("SERDES_MODE", "MASTER") == "SLAVE":
        on = ~p.inp("RST") & p.inp("OCE") & int(p.p.get("DATA_WIDTH", 4) in (10, 14))
        m.comb += [p.o["SHIFTOUT1"].eq(p.inp("D3") & on), p.o["SHIFTOUT2"].eq(p.inp("D4") & on)]
        return m
    w = int(p.p.get("DATA_WIDTH", 4))
    if w not in ((4, 6, 8, 10, 14) if p.p.get("DATA_RATE_OQ", "DDR") == "DDR" else range(2, 9)):
        m.comb += p.o["OQ"].eq(0)               # not a width of the device: no data
        return m
    bit = ("ddr_" if p.p.get("DATA_RATE_OQ", "DDR") == "DDR" else "") + p.cd("CLK")
    nxt = Signal(w)
    bits = [p.inp("D%d" % n) for n in range(1, 9)] + [p.inp("SHIFTIN1"), p.inp("SHIFTIN2")]
    m.comb += nxt.eq(Mux(p.inp("RST") | ~p.inp("OCE"), 0, Cat(*bits[:w])))
    load, word = _load_flag(m, p.cd("CLKDIV"), bit, nxt)
    sr = Signal(w, reset_less=True)
    getattr(m.sync, bit).__iadd__(If(load, sr.eq(word)).Else(sr.eq(sr[1:])))
    m.comb += p.o["OQ"].eq(sr[0])
    return m


def oserdes2(ctx, dr):
    """the slave's four bits leave first, then the master's D1"""
    p = Ports(dr)
    m = Module()
    bit = p.cd("CLK0")
    nxt = Signal(4)
    # the BUFPLL divides by five: any other width, rate or the training pattern sends something else
    on = int(p.p.get("DATA_WIDTH", 2) == 5 and p.p.get("DATA_RATE_OQ", "DDR") == "SDR")
    m.comb += nxt.eq(Mux(~p.inp("RST") & ~p.inp("TRAIN") & p.inp("OCE") & on, Cat(*[p.inp("D%d" % n) for n in range(1, 5)]), 0))
    edge, word = _load_flag(m, p.cd("CLKDIV"), bit, nxt)
    load = Signal()
    m.comb += load.eq(edge & p.inp("IOCE"))     # loads only with the BUFPLL's strobe
    sd = getattr(m.sync, bit)
    sr = Signal(4, reset_less=True)
    if p.p.get("SERDES_MODE") == "SLAVE":
        sd += If(load, sr.eq(word)).Else(sr.eq(sr[1:]))
        m.comb += p.o["SHIFTOUT3"].eq(sr[0])
    else:
        n = Signal(4, reset_less=True)
        sd += If(load, n.eq(0), sr.eq(word)).Else(If(n != 15, n.eq(n + 1)), If(n >= 4, sr.eq(sr[1:])))
        m.comb += p.o["OQ"].eq(Mux(n >= 4, sr[0], p.inp("SHIFTIN3")))
    return m


def oddr2(ctx, dr):
    p = Ports(dr)
    m = Module()
    c0, c1 = p.i.get("C0"), p.i.get("C1")
    # two inputs in opposite phase; with both in phase the second one never shows
    n0, n1 = (isinstance(c, _Operator) and c.op == "~" for c in (c0, c1))
    x = Mux(p.inp("C0"), p.inp("D0"), p.inp("D1") if n0 != n1 else p.inp("D0"))
    m.comb += p.o["Q"].eq(Mux(p.inp("CE", 1) & ~p.inp("R"), x | p.inp("S"), p.inp("S") & ~p.inp("R")))
    return m


class ClkGen:
    """a clock generator: named clock roots, DRP pins, lock"""
    def __init__(self, ctx, dr, mult, div, outdiv):
        p = Ports(dr)
        self.of = dr.of
        self.index = len([x for x in ctx.models if isinstance(x, ClkGen)])
        self.name = "gen%d" % self.index
        self.clkin = p.i.get("CLKIN1", p.i.get("CLKIN"))
        sel = p.i.get("CLKINSEL")
        sel = getattr(sel, "value", sel)
        if isinstance(sel, int) and not sel & 1:
            self.clkin = p.i.get("CLKIN2")
        self.feedback = (p.i["CLKFBIN"], p.o.get("CLKFBOUT")) if "CLKFBIN" in p.i else None
        self.mult, self.div = mult, div
        self.outs = {}
        m = Module()
        for port, dv in outdiv.items():
            s = p.o.get(port)
            if s is not None:
                ctx.named_roots[s.duid] = "%s.%s" % (self.name, port)
                self.outs[port] = (s, dv)
                ctx.extra.append(s)
        self.lock = Signal()
        self.rst = Signal()
        self.locked = Signal()
        m.comb += [self.rst.eq(p.inp("RST")), self.locked.eq(self.lock & ~self.rst)]
        if "LOCKED" in p.o:
            m.comb += p.o["LOCKED"].eq(self.locked)
        self.drp = "DEN" in p.i
        ctx.extra += [self.lock, self.rst, self.locked]
        if self.drp:
            self.dclk = p.cd("DCLK")
            self.den, self.dwe, self.drdy = Signal(), Signal(), Signal()
            self.dadr, self.di, self.do = Signal(7), Signal(16), Signal(16)
            m.comb += [self.den.eq(p.inp("DEN")), self.dwe.eq(p.inp("DWE")), self.dadr.eq(p.inp("DADDR")), self.di.eq(p.inp("DI")),
                       p.o["DRDY"].eq(self.drdy), p.o["DO"].eq(self.do)]
            ctx.extra += [self.den, self.dwe, self.drdy, self.dadr, self.di, self.do]
        self.prog = "PROGEN" in p.i
        if self.prog:
            self.pclk = p.cd("PROGCLK")
            self.pen, self.pdat, self.pdone = Signal(), Signal(), Signal()
            m.comb += [self.pen.eq(p.inp("PROGEN")), self.pdat.eq(p.inp("PROGDATA")), p.o["PROGDONE"].eq(self.pdone)]
            ctx.extra += [self.pen, self.pdat, self.pdone]
        ctx.models.append(self)
        self.module = m


def mmcme2_adv(ctx, dr):
    p = Ports(dr).p
    outs = {"CLKOUT0": float(p.get("CLKOUT0_DIVIDE_F", 1))}
    for n in range(1, 7):
        outs["CLKOUT%d" % n] = float(p.get("CLKOUT%d_DIVIDE" % n, 1))
    return ClkGen(ctx, dr, float(p.get("CLKFBOUT_MULT_F", 5)), float(p.get("DIVCLK_DIVIDE", 1)), outs).module


def plle2_adv(ctx, dr):
    p = Ports(dr).p
    outs = {"CLKOUT%d" % n: float(p.get("CLKOUT%d_DIVIDE" % n, 1)) for n in range(6)}
    return ClkGen(ctx, dr, float(p.get("CLKFBOUT_MULT", 5)), float(p.get("DIVCLK_DIVIDE", 1)), outs).module


def dcm_clkgen(ctx, dr):
    p = Ports(dr).p
    f = getattr(Ports(dr).inp("FREEZEDCM"), "value", 0)
    return ClkGen(ctx, dr, 0. if f else float(p.get("CLKFX_MULTIPLY", 4)), float(p.get("CLKFX_DIVIDE", 1)), {"CLKFX": 1.0}).module


BUFPLL_ALIGN = 24


def bufpll(ctx, dr):
    """LOCK follows the PLL's lock once the strobe is aligned, some words later; the strobe marks every word: the serdes models
    load only while it reaches them"""
    p = Ports(dr)
    m = Module()
    m.comb += p.o["IOCLK"].eq(p.inp("PLLIN"))
    if "LOCK" in p.o:
        n = Signal(max=BUFPLL_ALIGN + 1, reset_less=True)
        lock = Signal()
        getattr(m.sync, p.cd("GCLK")).__iadd__(If(~p.inp("LOCKED"), n.eq(0)).Elif(n != BUFPLL_ALIGN, n.eq(n + 1)))
        m.comb += [lock.eq(p.inp("LOCKED") & (n == BUFPLL_ALIGN)), p.o["LOCK"].eq(lock)]
        ctx.extra.append(lock)
        ctx.models.append(dict(kind="BUFPLL", lock=lock))
    if "SERDESSTROBE" in p.o:
        m.comb += p.o["SERDESSTROBE"].eq(1)
    return m


MODELS = {
    "IBUFDS": ibufds, "IBUFDS_DIFF_OUT": ibufds_diff_out, "OBUFDS": obufds, "BUFG": buf, "BUFR": buf, "BUFIO": buf, "BUFH": buf,
    "IDELAYE2": idelaye2, "ISERDESE2": iserdese2, "IODELAY2": iodelay2, "ISERDES2": iserdes2,
    "OSERDESE2": oserdese2, "OSERDES2": oserdes2, "ODDR2": oddr2,
    "MMCME2_ADV": mmcme2_adv, "PLLE2_ADV": plle2_adv, "PLL_ADV": plle2_adv, "DCM_CLKGEN": dcm_clkgen, "BUFPLL": bufpll,
}
