import random

from migen import *
from litex.soc.interconnect.csr import AutoCSR
from litevideo.input.edid import EDID, _default_edid

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from .. import runner, hdmiin

US = 1000000          # ps


class Pads:
    pass


class Top(Module, AutoCSR):
    """The device on a wired-AND bus plus a monitor that latches what a host process could miss between its steps."""
    def __init__(self, cfg):
        p = Pads()
        v = cfg["pads"]
        self.host = Signal(reset=1)      # host SDA: 0 pulls the line low
        self.scl = Signal(reset=1)
        self.hpd = Signal()
        p.scl = Signal(name="pad_scl")
        p.sda = Signal(name="pad_sda")
        self.pad_sda = p.sda
        self.line = Signal()
        if "inv" in v:
            p.scl.inverted = True
            self.comb += p.scl.eq(~self.scl)
        else:
            self.comb += p.scl.eq(self.scl)
        self.pu = Signal()
        if "split" in v:
            p.sda_pu = Signal(name="pad_sda_pu")
            p.sda_pd = Signal(name="pad_sda_pd")
            self.comb += [self.line.eq(self.host & ~p.sda_pd), self.pu.eq(p.sda_pu)]
            if "inv" in v:
                p.sda.inverted = True
                self.comb += p.sda.eq(~self.line)
            else:
                self.comb += p.sda.eq(self.line)
        else:
            self.comb += self.line.eq(p.sda)
        if "hpd" in v:
            p.hpd_en = Signal(name="pad_hpd_en")
            p.hpd_notif = Signal(name="pad_hpd_notif")
            self.hpd_en = p.hpd_en
            if "inv" in v:
                p.hpd_notif.inverted = True
                self.comb += p.hpd_notif.eq(~self.hpd)
            else:
                self.comb += p.hpd_notif.eq(self.hpd)
        if cfg.get("via"):
            # the device as the HDMI input instantiates it
            q = hdmiin.make_pads()
            for n in ("scl", "sda", "sda_pu", "sda_pd", "hpd_en", "hpd_notif"):
                if hasattr(p, n):
                    setattr(q, n, getattr(p, n))
            kw = {} if cfg["rom"] == "default" else {"default_edid": cfg_rom(cfg)}
            x = hdmiin.inp.HDMIIn(q, None, device="word", **kw)
            self.submodules += x
            self.edid = x.edid
        else:
            self.submodules.edid = EDID(p, default=cfg_rom(cfg))
        self.allow, self.mask = Signal(), Signal()
        self.bad, self.chg = Signal(), Signal()
        self.clear = Signal()
        pull, pull_r, scl_r, host_r, mask_r, rst = Signal(), Signal(), Signal(reset=1), Signal(reset=1), Signal(), Signal()
        self.comb += pull.eq(self.host & ~self.line)
        self.sync.mon += [
            pull_r.eq(pull), scl_r.eq(self.scl), host_r.eq(self.host), mask_r.eq(self.mask),
            If(pull & ~self.allow & ~self.mask, self.bad.eq(1)),
            If((pull != pull_r) & self.scl & scl_r & self.host & host_r & ~self.mask & ~mask_r, self.chg.eq(1)),
        ]


def cfg_rom(cfg):
    if cfg["rom"] == "default":
        return _default_edid
    r = random.Random(cfg["n"])
    return [r.getrandbits(8) for _ in range(cfg["n"])]


class Gone(Exception):
    """the transaction was cut"""


class Check:
    PROP = "C02"
    RUNS = {"quick": 1500, "thorough": 60000}
    CHUNK = 6
    MIN_RUNS = 60
    RULE = ("one run = a sequence of DDC transactions by a standard-mode host (offset writes, current-address and random reads, repeated starts, over-long "
            "writes, foreign addresses, aborts at any clock, hot-plug disable in mid-transaction, reset, software access to the EDID memory); "
            "non-trivial when >= 3 bytes were read and compared and >= 1 fault or abort happened")
    STATE_MEASURE = "hash of (pad variant, transaction kind, clock at which it was cut or 'whole', how it was cut)"
    REAL = ["litevideo.input.edid.EDID", "litex CSR bank and CSR memory"]
    STUB = ["DDC host", "SDA/SCL wired-AND bus", "other bus devices", "CPU on the CSR bus"]
    ASSUMPTIONS = ["host timing within I2C standard mode (4.7/4.0 us low/high, 250 ns set-up, 300 ns hold), no bus glitches",
                   "system clock 25 to 125 MHz", "software writes the EDID memory between transactions"]
    FAULTS = ("abort-stop", "abort-restart", "hpd-drop", "reset", "foreign-transfer", "overlong-write", "metastable-sample", "clock-jitter")
    PROBES = ("bytes-read", "wrap", "current-address-read", "recovered-after-abort", "software-read", "hpd-off-silent", "address-collision-data", "whole-default-edid")

    def configs(self, tier):
        return [{"pads": p, "rom": r, "n": n} for p, r, n in (
            ("plain", "default", 256), ("hpd", "default", 256), ("hpd split", "rnd", 128), ("hpd split inv", "rnd", 256), ("hpd", "rnd", 128))] + [
                {"pads": "hpd", "rom": "rnd", "n": 128, "via": 1}, {"pads": "hpd", "rom": "default", "n": 256, "via": 1}]
    # EDIDs with more extension blocks than one (the offset byte reaches the first 256 bytes, reading on reaches the rest)
    BIG = [{"pads": "hpd", "rom": "rnd", "n": n} for n in (384, 512)]

    def build(self, cfg):
        def b():
            t = Top(cfg)
            t.clock_domains.cd_mon = ClockDomain("mon", reset_less=True)
            t.comb += t.cd_mon.clk.eq(ClockSignal("sys"))
            m = CSRTop(t)
            return m, Design(m, keep=[t.host, t.scl, t.line, t.pad_sda, t.hpd, t.pu, t.allow, t.mask, t.bad, t.chg] +
                             ([t.hpd_en] if "hpd" in cfg["pads"] else []) + m.keep)
        return runner.design("C02" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        if i % 50 == 49:
            cfg = self.BIG[i // 50 % 2]
        n = cfg["n"]
        ops = []

        def txn():
            k = rng.random()
            off = rng.choice([0, 1, n - 1, n - 2, rng.randrange(n), rng.randrange(n), 0x50 % n, 0xa0 % n, 0xa1 % n]) & 255
            if k < .15:
                return ["wr", off]
            if k < .32:
                return ["rd", rng.choice([1, 1, 2, 4, 9])]
            if k < .62:
                return ["wrrd", off, rng.choice([1, 2, 3, 8])]
            if k < .68:
                return ["wrx", off, [rng.choice([0xa0, 0xa1, 0, 255, rng.getrandbits(8)]) for _ in range(rng.randrange(1, 4))], rng.getrandbits(1)]
            if k < .8:
                a = rng.choice([0x51, 0x58, 0x10, 0x40, 0x28, 0x54, 0, 0x7f, rng.randrange(128)])
                if a == 0x50:
                    a = 0x5a
                return ["foreign", a, rng.getrandbits(1), [rng.choice([0xa0, 0xa1, rng.getrandbits(8)]) for _ in range(rng.randrange(0, 4))], rng.getrandbits(2)]
            return ["wrrd", off, 1]
        if "hpd" in cfg["pads"] and rng.random() < .85:
            ops.append(["hpd", 1])
        for _ in range(rng.randrange(4, 12)):
            k = rng.random()
            if k < .5:
                ops.append(["t", txn(), None, None])
            elif k < .75:
                ops.append(["t", txn(), rng.randrange(0, 40), rng.choice(["stop", "stop", "restart", "restart", "reset"] + ["hpd"] * (2 * ("hpd" in cfg["pads"])))])
            elif k < .82:
                ops.append(["sww", rng.randrange(n), rng.getrandbits(8)])
            elif k < .88:
                ops.append(["swr", rng.randrange(n)])
            elif k < .94:
                ops.append(["notif", rng.getrandbits(1)])
            elif k < .96:
                ops.append(["null"])         # START directly followed by STOP
            elif "hpd" in cfg["pads"]:
                ops.append(["hpd", rng.getrandbits(1)])
        ops.append(["hpd", 1])
        ops.append(["t", ["wrrd", rng.randrange(n) & 255, 2], None, None])
        if n > 256:
            # past the end of the memory in one read
            ops.append(["t", ["wrrd", 255 - rng.randrange(8), n - 255 + rng.randrange(12)], None, None])
            ops = ops[-4:]
            return {"cfg": cfg, "ops": ops, "P": 40000, "jit": 0, "slow": 0, "metaw": rng.choice([0, 1000])}
        if cfg["rom"] == "default" and i % 50 < 2:
            # the host fetches the whole default EDID, as every source does when it is plugged in
            ops = [o for o in ops[:4] if o[0] != "sww"] + [["hpd", 1], ["t", ["wrrd", 0, n], None, None], ["valid"]]
            return {"cfg": cfg, "ops": ops, "P": 40000, "jit": 0, "slow": 0, "metaw": rng.choice([0, 1000])}
        return {"cfg": cfg, "ops": ops, "P": rng.choice([8000, 10000, 10000, 16000, 20000, 40000]), "jit": rng.choice([0, 0, 300]),
                "slow": rng.choice([0, 0, 20, 100]), "metaw": rng.choice([0, 1000])}

    def execute(self, plan, res):
        cfg = plan["cfg"]
        m, d = self.build(cfg)
        t = m.dut
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=plan["metaw"])
        P = plan["P"]
        k.clock("sys", P, phase=rng.randrange(P) + 1, jitter=plan["jit"])
        if plan["jit"]:
            res.fault("clock-jitter")
        n = cfg["n"]
        rom = list(cfg_rom(cfg))
        has_hpd = "hpd" in cfg["pads"]
        split = "split" in cfg["pads"]
        tri = None if split else d.ctx.tristates[0]
        csr = CSRMaster(k, m)
        memb = list(m.mem_map.values())[0]
        slack = 110 * P if P < 30000 else 3 * US
        st = {"hpd": 0 if has_hpd else 1, "off": {0}, "notif": 0, "nread": 0, "upset": 0, "done": False, "ctx": "", "scl": 1, "sda": 1}
        jobs = []

        def bad(cls, msg):
            raise Violation(cls, "%s (%s)" % (msg, st["ctx"]))

        def cpu():
            while True:
                while not jobs:
                    yield
                j = jobs[0]
                r = None
                if j[0] == "w":
                    yield from csr.write(j[1], j[2])
                elif j[0] == "r":
                    r = yield from csr.read(j[1])
                elif j[0] == "mr":
                    r = yield from csr.read_word(memb + j[1])
                else:
                    yield from csr.write_word(memb + j[1], j[2])
                j.append(r)
                jobs.pop(0)
        k.thread("sys", cpu())

        def job(*a):
            j = list(a)
            nn = len(j)
            jobs.append(j)
            while len(j) == nn:
                yield 4 * P
            return j[nn]

        # ---- bus primitives
        def scl(v):
            st["scl"] = v
            k.set(t.scl, v)

        def sda(v):
            st["sda"] = v
            k.set(t.host, v)
            if tri is not None:
                k.set(tri[3], v)

        def check():
            if k.get(t.bad):
                bad("drives-out-of-turn", "SDA pulled low outside its own acknowledge and data bits")
            if k.get(t.chg):
                bad("changes-while-high", "the device changes SDA while SCL is high")
            if tri is not None and k.get(tri[2]) and k.get(tri[1]):
                bad("drives-high", "the device drives SDA high")
            if k.get(t.pu):
                bad("drives-high", "the device pulls SDA up")

        def rnd(us):
            x = int(us * US)
            if plan["slow"]:
                x += rng.randrange(1 + x * plan["slow"] // 100)
            return x

        def cut_here():
            c = st["cut"]
            if c is not None and st["clk"] == c:
                raise Gone()

        def release(delay):
            """the device may still drive until `delay` from now"""
            st["gen"] = g = st.get("gen", 0) + 1

            def f():
                if st["gen"] == g:
                    k.set(t.allow, 0)
            k.at(k.now + delay, f)

        def own():
            st["gen"] = st.get("gen", 0) + 1
            k.set(t.allow, 1)

        def clock(bit, owned):
            """one SCL clock, entered and left with SCL low; returns the line during SCL high"""
            cut_here()
            st["clk"] += 1
            if owned:
                own()
            hold = 300000 + rng.randrange(200000)
            su = 250000 + rng.randrange(rnd(1.5) if rng.getrandbits(1) else 200000)
            low = rnd(4.7)
            yield hold
            if not owned:
                release(max(0, slack - hold))
            if rng.getrandbits(1):
                sda(bit)
                yield max(low - hold, su)
            else:
                yield max(low - hold - su, 1000)
                sda(bit)
                yield su
            check()
            scl(1)
            high = rnd(4.0)
            yield high // 2
            v = k.get(t.line)
            yield high - high // 2
            if k.get(t.line) != v and bit == 1 and not k.get(t.mask):
                bad("changes-while-high", "SDA changes while SCL is high")
            check()
            scl(0)
            return v

        def start():
            # SCL low or idle high
            if not st["scl"]:
                yield 300000 + rng.randrange(200000)
                sda(1)
                if st["owed"]:
                    own()
                else:
                    release(max(0, slack - 300000))
                yield rnd(4.7)
                scl(1)
            yield rnd(4.7)
            # a device in the middle of a zero bit holds the line: clock it out
            for _ in range(10):
                if k.get(t.line):
                    break
                if not st["owed"]:
                    bad("bus-blocked", "SDA is held low on an idle bus")
                scl(0)
                yield rnd(4.7)
                scl(1)
                yield rnd(4.0)
                st["pulses"] = st.get("pulses", 0) + 1
            else:
                bad("bus-blocked", "SDA is still held low after nine clocks")
            k.set(t.allow, 0)
            st["gen"] = st.get("gen", 0) + 1
            yield 2000
            check()
            sda(0)
            yield rnd(4.0)
            scl(0)
            st["owed"] = False
            st["deaf"] = not st["hpd"]

        def stop():
            if st["scl"]:
                # abort right after SCL rose is not possible without START; give a falling edge first
                scl(0)
            yield 300000 + rng.randrange(200000)
            if not st["owed"]:
                release(max(0, slack - 300000))
            sda(0)
            yield rnd(4.7)
            scl(1)
            yield rnd(4.0)
            sda(1)
            yield rnd(4.7)

        def wbyte(b, acks):
            """acks: 1 must, 0 must not, None may"""
            for i in range(7, -1, -1):
                yield from clock(b >> i & 1, False)
            deaf = st["deaf"]
            if acks == 1 and not deaf:
                st["owed"] = True
            v = yield from clock(1, acks != 0 and not deaf)
            if st["deaf"]:
                return 0
            if acks == 1 and v:
                bad("no-acknowledge", "byte %02x of a transfer addressed to the device was not acknowledged" % b)
            if acks == 0 and not v:
                bad("false-acknowledge", "byte %02x of a transfer not addressed to the device was acknowledged" % b)
            release(slack)
            return not v

        def addr(rw):
            r = yield from wbyte(0xa0 | rw, 0 if st["deaf"] else 1)
            return r

        def offset(o):
            deaf = st["deaf"]
            for i in range(7, -1, -1):
                if i == 0 and not deaf:
                    st["off"] = st["off"] | {o % n}
                    st["last"] = o
                yield from clock(o >> i & 1, False)
            st["last"] = None
            if not st["deaf"]:
                st["off"] = {o % n}
                st["owed"] = True
            v = yield from clock(1, not st["deaf"])
            if not st["deaf"] and v:
                bad("no-acknowledge", "the offset byte was not acknowledged")
            release(slack)

        def rbytes(cnt):
            for j in range(cnt):
                deaf0 = st["deaf"]
                st["owed"] = True
                v = 0
                for i in range(8):
                    b = yield from clock(1, not st["deaf"])
                    v = v << 1 | b
                if not st["deaf"]:
                    exp = {rom[o] for o in st["off"]}
                    if v not in exp:
                        bad("data", "read %02x at offset %r, EDID holds %s" % (v, sorted(st["off"]), ["%02x" % e for e in sorted(exp)]))
                    st["off"] = {o for o in st["off"] if rom[o] == v}
                    st["nread"] += 1
                    st["got"].append(v)
                    res.probe("bytes-read")
                    if st["upset"]:
                        res.probe("recovered-after-abort")
                        st["upset"] = 0
                elif deaf0:
                    if v != 255:
                        bad("drives-out-of-turn", "data driven although the device is disabled")
                    res.probe("hpd-off-silent")
                # acknowledge bit: driven by the host
                nack = j == cnt - 1
                st["owed"] = False
                old = set(st["off"])
                new = {(o + 1) % n for o in old}
                if not st["deaf"]:
                    st["off"] = old | new
                yield from clock(int(nack), False)
                if not st["deaf"]:
                    st["off"] = new
                    if 0 in new and n - 1 in old:
                        res.probe("wrap")

        def body(x):
            st["got"] = []
            yield from start()
            if x[0] == "rd":
                res.probe("current-address-read")
                yield from addr(1)
                yield from rbytes(x[1])
            elif x[0] == "wr":
                yield from addr(0)
                yield from offset(x[1])
            elif x[0] == "wrrd":
                yield from addr(0)
                yield from offset(x[1])
                yield from start()
                yield from addr(1)
                yield from rbytes(x[2])
            elif x[0] == "wrx":
                yield from addr(0)
                yield from offset(x[1])
                res.fault("overlong-write")
                for b in x[2]:
                    if b >> 1 == 0x50:
                        res.probe("address-collision-data")
                    yield from wbyte(b, None)
                if x[3]:
                    yield from start()
                    yield from addr(1)
                    yield from rbytes(1)
            elif x[0] == "foreign":
                res.fault("foreign-transfer")
                yield from wbyte(x[1] << 1 | x[2], 0)
                for b in x[3]:
                    # another device talks or listens
                    for i in range(7, -1, -1):
                        yield from clock(b >> i & 1, False)
                    yield from clock(x[4] & 1, False)

        def hpd(v):
            if not has_hpd:
                return
            if not v:
                k.set(t.mask, 1)
            yield from job("w", "edid_hpd_en", v)
            yield 40 * P
            if k.get(t.hpd_en) != v:
                bad("hpd-pin", "hot-plug pin is %d after software wrote %d" % (k.get(t.hpd_en), v))
            if not v:
                st["deaf"] = True
            st["hpd"] = v
            if not v:
                if st["sda"] and not k.get(t.line):
                    bad("drives-out-of-turn", "SDA stays pulled low although software disabled hot-plug")
                k.set(t.allow, 0)
                k.set(t.mask, 0)

        def host():
            yield 200 * P
            for op in plan["ops"]:
                st["ctx"] = repr(op)
                if op[0] == "t":
                    st["clk"], st["cut"], st["last"] = 0, op[2], None
                    how = None
                    try:
                        g = body(op[1])
                        if op[3] not in ("hpd", "reset"):
                            yield from g
                        else:
                            try:
                                yield from g
                            except Gone:
                                # asynchronous event at a random point of the current clock, and the host goes on
                                st["cut"] = None
                                how = op[3]
                                res.fault({"hpd": "hpd-drop", "reset": "reset"}[how])
                                st["upset"] = 1
                                if st["scl"] == 0:
                                    own()         # the device may still be driving its last bit
                                yield rng.randrange(1, rnd(4))
                                if rng.getrandbits(1):
                                    if st["scl"] == 0:
                                        yield rnd(4.7)          # no shorter low period than the bus allows: the device places its bit in it
                                        if st["last"] is not None:
                                            # the last bit of the offset is what the line happens to be
                                            st["off"] = st["off"] | {(st["last"] & 254 | st["sda"]) % n}
                                    scl(1)
                                    yield rng.randrange(1, rnd(4))
                                if how == "hpd":
                                    yield from hpd(0)
                                    yield rng.randrange(1, rnd(20))
                                else:
                                    k.set(t.mask, 1)
                                    k.set(d.cds["sys"].rst, 1)
                                    yield 8 * P
                                    k.set(d.cds["sys"].rst, 0)
                                    yield 100 * P
                                    st["off"] = {0}
                                    st["hpd"] = 0 if has_hpd else 1
                                    st["deaf"] = True
                                    k.set(t.allow, 0)
                                    k.set(t.mask, 0)
                                # host keeps clocking whatever it was sending
                                yield rnd(4)
                                scl(0)
                                if has_hpd:
                                    for _ in range(rng.randrange(0, 9)):
                                        yield from clock(rng.getrandbits(1) if how == "hpd" else 1, False)
                                    if rng.getrandbits(1):
                                        yield from hpd(1)
                                        for _ in range(rng.randrange(0, 20)):
                                            yield from clock(1, False)
                        yield from stop()
                    except Gone:
                        how = op[3]
                        st["upset"] = 1
                        res.fault("abort-" + how)
                        if how == "stop":
                            # the device may own the line now: clock it out, then try a STOP (it cannot appear while the device holds SDA)
                            if st["owed"]:
                                own()
                                sda(1)
                                for _ in range(rng.randrange(13)):
                                    scl(0)
                                    yield rnd(4.7)
                                    scl(1)
                                    yield rnd(4.0)
                                scl(0)
                                yield from stop()
                                own()
                            else:
                                yield from stop()
                        else:
                            if st["owed"]:
                                own()
                        if st["owed"]:
                            # clocks given while freeing the bus may complete bytes
                            st["off"] = set(range(n))
                    res.state(cfg["pads"], op[1][0], op[2] if how else -1, how)
                elif op[0] == "null":
                    yield from start()
                    yield rnd(4.7)
                    yield from stop()
                elif op[0] == "hpd":
                    yield from hpd(op[1])
                elif op[0] == "sww":
                    rom[op[1]] = op[2]
                    yield from job("mw", op[1], op[2])
                elif op[0] == "swr":
                    v = yield from job("mr", op[1])
                    res.probe("software-read")
                    if v != rom[op[1]]:
                        bad("software-read", "software reads %02x at EDID byte %d, it holds %02x" % (v, op[1], rom[op[1]]))
                elif op[0] == "valid":
                    g = st["got"]
                    if len(g) == n:
                        res.probe("whole-default-edid")
                        if g[:8] != [0, 255, 255, 255, 255, 255, 255, 0] or any(sum(g[b:b + 128]) & 255 for b in range(0, n, 128)) or g[126] != n // 128 - 1:
                            bad("invalid-edid", "the default EDID read by the host has a wrong header, block checksum or extension count: %s" % bytes(g).hex())
                elif op[0] == "notif":
                    k.set(t.hpd, op[1])
                    yield 20 * P
                    v = yield from job("r", "edid_hpd_notif")
                    e = op[1] if has_hpd else 1
                    if v != e:
                        bad("hpd-notification", "software reads hot-plug %d, the pin says %d" % (v, e))
                if op[0] in ("t", "null"):
                    if st["scl"] and st["sda"] and rng.getrandbits(1):
                        yield rnd(rng.choice([1, 5, 30]))
                check()
            st["done"] = True
        st["owed"] = False
        st["deaf"] = not st["hpd"]
        st["clk"], st["cut"] = 0, None
        k.process(host())
        for _ in range(4000):
            k.run(k.now + 200 * US)
            if st["done"]:
                break
        else:
            raise Violation("hang", "host did not finish")
        res.cfg = cfg["pads"]
        res.sim_ps, res.edges = k.now, d.mv[d.C_EDGES]
        res.fault("metastable-sample", d.mv[d.C_METAN])
        res.log(st["nread"], rom, sorted(st["off"]), k.now)
        res.nontrivial = st["nread"] >= 3 and bool(sum(res.faults[f] for f in self.FAULTS[:6]))


CHECK = Check()
