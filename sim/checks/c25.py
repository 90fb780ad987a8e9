"""Genlocked scan-out: the timing comes from outside and cannot be stopped."""
import random

from litevideo.output.core import VideoOutCore
from litevideo.output.common import frame_timing_layout
from litedram.common import LiteDRAMNativePort
from litex.soc.interconnect import stream

from .. import runner
from ..dram import Stall, ReadPort
from ..fhdl2c import Design
from ..hdmiin import port_signals
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..vout import AW, DW, DATA, TN, word


def genlock_design(mode, depth):
    def b():
        port = LiteDRAMNativePort("read", AW, DW[mode], clock_domain="pix")
        gs = stream.Endpoint(frame_timing_layout)
        m = CSRTop(VideoOutCore(port, mode, depth, gs))
        m.port, m.gs = port, gs
        s = m.dut.source
        return m, Design(m, keep=[s.valid, s.ready, s.de, s.hsync, s.vsync, s.data, gs.valid, gs.ready, gs.de, gs.hsync, gs.vsync] + port_signals(port) + m.keep, unrelated=(("sys",), ("pix",)))
    return runner.design("genlock-%s-%d" % (mode, depth), b)


class Check:
    PROP = "C25"
    RUNS = {"quick": 3000, "thorough": 100000}
    CHUNK = 20
    MIN_RUNS = 60
    RULE = ("one run = an external timing stream that never waits, a memory with latency and stalls it can make up for, and software enabling the scan-out at any clock of a frame; "
            "every clock of the output is compared; non-trivial when at least three whole frames were compared")
    STATE_MEASURE = "hash of (mode, fifo depth against frame size, part of the frame in which it was enabled, latency, stalls)"
    REAL = ["litevideo.output.core.VideoOutCore with genlock stream (Initiator, DMAReader)", "litedram LiteDRAMDMAReader", "litex AsyncFIFO, CSR bank"]
    STUB = ["external timing source", "memory controller", "CPU on the CSR bus"]
    ASSUMPTIONS = ["the memory keeps up: it delivers the first word between the external vsync and the first active pixel, and its stalls fit the FIFO",
                   "the buffer length is the number of active pixels of an external frame", "vsync rises outside the active lines", "the parameters are written before enabling and stay; delay_base words are part of the length"]
    FAULTS = ("command-stall", "read-latency", "metastable-sample", "torn-crossing", "reset")
    PROBES = ("reset-in-active", "reset-in-blanking", "frame-shown", "enabled-in-active", "enabled-in-blanking", "dark-before-enable", "fifo-holds-frame", "start-clock-exact", "delay-base")

    def configs(self, tier):
        return [{"mode": "rgb", "depth": 16}, {"mode": "rgb", "depth": 128}, {"mode": "ycbcr422", "depth": 32}, {"mode": "rgb", "depth": 512}]

    def build(self, cfg):
        return genlock_design(cfg["mode"], cfg["depth"])

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        lat = rng.choice([[1, 1], [2, 6], [4, 12]])
        stall = rng.random() < .5
        while True:
            h = rng.choice([1, 2, rng.randrange(1, 60), rng.randrange(4, 200)])
            v = rng.choice([1, 2, rng.randrange(1, 12)])
            hb = rng.choice([1, rng.randrange(1, 30), rng.randrange(20, 120)])
            vb = rng.randrange(1, 6)
            if i % 1000 == 13:       # more than 2**16 words
                h, v, hb, vb = rng.randrange(1000, 3000, 2), 0, rng.randrange(20, 60), 1
                v = 65536 // h + rng.randrange(1, 3)
            T = (h + hb) * (v + vb)
            if T > 4000 and i % 1000 != 13:
                continue
            # vsync: start and length in clocks after the last active pixel
            blank = vb * (h + hb) + hb
            need = 30 + lat[1] + (2 * cfg["depth"] if stall else 0)
            if blank - 2 < need:
                continue
            vs = rng.randrange(1, blank - need)
            vl = rng.randrange(1, min(blank - vs, 200) + 1) - 1 or 1
            break
        b = rng.randrange(1, max(2, cfg["depth"] - lat[1] - 8)) if cfg["depth"] > lat[1] + 10 else 0
        p = {"cfg": cfg, "geom": [h, hb, v, vb, vs, vl, rng.randrange(0, hb), rng.randrange(1, hb + 1)], "lat": lat,
             "base": rng.randrange(0, (1 << AW) - h * v + 1), "at": rng.randrange(3 * T), "phase": rng.randrange(T), "frames": rng.randrange(4, 8),
             "pp": rng.choice([6734, 13468, 25000, 39722]), "ps": rng.choice([8000, 10000, 20000]) + rng.choice([0, rng.randrange(60)]),
             "cs": [["on", 2 * T + rng.randrange(T), 0], ["off", b, 0]] if stall and b else [], "ds": [["on", 2 * T + rng.randrange(T), 0], ["off", b // 2, 0]] if stall and b > 1 and rng.random() < .3 else []}
        if p["ds"]:
            p["cs"] = []
        # words at the beginning of the buffer that the picture leaves out
        p["skip"] = rng.choice([1, rng.randrange(1, 20), rng.randrange(1, 5000)]) if rng.random() < .25 else 0
        if i % 100 == 51:
            p["skip"] = rng.randrange(65000, 1 << 18)
        p["base"] = min(p["base"], (1 << AW) - h * v - p["skip"])
        # the external clock is lost: reset of the pixel domain, and the source comes back anywhere in its frame
        p["resets"] = []
        if T <= 4000 and rng.random() < .35 and blank - vs - vl >= 30 + lat[1]:
            for _ in range(rng.choice([1, 1, 2])):
                p["resets"].append([rng.randrange(1, 3 * T), rng.randrange(1, 60), rng.randrange(T)])
        if T > 4000:
            p["at"], p["frames"] = rng.randrange(T), 4
        return p

    FIXED = ("cs", "ds", "lat", "geom")

    def execute(self, plan, res):
        cfg = plan["cfg"]
        m, d = genlock_design(cfg["mode"], cfg["depth"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1000)
        mv = d.mv
        pp, ps = plan["pp"], plan["ps"]
        k.clock("sys", ps, phase=1 + rng.randrange(ps))
        k.clock("pix", pp, phase=1 + rng.randrange(pp))
        h, hb, v, vb, vs, vl, hs, hl = plan["geom"]
        ht = h + hb
        T = ht * (v + vb)
        last = (v - 1) * ht + h              # clock after the last active pixel
        toks = []
        for c in range(T):
            x, y = c % ht, c // ht
            s = (c - last - vs) % T
            toks.append((int(x < h and y < v), int(h + hs <= x < h + hs + hl), int(s < vl)))
        vstart = (last + vs) % T
        npix = h * v
        base = plan["base"] + plan["skip"]
        dm = (1 << DATA[cfg["mode"]]) - 1
        s, gs = m.dut.source, m.gs
        gv, gd, gh, gvs = (d.widx(x) for x in (gs.valid, gs.de, gs.hsync, gs.vsync))
        sv, sr, sd, sh, svs = d.ridx(s.valid), d.widx(s.ready), d.ridx(s.de), d.ridx(s.hsync), d.ridx(s.vsync)
        S = {"pos": plan["phase"], "prev": None, "en": None, "ok": False, "np": 0, "frames": 0, "whole": False, "dark": 0}
        S["resets"] = list(plan["resets"])
        S["rst"] = None
        S["count"] = 0
        rstp = d.widx(d.cds["pix"].rst)

        def reset():
            """drives the reset; software enabled the output long before"""
            if S["rst"] is None:
                if S["resets"] and S["en"] is not None and k.now > S["en"] and S["count"] >= S["resets"][0][0]:
                    S["rst"] = S["resets"].pop(0)
                    S["count"] = 0
                    S["en"], S["ok"], S["whole"], S["nv"], S["frames"] = None, False, False, 0, 0
                    mv[rstp] = 1
                    res.fault("reset")
                    res.probe("reset-in-active" if S["prev"] is not None and toks[S["prev"]][0] else "reset-in-blanking")
                    return True
                S["count"] += 1
            else:
                S["count"] += 1
                # words on their way are not for the time after
                if S["count"] >= S["rst"][1] and not port.q:
                    mv[rstp] = 0
                    S["pos"] = S["rst"][2]
                    S["en"] = k.now + 8 * pp + 4 * ps
                    S["rst"] = None
                    S["count"] = 0
            return S["rst"] is not None

        def pix():
            inr = reset()
            p = S["prev"]
            if p is not None:
                t = toks[p]
                if mv[sd] != t[0] or mv[sh] != t[1] or mv[svs] != t[2]:
                    raise Violation("timing", "clock %d of an external frame is de=%d hsync=%d vsync=%d but goes out as %d %d %d" % ((p,) + t + (mv[sd], mv[sh], mv[svs])))
                if t[0]:
                    if p == 0:
                        S["np"] = 0
                        S["whole"] = S["ok"]
                    if inr:
                        pass
                    elif S["en"] is None:
                        if mv[sv]:
                            raise Violation("before-enable", "an active pixel goes out although nothing was enabled")
                        S["dark"] += 1
                    elif S["whole"]:
                        if not mv[sv]:
                            raise Violation("missing", "pixel %d of %d of a frame has no data (%d frames after the start)" % (S["np"], npix, S["frames"]))
                        got, e = d.get(s.data) & dm, word(base + S["np"], DW[cfg["mode"]]) & dm
                        if got != e:
                            raise Violation("data", "pixel %d of %d shows %06x, the buffer holds %06x (%d frames after the start)" % (S["np"], npix, got, e, S["frames"]))
                    S["np"] += 1
                    if S["np"] == npix and S["whole"]:
                        S["frames"] += 1
                        res.probe("frame-shown")
                elif not mv[sv] and t[0] == 0 and cfg["mode"] != "raw":
                    raise Violation("timing", "a blanking clock goes out invalid")
            c = S["pos"]
            S["pos"] = (c + 1) % T
            S["prev"] = c
            # the frame whose vsync rises a while after enabling is the first that must be right
            if c == vstart and S["en"] is not None and k.now > S["en"]:
                S["nv"] = S.get("nv", 0) + 1
            if S.get("nv", 0) >= 1:
                S["ok"] = True
            t = toks[c]
            mv[gv], mv[gd], mv[gh], mv[gvs] = 1, t[0], t[1], t[2]
            mv[sr] = 1
        k.hook("pix", pix)
        cs, ds = Stall(plan["cs"], rng), Stall(plan["ds"], rng)

        def on_cmd(a):
            if not base <= a < base + npix:
                raise Violation("address", "read of word %05x, outside the frame buffer" % a)
        port = ReadPort(k, m.port, "pix", cs, ds, lambda a: word(a, DW[cfg["mode"]]), on_cmd, latency=tuple(plan["lat"]), rng=rng)
        csr = CSRMaster(k, m)
        sh_ = {32: 2, 16: 1}[DW[cfg["mode"]]]

        def cpu():
            for nme in TN:
                yield from csr.write("initiator_" + nme, rng.randrange(1, 100))
            yield from csr.write("initiator_base", plan["base"] << sh_)
            yield from csr.write("initiator_length", (npix + plan["skip"]) << sh_)
            if plan["skip"]:
                yield from csr.write("dma_delay_base", plan["skip"])
                res.probe("delay-base")
            t = k.now + plan["at"] * pp
            while k.now < t:
                yield
            c = S["prev"] or 0
            res.probe("enabled-in-active" if toks[c][0] else "enabled-in-blanking")
            S["pos_en"] = c
            yield from csr.write("initiator_enable", 1)
            # the parameters cross to the pixel clock
            S["en"] = k.now + 8 * pp + 4 * ps
        k.thread("sys", cpu())
        k.run(k.now + (plan["at"] + (plan["frames"] + 2) * T) * pp + 600 * ps)
        while S["resets"] or S["rst"]:
            k.run(k.now + T * pp)
        if plan["resets"]:
            k.run(k.now + (plan["frames"] + 2) * T * pp + 600 * ps)
        if S["dark"]:
            res.probe("dark-before-enable")
        if cfg["depth"] >= npix:
            res.probe("fifo-holds-frame")
        if S["frames"] < 2 or S["frames"] < plan["frames"] - 1:
            raise Violation("stuck", "only %d whole frames were shown" % S["frames"])
        res.probe("start-clock-exact")
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("command-stall", cs.stalled)
        res.fault("read-latency", ds.stalled)
        res.fault("metastable-sample", mv[d.C_METAN])
        res.fault("torn-crossing", mv[d.C_TEARN])
        res.cfg = cfg["mode"] + str(cfg["depth"])
        res.log(S["frames"], S.get("pos_en"), S["dark"], cs.stalled, ds.stalled)
        res.state(res.cfg, min(3, npix // cfg["depth"]), 8 * S["pos_en"] // T, plan["lat"][1], bool(plan["cs"]), bool(plan["ds"]))
        res.nontrivial = S["frames"] >= 3

    def simplify(self, plan):
        for x in ("cs", "ds"):
            if plan[x]:
                yield dict(plan, **{x: []})
        if plan["lat"] != [1, 1]:
            yield dict(plan, lat=[1, 1])
        if plan["skip"]:
            yield dict(plan, skip=0)
        for i in range(len(plan["resets"])):
            yield dict(plan, resets=plan["resets"][:i] + plan["resets"][i + 1:])
        if plan["frames"] > 4:
            yield dict(plan, frames=4)


CHECK = Check()
