import random

from migen import *
from litex.soc.interconnect.csr import AutoCSR
from litevideo.input.dma import DMA
from litedram.common import LiteDRAMNativePort

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..dram import Stall, gen_stall, WritePort
from ..hdmiin import port_signals
from .. import runner

P = 10000
SETTLE = 8
DONE = 14
AW = 27


class Check:
    PROP = "C08"
    RUNS = {"quick": 4000, "thorough": 250000}
    CHUNK = 12
    MIN_RUNS = 100
    RULE = ("one run = a frame stream with gaps, short and overlong frames, seeded memory stalls, and a CPU that loads, polls, acknowledges, unloads and "
            "reprograms slots and frame size at random times; non-trivial when >= 2 transfers completed and were read back as pending")
    STATE_MEASURE = "hash of (slot count, shadow state of every slot, transfer progress in quarters, irq)"
    REAL = ["litevideo.input.dma.DMA, _SlotArray, _Slot", "litedram LiteDRAMDMAWriter", "litex EventManager and CSR bank"]
    STUB = ["memory controller behind the native port", "frame word source", "CPU on the CSR bus"]
    ASSUMPTIONS = ["software writes a slot's address only while the slot is not loaded, and the frame size only while no slot is loaded and no transfer runs",
                   "the frame size is at least one word", "a frame starting within %d clocks of a slot change may be skipped whole" % SETTLE]
    FAULTS = ("command-stall", "data-stall", "source-gap", "short-frame", "overlong-frame", "unload-in-transfer")
    PROBES = ("transfer", "pending-read", "irq-seen", "end-address-read", "frame-dropped-no-slot", "all-slots-pending", "reprogram-size", "large-buffer-unfinished")

    def configs(self, tier):
        return [{"n": n, "dw": w} for n, w in ((2, 32), (3, 64), (4, 128), (2, 16), (2, 256), (8, 32), (5, 128))]

    def build(self, cfg):
        def b():
            port = LiteDRAMNativePort("write", AW, cfg["dw"], clock_domain="sys")

            class Top(Module, AutoCSR):
                def __init__(self):
                    self.submodules.dma = DMA(port, cfg["n"])
            m = CSRTop(Top())
            m.port = port
            f = m.dut.dma.frame
            keep = [f.valid, f.ready, f.sof, f.pixels, m.dut.dma.ev.irq] + port_signals(port) + m.keep
            return m, Design(m, keep=keep)
        return runner.design("C08" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        F = rng.choice([1, 2, 3, 8, 17, 30, 60])
        frames = []
        for _ in range(rng.randrange(4, 16)):
            k = rng.random()
            n = F if k < .7 else rng.randrange(1, F + 1) if k < .85 else F + rng.randrange(1, F + 4)
            frames.append([n, rng.choice([0, 0, 1, 5, 40, 120])])
        ops = []
        n = cfg["n"]
        for s in range(n):
            if rng.random() < .8:
                ops.append(["load", s])
        if rng.random() < .8:
            ops.insert(rng.randrange(len(ops) + 1), ["enable", rng.randrange(1 << n)])
        for _ in range(rng.randrange(6, 30)):
            k = rng.random()
            s = rng.randrange(n)
            if k < .25:
                ops.append(["wait", rng.choice([1, 2, 5, 30, 100, 300])])
            elif k < .45:
                ops.append(["poll", s])
            elif k < .75:
                ops.append(["service", s, rng.choice(["reload", "reload", "ack"])])
            elif k < .85:
                ops.append(["load", s])
            elif k < .92:
                ops.append(["unload", s])
            elif k < .96:
                ops.append(["enable", rng.randrange(1 << n)])
            else:
                ops.append(["size", rng.choice([1, 2, 5, 20, 40])])
        return {"cfg": cfg, "frames": frames, "ops": ops, "F": F, "cs": gen_stall(rng), "ds": gen_stall(rng),
                "gap": rng.choice([0, 0, 10, 50])} if i % 20 != 9 else self.huge(rng, cfg)

    def huge(self, rng, cfg):
        """a buffer far larger than what arrives: it must never be reported complete"""
        F = (rng.randrange(1, 16) << rng.randrange(6, 22)) + rng.choice([0, 1, 2, rng.randrange(60)])
        if rng.random() < .3:
            F = (1 << rng.randrange(12, 27)) + rng.randrange(1, 60)
        F = min(F, (1 << 27) - 600)
        frames = [[min(rng.randrange(1, 120), F), rng.choice([0, 1, 40])] for _ in range(rng.randrange(1, 8))]
        ops = [["enable", (1 << cfg["n"]) - 1], ["load", rng.randrange(cfg["n"])], ["wait", rng.choice([1, 30, 300])]]
        ops += [["poll", s] for s in range(cfg["n"])]
        return {"cfg": cfg, "frames": frames, "ops": ops, "F": F, "cs": gen_stall(rng), "ds": gen_stall(rng), "gap": rng.choice([0, 0, 10])}

    FIXED = ("cs", "ds")

    def execute(self, plan, res):
        cfg = plan["cfg"]
        n, dw = cfg["n"], cfg["dw"]
        m, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"])
        k.clock("sys", P)
        mv = d.mv
        dma = m.dut.dma
        al = (dw // 8).bit_length() - 1
        # ---- frame words: unique data
        toks = []
        frame_of = {}
        mask = (1 << dw) - 1
        used = set()
        for fi, (ln, gap) in enumerate(plan["frames"]):
            if ln < plan["F"]:
                res.fault("short-frame")
            elif ln > plan["F"]:
                res.fault("overlong-frame")
            for j in range(ln):
                while True:
                    v = (rng.getrandbits(dw) if rng.random() < .9 else rng.choice([0, 1, -1, rng.getrandbits(4), rng.getrandbits(8) << (dw - 8)])) & mask
                    if v not in used:
                        break
                used.add(v)
                toks.append((int(j == 0), v, gap if j == 0 else 0))
        index = {t[1]: i for i, t in enumerate(toks)}
        f = dma.frame
        wv, wsof, rrdy = d.widx(f.valid), d.widx(f.sof), d.ridx(f.ready)
        rirq = d.ridx(dma.ev.irq)
        rcv = d.ridx(m.port.cmd.valid)
        # ---- shadow of what software did
        sh = [dict(st="empty", since=-10**9, base=None, F=None, tc=None, end=None, was="empty", armed=False) for _ in range(n)]
        en = {"v": 0, "t": -10**9, "old": 0}
        S = dict(cmdv=-10**9, sofp=None, lastsof=-10**9, cyc=0, pos=0, pres=False, wait=toks[0][2] if toks else 0, F=plan["F"], cur=None, lastdone=-10**9, sof=None,
                 stable_irq=0, taken=set(), nt=0, npend=0, quiet=0)
        cmds = []            # (addr, transfer, n)
        accepted_sof = []

        def may(s, *states):
            """shadow state possible at this moment (writes take a few clocks)"""
            return s["st"] in states or (S["cyc"] - s["since"] <= SETTLE and s["was"] in states)

        def setst(s, st):
            s["was"], s["st"], s["since"] = s["st"], st, S["cyc"]

        def on_cmd(a):
            c = S["cur"]
            if c is None:
                cand = [i for i, s in enumerate(sh) if s["base"] == a and (may(s, "loaded") or (s["was"] == "loaded" and s["st"] == "empty" and s["since"] + 2 >= S["lastsof"]))]
                if not cand:
                    raise Violation("stray-write", "write to word %05x, which does not start a loaded buffer (slots %r)" % (
                        a, [(s["st"], s["base"]) for s in sh]))
                c = S["cur"] = dict(slot=cand[0], base=a, F=S["F"], nc=0, data=[], load=sh[cand[0]]["since"])
                sh[cand[0]]["armed"] = True
                S["open"] = S.get("open", 0) + 1
            if a != c["base"] + c["nc"]:
                raise Violation("address", "word %d of a transfer to %05x went to %05x" % (c["nc"], c["base"], a))
            cmds.append((c, c["nc"]))
            c["nc"] += 1
            if c["nc"] == c["F"]:
                S["cur"] = None

        def on_data(v):
            c, j = cmds.pop(0)
            i = index.get(v)
            if i is None:
                raise Violation("data", "word %d of a transfer holds %x, which is no frame word" % (j, v))
            if j == 0:
                if not toks[i][0]:
                    raise Violation("mid-frame", "a transfer begins with word %d of the stream, which is not the first of a frame" % i)
            elif i != c["data"][-1] + 1:
                raise Violation("data", "word %d of a transfer is stream word %d after word %d" % (j, i, c["data"][-1]))
            if i in S["taken"]:
                raise Violation("duplicate", "stream word %d was written twice" % i)
            S["taken"].add(i)
            c["data"].append(i)
            if j == c["F"] - 1:
                s = sh[c["slot"]]
                s["tc"] = S["cyc"]
                s["end"] = (c["base"] + c["F"]) << al
                s["armed"] = False
                setst(s, "pending")
                S["lastdone"] = S["cyc"]
                S["open"] -= 1
                S["nt"] += 1
                res.probe("transfer")

        cs, ds = Stall(plan["cs"], rng), Stall(plan["ds"], rng)

        def hook():
            S["cyc"] += 1
            if mv[rcv]:
                S["cmdv"] = S["cyc"]
            if S["pres"] and S["sofp"] is None and toks[S["pos"]][0]:
                S["sofp"] = S["lastsof"] = S["cyc"]
            if S["pres"]:
                if mv[rrdy]:
                    if toks[S["pos"]][0]:
                        # legitimately skipped: no slot ready, or one is changing
                        ready = any(s["st"] == "loaded" and S["cyc"] - s["since"] > SETTLE for s in sh)
                        busy = S.get("open", 0) > 0
                        anych = any(S["cyc"] - s["since"] <= SETTLE and s["st"] != "pending" for s in sh)
                        accepted_sof.append((S["cyc"], S["pos"], ready and not busy and not anych))
                    S["pos"] += 1
                    S["sofp"] = None
                    S["pres"] = False
                    S["quiet"] = 0
                    if S["pos"] < len(toks):
                        S["wait"] = toks[S["pos"]][2]
                else:
                    S["quiet"] += 1
            if not S["pres"] and S["pos"] < len(toks):
                if S["wait"] > 0:
                    S["wait"] -= 1
                    res.fault("source-gap")
                    mv[wv] = 0
                    mv[wsof] = rng.getrandbits(1)
                elif plan["gap"] and rng.randrange(100) < plan["gap"]:
                    mv[wv] = 0
                    mv[wsof] = rng.getrandbits(1)
                else:
                    mv[wv] = 1
                    mv[wsof] = toks[S["pos"]][0]
                    d.set(f.pixels, toks[S["pos"]][1])
                    S["pres"] = True
            elif not S["pres"]:
                mv[wv] = 0
            # ---- interrupt
            irq = mv[rirq]
            e = en["v"]
            if S["cyc"] - en["t"] > SETTLE:
                if irq and not any((e >> i & 1) and may(s, "pending") for i, s in enumerate(sh)):
                    raise Violation("spurious-irq", "interrupt while no enabled slot is pending (slots %r, enable %x)" % ([s["st"] for s in sh], e))
                must = any((e >> i & 1) and s["st"] == "pending" and S["cyc"] - s["since"] > DONE for i, s in enumerate(sh))
                if must and not irq:
                    raise Violation("missing-irq", "no interrupt although an enabled slot has been complete for %d clocks" % DONE)
            if irq:
                res.probe("irq-seen")
        k.hook("sys", hook)
        WritePort(k, m.port, "sys", cs, ds, on_cmd, on_data)
        csr = CSRMaster(k, m)
        bufs = {"n": 0, "low": 0}
        span = 1 << AW

        def newbase():
            # disjoint buffers all over the memory, one at its very top
            b = bufs["n"]
            bufs["n"] += 1
            slot = (b * 37 + 11) % 450 * 2
            hi = rng.getrandbits(AW - 18) << 18 if rng.random() < .5 else 0
            if not bufs["low"] and rng.random() < .3:
                # the bottom of the memory
                bufs["low"] = 1
                return rng.choice([0, 0, rng.randrange(8)])
            if b and rng.random() < .3:
                # across a boundary of 2**18 words, or of 512
                return ((b % 500 + 1) << 18) - rng.randrange(1, 40) if rng.random() < .5 else hi + slot * 256 + 512 + 256 - rng.randrange(1, 40)
            return hi + slot * 256 + 512 + 5 if b else span - (64 if S["F"] <= 64 else S["F"] + 1)

        def status(s):
            t0 = S["cyc"]
            v = yield from csr.read("dma_slot%d_status" % s)
            x = sh[s]
            age = S["cyc"] - x["since"]
            late = t0 - x["since"]
            if v == 2:
                if not may(x, "pending"):
                    raise Violation("false-pending", "slot %d reads pending although its words were not all written (it is %s)" % (s, x["st"]))
            elif v == 1:
                if not may(x, "loaded") and not (x["st"] == "pending" and late <= DONE):
                    raise Violation("status", "slot %d reads loaded although it is %s" % (s, x["st"]))
            elif v == 0:
                if not may(x, "empty") and not (x["was"] == "empty" and late <= DONE):
                    raise Violation("status", "slot %d reads empty although it is %s" % (s, x["st"]))
            else:
                raise Violation("status", "slot %d status reads %d" % (s, v))
            return v

        def load(s):
            x = sh[s]
            if x["st"] != "empty" and x["st"] != "pending" or x["armed"]:
                return
            b = newbase()
            yield from csr.write("dma_slot%d_address" % s, b << al)
            x["base"] = b
            setst(x, "loaded")
            yield from csr.write("dma_slot%d_status" % s, 1)

        def cpu():
            yield from csr.write("dma_frame_size", S["F"] << al)
            for op in plan["ops"]:
                if op[0] == "wait":
                    for _ in range(op[1]):
                        yield
                elif op[0] == "load":
                    yield from load(op[1])
                elif op[0] == "enable":
                    yield from csr.write("dma_ev_enable", op[1])
                    en.update(v=op[1], t=S["cyc"])
                elif op[0] == "poll":
                    yield from status(op[1])
                elif op[0] == "unload":
                    x = sh[op[1]]
                    if x["st"] == "loaded":
                        if x["armed"]:
                            res.fault("unload-in-transfer")
                        setst(x, "empty")
                        yield from csr.write("dma_slot%d_status" % op[1], 0)
                        # software lets a running transfer end before it uses the slot again
                        for _ in range(SETTLE + 2):
                            yield
                        # (a transfer whose first command the memory has not accepted yet is a running transfer)
                        for _ in range(2000):
                            if S["cur"] is not None or S["cyc"] - S["cmdv"] > SETTLE:
                                break
                            yield
                elif op[0] == "service":
                    s = op[1]
                    x = sh[s]
                    v = None
                    for _ in range(12):
                        v = yield from status(s)
                        if v == 2:
                            break
                        for _ in range(20):
                            yield
                    if v == 2:
                        S["npend"] += 1
                        res.probe("pending-read")
                        if all(y["st"] == "pending" for y in sh):
                            res.probe("all-slots-pending")
                        a = yield from csr.read("dma_slot%d_address" % s)
                        if a != x["end"]:
                            raise Violation("end-address", "slot %d reports end address %x, its last word ended at %x" % (s, a, x["end"]))
                        res.probe("end-address-read")
                        p = yield from csr.read("dma_ev_pending")
                        if not p >> s & 1:
                            raise Violation("event", "slot %d is pending but its event is not (%x)" % (s, p))
                        if op[2] == "reload":
                            yield from load(s)
                        else:
                            setst(x, "empty")
                            yield from csr.write("dma_slot%d_status" % s, 0)
                elif op[0] == "size":
                    for _ in range(200):
                        if S.get("open", 0) == 0 and not any(y["st"] == "loaded" or S["cyc"] - y["since"] <= SETTLE for y in sh):
                            yield from csr.write("dma_frame_size", op[1] << al)
                            S["F"] = op[1]
                            res.probe("reprogram-size")
                            break
                        yield
                        yield
                res.state(n, tuple(y["st"] for y in sh), None if S["cur"] is None else S["cur"]["nc"] * 4 // S["cur"]["F"], mv[rirq])
            S["done"] = True
        k.thread("sys", cpu())
        lim = 0
        while lim < 400:
            k.run(k.now + 200 * P)
            lim += 1
            if S.get("done") and S["pos"] == len(toks):
                break
            if S.get("done"):
                cs.off = ds.off = True
            if S["quiet"] > 4000:
                break
        cs.off = ds.off = True
        k.run(k.now + 600 * P)
        res.cfg = "%d-%d" % (n, dw)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("command-stall", cs.stalled)
        res.fault("data-stall", ds.stalled)
        res.log(S["pos"], sorted(S["taken"]), [(s["st"], s["base"], s["end"]) for s in sh])
        if S["pos"] < len(toks):
            raise Violation("stuck", "stream word %d is never accepted although memory and software are idle" % S["pos"])
        if cmds:
            raise Violation("no-write-data", "%d accepted commands never got their data" % len(cmds))
        # ---- skipped frames
        for t, i, ok in accepted_sof:
            if i not in S["taken"]:
                if ok:
                    raise Violation("frame-dropped", "the frame starting with stream word %d was skipped although a slot was loaded and the DMA idle" % i)
                res.probe("frame-dropped-no-slot")
        if plan["F"] > 1000 and S["nt"] == 0 and len(S["taken"]) > 20:
            res.probe("large-buffer-unfinished")
        res.nontrivial = S["nt"] >= 2 and S["npend"] >= 1


CHECK = Check()
