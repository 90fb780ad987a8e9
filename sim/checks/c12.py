import random

from migen import *
from litevideo.input import HDMIIn
from litevideo.input.clocking import S6Clocking, S7Clocking
from litevideo.output.hdmi.s6 import S6HDMIOutClocking
from litevideo.output.hdmi.s7 import S7HDMIOutClocking

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..vendor import MODELS, ClkGen, trace
from ..hdmiin import make_pads
from .. import runner


class Pair(Module):
    """Spartan-6: a second output shares the first one's clocks"""
    def __init__(self):
        self.submodules.a = S6HDMIOutClocking(make_pads(), None)
        self.submodules.b = S6HDMIOutClocking(make_pads(), self.a)
        self.get_csrs = self.a.get_csrs


def make(cfg):
    inv = ("clk",) if cfg.get("inv") else ()
    w = cfg["what"]
    if cfg.get("via"):
        # the clocking a receiver makes for itself
        return HDMIIn(make_pads(inv), device="xc7", clkin_freq=cfg.get("fin", 148.5e6), split_mmcm=bool(cfg.get("split"))).clocking
    if w == "in7":
        return S7Clocking(make_pads(inv), cfg.get("fin", 148.5e6), bool(cfg.get("split")))
    if w == "in6":
        return S6Clocking(make_pads(inv))
    if w == "out7":
        return S7HDMIOutClocking(make_pads(inv), None)
    if w == "out6":
        return S6HDMIOutClocking(make_pads(inv), None)
    return Pair()


# domain -> rate relative to the pixel clock
RATES = {
    "in7": {"pix": 1, "pix1p25x": 1.25, "pix5x": 5, "pix_o": 1, "pix5x_o": 5},
    "in6": {"pix": 1, "pix2x": 2, "pix10x": 10, "pix_o": 1},
    "out7": {"pix": 1, "pix5x": 5},
    "out6": {"pix": 1, "pix2x": 2, "pix10x": 10},
    "pair": {"a_pix": 1, "a_pix2x": 2, "a_pix10x": 10, "b_pix": 1, "b_pix2x": 2, "b_pix10x": 10},
}


class Check:
    PROP = "C12"
    RUNS = {"quick": 10000, "thorough": 80000}
    CHUNK = 8
    MIN_RUNS = 60
    RULE = ("one run = a history of reconfiguration accesses, resets and (Spartan-6 output) serial programming by the CPU while the generator completes after random "
            "latencies and loses and regains lock; non-trivial when at least 3 accesses completed and lock changed at least once")
    STATE_MEASURE = "hash of (configuration, operation, completion latency class, lock state, reset state, other generator busy)"
    REAL = ["litevideo.input.clocking.S7Clocking (shared and split) / S6Clocking", "litevideo.output.hdmi.s7.S7HDMIOutClocking", "litevideo.output.hdmi.s6.S6HDMIOutClocking (own and shared clocks)", "litex CSR bank"]
    STUB = ["MMCME2_ADV, PLLE2_ADV, PLL_ADV, DCM_CLKGEN, BUFPLL, BUFG, BUFR, IBUFDS, serdes (sim/vendor.py)", "CPU on the CSR bus"]
    ASSUMPTIONS = ["software starts a new access to a generator only after the previous one on that generator completed, and a new programmer command only when not busy",
                   "clock generator outputs keep running while unlocked (a stopped clock has no edges at which reset could be missed)"]
    FAULTS = ("lock-loss", "slow-completion", "software-reset", "metastable-sample", "clock-jitter", "concurrent-access")
    PROBES = ("write-done", "read-done", "flag-clear-seen", "locked-seen", "unlocked-seen", "reset-while-unlocked", "released", "command-sent", "go-sent", "busy-seen")

    def configs(self, tier):
        return [{"what": "in7"}, {"what": "in7", "split": 1}, {"what": "in6"}, {"what": "out7"}, {"what": "out6"}, {"what": "pair"},
                {"what": "in7", "inv": 1, "fin": 74.25e6, "via": 1}, {"what": "in7", "split": 1, "inv": 1, "via": 1}]

    def build(self, cfg):
        def b():
            top = CSRTop(make(cfg))
            keep = list(top.keep)
            d = Design(top, instance_models=MODELS, keep=keep)
            return top, d
        return runner.design("C12" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        ngen = 2 if cfg.get("split") else 1
        prog = cfg["what"] in ("out6", "pair")
        ops = [["rst", 0]] if rng.random() < .8 else []
        for _ in range(rng.randrange(4, 30)):
            x = rng.random()
            if x < .5:
                ops.append(["acc", rng.randrange(ngen), rng.randrange(2), rng.randrange(128), rng.getrandbits(16), rng.choice([0, 0, 1])])
            elif x < .6:
                ops.append(["rst", rng.randrange(2)])
            elif x < .75:
                ops.append(["poll"])
            elif x < .85 or not prog:
                ops.append(["wait", rng.choice([1, 5, 30, 200])])
            else:
                ops.append(["prog", [rng.getrandbits(10) for _ in range(rng.randrange(1, 3))], rng.randrange(2)])
        locks = []
        for _ in range(rng.randrange(1, 8)):
            locks.append([rng.choice([5, 30, 100, 300]) * rng.randrange(1, 6), rng.randrange(4)])
        return {"cfg": cfg, "ops": ops, "locks": locks, "psys": rng.choice([8000, 10000, 20000]) + rng.choice([0, rng.randrange(60)]), "pbase": rng.choice([6720, 8000, 13440, 40000]),
                "lat": rng.choice([[1, 1], [1, 12], [5, 60], [40, 200]]), "jit": rng.choice([0, 0, 300]), "gap": rng.choice([0, 0, 3])}

    def execute(self, plan, res):
        cfg = plan["cfg"]
        what = cfg["what"]
        top, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1500)
        mv = d.mv
        ps = plan["psys"]
        gens = [m for m in d.ctx.models if isinstance(m, ClkGen)]
        outs = {trace(d, s): (g, dv) for g in gens for s, dv in g.outs.values()}

        # ---- clock tree
        def rate(sig, depth=0):
            """(rate relative to the reference, generator) of a clock signal"""
            if depth > 8:
                raise Violation("clock-wiring", "a clock generator feeds itself")
            if isinstance(sig, ClockSignal):
                if sig.cd not in [c.name for c in d.cds]:
                    return 1.0, None          # a board clock
                sig = d.cds[sig.cd].clk
            if sig is None:
                raise Violation("clock-wiring", "a clock generator's selected input is not connected")
            s = trace(d, sig)
            if s in outs:
                g, dv = outs[s]
                if not (g.mult > 0 and g.div > 0 and dv > 0):
                    raise Violation("clock-rate", "a clock generator is set to multiply by %g and divide by %g and %g" % (g.mult, g.div, dv))
                return rate(g.clkin, depth + 1)[0] * g.mult / g.div / dv, g
            return 1.0, None
        base = rate(d.cds[[n for n in RATES[what] if n.endswith("pix")][0]].clk)[0]
        dom_gen = {}
        for n, r in RATES[what].items():
            if n not in [c.name for c in d.cds]:
                raise Violation("clock-missing", "clock domain %s does not exist" % n)
            q, g = rate(d.cds[n].clk)
            if g is None:
                raise Violation("clock-wiring", "clock domain %s is not driven by a clock generator" % n)
            dom_gen[n] = g
            if abs(q / base - r) > 1e-9:
                raise Violation("clock-rate", "clock domain %s runs at %g times the pixel clock, not %g" % (n, q / base, r))
        # before software programs anything: the received clock; 25 MHz from 50 MHz; 150 MHz from 100 MHz
        e = {"in7": 1, "in6": 1, "out6": .5, "pair": .5, "out7": 1.5}[what]
        if abs(base - e) > 1e-9:
            raise Violation("clock-rate", "the pixel clock runs at %g times the reference clock, not %g" % (base, e))
        if cfg.get("split"):
            # software sets the two generators up in step: the second one multiplies what the first one makes
            g = dom_gen["pix"]
            keep, g.mult = g.mult, g.mult * 2
            if abs(rate(d.cds["pix_o"].clk)[0] - 2 * base) > 1e-9:
                raise Violation("clock-rate", "the output pixel clock does not follow the pixel clock")
            g.mult = keep
        if what in ("out6", "pair"):
            for g in gens:
                for s, dv in g.outs.values():
                    if s in (trace(d, d.cds[n].clk) for n in RATES[what] if n.endswith("pix")) and abs(g.mult / g.div / dv - 1) > 1e-9:
                        raise Violation("clock-rate", "the pixel clock is %g times the programmed clock" % (g.mult / g.div / dv))
        for g in gens:
            if g.feedback and (g.feedback[1] is None or not (isinstance(g.feedback[0], Signal) and trace(d, g.feedback[0]) is trace(d, g.feedback[1]))):
                raise Violation("clock-wiring", "a clock generator's feedback is not its own feedback output: it never locks")
        pb = plan["pbase"]
        domroots = {}
        for n, r in RATES[what].items():
            domroots.setdefault(d.domain_root[n], (n, int(pb / r)))
        for root, (n, per) in domroots.items():
            k.clock(n, per, phase=1 + rng.randrange(per))
        k.clock("sys", ps, phase=1 + rng.randrange(ps), jitter=plan["jit"])
        res.fault("clock-jitter", int(bool(plan["jit"])))
        drps = [g for g in gens if g.drp]
        dcm = next((g for g in gens if g.prog), None)
        if any(g.dclk != "sys" for g in drps) or (dcm and dcm.pclk != "sys"):
            raise Violation("clock-wiring", "a programming port is not clocked by the system clock")
        # which generator does software address: the one making the capture clocks first
        order = drps
        if cfg.get("split"):
            order = [dom_gen["pix"], dom_gen["pix_o"]]
            if order[0] is order[1]:
                raise Violation("clock-wiring", "split clocking uses one generator for both pixel clocks")
        S = {g: {"regs": {}, "pend": None, "flag": [0], "acc": [], "lock": [(0, 0)], "rst": None} for g in gens}
        wi = {}
        for g in gens:
            wi[g] = d.widx(g.lock)

        # ---- lock history (the outside world)
        tot = 0
        lockers = [g for g in gens]
        want = {g: 0 for g in gens}

        def setlock(g, v):
            def f():
                mv[wi[g]] = v
                S[g]["lock"].append((k.now, v))
                if not v:
                    res.fault("lock-loss")
            return f
        for dt, sel in plan["locks"]:
            tot += dt * ps
            g = lockers[sel % len(lockers)]
            want[g] ^= 1
            k.at(tot + rng.randrange(ps), setlock(g, want[g]))
        endt = tot + 4000 * ps
        # ---- DRP and programming ports
        ri = {g: (d.ridx(g.den), d.ridx(g.dwe), d.ridx(g.dadr), d.ridx(g.di), d.widx(g.drdy), d.widx(g.do)) for g in drps}
        runs = []           # serial programming: [start cycle, bits]
        pr = {"cur": None, "cyc": 0, "fell": -99, "done_at": None}
        if dcm:
            rpen, rpd, wdone = d.ridx(dcm.pen), d.ridx(dcm.pdat), d.widx(dcm.pdone)
        exp = []            # accesses software asked for
        rlk = {g: d.ridx(g.locked) for g in gens}
        # the I/O clock buffer locks after its PLL: until then its words are not aligned
        for b in [m for m in d.ctx.models if isinstance(m, dict) and m["kind"] == "BUFPLL"]:
            rlk[[g for g in gens if g is not dcm][0]] = d.ridx(b["lock"])
        lkhist = {g: [0] * 8 for g in gens}

        def sysh():
            pr["cyc"] += 1
            c = pr["cyc"]
            for g in gens:
                h = lkhist[g]
                h.append(mv[rlk[g]])
                h.pop(0)
            for g in drps:
                s = S[g]
                den, dwe, da, di, wr, wo = ri[g]
                mv[wr] = 0
                fl = s["flag"]
                if s.get("fire"):
                    s["fire"] = False
                    f1 = 1
                else:
                    f1 = fl[-1]
                if mv[den]:
                    acc = (order.index(g) if g in order else -1, mv[dwe], mv[da], mv[di])
                    s["acc"].append(acc)
                    if not exp or exp[0][:2] != (acc[0], acc[1]) or exp[0][2] != acc[2] or (acc[1] and exp[0][3] != acc[3]):
                        raise Violation("access", "the port of generator %d sees a %s of address %#x data %#x; software asked for %r" % (
                            acc[0], "write" if acc[1] else "read", acc[2], acc[3], exp[:1]))
                    exp.pop(0)
                    s["pend"] = [c + rng.randrange(plan["lat"][0], plan["lat"][1] + 1), acc]
                    mv[wo] = rng.getrandbits(16)
                    f1 = 0
                    if plan["lat"][1] > 60:
                        res.fault("slow-completion")
                elif s["pend"] and c >= s["pend"][0]:
                    acc = s["pend"][1]
                    if acc[1]:
                        s["regs"][acc[2]] = acc[3]
                        mv[wo] = rng.getrandbits(16)
                    else:
                        v = s["regs"].get(acc[2], (acc[2] * 0x1234 + 0x55aa) & 0xffff)
                        mv[wo] = v
                    mv[wr] = 1
                    s["pend"] = None
                    s["fire"] = True
                fl.append(f1)
                if len(fl) > 8:
                    fl.pop(0)
            if dcm:
                if mv[rpen]:
                    if pr["cur"] is None:
                        pr["cur"] = []
                    pr["cur"].append(mv[rpd])
                elif pr["cur"] is not None:
                    runs.append(pr["cur"])
                    if len(pr["cur"]) == 1:
                        pr["done_at"] = c + rng.randrange(5, 100)
                        mv[wdone] = 0
                    pr["cur"] = None
                    pr["fell"] = c
                if pr["done_at"] is not None and c >= pr["done_at"]:
                    mv[wdone] = 1
                    pr["done_at"] = None
        k.hook("sys", sysh)
        # ---- resets of the pixel domains
        rstdom = [n for n in RATES[what] if d.cds[n].rst is not None and what not in ("out6", "pair")]
        for n in rstdom:
            g = dom_gen[n]
            st = {"ok": 0}

            def h(n=n, g=g, rr=d.ridx(d.cds[n].rst), rl=rlk[g], st=st):
                if mv[rl]:
                    st["ok"] += 1
                    if st["ok"] > 6 and mv[rr]:
                        raise Violation("reset-stuck", "domain %s stays in reset although its generator is locked" % n)
                    if st["ok"] > 6:
                        res.probe("released")
                else:
                    st["ok"] = 0
                    if not mv[rr]:
                        raise Violation("reset-missing", "domain %s is not in reset although its generator is unlocked" % n)
                    res.probe("reset-while-unlocked")
            k.hook(n, h)
        csr = CSRMaster(k, top)
        csr.rng, csr.gap = rng, plan["gap"]
        pre = {"in7": "mmcm", "in6": "pll", "out7": "mmcm", "out6": "pll", "pair": "pll"}[what]
        done = {"n": 0}
        rstval = {"v": 1 if what in ("in7", "in6") else 0}

        def names(gi):
            o = "_o" if gi else ""
            return {"read": pre + "_read" + o, "write": pre + "_write" + o, "drdy": pre + "_drdy" + o,
                    "dat_r": (pre + "_dat_o_r" if gi else pre + "_dat_r")}

        def access(gi, we, adr, dat):
            nm = names(gi)
            g = order[gi]
            adr &= 31 if pre == "pll" else 127       # the width of the port of the family's generators
            yield from csr.write(pre + "_adr", adr)
            yield from csr.write(pre + "_dat_w", dat)
            exp.append((gi, we, adr, dat))
            n0 = len(S[g]["acc"])
            yield from csr.write(nm["write" if we else "read"], 1)
            return g, nm, n0, adr

        def readflag(g, nm):
            v = yield from csr.read(nm["drdy"])
            ok = set(S[g]["flag"][-(6 + plan["gap"]):])
            if v not in ok:
                raise Violation("ready-flag", "the ready flag reads %d; the generator has %scompleted the access" % (v, "" if ok == {1} else "not "))
            if not v:
                res.probe("flag-clear-seen")
            return v

        def complete(g, nm, n0, gi, we, adr, dat):
            n = 0
            while True:
                v = yield from readflag(g, nm)
                if v:
                    break
                n += 1
                if n > 400:
                    raise Violation("ready-stuck", "the ready flag never sets")
            if len(S[g]["acc"]) != n0 + 1:
                raise Violation("access", "one software access reached the generator %d times" % (len(S[g]["acc"]) - n0))
            if not we:
                v = yield from csr.read(nm["dat_r"])
                e = S[g]["regs"].get(adr, (adr * 0x1234 + 0x55aa) & 0xffff)
                if v != e:
                    raise Violation("read-data", "read of address %#x returns %#x instead of %#x" % (adr, v, e))
                res.probe("read-done")
            else:
                res.probe("write-done")
            done["n"] += 1
            res.state(what, cfg.get("split"), we, plan["lat"][1], mv[rlk[g]], rstval["v"], S[order[-1]]["pend"] is not None)

        def poll():
            if csr.has("locked"):
                v = yield from csr.read("locked")
                g = dom_gen["pix"]
                if v not in lkhist[g]:
                    raise Violation("locked-flag", "the locked flag reads %d although the generator has been %slocked" % (v, "" if lkhist[g][0] else "un"))
                res.probe("locked-seen" if v else "unlocked-seen")
            if csr.has("status"):
                v = yield from csr.read("status")
                pll = [g for g in gens if g is not dcm][0]
                if (v >> 2 & 1) not in lkhist[dcm] or (v >> 3 & 1) not in lkhist[pll]:
                    raise Violation("locked-flag", "the status reads %#x although the generators have been locked %r %r" % (v, lkhist[dcm][-1], lkhist[pll][-1]))
                res.probe("locked-seen" if v & 8 else "unlocked-seen")

        def cpu():
            yield
            if rstval["v"]:
                # a receiver's generator waits for software to set it up for the source
                for g in order:
                    if not mv[d.ridx(g.rst)]:
                        raise Violation("reset-default", "a receiver's clock generator runs before software released its reset")
            for op in plan["ops"]:
                if op[0] == "acc":
                    gi, we, adr, dat, both = op[1:]
                    a = yield from access(gi, we, adr, dat)
                    if both and len(order) > 1:
                        b = yield from access(1 - gi, 1 - we, adr ^ 1, dat ^ 0xff)
                        res.fault("concurrent-access")
                        yield from complete(b[0], b[1], b[2], 1 - gi, 1 - we, b[3], dat ^ 0xff)
                    yield from complete(a[0], a[1], a[2], gi, we, a[3], dat)
                elif op[0] == "rst":
                    yield from csr.write(pre + "_reset", op[1])
                    rstval["v"] = op[1]
                    yield
                    yield
                    for g in order:
                        e = op[1]
                        if what in ("out6", "pair"):
                            e |= 1 - mv[rlk[dcm]]
                        if mv[d.ridx(g.rst)] != e:
                            raise Violation("reset-pin", "software wrote reset %d, the generator's reset is %d" % (op[1], mv[d.ridx(g.rst)]))
                    res.fault("software-reset", op[1])
                elif op[0] == "poll":
                    yield from poll()
                elif op[0] == "wait":
                    for _ in range(op[1]):
                        yield
                elif op[0] == "prog":
                    for cmd in op[1]:
                        yield from csr.write("cmd_data", cmd)
                        n0 = len(runs)
                        yield from csr.write("send_cmd_data", 1)
                        c0 = pr["cyc"]
                        n = 0
                        if rng.random() < .3:
                            yield from csr.write("cmd_data", rng.getrandbits(10))
                        while True:
                            v = yield from csr.read("status")
                            if not v & 1:
                                break
                            res.probe("busy-seen")
                            n += 1
                            if pr["cyc"] - c0 > 60:
                                raise Violation("busy-stuck", "the clock programmer stays busy")
                        if pr["cur"] is not None or pr["fell"] > pr["cyc"] - 2 or len(runs) <= n0:
                            raise Violation("busy-early", "the clock programmer reports idle during a command or right at its end")
                        b = runs[n0:]
                        e = [cmd >> j & 1 for j in range(10)]
                        if b != [e]:
                            raise Violation("command-bits", "command %#x was sent as %r" % (cmd, b))
                        res.probe("command-sent")
                    if op[2]:
                        n0 = len(runs)
                        yield from csr.write("send_go", 1)
                        for _ in range(4):
                            yield
                        if runs[n0:] != [[0]]:
                            raise Violation("go", "the go command was sent as %r" % (runs[n0:],))
                        res.probe("go-sent")
                        n = 0
                        while not (yield from csr.read("status")) & 2:
                            n += 1
                            if n > 300:
                                raise Violation("done-missing", "completion of the clock programmer is not reported")
            st2["done"] = True
        st2 = {"done": False}
        t = k.thread("sys", cpu())
        while not st2["done"]:
            k.run(k.now + 300 * ps)
            if k.now > 100000 * ps + endt:
                raise Violation("stuck", "software does not finish")
        if k.now < tot + 50 * ps:
            k.run(tot + 50 * ps)
        for g in drps:
            if g not in order and S[g]["acc"]:
                raise Violation("access", "an access reached a generator software did not address")
        res.cfg = what + ("-split" if cfg.get("split") else "")
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.log([(S[g]["acc"], S[g]["lock"]) for g in gens], runs)
        if done["n"] >= 3:
            res.nontrivial = True

    def simplify(self, plan):
        for i in range(len(plan["ops"])):
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        for i in range(len(plan["locks"])):
            yield dict(plan, locks=plan["locks"][:i] + plan["locks"][i + 1:])
        if plan["jit"]:
            yield dict(plan, jit=0)


CHECK = Check()
