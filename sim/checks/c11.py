import random

from migen import *
from litevideo.input.datacapture import S6DataCapture, S7DataCapture

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..vendor import MODELS, trace
from .. import runner

DEPTH = 1024          # 64-bit words of serial data


class BitSource(Module):
    """plays a bit memory (bit 0 of a word first); `nxt` is the bit after the current one"""
    def __init__(self, domain, pad_p, pad_n):
        self.mem = Memory(65, DEPTH)
        port = self.mem.get_port(async_read=True)
        self.specials += self.mem, port
        sd = getattr(self.sync, domain)
        pos, adr = Signal(6, reset_less=True), Signal(max=DEPTH, reset_less=True)
        cur, nxt = Signal(reset_less=True), Signal(reset_less=True)
        late = Signal(reset_less=True)
        bit = Signal()
        self.comb += [port.adr.eq(adr), bit.eq((port.dat_r[:64] >> pos) & 1)]
        sd += [nxt.eq(bit), cur.eq(nxt), late.eq(port.dat_r[64]), pos.eq(pos + 1), If(pos == 63, adr.eq(adr + 1))]
        self.comb += [pad_p.eq(cur), pad_n.eq(~cur)]
        pad_p.other_eye = Signal()
        self.comb += pad_p.other_eye.eq(late & (cur ^ nxt))


class Lane(Module):
    def __init__(self, fam, inverted, nt=8):
        pp, pn = Signal(), Signal()
        if inverted:
            pp.inverted = True
        cls = S7DataCapture if fam == "xc7" else S6DataCapture
        self.submodules.src = BitSource("ddr_pix5x" if fam == "xc7" else "pix10x", pp, pn)
        self.submodules.cap = cls(pp, pn) if nt == 8 else cls(pp, pn, nt)
        if hasattr(self.cap, "serdesstrobe"):
            self.comb += self.cap.serdesstrobe.eq(1)      # the BUFPLL is running
        self.get_csrs = self.cap.get_csrs


class Votes:
    """set of possible (votes, restart outstanding) pairs; the moment a software restart lands is
    only known to a few clocks"""
    def __init__(self, nt=8):
        self.mid, self.top = 1 << nt - 1, (1 << nt) - 1
        self.s = {(self.mid, False)}
        self.win = None          # (first, last) edge at which an outstanding restart may land

    def restart(self, lo, hi):
        self.s = {(v, True) for v, p in self.s}
        self.win = (lo, hi)

    def step(self, edge, vote):
        out = set()
        for v, p in self.s:
            nv = v
            if vote and 0 < v < self.top:
                nv = v + vote
            if p and self.win[0] <= edge:
                out.add((self.mid, False))
                if edge < self.win[1]:
                    out.add((nv, True))
            else:
                out.add((nv, p))
        self.s = out

    def clear(self):
        self.s = {(self.mid, False)}

    def flags(self):
        return {(v == self.top) | (v == 0) << 1 for v, p in self.s}


class Check:
    PROP = "C11"
    RUNS = {"quick": 8000, "thorough": 60000}
    CHUNK = 8
    MIN_RUNS = 60
    RULE = ("one run = up to 60000 serial bits through one real lane capture at a random phase between its clocks, with a history of delay commands, phase "
            "restarts, status reads and domain resets from the CPU; non-trivial when at least 300 words were compared and a command was executed")
    STATE_MEASURE = "hash of (family, polarity, phase between pix and the capture clock in 8ths, phase status, tap class, command)"
    REAL = ["litevideo.input.datacapture.S7DataCapture / S6DataCapture incl. S7PhaseDetector, migen Gearbox, PulseSynchronizer, BusSynchronizer", "litex CSR bank"]
    STUB = ["IBUFDS, IDELAYE2, ISERDESE2, IODELAY2, ISERDES2 (sim/vendor.py)", "bit source", "phase detector votes on Spartan-6", "CPU on the CSR bus"]
    ASSUMPTIONS = ["one command outstanding per synchroniser (spaced by at least five clocks of the slower domain), on Spartan-6 the CPU waits for not busy",
                   "increment and decrement of the same delay, or reset and a move, are not written together",
                   "a vote compares whole captured words of the two samplers, as the phase detector documents",
                   "no delay command is outstanding when the capture clock domain is reset; taps are not compared across such a reset until software resets the delay"]
    FAULTS = ("clock-phase", "pix-jitter", "metastable-sample", "torn-crossing", "domain-reset", "back-to-back-commands", "slow-delay")
    PROBES = ("words-compared", "after-reset", "inverted", "move", "delay-reset", "late", "early", "restart", "boundary", "readback", "busy-seen", "both-moved", "wrap")

    def configs(self, tier):
        return [{"fam": f, "inv": v} for f in ("xc7", "xc6") for v in (0, 1)] + [{"fam": "xc7", "inv": 0, "nt": 5}, {"fam": "xc6", "inv": 1, "nt": 6}]

    def build(self, cfg):
        def b():
            lane = Lane(cfg["fam"], cfg["inv"], cfg.get("nt", 8))
            top = CSRTop(lane)
            d = Design(top, instance_models=MODELS, keep=[lane.cap.d] + top.keep, unrelated=(("sys",), ("pix", "pix1p25x", "ddr_pix5x", "pix2x", "pix10x", "pix_o")))
            return top, d
        return runner.design("C11" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        n = rng.choice([600, 1200, 3000])          # pixel words
        segs = []
        left = n * 10
        while left > 0:
            kind = rng.choice(["rnd", "rnd", "rnd", "const", "alt", "blank", "ctl"])
            ln = rng.choice([rng.randrange(20, 300), 8 * rng.randrange(100, 140), rng.randrange(500, 4000)])
            segs.append([kind, ln, int(rng.random() < .5), rng.getrandbits(32)])
            left -= ln
        ops = []
        t = 0
        per = rng.choice([6734, 8000, 13468, 39720])
        gap = rng.choice([1, 1, 20])
        for _ in range(rng.randrange(2, 40)):
            what = rng.choice(["move", "move", "move", "move", "rst", "restart", "phase", "phase", "tap", "run"])
            if what == "move":
                if cfg["fam"] == "xc7":
                    ops.append(["dly", rng.choice([2, 4, 8, 16, 2 | 8, 2 | 16, 4 | 8, 4 | 16]), rng.randrange(gap)])
                else:
                    ops.append(["dly", rng.choice([1, 4, 5, 16, 16, 32, 32]), rng.randrange(gap)])
            elif what == "rst":
                ops.append(["dly", 1 if cfg["fam"] == "xc7" else rng.choice([2, 8, 10]), rng.randrange(gap)])
            elif what == "run":
                if rng.random() < .5:
                    b = rng.choice([2, 4, 8, 16]) if cfg["fam"] == "xc7" else rng.choice([16, 32])
                    ops += [["dly", b, 0] for _ in range(rng.randrange(2, 36))]
                else:
                    ops.append(["wait", rng.randrange(1, 400)])
            else:
                ops.append([what, rng.randrange(gap)])
        resets = []
        if rng.random() < .3:
            resets = [[rng.randrange(50, n), rng.randrange(1, 40)] for _ in range(rng.randrange(1, 3))]
        pollt = int(cfg["fam"] == "xc7" and rng.random() < .3)
        return {"cfg": cfg, "n": n, "pollt": pollt, "segs": segs, "ops": ops, "resets": resets, "ppix": per - per % 40, "psys": rng.choice([8000, 10000, 12500, 20000]) + rng.choice([0, rng.randrange(60)]),
                "ph": rng.randrange(10**6), "pixoff": rng.choice([0, 0, rng.randrange(1, 1000)]), "jit": rng.choice([0, 0, 100]), "votes": rng.choice([30, 50, 70, 95, 100]),
                "busy": [rng.choice([1, 3, 8, 40]), rng.choice([1, 3, 8, 40])]}

    def execute(self, plan, res):
        cfg = plan["cfg"]
        s7 = cfg["fam"] == "xc7"
        top, d = self.build(cfg)
        lane = top.dut
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1200)
        pp, ps = plan["ppix"], plan["psys"]
        mv = d.mv
        # ---- serial data
        bits, late = [], []
        for kind, ln, lt, sd in plan["segs"]:
            r = random.Random(sd)
            if kind == "rnd":
                v = r.getrandbits(ln)
                bits.append(format(v, "0%db" % ln))
            elif kind == "const":
                bits.append(str(sd & 1) * ln)
            elif kind == "alt":
                bits.append(("01" * ln)[sd & 1:][:ln])
            else:
                w = format([0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011][sd & 3], "010b")[::-1]
                bits.append((w * (ln // 10 + 1))[:ln])
            late += [lt] * ln
        bits = "".join(bits)
        N = min(len(bits), plan["n"] * 10, DEPTH * 64 - 64)
        bits = bits[:N].ljust((N + 63) // 64 * 64, "0")
        for w in range(len(bits) // 64):
            d.mem_set(lane.src.mem, w, int(bits[64 * w:64 * w + 64][::-1], 2) | late[min(64 * w, len(late) - 1)] << 64)
        # ---- clocks: the capture clocks come from one PLL; pix may sit at any phase to them
        t0 = 2000 + plan["ph"] % 1000
        bp = pp // 10
        capd = "pix1p25x" if s7 else "pix2x"
        cp = pp * 4 // 5 if s7 else pp // 2
        if s7:
            k.clock("ddr_pix5x", bp, phase=t0)
            off = plan["pixoff"] * pp // 1000
            k.clock("pix", pp, phase=t0 + off + (pp if plan["jit"] else 0), jitter=plan["jit"])
        else:
            k.clock("pix10x", bp, phase=t0)
            off = plan["pixoff"] * pp // 1000
            k.clock("pix", pp, phase=t0 + off)
        k.clock(capd, cp, phase=t0 + bp * (plan["ph"] % 8))
        k.clock("sys", ps, phase=1 + rng.randrange(ps), jitter=plan["jit"])
        res.fault("clock-phase")
        res.fault("pix-jitter", int(bool(plan["jit"])))
        ms = d.ctx.models
        ds = []              # words delivered
        rd = d.ridx(lane.cap.d)
        st = {"rst": [], "edge": 0}

        def pix():
            ds.append(mv[rd])
        k.hook("pix", pix)
        votes = Votes(cfg.get("nt", 8))
        rr = d.ridx(d.cds[capd].rst)
        hist = []            # (time, possible status values) on change
        ev = {"prev": 0, "rec": None}
        inv = cfg["inv"]

        def note():
            f = frozenset(votes.flags())
            if not hist or hist[-1][1] != f:
                hist.append((k.now, f))
                for v in f:
                    res.state(cfg["fam"], inv, plan["ph"] % 8, v)
        if s7:
            idl = [m for m in ms if isinstance(m, dict) and m["kind"] == "IDELAYE2"]
            ser = [m for m in ms if isinstance(m, dict) and m["kind"] == "ISERDESE2"]
            ib = [m for m in ms if isinstance(m, dict) and m["kind"] == "IBUFDS_DIFF_OUT"]
            # the true view is the one that follows the pad; the other one is complemented
            mi, si = self.roles(d, idl, ser)
            rm, rs = d.ridx(mi["q"]), d.ridx(si["q"])

            def cap():
                e = st["edge"] = st["edge"] + 1
                m, s = mv[rm], mv[rs] ^ 0xff
                if inv:
                    m, s = m ^ 0xff, s ^ 0xff
                if mv[rr]:
                    votes.clear()
                    ev["prev"] = 0
                else:
                    if m != ev["prev"]:
                        votes.step(e, -1 if m == s else 1)
                    elif any(p for v, p in votes.s):
                        votes.step(e, 0)
                    ev["prev"] = m
                note()
        else:
            isd = [m for m in ms if isinstance(m, dict) and m["kind"] == "ISERDES2"][0]
            iod = {m["role"]: m for m in ms if isinstance(m, dict) and m["kind"] == "IODELAY2"}
            wv, wi = d.widx(isd["valid"]), d.widx(isd["incdec"])
            bm, bs = d.ridx(iod["MASTER"]["busy"]), d.ridx(iod["SLAVE"]["busy"])
            for m in iod.values():
                d.set(m["dur"], plan["busy"][m["role"] == "SLAVE"])
            if max(plan["busy"]) > 8:
                res.fault("slow-delay")
            cur = [0, 0]
            segi = {"i": 0, "left": 0, "p": 0, "l": 0}

            def cap():
                e = st["edge"] = st["edge"] + 1
                if mv[rr]:
                    votes.clear()
                else:
                    v = 0
                    if cur[0] and not mv[bm] and not mv[bs]:
                        v = -1 if cur[1] else 1
                    votes.step(e, v)
                note()
                if segi["left"] <= 0:
                    segi["left"] = rng.choice([20, 127, 128, 129, 200])
                    segi["p"] = plan["votes"] if rng.random() < .7 else 0
                    segi["l"] = rng.randrange(2) if rng.random() < .7 else 2
                segi["left"] -= 1
                cur[0] = int(rng.random() * 100 < segi["p"])
                cur[1] = segi["l"] if segi["l"] < 2 else rng.randrange(2)
                mv[wv], mv[wi] = cur
        k.hook(capd, cap)
        # ---- domain resets (lock loss): both domains, released one after the other
        end = t0 + (N // 10) * pp
        rp, rc = d.widx(d.cds["pix"].rst), d.widx(d.cds[capd].rst)

        def assert_():
            mv[rp] = mv[rc] = 1
            st["rst"].append([len(ds), None])
            res.fault("domain-reset")

        def rel_a():
            mv[rc] = 0

        def rel_b():
            mv[rp] = 0
            st["rst"][-1][1] = len(ds)
        for a, n in plan["resets"]:
            ta = t0 + a * pp + rng.randrange(pp)
            k.at(ta, assert_)
            tr = ta + n * pp + 3 * cp
            k.at(tr, rel_a)
            k.at(tr + rng.randrange(3 * pp), rel_b)
        ref = {"m": 0, "s": 0}
        taps = {"m": [(0, 0)], "s": [(0, 0)]}
        dirty = {"v": False}
        csr = CSRMaster(k, top)
        spacing = (6 * cp + ps - 1) // ps + 6
        cnt6 = {"MASTER": [0, 0, 0, 0], "SLAVE": [0, 0, 0, 0]}    # cal rst inc dec

        def quiet():
            """true when no reset is active or near"""
            return not any(t0 + (a - 12) * pp - (max(plan["busy"]) + 12) * cp - 30 * ps < k.now < t0 + (a + n + 16) * pp for a, n in plan["resets"])

        def tap(q):
            ta = k.now
            v = yield from csr.read("cntvalueout_" + q)
            lo = ta - 300 * (ps + cp)
            vals = {x for j, (t, x) in enumerate(taps[q]) if (taps[q][j + 1][0] if j + 1 < len(taps[q]) else k.now + 1) >= lo}
            res.probe("readback")
            if quiet() and not plan["resets"] and v not in vals:
                raise Violation("readback", "%s tap reads %d, the delay is (or recently was) at %r" % (q, v, sorted(vals)))

        def cpu():
            for op in plan["ops"]:
                for _ in range(op[-1] if op[0] != "wait" else op[1]):
                    yield
                if op[0] == "wait":
                    continue
                while not quiet() and k.now < end:
                    dirty["v"] = True
                    yield
                if k.now > end - 400 * ps:
                    break
                if op[0] == "dly":
                    v = op[1]
                    if s7:
                        if dirty["v"]:
                            # after a lock loss software starts over
                            yield from csr.write("dly_ctl", 1)
                            for _ in range(spacing):
                                yield
                            ref["m"] = ref["s"] = 0
                            dirty["v"] = False
                        t1 = k.now
                        yield from csr.write("dly_ctl", v)
                        if v & 1:
                            ref["m"] = ref["s"] = 0
                            res.probe("delay-reset")
                        for q, (iu, du) in (("m", (2, 4)), ("s", (8, 16))):
                            dv = bool(v & iu) - bool(v & du)
                            if dv:
                                res.probe("move")
                                if not 0 <= ref[q] + dv <= 31:
                                    res.probe("wrap")
                                ref[q] = (ref[q] + dv) & 31
                            taps[q].append((t1, ref[q]))
                        t0 = k.now
                        if plan["pollt"]:
                            # the registers are read while the new value crosses
                            q = "ms"[v & 6 == 0]
                            for _ in range(20):
                                yield from tap(q)
                        while k.now < t0 + spacing * ps:
                            yield
                        if v & 6 and v & 24:
                            res.probe("both-moved")
                        if op[2] == 0:
                            res.fault("back-to-back-commands")
                        gm, gs = d.get(mi["dl"]["cnt"]), d.get(si["dl"]["cnt"])
                        if quiet() and (gm, gs) != (ref["m"], ref["s"]):
                            raise Violation("tap", "after delay command %#x the taps are master %d, slave %d; expected %d, %d" % (v, gm, gs, ref["m"], ref["s"]))
                        res.state(cfg["fam"], v, ref["m"] in (0, 31), ref["s"] in (0, 31))
                    else:
                        yield from csr.write("dly_ctl", v)
                        # the operation is outstanding from the write on: poll at once
                        mm, ss = bool(v & 0x31), bool(v & 0x34)
                        t1 = k.now
                        n = 0
                        while True:
                            b = yield from csr.read("dly_busy")
                            if b:
                                res.probe("busy-seen")
                            for bit, role, want in ((0, "MASTER", mm), (1, "SLAVE", ss)):
                                if not b >> bit & 1 and want:
                                    # reported finished: the delay element must have executed it and be idle
                                    now = self.counts(d, iod)
                                    exp = list(cnt6[role])
                                    exp[0] += bool(v & (1 if role == "MASTER" else 4))
                                    exp[2] += bool(v & 16)
                                    exp[3] += bool(v & 32)
                                    got = now[role][:]
                                    if (got[0], got[2], got[3]) != (exp[0], exp[2], exp[3]) and quiet():
                                        raise Violation("busy-early", "%s delay reported idle before it executed command %#x (%r instead of %r)" % (role, v, got, exp))
                                    if mv[bm if bit == 0 else bs] and quiet():
                                        raise Violation("busy-early", "%s delay reported idle while its delay element is busy" % role)
                                if b >> bit & 1 and not want:
                                    raise Violation("busy-wrong", "%s delay reported busy after command %#x" % (role, v))
                            if not b:
                                break
                            n += 1
                            if n > 60 + (max(plan["busy"]) + 12) * cp // ps and quiet():
                                raise Violation("busy-stuck", "delay busy status does not clear after command %#x" % v)
                        for _ in range(spacing):
                            yield
                        for role, cb, rb in (("MASTER", 1, 2), ("SLAVE", 4, 8)):
                            c = cnt6[role]
                            c[0] += bool(v & cb)
                            c[1] += bool(v & rb)
                            c[2] += bool(v & 16)
                            c[3] += bool(v & 32)
                        if v & 48:
                            res.probe("move")
                        if v & 10:
                            res.probe("delay-reset")
                        if v & 5 == 5 or v & 48:
                            res.probe("both-moved")
                        now = self.counts(d, iod)
                        if dirty["v"]:
                            for role in cnt6:
                                cnt6[role] = now[role][:]
                            dirty["v"] = False
                        elif quiet() and now != cnt6:
                            raise Violation("tap", "after delay command %#x the delay elements executed %r (cal, reset, inc, dec); expected %r" % (v, now, cnt6))
                elif op[0] == "restart":
                    e0 = st["edge"]
                    yield from csr.write("phase_reset", 1)
                    votes.restart(e0, e0 + 8 + (4 * ps) // cp)
                    res.probe("restart")
                    for _ in range(spacing + 6):
                        yield
                elif op[0] == "phase":
                    ta = k.now
                    v = yield from csr.read("phase")
                    tb = k.now
                    ok = set()
                    lo = ta - 4 * ps - 2 * cp
                    for j, (t, f) in enumerate(hist):
                        nt = hist[j + 1][0] if j + 1 < len(hist) else tb + 1
                        if nt >= lo and t <= tb:
                            ok |= f
                    if not ok:
                        ok = {0}
                    if quiet() and v not in ok:
                        raise Violation("phase-status", "phase status reads %d (bit 0 late, bit 1 early); the accumulated votes allow %r" % (v, sorted(ok)))
                    if v & 1:
                        res.probe("late")
                    if v & 2:
                        res.probe("early")
                    if any(x in (1, 2, 126, 253, 254) for x, p in votes.s):
                        res.probe("boundary")
                elif op[0] == "tap" and s7 and not dirty["v"]:
                    for q in "ms":
                        yield from tap(q)
            st["done"] = True
        k.thread("sys", cpu())
        k.run(end - 20 * pp)
        res.cfg = "%s-%d" % (cfg["fam"], inv)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.fault("torn-crossing", mv[d.C_TEARN])
        res.log(ds, ref, cnt6, hist)
        # ---- words
        cuts = []
        a = 0
        for x, y in st["rst"]:
            cuts.append((a, x))
            a = y if y is not None else len(ds)
        cuts.append((a, len(ds)))
        n = 0
        pos = 0
        stream = bits if not inv else bits.translate({48: "1", 49: "0"})
        for j, (a, b) in enumerate(cuts):
            a += 16
            b -= 2
            if b - a < 8:
                continue
            seg = "".join(format(w, "010b")[::-1] for w in ds[a:b])
            f = stream.find(seg, pos)
            if f < 0:
                # longest prefix that matches somewhere, for the message
                lo, hi = 0, len(seg)
                while lo + 1 < hi:
                    mid = (lo + hi) // 2
                    if stream.find(seg[:mid], pos) >= 0:
                        lo = mid
                    else:
                        hi = mid
                raise Violation("bits", "the delivered words are not the received bits in order: mismatch %d words after the start of segment %d" % (lo // 10, j))
            pos = f + len(seg)
            n += b - a
            if j:
                res.probe("after-reset")
        res.probe("words-compared", n)
        if inv:
            res.probe("inverted")
        res.state(cfg["fam"], inv, plan["pixoff"] // 125, plan["ph"] % 8)
        if n >= 300 and any(o[0] == "dly" for o in plan["ops"]):
            res.nontrivial = True

    @staticmethod
    def roles(d, idl, ser):
        """which delay and serdes belong to the true and to the complemented input"""
        by = {trace(d, m["out"]): m for m in idl}
        out = []
        for s in ser:
            dl = by.get(trace(d, s["src"]))
            if dl is None:
                raise Violation("wiring", "a deserialiser is not fed by an input delay")
            out.append(dict(s, dl=dl))
        # the true side is the serdes whose delay is fed by the buffer's O output
        ib = [m for m in d.ctx.models if isinstance(m, dict) and m["kind"] == "IBUFDS_DIFF_OUT"][0]
        o = trace(d, ib["o"])
        a = [x for x in out if trace(d, x["dl"]["src"]) is o]
        b = [x for x in out if trace(d, x["dl"]["src"]) is not o]
        if len(a) != 1 or len(b) != 1:
            raise Violation("wiring", "the two samplers are not fed by the two sides of the input buffer")
        return a[0], b[0]

    @staticmethod
    def counts(d, iod):
        return {r: [d.get(m["ncal"]), d.get(m["nrst"]), d.get(m["ninc"]), d.get(m["ndec"])] for r, m in iod.items()}

    def simplify(self, plan):
        for i in range(len(plan["ops"])):
            p = dict(plan)
            p["ops"] = plan["ops"][:i] + plan["ops"][i + 1:]
            yield p
        if plan["resets"]:
            yield dict(plan, resets=[])
        if plan["n"] > 600:
            yield dict(plan, n=600)
        if plan["jit"]:
            yield dict(plan, jit=0)


CHECK = Check()
