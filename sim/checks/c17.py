import random

from ..kernel import Kernel, Violation, CSRMaster
from ..dram import Stall, ReadPort
from ..vout import TN, DW, word
from .. import outphy
from ..receiver import Receiver, Frame, build, gen_mild, drain
from .c07 import pixel_words, split_word


def gen_geom(rng, pf, maxpix):
    while True:
        h = rng.choice([rng.randrange(16, 40), rng.randrange(16, 80), 2 * pf * rng.randrange(2, 8)])
        v = rng.randrange(1, 8)
        if h < 16 or h * v % pf:
            continue
        hs = h + rng.randrange(1, 8)
        he = hs + rng.randrange(1, 8)
        ht = max(he + rng.randrange(0, 8), h + 14)
        vs = v + rng.choice([0, 0, 1, 2])
        ve = vs + rng.randrange(1, 3)
        vt = ve + rng.choice([0, 0, 1, 3])
        if (ht + 1) * (vt + 1) <= maxpix:
            return [h, hs, he, ht, v, vs, ve, vt]


class LoopRx(Receiver):
    """pictures: list of (character index from which it may be shown, words); the last one stays"""
    EXACT, STATUS, MUST = 4, 5, 6

    def judge(self):
        T, res, L = self.T, self.res, self.L
        pos = 0
        n = 0
        P = self.pictures
        flip = P[-1][0]
        for ts, tseen, words, base, tl in sorted(self.captures, key=lambda c: c[0] or 0):
            if ts is None:
                raise Violation("capture", "slot at %#x became pending without a write to its first word" % base)
            if ts > T["close"]:
                continue            # the recording ends inside this frame
            if ts < T["exact"]:
                res.probe("capture-before-recovery")
                continue
            if None in words:
                raise Violation("capture", "a captured frame has words that were never written")
            px = [self.split(w) for w in words]
            hit = [i for i in range(len(P)) if P[i][1] == px]
            if not hit:
                best = max(range(len(P)), key=lambda i: sum(a == b for a, b in zip(P[i][1], px)))
                j = next(j for j in range(len(px)) if px[j] != P[best][1][j])
                raise Violation("picture", "a captured frame is none of the pictures shown; closest is picture %d, which differs at word %d of %d: %r instead of %r" % (
                    best, j, len(px), px[j][:4], P[best][1][j][:4]))
            if hit[-1] < pos:
                raise Violation("old-picture", "picture %d was captured after picture %d" % (hit[-1], pos))
            if hit[-1] < len(P) - 1 and "settled" in T and ts > T["settled"]:
                raise Violation("old-picture", "picture %d is still captured long after software switched to the last one" % hit[-1])
            pos = min(i for i in hit if i >= pos)
            n += 1
            res.probe("frame-captured")
            res.probe("words-compared", len(px))
        started = [ts for ts in self.started.values() if ts >= T["must"]]
        if self.prompt:
            lost = (T["end"] - T["must"]) / (L * self.pp) - 2 - len(started)
            if lost > 0:
                raise Violation("missed-frame", "only %d frames were captured in the time of %.1f" % (len(started), (T["end"] - T["must"]) / (L * self.pp)))
        self.ncap = n


class Check:
    PROP = "C17"
    RUNS = {"quick": 1600, "thorough": 30000}
    CHUNK = 4
    MIN_RUNS = 40
    RULE = ("one run = the real video output scanning pictures out of a memory (with restarts, lock losses and picture flips), its serial lanes recorded bit by bit, carried over a cable with "
            "skew, phase and disturbances into the whole real HDMI input, captured into a second memory; non-trivial when at least two frames were captured and compared after a disturbance or flip")
    STATE_MEASURE = "hash of (transmitter, receiver front end, lane phases and skews, kinds of disturbance, captured frames)"
    REAL = ["litevideo.output.VideoOut whole (core, driver, encoder, serialisers)", "litevideo.input.HDMIIn whole", "litedram DMA reader and writer, litex CSR banks"]
    STUB = ["vendor primitives (sim/vendor.py)", "cable", "two memory controllers", "software on both sides"]
    ASSUMPTIONS = ["16 or more active pixels per line, at least 14 clocks of horizontal blanking, a front porch of at least one clock", "the transmitter's memory keeps up",
                   "the receiver never influences the transmitter, so the two are simulated one after the other, joined by the exact bit streams",
                   "the transmitter's clock generator loses lock only while the output is disabled by software"]
    FAULTS = ("bit-errors", "dead-lane", "noise-lane", "bit-slip", "cut", "lock-loss", "clock-stop", "transmitter-restart", "transmitter-lock-loss", "flip", "memory-stall", "lane-skew", "metastable-sample")
    PROBES = ("frame-captured", "words-compared", "status-checked", "capture-before-recovery", "bit-level", "inverted")

    def configs(self, tier):
        o = []
        for tx, rx, hdmi, w, inv in (("xc7", "word", 0, 64, ()), ("xc6", "word", 1, 64, ()), ("xc7", "xc7", 0, 64, ()), ("xc6", "xc6", 0, 64, ("data0", "data1", "data2")),
                                     ("xc7", "xc6", 1, 128, ("data2",)), ("xc6", "xc7", 0, 64, ("data0", "clk"))):
            o.append({"tx": {"fam": tx, "kind": "vo", "mode": "rgb", "inv": list(inv)}, "rx": {"front": rx, "hdmi": hdmi, "mode": "rgb", "w": w, "depth": 256, "slots": 2, "inv": [x for x in inv if x != "clk"]}})
        return o

    def build(self, cfg):
        outphy.top_design(cfg["tx"])
        return build(cfg["rx"])

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        pf = cfg["rx"]["w"] // 32
        g = gen_geom(rng, pf, 1200)
        L = (g[3] + 1) * (g[7] + 1)
        # software on the transmitter: programme, show, restart, flip
        ops = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(["show", g if rng.random() < .5 else gen_geom(rng, pf, 900), rng.randrange(8) * 4096, rng.choice([.3, 1, 1.5, 2.5]), rng.choice([0, 0, 1])])
        last = ["show", g, 4096 * rng.randrange(8), None, 0]
        flips = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            flips.append([rng.randrange(3 * L, 9 * L), 4096 * rng.randrange(8, 40)])
        flips.sort()
        faults = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.choice(["err", "dead", "noise", "slip", "cut", "lock", "clk"])
            at = rng.randrange(100, 3 * L)
            lane = rng.randrange(4)
            if k == "err":
                faults.append(["err", at, rng.choice([1, 40, 400]), lane, rng.choice([2, 20, 500])])
            elif k in ("dead", "noise"):
                faults.append([k, at, rng.choice([1, 8, 60, 500]), lane, rng.getrandbits(1)])
            elif k == "slip":
                faults.append(["slip", at, rng.choice([-9, -3, -1, 1, 2, 5, 9, 10, 30]), lane])
            elif k == "cut":
                faults.append(["cut", at, rng.choice([1, 7, 30, 300])])
            else:
                faults.append([k, at, rng.choice([2, 10, 100, 400])])
        sk = [rng.choice([0, 0, rng.randrange(7), 6]) for _ in range(3)]
        return {"cfg": cfg, "geom": g, "ops": ops, "last": last, "flips": flips, "faults": faults,
                "skew": [x - min(sk) for x in sk], "phase": [rng.randrange(10) for _ in range(3)],
                "lat": rng.choice([[1, 1], [2, 4], [2, 8]]), "tcs": [] if rng.random() < .5 else [["on", 30, 0], ["every", 6, 1]],
                "ppix": rng.choice([6720, 8000, 13440, 39720]), "psys": rng.choice([7000, 8000, 10000]), "jit": 0,
                "cs": gen_mild(rng) if rng.random() < .5 else [], "ds": gen_mild(rng) if rng.random() < .5 else [],
                "gap": rng.choice([0, 0, 8]), "reload": rng.choice([0, 0, 100, 800]), "poll": rng.choice([50, 200])}

    FIXED = ("skew", "phase", "geom", "last", "cs", "ds", "tcs", "lat")

    # -- transmitter
    def transmit(self, plan, res, rng):
        """returns the three lanes as bit strings, and for each flip the character count at which it was written"""
        cfg = plan["cfg"]["tx"]
        m, d = outphy.top_design(cfg)
        k = Kernel(d, plan["seed"], metaw=0)
        mv = d.mv
        pp, ps = plan["ppix"] - plan["ppix"] % 40, plan["psys"]
        outphy.start_clocks(k, m, cfg, pp, rng, ps)
        wl = [d.widx(g.lock) for g in outphy.gens(d)]
        lanes = [[], [], [], []]
        rr = d.ridx(m.recorder.rec)

        def rec():
            v = mv[rr]
            lanes[0].append(v & 1023)
            lanes[1].append(v >> 10 & 1023)
            lanes[2].append(v >> 20 & 1023)
        k.hook("rec", rec)

        def lock(v):
            for w in wl:
                mv[w] = v
        k.at(2000 + rng.randrange(20 * pp), lambda: lock(1))
        cs = Stall(plan["tcs"], rng)
        ReadPort(k, m.port, "pix", cs, Stall([], rng), lambda a: word(a, 32), lambda a: None, latency=tuple(plan["lat"]), rng=rng)
        csr = CSRMaster(k, m)
        st = {"until": 0}

        def idle(t):
            t += k.now
            while k.now < t:
                yield

        def cpu():
            yield from idle(60 * pp)
            for op in plan["ops"] + [plan["last"]]:
                _, g, base, fr, lk = op
                L = (g[3] + 1) * (g[7] + 1) * pp
                for nme, val in zip(TN, g):
                    yield from csr.write("core_initiator_" + nme, val)
                yield from csr.write("core_initiator_base", base << 2)
                yield from csr.write("core_initiator_length", g[0] * g[4] << 2)
                yield from csr.write("core_initiator_enable", 1)
                st["on"] = len(lanes[0])
                if fr is None:
                    break
                yield from idle(int(fr * L))
                yield from csr.write("core_initiator_enable", 0)
                res.fault("transmitter-restart")
                # up to eight frames are already queued, and still shown; resetting the pixel side alone also replays the queue
                # (those of an earlier start come first)
                st["until"] = max(st["until"], len(lanes[0])) + 10 * L // pp + 20
                if lk or rng.random() < .6:
                    yield from idle(10 * L + 400 * pp)
                if lk:
                    st["until"] = max(st["until"], len(lanes[0])) + 10 * L // pp + 120
                    res.fault("transmitter-lock-loss")
                    lock(0)
                    yield from idle(20 * pp)
                    lock(1)
                yield from idle(100 * pp)
            t0 = len(lanes[0])
            st["flips"] = []
            for at, base in plan["flips"]:
                while len(lanes[0]) < t0 + at:
                    yield
                st["flips"].append((len(lanes[0]), base))
                yield from csr.write("core_initiator_base", base << 2)
                res.fault("flip")
                yield from idle(2 * pp)
            st["done"] = 1
        k.thread("sys", cpu())
        while "done" not in st:
            k.run(k.now + 2000 * pp)
            if k.now > 10**12:
                raise Violation("stuck", "the transmitter's software did not get through")
        g = plan["geom"]
        L = (g[3] + 1) * (g[7] + 1)
        st["on"] = max(st["on"], st["until"])
        need = max(st["on"] + 16 * L, st["flips"][-1][0] + 17 * L if st["flips"] else 0) + drain(plan, plan["cfg"]["rx"])
        k.run(k.now + (need - len(lanes[0])) * pp)
        res.fault("memory-stall", cs.stalled)
        bits = [outphy.bitstr(l) for l in lanes[:3]]
        for i, n in enumerate(outphy.LANES[:3]):
            if n in cfg["inv"]:
                bits[i] = bits[i].translate({48: "1", 49: "0"})
        self.edges = mv[d.C_EDGES]
        self.tx_ps = k.now
        return bits, st["on"], st["flips"], L

    def execute(self, plan, res):
        rng = random.Random(plan["seed"])
        cfg = plan["cfg"]["rx"]
        g = plan["geom"]
        bits, on, flips, L = self.transmit(plan, res, rng)
        # the first frame after enabling shows the start-up of the DMA; disturbances come before `tc`
        tc = on + 2 * L + 60
        pre = [b[:10 * tc] for b in bits]
        post = [b[10 * tc:] for b in bits]
        events = []
        kinds = set()
        for f in sorted(plan["faults"], key=lambda f: f[1]):
            at = min(max(on - 200, 0) + f[1], tc - 1) * 10
            kinds.add(f[0])
            if f[0] in ("err", "dead", "noise", "slip"):
                for l in range(3) if f[3] == 3 else [f[3]]:
                    s = pre[l]
                    n = f[2] * 10
                    if f[0] == "slip":
                        k = f[2]
                        pre[l] = s[:at] + s[at + k:] if k > 0 else s[:at] + format(rng.getrandbits(-k), "0%db" % -k) + s[at:]
                        res.fault("bit-slip")
                        continue
                    a = s[at:at + n]
                    if f[0] == "err":
                        b = "".join(c if rng.random() * 1000 >= f[4] else "10"[int(c)] for c in a)
                        res.fault("bit-errors")
                    elif f[0] == "dead":
                        b = str(f[4]) * len(a)
                        res.fault("dead-lane")
                    else:
                        b = format(rng.getrandbits(len(a)), "0%db" % len(a)) if a else ""
                        res.fault("noise-lane")
                    pre[l] = s[:at] + b + s[at + n:]
            elif f[0] == "cut":
                n = f[2] * 10
                pre = [s[:at] + s[at + n:] for s in pre]
                res.fault("cut")
            else:
                events.append((at // 10, f))
        lmin = min(map(len, pre))
        lmin -= lmin % 10
        out = []
        for l in range(3):
            off = plan["skew"][l] * 10 + plan["phase"][l]
            out.append(pre[l][len(pre[l]) - lmin:] + (format(rng.getrandbits(off), "0%db" % off) if off else "") + post[l])
        n = min(map(len, out))
        n -= n % 10
        out = [s[:n] for s in out]
        if any(plan["skew"]):
            res.fault("lane-skew")
        for l, nm in enumerate(("data0", "data1", "data2")):
            if nm in cfg["inv"]:
                out[l] = out[l].translate({48: "1", 49: "0"})
        c0 = lmin // 10
        clean = c0 + 7
        nf = (n // 10 - clean) // L
        h, v, w = g[0], g[4], cfg["w"]

        def words(base):
            lines = [[(x & 255, x >> 8 & 255, x >> 16 & 255) for x in (word(base + y * h + i, 32) for i in range(h))] for y in range(v)]
            return pixel_words("rgb", w, lines)
        pics = [(0, words(plan["last"][2]))] + [(c0 + at - tc, words(b)) for at, b in flips]
        frames = [Frame(clean + i * L, clean + i * L, clean + (i + 1) * L, pics[0][1]) for i in range(nf)]
        p2 = dict(plan, hd=0)
        rx = LoopRx(cfg, p2, res, out, frames, clean, (h, v), None, lambda x: split_word("rgb", w, x), rng)
        rx.L, rx.pictures = L, pics
        rx.prompt = not plan["reload"] and L * rx.pp > 600 * rx.ps
        k = rx.k
        k.at(500 + rng.randrange(20) * rx.pp, lambda: rx.lock(1))

        def lock(n):
            def f():
                res.fault("lock-loss")
                rx.lock(0)
                k.after(n * rx.pp + rng.randrange(rx.pp), lambda: rx.lock(1))
            return f

        def clk(n):
            def f():
                res.fault("clock-stop")
                rx.lock(0)

                def stop():
                    rx.stop_clocks()

                    def go():
                        rx.start_clocks(rng.randrange(rx.pp))
                        k.after(5 * rx.pp + rng.randrange(20 * rx.pp), lambda: rx.lock(1))
                    k.after(n * rx.pp, go)
                k.after(rng.randrange(3 * rx.pp), stop)
            return f
        ev = [(pics[-1][0] + 11 * L, "settled"), (rx.nchar - L - 20, "close")]
        lastl = -10**9
        for at, f in events:
            n = min(f[2], max(0, c0 - at - 40))
            if n < 1 or at < lastl or at < 30:
                continue
            lastl = at + (n if f[0] == "lock" else 30) + 30
            if lastl > c0:
                break
            ev.append((at, lock(n) if f[0] == "lock" else clk(n)))
        res.cfg = "%s-%s" % (plan["cfg"]["tx"]["fam"], cfg["front"])
        if not rx.word:
            res.probe("bit-level")
        if cfg["inv"]:
            res.probe("inverted")
        rx.run(ev)
        d = rx.d
        res.sim_ps, res.edges = k.now + self.tx_ps, rx.mv[d.C_EDGES] + self.edges
        res.fault("metastable-sample", rx.mv[d.C_METAN])
        res.fault("memory-stall", sum(s.stalled for s in rx.stalls))
        res.log([(a, b, c) for a, b, c, _, _ in rx.captures], rx.obs[-3:], out)
        res.state(res.cfg, tuple(sorted(kinds)), tuple(plan["phase"]), tuple(plan["skew"]), rx.ncap)
        res.nontrivial = rx.ncap >= 2 and bool(kinds or plan["flips"] or plan["ops"])

    def simplify(self, plan):
        for k in ("faults", "flips", "ops"):
            for i in range(len(plan[k])):
                yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
        for k in ("cs", "ds", "tcs"):
            if plan[k]:
                yield dict(plan, **{k: []})
        for k in ("skew", "phase"):
            if any(plan[k]):
                yield dict(plan, **{k: [0, 0, 0]})


CHECK = Check()
