import random

from ..kernel import Violation
from ..video import scan
from .. import tmds
from ..receiver import Receiver, Frame, lane_bits, build, gen_mild, drain, WER_BITS
from .. import capfull
from .c07 import pixel_words, split_word, same, rot_frame


class Link:
    """characters of the three lanes for DVI or HDMI signalling"""
    def __init__(self, rng, res):
        self.rng, self.res = rng, res
        self.tx = [[], [], []]
        self.enc = [tmds.Encoder() for _ in range(3)]

    def control(self, n, c0, c1=0, c2=0):
        for e in self.enc:
            e.cnt = 0
        a, b, c = tmds.CONTROL[c0], tmds.CONTROL[c1], tmds.CONTROL[c2]
        self.tx[0] += [a] * n
        self.tx[1] += [b] * n
        self.tx[2] += [c] * n

    def put(self, a, b, c):
        self.tx[0].append(a)
        self.tx[1].append(b)
        self.tx[2].append(c)

    def frame(self, t, pic, hd, islands):
        """one frame from its vsync edge on; pic(x, y) -> (r, g, b); returns (first, last) pixel position and the lines"""
        f = rot_frame(t)
        hp, vp = 1 - t[8], 1 - t[9]
        base = len(self.tx[0])
        n = len(f)
        i = 0
        y = 0
        first = last = None
        lines = []
        while i < n:
            if f[i][0]:
                ln = []
                if first is None:
                    first = base + i
                x = 0
                while i < n and f[i][0]:
                    r, g, b = pic(x, y)
                    ln.append((r, g, b))
                    self.put(self.enc[0].data(b), self.enc[1].data(g), self.enc[2].data(r))
                    x += 1
                    i += 1
                last = base + i - 1
                lines.append(ln)
                y += 1
            else:
                j = i
                while j < n and not f[j][0]:
                    j += 1
                self.blank(f[i:j], hp, vp, hd and j < n, hd, islands)
                i = j
        return base, first, last, lines

    def blank(self, seg, hp, vp, tovideo, hd, islands):
        n = len(seg)
        c = [(hs ^ hp) | (vs ^ vp) << 1 for _, hs, vs in seg]
        ctl = [(0, 0)] * n
        kind = [None] * n
        end = n
        if tovideo:
            kind[n - 2:] = ["vgb", "vgb"]
            for q in range(n - 10, n - 2):
                ctl[q] = (1, 0)
            end = n - 10 - 4
        if hd and islands:
            # each island: 12 control characters before it, preamble, guard bands, packets
            q = 4 + self.rng.randrange(8)
            while True:
                pk = self.rng.choice([1, 1, 2])
                ln = 8 + 2 + 32 * pk + 2
                if q + ln + 12 > end or self.rng.random() < .3:
                    break
                for z in range(q, q + 8):
                    ctl[z] = (1, 1)
                q += 8
                for z in range(q, q + ln - 8):
                    kind[z] = "gb" if z < q + 2 or z >= q + ln - 10 else "t4"
                q += ln - 8 + 12 + self.rng.randrange(20)
                self.res.probe("island")
        for e in self.enc:
            e.cnt = 0
        rnd = self.rng.randrange
        for z in range(n):
            if kind[z] is None:
                self.put(tmds.CONTROL[c[z]], tmds.CONTROL[ctl[z][0]], tmds.CONTROL[ctl[z][1]])
            elif kind[z] == "vgb":
                self.put(*tmds.VIDEO_GB)
            elif kind[z] == "gb":
                self.put(tmds.TERC4[12 + c[z]], tmds.DATA_GB, tmds.DATA_GB)
            else:
                self.put(tmds.TERC4[rnd(4) << 2 | c[z]], tmds.TERC4[rnd(16)], tmds.TERC4[rnd(16)])


def gen_mode(rng, pf, even, hd, maxpix):
    while True:
        h = rng.choice([rng.randrange(16, 40), rng.randrange(16, 100), 2 * pf * rng.randrange(2, 8)])
        v = rng.randrange(1, 9)
        if h < 16 or h * v % pf or (even and h % 2):
            continue
        t = [h, rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 12), v, rng.randrange(1, 3), rng.randrange(1, 3), rng.randrange(1, 4),
             rng.getrandbits(1), rng.getrandbits(1)]
        need = 30 if hd else 14
        if sum(t[1:4]) < need:
            t[rng.choice([1, 3])] += need
        if hd and rng.random() < .3:
            t[rng.choice([1, 3])] += 60
        if sum(t[:4]) * sum(t[4:8]) <= maxpix:
            return t


class Check:
    PROP = "C01"
    RUNS = {"quick": 3000, "thorough": 40000}
    CHUNK = 4
    MIN_RUNS = 60
    RULE = ("one run = a link with a history of disturbances and then clean frames, into the whole real receiver, with software loading capture slots and a stalling memory; "
            "every 300th run sends thousands of frames with disturbances between them and every 1000th run whole standard frames up to 1920x1080, the source, the memory and the reference picture being gateware (sim/capfull.py); "
            "non-trivial when the history held at least one disturbance and at least two clean frames were captured and compared")
    STATE_MEASURE = "hash of (front end, format, signalling, kinds of disturbance, final lane phases and skews, captured frames)"
    REAL = ["litevideo.input.HDMIIn whole: clocking, lane capture (bit-level configurations), CharSync, Decoding, ChanSync, DecodeTERC4, SyncPolarity, ResolutionDetection, FrameExtraction, DMA",
            "litedram DMA writer, litex CSR bank and event manager"]
    STUB = ["video source and cable", "clock generator, delay and deserialiser primitives (sim/vendor.py; in word configurations the whole front end)", "memory controller", "capture software"]
    ASSUMPTIONS = ["lanes skewed by at most six characters once clean; at least 14 characters (DVI) or 30 (HDMI) of horizontal blanking and 16 active pixels per line",
                   "the frame fills whole memory words; even line length in ycbcr422, whose conversion may differ by two steps from the reference (its exactness is C19)",
                   "memory stalls are short enough for the FIFO", "bit-level: sampling inside the eye (delays are software's job, C11)"]
    FAULTS = ("bit-errors", "dead-lane", "noise-lane", "bit-slip", "cut", "mode-change", "lock-loss", "clock-stop", "metastable-sample", "memory-stall", "lane-skew")
    PROBES = ("frame-captured", "words-compared", "status-checked", "island", "capture-before-recovery", "no-slot", "bit-level", "wer-clean", "wer-errors", "full-size-frame", "soak-frame", "negative-vsync", "dvi-on-hdmi")

    def configs(self, tier):
        o = []
        for hdmi in (0, 1):
            for mode, w in (("rgb", 64), ("ycbcr422", 64), ("rgb", 128), ("ycbcr422", 32)):
                o.append({"front": "word", "hdmi": hdmi, "mode": mode, "w": w, "depth": 256, "slots": 2 + (w == 64 and mode == "rgb")})
        o += [{"front": "xc7", "hdmi": 0, "mode": "rgb", "w": 64, "depth": 256, "slots": 2},
              {"front": "xc7", "hdmi": 1, "mode": "ycbcr422", "w": 64, "depth": 256, "slots": 2, "inv": ["data0", "data2"], "split": 1},
              {"front": "xc6", "hdmi": 0, "mode": "ycbcr422", "w": 32, "depth": 256, "slots": 2, "inv": ["data1"]},
              {"front": "xc6", "hdmi": 1, "mode": "rgb", "w": 64, "depth": 256, "slots": 2}]
        return o

    RX = Receiver

    def build(self, cfg):
        return build(cfg)

    def gen(self, rng, tier, i):
        if i % 300 == 113:
            return capfull.gen(rng, i // 300, 1)
        if i % 1000 == 613:
            return capfull.gen(rng, i // 1000, 0)
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        pf = cfg["w"] // (32 if cfg["mode"] == "rgb" else 16)
        even = cfg["mode"] != "rgb"
        hd = int(cfg["hdmi"] and rng.random() < .8)
        mx = 2200 if cfg["front"] == "word" else 1500
        t = gen_mode(rng, pf, even, hd, mx)
        pre = []
        tot = 0
        for _ in range(rng.randrange(1, 4)):
            m = t if rng.random() < .6 else gen_mode(rng, pf, even, hd, mx)
            n = rng.randrange(1, 3)
            pre.append([m, n])
            tot += n * sum(m[:4]) * sum(m[4:8])
        faults = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.choice(["err", "err", "dead", "noise", "slip", "slip", "cut", "lock", "clk"])
            # disturbances gather near the end of the disturbed stretch
            at = rng.randrange(tot) if rng.random() < .6 else tot - 1 - min(tot - 1, rng.randrange(400))
            lane = rng.randrange(4)
            if k == "err":
                faults.append(["err", at, rng.choice([1, 5, 40, 400]), lane, rng.choice([2, 20, 100, 500])])
            elif k in ("dead", "noise"):
                faults.append([k, at, rng.choice([1, 8, 60, 500]), lane, rng.getrandbits(1)])
            elif k == "slip":
                faults.append(["slip", at, rng.choice([-9, -3, -1, 1, 2, 5, 9, 10, 30]), lane])
            elif k == "cut":
                faults.append(["cut", at, rng.choice([1, 7, 30, 300])])
            elif k == "lock":
                faults.append(["lock", at, rng.choice([2, 10, 100, 600])])
            else:
                faults.append(["clk", at, rng.choice([1, 10, 200])])
        sk = [rng.choice([0, 0, rng.randrange(7), 6]) for _ in range(3)]
        p = {"cfg": cfg, "mode": t, "hd": hd, "pre": pre, "faults": faults, "frames": rng.randrange(8, 11),
             "skew": [x - min(sk) for x in sk], "phase": [rng.randrange(10) for _ in range(3)],
             "ppix": rng.choice([6720, 8000, 13440, 39720]), "psys": rng.choice([7000, 8000, 10000]), "jit": rng.choice([0, 0, 200]) if cfg["front"] == "word" else 0,
             "cs": gen_mild(rng) if rng.random() < .5 else [], "ds": gen_mild(rng) if rng.random() < .5 else [],
             "gap": rng.choice([0, 0, 8]), "reload": rng.choice([0, 0, 100, 800]), "poll": rng.choice([50, 200]), "isl": int(rng.random() < .7),
             "tail": rng.randrange(3) if rng.random() < .25 else None,
             "end": rng.choice(["keep", "keep", "blank", "jump"])}
        return p

    FIXED = ("skew", "phase", "mode", "cs", "ds")

    def execute(self, plan, res):
        if plan.get("capfull"):
            return capfull.execute(plan, res)
        cfg = plan["cfg"]
        rng = random.Random(plan["seed"])
        t, hd = plan["mode"], plan["hd"]
        link = Link(rng, res)
        mode, w = cfg["mode"], cfg["w"]

        def pic():
            r = random.Random(rng.getrandbits(30))
            kind = r.randrange(6)
            if kind == 4:
                s = [r.choice([0, 0, 255, r.getrandbits(8)]) for _ in range(3)]
                return lambda x, y: tuple(s)                      # one colour, often black
            if kind == 5:
                return lambda x, y: tuple(r.choice([0, 1, 2, 255, r.getrandbits(8)]) for _ in range(3))
            if kind == 0:
                s = r.getrandbits(24)
                return lambda x, y: ((x * 3 + s) & 255, (y * 17 + x + (s >> 8)) & 255, (x * y + (s >> 16)) & 255)
            if kind == 1 and hd:
                # pixels that look like guard bands
                return lambda x, y: (0xab, 0x55, 0xab) if r.random() < .5 else (r.getrandbits(8), r.getrandbits(8), r.getrandbits(8))
            return lambda x, y: (r.getrandbits(8), r.getrandbits(8), r.getrandbits(8))
        for m, n in plan["pre"]:
            for _ in range(n):
                link.frame(m, pic(), hd, plan["isl"])
            if m != t:
                res.fault("mode-change")
        npre = len(link.tx[0])
        if plan["end"] == "jump":
            # the source restarts in the middle of a frame
            cut = rng.randrange(1, max(2, npre // 2))
            for l in link.tx:
                del l[npre - cut:]
            npre -= cut
        elif plan["end"] == "blank":
            link.control(rng.randrange(1, 200), 0)
            npre = len(link.tx[0])
        # ---- disturbed stretch, as bits per lane
        pre = [lane_bits(l) for l in link.tx]
        link.tx = [[], [], []]
        events = []
        kinds = set()
        for f in sorted(plan["faults"], key=lambda f: f[1]):
            at = min(f[1], npre - 1) * 10
            kinds.add(f[0])
            if f[0] in ("err", "dead", "noise", "slip"):
                lanes = range(3) if f[3] == 3 else [f[3]]
                for l in lanes:
                    s = pre[l]
                    n = f[2] * 10
                    if f[0] == "slip":
                        k = f[2]
                        pre[l] = s[:at] + s[at + k:] if k > 0 else s[:at] + format(rng.getrandbits(-k), "0%db" % -k) + s[at:]
                        res.fault("bit-slip")
                        continue
                    a = s[at:at + n]
                    if f[0] == "err":
                        b = "".join(c if rng.random() * 1000 >= f[4] else "10"[int(c)] for c in a)
                        res.fault("bit-errors")
                    elif f[0] == "dead":
                        b = str(f[4]) * len(a)
                        res.fault("dead-lane")
                    else:
                        b = format(rng.getrandbits(len(a)), "0%db" % len(a)) if a else ""
                        res.fault("noise-lane")
                    pre[l] = s[:at] + b + s[at + n:]
            elif f[0] == "cut":
                n = f[2] * 10
                pre = [s[:at] + s[at + n:] for s in pre]
                res.fault("cut")
            else:
                events.append((at // 10, f))
        # ---- clean frames
        frames = []
        lay = []
        for _ in range(plan["frames"] + -(-drain(plan, cfg) // (sum(t[:4]) * sum(t[4:8])))):
            base, first, last, lines = link.frame(t, pic(), hd, plan["isl"])
            lay.append((base, first, last, pixel_words(mode, w, lines)))
        link.control(40, (1 - t[8]) | (1 - t[9]) << 1)
        if plan.get("tail") is not None:
            # known invalid words on one lane, for the error counters
            n = 4 * (1 << WER_BITS)
            v = (1 - t[8]) | (1 - t[9]) << 1
            for l in range(3):
                if l == plan["tail"]:
                    link.tx[l] += ([0x155, 0x0f0, 0x10f] * n)[:n]
                else:
                    link.tx[l] += [tmds.CONTROL[v if l == 0 else 0]] * n
        lmin = min(len(s) for s in pre)
        lmin -= lmin % 10
        out = []
        for l in range(3):
            off = plan["skew"][l] * 10 + plan["phase"][l]
            s = pre[l][:lmin]
            s += format(rng.getrandbits(off), "0%db" % off) if off else ""
            out.append(s + lane_bits(link.tx[l]))
        n = max(map(len, out)) + 9
        n -= n % 10
        out = [s.ljust(n, "0") for s in out]
        for l, nm in enumerate(("data0", "data1", "data2")):
            if nm in cfg.get("inv", ()):
                out[l] = out[l].translate({48: "1", 49: "0"})
        if any(plan["skew"]):
            res.fault("lane-skew")
        sk = max(plan["skew"]) + 1
        c0 = lmin // 10
        clean = c0 + sk
        for base, first, last, words in lay:
            frames.append(Frame(c0 + base, c0 + first, c0 + last + sk, words))
        res.cfg = "%s-%s-%s" % (cfg["front"], "hdmi" if cfg["hdmi"] else "dvi", mode)
        self.rx = rx = self.RX(cfg, plan, res, out, frames, clean, (t[0], t[4]), lambda a, b: same(mode, a, b), lambda x: split_word(mode, w, x), rng)
        rx.bad_lane = plan.get("tail")
        k = rx.k
        k.at(500 + rng.randrange(20) * rx.pp, lambda: rx.lock(1))

        def lock(n):
            def f():
                res.fault("lock-loss")
                rx.lock(0)
                k.after(n * rx.pp + rng.randrange(rx.pp), lambda: rx.lock(1))
            return f

        def clk(n):
            def f():
                res.fault("clock-stop")
                rx.lock(0)

                def stop():
                    rx.stop_clocks()

                    def go():
                        rx.start_clocks(rng.randrange(rx.pp))
                        k.after(5 * rx.pp + rng.randrange(20 * rx.pp), lambda: rx.lock(1))
                    k.after(n * rx.pp, go)
                k.after(rng.randrange(3 * rx.pp), stop)
            return f
        ev = []
        lastl = -10**9
        for at, f in events:
            # one outage at a time, over before the clean stretch begins
            n = min(f[2], max(0, c0 - at - 40))
            if n < 1 or at < lastl or at < 30:
                continue
            lastl = at + (n if f[0] == "lock" else 30) + 30
            if lastl > c0:
                break
            ev.append((at, lock(n) if f[0] == "lock" else clk(n)))
        if not rx.word:
            res.probe("bit-level")
        if not t[9]:
            res.probe("negative-vsync")
        if cfg["hdmi"] and not hd:
            res.probe("dvi-on-hdmi")
        rx.run(ev)
        d = rx.d
        res.sim_ps, res.edges = k.now, rx.mv[d.C_EDGES]
        res.fault("metastable-sample", rx.mv[d.C_METAN])
        res.fault("memory-stall", sum(s.stalled for s in rx.stalls))
        res.log([(a, b, c) for a, b, c, _, _ in rx.captures], rx.obs[-3:])
        res.state(res.cfg, hd, tuple(sorted(kinds)), tuple(plan["phase"]), tuple(plan["skew"]), rx.ncap)
        res.nontrivial = rx.ncap >= 2 and bool(kinds or plan["end"] != "keep")

    def simplify(self, plan):
        if plan.get("capfull"):
            yield from capfull.simplify(plan)
            return
        for i in range(len(plan["faults"])):
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
        for i in range(len(plan["pre"])):
            if len(plan["pre"]) > 1:
                yield dict(plan, pre=plan["pre"][:i] + plan["pre"][i + 1:])
        if plan["cs"]:
            yield dict(plan, cs=[])
        if plan["ds"]:
            yield dict(plan, ds=[])
        if plan["end"] != "keep":
            yield dict(plan, end="keep")
        if plan["isl"]:
            yield dict(plan, isl=0)
        if any(plan["skew"]):
            yield dict(plan, skew=[0, 0, 0])
        if any(plan["phase"]):
            yield dict(plan, phase=[0, 0, 0])
        for i, f in enumerate(plan["faults"]):
            if isinstance(f[2], int) and f[2] > 1 and f[0] != "slip":
                yield dict(plan, faults=plan["faults"][:i] + [f[:2] + [max(1, f[2] // 4)] + f[3:]] + plan["faults"][i + 1:])


CHECK = Check()
