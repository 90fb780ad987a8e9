import random

from migen import *

from ..kernel import Kernel, Violation, CSRMaster
from ..dram import Stall, ReadPort
from ..tmds import Encoder
from ..vout import TN, DW, gen_geom, frame_tokens, word
from .. import outphy
from .c19 import ycbcr2rgb


class Check:
    PROP = "C16"
    RUNS = {"quick": 8000, "thorough": 300000}
    CHUNK = 20
    MIN_RUNS = 60
    RULE = ("one run = an arbitrary video stream into the real driver (encoder, serialisers, clock lane), or a picture scanned out of memory by the real VideoOut, recorded bit by bit "
            "at the pads and compared; non-trivial when at least 100 characters were compared")
    STATE_MEASURE = "hash of (family, mode, kind, inverted lanes, bit phase, geometry class)"
    REAL = ["litevideo.output.VideoOut, Driver, S7HDMIOutPHY, S6HDMIOutPHY, VGAPHY, encoder, YCbCr422to444, YCbCr2RGB, VideoOutCore", "litedram DMA reader, litex CSR bank"]
    STUB = ["OSERDESE2, OSERDES2, ODDR2, OBUFDS, clock generators (sim/vendor.py)", "memory controller", "CPU on the CSR bus", "pad recorder"]
    ASSUMPTIONS = ["the memory keeps up (no underflow): its latency is below a frame period", "even line length in ycbcr422 mode; the conversion itself may differ by two steps from the reference (exactness is C19)",
                   "Spartan-6: pix and pix2x edges coincide, as made by one PLL", "comparison starts at the first control character after lock"]
    FAULTS = ("lock-loss", "clock-phase", "read-latency", "command-stall")
    PROBES = ("characters", "clock-lane", "inverted", "vga", "raw", "pixels", "frames", "after-relock", "ext-clock")

    def configs(self, tier):
        out = []
        for fam in ("xc7", "xc6"):
            out += [{"fam": fam, "kind": "drv", "mode": "rgb"}, {"fam": fam, "kind": "drv", "mode": "raw"},
                    {"fam": fam, "kind": "drv", "mode": "rgb", "inv": ["data0", "data1", "data2", "clk"]},
                    {"fam": fam, "kind": "drv", "mode": "rgb", "inv": ["data1"]},
                    {"fam": fam, "kind": "drv", "mode": "rgb", "vga": [8, 8, 8]}, {"fam": fam, "kind": "drv", "mode": "rgb", "vga": [5, 6, 4]},
                    {"fam": fam, "kind": "vo", "mode": "rgb"}, {"fam": fam, "kind": "vo", "mode": "ycbcr422"}, {"fam": fam, "kind": "vo", "mode": "raw"},
                    {"fam": fam, "kind": "vo", "mode": "ycbcr422", "vga": [8, 8, 8]}]
        out.append({"fam": "xc6", "kind": "drv", "mode": "rgb", "ext": 1})
        return out

    def build(self, cfg):
        return outphy.top_design(cfg)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        p = {"cfg": cfg, "pp": rng.choice([6720, 8000, 13440, 25000, 39720]), "ps": rng.choice([8000, 10000, 12500])}
        if cfg["kind"] == "drv":
            segs = []
            for _ in range(rng.randrange(2, 14)):
                segs.append([rng.choice(["de", "de", "blank", "mix", "flat"]), rng.choice([1, 2, 7, 30, 90]), rng.getrandbits(30)])
            p["segs"] = segs
            p["locks"] = [[rng.randrange(40, 400), rng.randrange(2, 30)] for _ in range(rng.choice([0, 0, 1, 2]))]
        else:
            p["geom"] = gen_geom(rng, 400, cfg["mode"] == "ycbcr422")
            if p["geom"][3] - p["geom"][0] < 12 and rng.random() < .5:
                p["geom"][3] += 12
            p["base"] = 1024 * rng.randrange(1, 40)
            p["frames"] = rng.randrange(2, 6)
            p["lat"] = rng.choice([[1, 1], [2, 4], [2, 10]])
            p["cs"] = [] if rng.random() < .5 else [["on", 30, 0], ["every", 6, 1]]
            if (p["geom"][3] + 1) * (p["geom"][7] + 1) < 40:
                # the reader is at most one frame ahead: a memory slower than a whole frame does not keep up
                p["lat"], p["cs"] = [1, rng.choice([1, 3])], []
            if cfg["mode"] == "raw":
                # one word per clock, always: nothing may slow the memory down
                p["lat"], p["cs"] = [2, 2], []
        return p

    # ------------------------------------------------------------------------------
    def execute(self, plan, res):
        cfg = plan["cfg"]
        m, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=0)
        mv = d.mv
        pp, ps = plan["pp"], plan["ps"]
        t0 = outphy.start_clocks(k, m, cfg, pp, rng, ps)
        res.fault("clock-phase")
        gs = outphy.gens(d)
        wl = [d.widx(g.lock) for g in gs]
        vga = cfg.get("vga")
        lanes = [[], [], [], []]
        if not vga:
            rr = d.ridx(m.recorder.rec)
            rb = d.ridx(m.recorder.bad)

            def rec():
                v = mv[rr]
                for i in range(4):
                    lanes[i].append(v >> (10 * i) & 1023)
            k.hook("rec", rec)

        def locks(v):
            def f():
                for w in wl:
                    mv[w] = v
            return f
        tl = t0 + rng.randrange(1, 12) * pp + rng.randrange(pp)
        k.at(tl, locks(1))
        res.cfg = "%s-%s-%s%s" % (cfg["fam"], cfg["kind"], cfg["mode"], "-vga" if vga else "")
        if cfg["kind"] == "drv":
            self.drv(plan, res, m, d, k, rng, locks, lanes, t0, tl)
        else:
            self.vo(plan, res, m, d, k, rng, lanes, t0)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        if not vga:
            if mv[rb]:
                raise Violation("differential", "a pad pair is not complementary (lanes %#x)" % mv[rb])
            res.log(lanes)

    def clock_lane(self, cfg, res, s, off, start=0):
        """start: first bit to look at"""
        inv = "clk" in cfg.get("inv", ())
        if cfg["fam"] == "xc7":
            pat = "1111100000" if not inv else "0000011111"
            for i in range(start + (off - start) % 10, len(s) - 10, 10):
                if s[i:i + 10] != pat:
                    raise Violation("clock-lane", "the clock lane carries %s in step with a character, not %s" % (s[i:i + 10], pat))
        else:
            w = s[start:start + 10]
            if w.count("1") != 5 or "0101" in w + w or s[start:] != (w * (len(s) // 10 + 1))[:len(s) - start]:
                raise Violation("clock-lane", "the clock lane is not a square wave of one pixel period (%s)" % w)
        res.probe("clock-lane")

    # ------------------------------------------------------------------------------
    def drv(self, plan, res, m, d, k, rng, locks, lanes, t0, tl):
        cfg = plan["cfg"]
        mv, pp = d.mv, plan["pp"]
        sink = m.dut.sink
        raw = cfg["mode"] == "raw"
        names = ("c0", "c1", "c2") if raw else ("de", "hsync", "vsync", "r", "g", "b")
        wi = [d.widx(getattr(sink, n)) for n in names]
        wv = d.widx(sink.valid)
        seq = []
        for kind, n, sd in plan["segs"]:
            r = random.Random(sd)
            sy = [r.getrandbits(1), r.getrandbits(1)]
            flat = [r.choice([0, 255, r.getrandbits(8), r.getrandbits(8)]) for _ in range(3)]
            for _ in range(n):
                if raw:
                    seq.append([r.getrandbits(10) for _ in range(3)])
                    continue
                de = 1 if kind in ("de", "flat") else 0 if kind == "blank" else r.getrandbits(1)
                if r.random() < .1:
                    sy = [r.getrandbits(1), r.getrandbits(1)]
                seq.append([de] + sy + (flat if kind == "flat" else [r.getrandbits(8) if r.random() < .85 else r.choice([0, 1, 255]) for _ in range(3)]))
        pre = [[0] * len(names)] * 40 if not raw else [[r_ & 1023 for r_ in (341 * j, 77 * j, 513 * j)] for j in range(40)]
        tail = [[0] * len(names)] * 20
        seq = pre + seq + tail
        lost = []
        rstat = []            # per applied item: the domain is in reset
        rl = [d.ridx(g.locked) for g in outphy.gens(d)]
        for a, n in plan["locks"] if not cfg.get("vga") else []:
            ta = tl + a * pp
            lost.append((ta, ta + n * pp))
            k.at(ta, locks(0))
            k.at(ta + n * pp, locks(1))
            res.fault("lock-loss")
        st = {"i": 0}
        applied = []          # (item sampled at this edge, unlocked at this edge)
        cur = {"v": [0] * len(names)}
        vga = cfg.get("vga")
        if vga:
            p = m.pads
            rd = [d.ridx(s) for s in (p.hsync_n, p.vsync_n, p.psave_n, p.r, p.g, p.b, p.clk)]

        def pix():
            applied.append((cur["v"], not all(mv[x] for x in rl)))
            if vga and st["i"]:
                de, hs, vs, r, g, b = cur["v"]
                e = [1 - hs, 1 - vs, 1, r >> (8 - vga[0]), g >> (8 - vga[1]), b >> (8 - vga[2])]
                got = [mv[x] for x in rd[:6]]
                if got != e:
                    raise Violation("vga", "hsync_n, vsync_n, psave_n, r, g, b are %r instead of %r" % (got, e))
                res.probe("vga")
            i = st["i"]
            if i < len(seq):
                cur["v"] = seq[i]
                for w, v in zip(wi, seq[i]):
                    mv[w] = v
                mv[wv] = 1
            st["i"] = i + 1
        k.hook(m.dom["pix"], pix)
        if vga:
            # the clock pin follows the pixel clock
            bad = []
            for _ in range(20):
                t = t0 + rng.randrange(3, len(seq)) * pp
                for o, v in ((pp // 4, 1), (3 * pp // 4, 0)):
                    k.at(t + o, lambda v=v: bad.append((mv[rd[6]], v)))
            k.run(t0 + len(seq) * pp)
            if any(a != b for a, b in bad):
                raise Violation("vga-clock", "the clock pin does not follow the pixel clock")
            res.probe("characters", len(seq))
            res.state(cfg["fam"], tuple(vga))
            res.nontrivial = len(seq) > 200
            return
        end = t0 + (len(seq) + 4) * pp
        if lost:
            end = max(end, lost[-1][1] + 60 * pp)
        k.run(end)
        # segments between unlocked stretches
        segs = []
        s7 = cfg["fam"] == "xc7"
        for i, (v, u) in enumerate(applied):
            if u and s7:
                segs.append([])
            elif not segs:
                segs.append([v])
            else:
                segs[-1].append(v)
        segs = [s[2:] for s in segs if len(s) > 60]
        inv = cfg.get("inv", ())
        S = [outphy.bitstr(l) for l in lanes]
        true = [x if n not in inv else x.translate({48: "1", 49: "0"}) for n, x in zip(outphy.LANES, S)]
        pos = 0
        nchar = 0
        for j, seg in enumerate(segs):
            offs = []
            if raw:
                body = seg[:-14]
                words = [[v[l] for v in body] for l in range(3)]
            else:
                # everything from the first control character on is determined
                first = next((i for i, v in enumerate(seg) if not v[0]), None)
                if first is None:
                    continue
                body = seg[first:-14]
                words = [[], [], []]
                enc = [Encoder() for _ in range(3)]
                for de, hs, vs, r, g, b in body:
                    for l, (c, x) in enumerate(((hs | vs << 1, b), (0, g), (0, r))):
                        words[l].append(enc[l].word(de, c, x))
            if len(body) < 20 or (raw and len(set(map(tuple, body))) < 8):
                continue        # too short, or too uniform to be located
            want = [outphy.bitstr(w) for w in words]
            # the lane with the most structure decides the position, the others must agree
            cands = []
            i = true[0].find(want[0], pos)
            while i >= 0 and len(cands) < 64:
                cands.append(i)
                i = true[0].find(want[0], i + 1)
            good = [o for o in cands if all(true[l][o:o + len(want[l])] == want[l] for l in (1, 2))]
            if not good:
                for l in range(3):
                    if true[l].find(want[l], pos) < 0:
                        lo, hi = 0, len(want[l])
                        while lo + 1 < hi:
                            mid = (lo + hi) // 2
                            if true[l].find(want[l][:mid], pos) >= 0:
                                lo = mid
                            else:
                                hi = mid
                        raise Violation("lane", "lane %d does not carry its characters least significant bit first: character %d of segment %d is missing" % (l, lo // 10, j))
                raise Violation("lane-skew", "the lanes carry the right characters but not aligned to each other (%r)" % [true[l].find(want[l], pos) for l in range(3)])
            o = good[0]
            pos = o + len(want[0])
            nchar += len(body)
            if j:
                res.probe("after-relock")
            self.clock_lane(cfg, res, S[3][:o + len(want[0])], o % 10, o)
        if not s7:
            self.clock_lane(cfg, res, S[3], 0, 200)
            inv = "clk" in cfg.get("inv", ())
        res.probe("characters", nchar)
        if cfg.get("inv"):
            res.probe("inverted")
        if cfg.get("ext"):
            res.probe("ext-clock")
        if raw:
            res.probe("raw")
        res.state(cfg["fam"], cfg["mode"], tuple(cfg.get("inv", ())), pos % 10)
        res.nontrivial = nchar >= 100

    # ------------------------------------------------------------------------------
    def vo(self, plan, res, m, d, k, rng, lanes, t0):
        cfg = plan["cfg"]
        mode = cfg["mode"]
        mv, pp, ps = d.mv, plan["pp"], plan["ps"]
        g, base = plan["geom"], plan["base"]
        h, hs0, he, ht, v, vs0, ve, vt = g
        n = (ht + 1) * (vt + 1) if mode == "raw" else h * v
        vga = cfg.get("vga")
        cs, ds = Stall(plan["cs"], rng), Stall([], rng)
        mem = {}

        def memf(a):
            return word(a, DW[mode]) if mode != "ycbcr422" else self.ycc(a)
        ReadPort(k, m.port, "pix", cs, ds, memf, lambda a: None, latency=tuple(plan["lat"]), rng=rng)
        csr = CSRMaster(k, m)
        st = {"done": 0}

        def cpu():
            sh = {32: 2, 16: 1}[DW[mode]]
            for _ in range(40 * pp // ps):
                yield
            for nme, val in zip(TN, g):
                yield from csr.write("core_initiator_" + nme, val)
            yield from csr.write("core_initiator_base", base << sh)
            yield from csr.write("core_initiator_length", n << sh)
            st["t"] = k.now
            yield from csr.write("core_initiator_enable", 1)
            st["done"] = 1
        k.thread("sys", cpu())
        toks = []
        if vga:
            p = m.pads
            rd = [d.ridx(s) for s in (p.hsync_n, p.vsync_n, p.r, p.g, p.b)]

            def pix():
                x = [mv[i] for i in rd]
                toks.append((1 - x[0], 1 - x[1], x[2], x[3], x[4]))
            k.hook("pix", pix)
        while not st["done"]:
            k.run(k.now + 200 * ps)
        k.run(k.now + ((plan["frames"] + 3) * (ht + 1) * (vt + 1) + 300) * pp)
        res.fault("command-stall", cs.stalled)
        res.fault("read-latency", int(plan["lat"][1] > 1))
        T = frame_tokens(g)
        px = [self.rgb(memf, mode, base, h, y, x) for y in range(v) for x in range(h)] if mode != "raw" else None
        tol = 2 if mode == "ycbcr422" else 0
        near = lambda a, b: all(abs(i - j) <= tol for i, j in zip(a, b))
        if vga:
            # no data enable on a VGA connector: find frame starts from the vertical sync
            return self.vga_frames(plan, res, toks, T, px, near)
        if mode == "raw":
            W = [memf(base + i) for i in range(n)]
            S = [outphy.bitstr(l) for l in lanes]
            want = [outphy.bitstr([w >> (10 * l) & 1023 for w in W] ) for l in range(3)]
            cnt = 0
            first = i = S[0].find(want[0])
            if i < 0:
                raise Violation("raw", "lane 0 does not carry the raw words of the frame")
            while i + len(want[0]) <= min(map(len, S)):
                for l in range(3):
                    if S[l][i:i + len(want[l])] != want[l]:
                        raise Violation("raw", "lane %d does not carry its raw words of frame %d in step with lane 0" % (l, cnt))
                cnt += 1
                # the reader pauses between two frames and raw mode has no blanking to hide that
                i += len(want[0])
                j = S[0].find(want[0][:200], i, i + 8 * 10 + 200)
                if j < 0 and i + 8 * 10 + len(want[0]) > min(map(len, S)):
                    break               # the recording ends before the next frame does
                i = j if j >= 0 else i
            self.clock_lane(cfg, res, S[3], first % 10, first)
            res.probe("raw", cnt)
            res.probe("frames", cnt)
            res.nontrivial = cnt * n >= 200
            if cnt < plan["frames"]:
                raise Violation("raw", "only %d of %d frames appear on the pads" % (cnt, plan["frames"]))
            return
        S = [outphy.bitstr(l) for l in lanes]
        off = outphy.align(S)
        seq = outphy.decode(S, off)
        # the PHY shows whatever the core holds while the first words are fetched, so the first frame
        # is disturbed; from the second on every clock counts
        act = next((j for j, c in enumerate(seq) if j > 20 and c[0]), None)
        if act is None:
            raise Violation("no-picture", "nothing but control characters on the lanes")
        L = len(T)
        worst = None
        i = act
        while i < act + 2 * L + 400:
            bad = self.frame(seq, i, T, px, h, near)
            if bad is None:
                break
            if worst is None or bad[0] > worst[0]:
                worst = bad
            i += 1
        else:
            raise Violation(worst[1], "no frame as programmed within %d clocks of the first pixel; closest match: %s" % (2 * L + 400, worst[2]))
        fr = npx = 0
        while i + L <= len(seq):
            bad = self.frame(seq, i, T, px, h, near)
            if bad:
                raise Violation(bad[1], "frame %d after the first complete one: %s" % (fr, bad[2]))
            npx += len(px)
            fr += 1
            i += L
        if fr < plan["frames"]:
            raise Violation("timing", "only %d frames were shown" % fr)
        self.clock_lane(cfg, res, S[3], off, 200)
        res.probe("pixels", npx)
        res.probe("frames", fr)
        res.probe("characters", fr * len(T))
        res.state(cfg["fam"], mode, off, min(h, 9), min(v, 5), ht + 1 - he)
        res.nontrivial = fr * len(T) >= 100

    @staticmethod
    def frame(seq, i, T, px, h, near):
        """None when the frame starting at i is as programmed, else (how far, kind, text)"""
        if i + len(T) > len(seq):
            return (-1, "timing", "recording ends")
        p = 0
        for j, (de, hs, vs) in enumerate(T):
            c = seq[i + j]
            if c[0] is None:
                return (j, "lane-skew", "the lanes disagree about blanking at clock %d" % j)
            if c[0] != de or (not de and (c[1], c[2]) != (hs, vs)):
                return (j, "timing", "clock %d shows de=%d hsync=%d vsync=%d; programmed de=%d hsync=%d vsync=%d" % (j, c[0], c[1], c[2], de, hs, vs))
            if de:
                if not near(c[3:], px[p]):
                    return (j, "pixel", "pixel %d of line %d shows rgb %r, its memory word means %r (previous pixel %r)" % (p % h, p // h, c[3:], px[p], px[p - 1]))
                p += 1

    def vga_frames(self, plan, res, toks, T, px, near):
        """the pins must show the frame somewhere, with pixels at the active clocks and syncs in step, repeatedly"""
        res.log(toks)
        hs = [t[0] | t[1] << 1 for t in toks]
        want = [b | c << 1 for a, b, c in T]
        n = len(T)
        core = n - 3
        i = 60
        # first position where the sync pattern of a whole frame and its pixels fit
        best = None
        fr = 0
        while i + n <= len(toks):
            ok = hs[i:i + core] == want[:core]
            if ok:
                p = 0
                bad = None
                for j in range(n):
                    if T[j][0]:
                        if not near(toks[i + j][2:], px[p]):
                            bad = (p, toks[i + j][2:], px[p])
                            break
                        p += 1
                if bad is None:
                    fr += 1
                    i += n
                    continue
                if best is None or bad[0] > best[0]:
                    best = bad
            i += 1
        if fr < plan["frames"]:
            raise Violation("pixel", "the VGA pins do not show the programmed frames (%d found); closest mismatch: pixel %r shows %r instead of %r" % ((fr,) + (best or (0, 0, 0))))
        res.probe("vga")
        res.probe("frames", fr)
        res.probe("pixels", fr * len(px))
        res.state(plan["cfg"]["fam"], "vga", len(px) > 20)
        res.nontrivial = fr * n >= 100

    @staticmethod
    def ycc(a):
        """plausible video levels, so that conversion does not saturate everywhere"""
        w = word(a, 16)
        return w

    @staticmethod
    def rgb(memf, mode, base, h, y, x):
        a = base + y * h + x
        if mode == "rgb":
            w = memf(a)
            return (w & 255, w >> 8 & 255, w >> 16 & 255)
        e = base + y * h + (x & ~1)
        r = ycbcr2rgb(memf(a) & 255, memf(e) >> 8, memf(e + 1) >> 8, 8, 8)
        return (r["r"], r["g"], r["b"])

    def simplify(self, plan):
        if plan["cfg"]["kind"] == "drv":
            for i in range(len(plan["segs"])):
                yield dict(plan, segs=plan["segs"][:i] + plan["segs"][i + 1:])
            for i in range(len(plan["locks"])):
                yield dict(plan, locks=plan["locks"][:i] + plan["locks"][i + 1:])
        else:
            if plan["frames"] > 2:
                yield dict(plan, frames=2)
            if plan["cs"]:
                yield dict(plan, cs=[])


CHECK = Check()
