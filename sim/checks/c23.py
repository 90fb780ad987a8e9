import bisect
import random

import numpy as np

from ..kernel import Kernel, Violation
from .. import runner, terminal
from ..terminal import FONT, SIZE, LINE, FRAME, PAL, PALETTE

ACT_L, ACT_P = 31, 144
LEAD = 48      # a character may be fetched at most this many pixel clocks before it is shown


class Check:
    PROP = "C23"
    RUNS = {"quick": 260, "thorough": 12000}
    CHUNK = 2
    MIN_RUNS = 24
    RULE = ("one run = one to two frames of the VGA output while a bus master writes characters, colours, font lines and whole rows at seeded times (many aimed at "
            "the beam position), with resets and stops of the video clock; every pixel clock is compared: sync timing exactly, colours against the memory history "
            "(any byte value in force during the fetch window is accepted for the characters being written at that moment, exact elsewhere); non-trivial when a "
            "whole visible frame was compared and writes landed in it")
    STATE_MEASURE = "hash of (configuration, kinds of write bursts, frame third of each burst, resets)"
    REAL = ["litevideo.terminal.core.Terminal with its memory, font and initial screen"]
    STUB = ["Wishbone master", "monitor"]
    ASSUMPTIONS = ["a character is fetched within the %d pixel clocks before it is shown" % LEAD]
    FAULTS = ("write-in-visible-area", "write-at-beam", "vga-reset", "sys-reset", "vga-clock-stop", "clock-jitter")
    PROBES = ("pixels-compared", "frame-wrap", "cells-under-write", "font-written")

    def configs(self, tier):
        return [{"blank": 0, "pads": 0}, {"blank": 0, "pads": 1}]

    def build(self, cfg):
        return terminal.build(cfg)

    def gen(self, rng, tier, i):
        cfg = self.configs(tier)[i % 2]
        big = tier == "thorough"
        bursts = []
        for _ in range(rng.randrange(1, 8)):
            # time in pixel clocks since the start of the run
            t = rng.choice([rng.randrange(100, 24000), rng.randrange(24000, FRAME), rng.randrange(24000, FRAME)])
            kind = rng.choice(["beam", "beam", "cells", "row", "font", "scatter", "bulk"])
            bursts.append([t, kind, rng.randrange(1, 40), rng.getrandbits(30)])
        bursts.sort()
        faults = []
        if rng.random() < .35:
            for _ in range(rng.randrange(1, 3)):
                faults.append([rng.randrange(10, 60000) if rng.random() < .7 else rng.randrange(10, FRAME), rng.choice(["vrst", "vrst", "srst", "vstop"]), rng.randrange(1, 9)])
        return {"cfg": cfg, "bursts": bursts, "faults": faults, "extra": rng.choice([LINE * 3, LINE * 3, LINE * 40, LINE * 200] + ([FRAME] if rng.random() < .2 or big else [])),
                "psys": rng.choice([8000, 10000, 10000, 20000, 39722]), "jit": rng.choice([0, 0, 1000, 5000]), "prefill": int(rng.random() < .8)}

    def execute(self, plan, res):
        m, d = self.build(plan["cfg"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"])
        mv = d.mv
        ps, pv = plan["psys"], 39722
        k.clock("sys", ps, phase=rng.randrange(ps) + 1, jitter=min(plan["jit"], ps // 4))
        k.clock("vga", pv, phase=rng.randrange(pv) + 1, jitter=min(plan["jit"], pv // 4))
        if plan["jit"]:
            res.fault("clock-jitter")
        model = terminal.initial(plan["cfg"])
        first = list(model)
        if plan["prefill"]:
            # contents written before the run (poked, so that no run spends its time loading the screen)
            mem = [x for x in d.mems if x.depth >= SIZE and x.width == 8]
            if len(mem) == 1:
                off = d.memoff[mem[0].duid]
                r = random.Random(plan["seed"] ^ 5)
                for a in range(SIZE):
                    if a < FONT or r.random() < .3:
                        first[a] = model[a] = r.getrandbits(8)
                        mv[off + a] = first[a]
        wb = terminal.WB(k, m.t.bus, model, res)
        srst, vrst = d.widx(d.cds["sys"].rst), d.widx(d.cds["vga"].rst)
        rec, times = [], []
        oi, T = d.ridx(m.out), d.C_TIME
        ra, ta = rec.append, times.append

        def mon():
            ra(mv[oi])
            ta(mv[T])
        k.hook("vga", mon)
        anchor = {"rst": 0}

        def beam():
            """the character under the beam, roughly"""
            n = len(rec) - anchor["rst"]
            l, p = (n // LINE) % 521, n % LINE
            return max(0, min(479, l - ACT_L)) // 16, max(0, min(79, (p - ACT_P + 12) // 8))

        def burst(kind, n, seed):
            r = random.Random(seed)
            vis = ACT_L * LINE <= (len(rec) - anchor["rst"]) % FRAME < (ACT_L + 480) * LINE
            if vis:
                res.fault("write-in-visible-area", n)
            row0, col0 = beam()
            for j in range(n):
                if kind == "beam":
                    row, col = beam()
                    a = (row * 80 + min(79, col + r.randrange(-1, 3)) % 80) * 2 + r.randrange(2)
                    a = max(0, a)
                    res.fault("write-at-beam")
                elif kind == "cells":
                    a = r.randrange(FONT)
                elif kind == "row":
                    a = ((row0 + 1) % 30) * 160 + j * 2 % 160 + r.randrange(2)
                elif kind == "font":
                    a = FONT + r.randrange(4096)
                    res.probe("font-written")
                elif kind == "scatter":
                    a = r.randrange(SIZE)
                else:
                    a = (row0 * 160 + j) % SIZE
                yield from wb.access(1, a, r.getrandbits(8))
                g = r.choice([0, 0, 0, 1, 4, 30])
                if g:
                    yield from wb.idle(g)

        busy = []

        def start(kind, n, seed):
            def go():
                if busy and not busy[-1]["done"]:
                    k.after(100 * ps, go)
                    return
                busy.append(k.thread("sys", burst(kind, n, seed)))
            return go
        for t, kind, n, seed in plan["bursts"]:
            k.at(k.now + t * pv, start(kind, n * (4 if kind == "bulk" else 1), seed))

        def fault(kind, n):
            def go():
                if kind == "vrst":
                    mv[vrst] = 1
                    k.after(n * pv, rel)
                elif kind == "srst":
                    if busy and not busy[-1]["done"]:
                        k.after(50 * ps, go)
                        return
                    mv[srst] = 1
                    k.after(n * ps, lambda: mv.__setitem__(srst, 0))
                else:
                    k.clock_stop("vga")
                    k.after(n * 50 * pv, lambda: k.clock("vga", pv, phase=rng.randrange(pv) + 1))
                res.fault({"vrst": "vga-reset", "srst": "sys-reset", "vstop": "vga-clock-stop"}[kind])

            def rel():
                mv[vrst] = 0
                anchor["rst"] = len(rec)
            return go
        for t, kind, n in plan["faults"]:
            k.at(k.now + t * pv, fault(kind, n))
        total = FRAME + plan["extra"]
        while len(rec) - anchor["rst"] < total:
            k.run(k.now + LINE * 20 * pv)
            if len(rec) > 4 * total + 200000:
                break
        for _ in range(50):
            if not busy or busy[-1]["done"]:
                break
            k.run(k.now + LINE * pv)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        self.judge(plan, res, np.array(rec[anchor["rst"]:], dtype=np.int64), np.array(times[anchor["rst"]:], dtype=np.int64), first, wb.log, ps)
        kinds = tuple((b[1], b[0] * 3 // FRAME) for b in plan["bursts"])
        res.cfg = "pads%d" % plan["cfg"]["pads"]
        res.state(plan["cfg"]["pads"], kinds, tuple(f[1] for f in plan["faults"]), plan["extra"] // LINE)

    @staticmethod
    def judge(plan, res, rec, times, first, log, ps):
        hs, vs, rgb = rec >> 24 & 1, rec >> 25 & 1, rec & 0xffffff
        # the first rising edge of vsync is the start of line 2
        up = np.flatnonzero((vs[1:] == 1) & (vs[:-1] == 0))
        if not len(up):
            raise Violation("no-vsync", "vsync does not rise within a frame after reset")
        a = int(up[0]) + 1
        if a > 3 * LINE + 32:
            raise Violation("no-vsync", "vsync rises only %d clocks after reset" % a)
        n = np.arange(len(rec) - a, dtype=np.int64) + 2 * LINE
        pix, line = n % LINE, n // LINE % 521
        hs, vs, rgb = hs[a:], vs[a:], rgb[a:]
        eh = (pix >= 96).astype(np.int64)
        bad = np.flatnonzero(hs != eh)
        if len(bad):
            b = int(bad[0])
            raise Violation("hsync", "hsync is %d in line %d clock %d (counted from the first vsync)" % (hs[b], line[b], pix[b]))
        ev = (line >= 2).astype(np.int64)
        bad = np.flatnonzero(vs != ev)
        if len(bad):
            b = int(bad[0])
            raise Violation("vsync", "vsync is %d in line %d clock %d" % (vs[b], line[b], pix[b]))
        vis = (line >= ACT_L) & (line < ACT_L + 480) & (pix >= ACT_P) & (pix < ACT_P + 640)
        bad = np.flatnonzero((rgb != 0) & ~vis)
        if len(bad):
            b = int(bad[0])
            raise Violation("blanking", "colour %06x in line %d clock %d, outside the visible area" % (rgb[b], line[b], pix[b]))
        tt = times[a:]
        mem = np.array(first, dtype=np.int64)
        li = 0
        hist = {}
        for t0, t1, ad, v in log:
            hist.setdefault(ad, []).append((t0, t1, v))
        nlines = len(n) // LINE
        shift = np.arange(8)
        cells = 0
        comp = 0
        for q in range(nlines + 1):
            s = q * LINE               # start of a line in the anchored arrays
            ln = (q + 2) % 521
            if not ACT_L <= ln < ACT_L + 480 or s + ACT_P + 640 > len(n):
                continue
            y = ln - ACT_L
            row, fl = y // 16, y % 16
            w0 = tt[s + ACT_P - LEAD]           # start of the fetch window of the line
            w1 = tt[s + ACT_P + 639]
            while li < len(log) and log[li][1] + 4 * ps < w0:
                mem[log[li][2]] = log[li][3]
                li += 1
            codes = mem[row * 160:row * 160 + 160:2]
            cols = mem[row * 160 + 1:row * 160 + 160:2]
            fb = mem[FONT + codes * 16 + fl]
            bits = (fb[:, None] >> (7 - shift)[None, :]) & 1
            exp = np.where(bits, PAL[cols & 15][:, None], PAL[cols >> 4][:, None]).reshape(640)
            got = rgb[s + ACT_P:s + ACT_P + 640]
            comp += 640
            inwin = []
            j = li
            while j < len(log) and log[j][0] - 4 * ps <= w1:
                inwin.append(log[j])
                j += 1
            if (got == exp).all() and not inwin:
                continue
            recent = set(x[2] for x in inwin)
            for c in range(80):
                g = got[c * 8:c * 8 + 8]
                if not recent and (g == exp[c * 8:c * 8 + 8]).all():
                    continue
                f0, f1 = tt[s + ACT_P + c * 8 - LEAD], tt[s + ACT_P + c * 8]

                def vals(ad):
                    v = int(mem[ad])
                    out = {v}
                    if ad in recent:
                        out = set()
                        for t0, t1, x in hist[ad]:
                            if t1 + 4 * ps < f0:
                                if t1 + 4 * ps >= w0:
                                    v = x
                            elif t0 - 4 * ps <= f1:
                                out.add(x)
                        out.add(v)
                    return out
                ok = False
                cc, kk = vals((row * 80 + c) * 2), vals((row * 80 + c) * 2 + 1)
                if len(cc) > 1 or len(kk) > 1:
                    cells += 1
                for code in cc:
                    for byte in vals(FONT + code * 16 + fl):
                        for col in kk:
                            if all(int(g[x]) == (PALETTE[col & 15] if byte >> (7 - x) & 1 else PALETTE[col >> 4]) for x in range(8)):
                                ok = True
                if not ok:
                    raise Violation("picture", "text row %d column %d font line %d shows %s; the memory there is character 0x%02x, colour 0x%02x, font byte 0x%02x" % (
                        row, c, fl, " ".join("%06x" % x for x in g), min(cc), min(kk), min(vals(FONT + min(cc) * 16 + fl))))
            if len(res.states) < 0:
                break
        res.probe("pixels-compared", comp)
        res.probe("cells-under-write", cells)
        if nlines > 521:
            res.probe("frame-wrap")
        res.log(int(rec.sum()), len(rec), comp)
        res.nontrivial = comp >= 640 * 480 and len(log) > 0


CHECK = Check()
