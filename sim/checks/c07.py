import bisect
import random

from migen import *
from litevideo.input.analysis import FrameExtraction

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..video import scan
from .. import runner
from .c19 import rgb2ycbcr


def pixel_words(mode, width, pix, res=None):
    """pix: list of lines of (r, g, b) -> expected words as lists of pixel codes, first pixel first"""
    if mode == "rgb":
        flat = [(r << 16 | g << 8 | b,) for l in pix for r, g, b in l]
    else:
        flat = []
        for l in pix:
            for x in range(0, len(l), 2):
                a, b = rgb2ycbcr(*l[x], 8, 8), rgb2ycbcr(*l[x + 1], 8, 8)
                flat.append((a["y"], (a["cb"] + b["cb"]) >> 1))
                flat.append((b["y"], (a["cr"] + b["cr"]) >> 1))
    pf = width // (32 if mode == "rgb" else 16)
    return [flat[i:i + pf] for i in range(0, len(flat) - pf + 1, pf)]


def split_word(mode, width, w):
    n = 32 if mode == "rgb" else 16
    px = [(w >> (width - n * (i + 1))) & ((1 << n) - 1) for i in range(width // n)]
    if mode == "rgb":
        return [(p & 0xffffff,) for p in px]
    return [(p & 255, p >> 8) for p in px]


def same(mode, a, b):
    """exact in rgb; the colour conversion is allowed two steps of rounding"""
    if mode == "rgb":
        return a == b
    return all(abs(x - y) <= 2 for p, q in zip(a, b) for x, y in zip(p, q))


def rot_frame(t):
    """one frame in scan order starting with the vsync edge"""
    f = scan(t)
    i = next(j for j in range(len(f)) if f[j][2] and not f[j - 1][2])
    return f[i:] + f[:i]


def gen_geom(rng, pf, even, maxpix=2500):
    while True:
        h = rng.choice([rng.randrange(1, 9), rng.randrange(4, 48), pf * rng.randrange(1, 6)])
        v = rng.randrange(1, 9)
        if h * v % pf or (even and h % 2):
            continue
        t = [h, rng.randrange(1, 10), rng.randrange(1, 10), rng.randrange(1, 10), v, rng.randrange(1, 3), rng.randrange(1, 3), rng.randrange(1, 4), 1, 1]
        if sum(t[1:4]) < 12 or sum(t[:4]) < 18:
            t[2] += 12
        if sum(t[:4]) * sum(t[4:8]) <= maxpix:
            return t


class Check:
    PROP = "C07"
    RUNS = {"quick": 12000, "thorough": 200000}
    CHUNK = 12
    MIN_RUNS = 100
    RULE = ("one run = 2 to 6 frames of random geometry and content through the real packer and clock-crossing FIFO with a backpressure schedule, or "
            "with losses of validity, and a CPU polling and clearing the overflow flag; non-trivial when >= 8 words were compared and the "
            "consumer stalled, words were dropped or validity was lost")
    STATE_MEASURE = "hash of (mode, width, geometry class, FIFO occupancy in 8ths at a stall, drop seen, flag read)"
    REAL = ["litevideo.input.analysis.FrameExtraction incl. RGB2YCbCr, YCbCr444to422, litex AsyncFIFO, PulseSynchronizer", "litex CSR bank"]
    STUB = ["video source", "word consumer", "CPU on the CSR bus"]
    ASSUMPTIONS = ["pixel count of a frame fills whole words; even line length in ycbcr422; horizontal blanking of at least 12 clocks",
                   "vsync starts at least 16 clocks after the last pixel",
                   "clears of the overflow flag are issued while the pixel clock runs and further apart than its synchroniser",
                   "the colour conversion itself may differ by two steps from the reference (its exactness is C19)"]
    FAULTS = ("consumer-stall", "overflow", "validity-loss", "metastable-sample", "clock-jitter", "reset")
    PROBES = ("word-compared", "drop", "flag-set-read", "flag-clear-read", "flag-cleared", "read-after-clear", "frame-after-loss", "frame-after-partial-word", "word-across-lines")

    def configs(self, tier):
        return [{"mode": m, "w": w, "depth": dp} for m, w, dp in
                (("rgb", 64, 16), ("rgb", 128, 8), ("ycbcr422", 32, 16), ("ycbcr422", 64, 32), ("rgb", 256, 4), ("ycbcr422", 128, 8), ("rgb", 64, 64))]

    def build(self, cfg):
        def b():
            fe = FrameExtraction(cfg["w"], cfg["depth"], cfg["mode"])
            m = CSRTop(fe)
            f = fe.frame
            keep = [fe.valid_i, fe.vsync, fe.de, fe.r, fe.g, fe.b, f.valid, f.ready, f.sof, f.pixels] + m.keep
            return m, Design(m, keep=keep, unrelated=(("sys",), ("pix",)))
        return runner.design("C07" + repr(sorted(cfg.items())), b)

    def gen(self, rng, tier, i):
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        pf = cfg["w"] // (32 if cfg["mode"] == "rgb" else 16)
        kind = rng.choice(["bp", "bp", "bp", "loss"])
        t = gen_geom(rng, pf, cfg["mode"] != "rgb")
        frames = []
        for _ in range(rng.randrange(2, 6)):
            if rng.random() < .3:
                t = gen_geom(rng, pf, cfg["mode"] != "rgb")
            frames.append([t, rng.choice(["rnd", "rnd", "ramp", "rnd" if cfg["mode"] != "rgb" else "spice"] if kind == "bp" else ["rnd", "flat", "ramp", "spice"]), rng.getrandbits(30)])
        losses = []
        resets = []
        if kind == "loss":
            tot = sum(sum(f[0][:4]) * sum(f[0][4:8]) for f in frames)
            for _ in range(rng.randrange(1, 4)):
                losses.append([rng.randrange(tot), rng.choice([1, 2, 7, 40, 300])])
            if rng.random() < .3:
                resets.append([rng.randrange(tot), rng.randrange(1, 4)])
        cons = []
        for _ in range(rng.randrange(1, 6)):
            cons.append([rng.choice(["run", "run", "stall", "rnd", "slow"]), rng.choice([10, 60, 200, 600]), rng.randrange(1, 12)])
        cpu = [[rng.choice(["read", "read", "clear", "cread"]), rng.randrange(1, 500)] for _ in range(rng.randrange(0, 7))]
        return {"cfg": cfg, "kind": kind, "frames": frames, "losses": losses, "resets": resets, "cons": cons, "cpu": cpu,
                "ppix": rng.choice([6734, 10000, 13468, 39722]), "psys": rng.choice([7000, 10000, 12500, 20000]) + rng.choice([0, rng.randrange(60)]), "jit": rng.choice([0, 0, 400])}

    def execute(self, plan, res):
        cfg = plan["cfg"]
        mode, width, depth = cfg["mode"], cfg["w"], cfg["depth"]
        m, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1500)
        pp, ps = plan["ppix"], plan["psys"]
        if plan["kind"] == "loss":
            ps = min(ps, 10000)
        k.clock("pix", pp, phase=rng.randrange(pp) + 1, jitter=plan["jit"])
        k.clock("sys", ps, phase=rng.randrange(ps) + 1, jitter=plan["jit"])
        res.fault("clock-jitter", int(bool(plan["jit"])))
        mv = d.mv
        fe = m.dut
        # ---- source
        src = []                # (de, vs, rgb)
        fr = []                 # (start, last pixel index, expected words)
        used = set()
        for fi, (t, content, sd) in enumerate(plan["frames"]):
            r = random.Random(sd)
            flat = [r.choice([0, 0, 1, 255, r.randrange(256)]) for _ in range(3)]
            f = rot_frame(t)
            start = len(src)
            lines, cur, pde = [], None, 0
            x = 0
            last = start
            ends = []
            for de, hs, vs in f:
                if de:
                    x += 1
                    if content == "rnd":
                        p = (r.randrange(256), r.randrange(256), r.randrange(256))
                    elif content == "ramp":
                        p = (x & 255, ((x >> 8) * 23 + 101 * fi) & 255, (x * 37 + sd) & 255)
                    elif content == "flat":
                        p = tuple(flat)
                    else:
                        # special values; a word seen before would make dropped words ambiguous
                        for _ in range(20):
                            p = tuple(r.choice([0, 1, 2, 3, 255, r.randrange(256), r.randrange(256)]) for _ in range(3))
                            if p not in used:
                                break
                        used.add(p)
                    if not pde:
                        lines.append([])
                    lines[-1].append(p)
                    last = len(src)
                    ends.append(last)
                    src.append((1, vs, p))
                else:
                    src.append((0, vs, (r.randrange(256), 0, 255)))
                pde = de
            pf = width // (32 if mode == "rgb" else 16)
            if t[0] % pf:
                res.probe("word-across-lines")
            fr.append((start, last, pixel_words(mode, width, lines), ends[pf - 1::pf]))
        N = len(src)
        vin = bytearray([1]) * N
        for a, n in plan["losses"]:
            res.fault("validity-loss")
            for j in range(a, min(N, a + n)):
                vin[j] = 0
        # the pixel domain alone is reset (clock loss) for long enough that the reader drains the FIFO
        rin = bytearray(N)
        rwin = []
        for a, n in plan["resets"]:
            res.fault("reset")
            n += (5 * depth + 20) * ps // pp + 24
            rwin.append((a, a + n))
            for j in range(a, min(N, a + n)):
                rin[j] = 1
        wv, wvs, wde, wr, wg, wb = [d.widx(s) for s in (fe.valid_i, fe.vsync, fe.de, fe.r, fe.g, fe.b)]
        rstp = d.widx(d.cds["pix"].rst)
        st = {"i": 0}
        times = []

        def pix():
            times.append(k.now)
            i = st["i"]
            if i < N:
                de, vs, (r, g, b) = src[i]
                mv[wv], mv[wvs], mv[wde], mv[wr], mv[wg], mv[wb] = vin[i], vs, de, r, g, b
                mv[rstp] = rin[i]
            else:
                mv[wde] = mv[wvs] = 0
            st["i"] = i + 1
        k.hook("pix", pix)
        f = fe.frame
        rv, rs, wrdy = d.ridx(f.valid), d.ridx(f.sof), d.widx(f.ready)
        got = []
        cons = []
        fast = plan["kind"] == "loss"
        if fast:
            cons = [1]
        else:
            for what, n, q in plan["cons"]:
                for j in range(n):
                    cons.append(1 if what == "run" else 0 if what == "stall" else int(rng.random() < .5) if what == "rnd" else int(j % (q + 1) == 0))
        ci = {"i": 0, "r": 0, "h": None}
        NC = len(cons)

        def sysh():
            v = mv[rv]
            if v:
                w = (mv[rs], d.get(f.pixels))
                if ci["h"] is not None and ci["h"] != w:
                    raise Violation("unstable", "a word waiting on the stream changed before it was accepted")
                ci["h"] = w
                if ci["r"]:
                    got.append((k.now, w[0], w[1]))
                    ci["h"] = None
                elif not ci["r"]:
                    st["stall"] = 1
            elif ci["h"] is not None and not plan["resets"]:
                raise Violation("retracted", "a word waiting on the stream disappeared")
            ci["i"] += 1
            ci["r"] = cons[ci["i"] % NC] if k.now < st["drain"] else 1
            mv[wrdy] = ci["r"]
        st["drain"] = N * pp
        k.hook("sys", sysh)
        csr = CSRMaster(k, m)
        log = []

        def cpu():
            for op, n in plan["cpu"]:
                for _ in range(n):
                    yield
                t0 = k.now
                if op == "read":
                    v = yield from csr.read("overflow")
                    log.append(("read", t0, k.now, v))
                else:
                    yield from csr.write("overflow", 1)
                    log.append(("clear", t0, k.now, None))
                    if op == "cread":
                        # the old state must not show, however early the flag is read
                        for _ in range(rng.randrange(3)):
                            yield
                        t0 = k.now
                        v = yield from csr.read("overflow")
                        log.append(("read", t0, k.now, v))
                        res.probe("read-after-clear")
                    for _ in range(6 + 6 * pp // ps):
                        yield
            while k.now < (N + 40) * pp + 200 * ps:
                yield
            t0 = k.now
            v = yield from csr.read("overflow")
            log.append(("read", t0, k.now, v))
            st["done"] = 1
        if not plan["resets"]:
            k.thread("sys", cpu())
        k.run((N + 60) * pp + (300 + depth) * ps + N * plan["jit"])
        if ci["h"] is not None:
            raise Violation("stuck", "a word stays on the stream although it is accepted")
        res.cfg = "%s-%d-%d" % (mode, width, depth)
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.fault("consumer-stall", st.get("stall", 0))
        res.log(got, log)
        if plan["resets"]:
            # what the FIFO replays while its write side is in reset belongs to no frame
            tw = [(times[min(a, len(times) - 1)], times[min(b, len(times) - 1)]) for a, b in rwin]
            keep, pend, cut = [], sorted(tw), False
            for g in got:
                while pend and pend[0][0] <= g[0]:
                    cut = True
                    pend.pop(0)
                if any(a <= g[0] <= b + 8 * pp for a, b in tw):
                    cut = True
                elif g[1] or not cut:
                    cut = False
                    keep.append(g)
            got = keep
        words = [(t, s, split_word(mode, width, w)) for t, s, w in got]
        slack = 5 * pp + 6 * ps + 2 * plan["jit"]
        drops = []
        if plan["kind"] == "bp":
            exp = []
            for start, last, ws, ends in fr:
                exp += [(ends[j] + 1, j == 0, w) for j, w in enumerate(ws)]
            j = 0
            acc = 0
            deliv = [g[0] for g in words]
            lat = 2 if mode == "rgb" else 13
            for n, (t, s, w) in enumerate(words):
                j0 = j
                while j < len(exp) and not (same(mode, exp[j][2], w) and exp[j][1] == bool(s)):
                    j += 1
                if j == len(exp):
                    e = exp[j0] if j0 < len(exp) else None
                    kind = "extra-word" if e is None else "start-of-frame" if same(mode, e[2], w) else "word"
                    raise Violation(kind, "delivered word %d (sof=%d, %s) is not a word of the picture in order; the next one is %r" % (n, s, w[:4], e and (e[1], e[2][:4])))
                for q in range(j0, j):
                    drops.append((q, acc))
                acc += 1
                j += 1
                res.probe("word-compared")
            for q in range(j, len(exp)):
                drops.append((q, acc))
            room = {}

            def full(q, a):
                """could word q have met a full FIFO, with a words accepted before it?"""
                if q not in room:
                    i = exp[q][0]
                    room[q] = bisect.bisect_left(deliv, (times[i] if i < len(times) else k.now) - slack)
                return a - room[q] >= depth
            lost = next(((q, a) for q, a in drops if not full(q, a)), None)
            if lost:
                # words that look alike leave several ways to tell which ones are missing: one that explains every loss is enough
                back = [{-1: None}]
                for n, (t, s, w) in enumerate(words):
                    nxt = {}
                    for p in sorted(back[-1]):
                        for j in range(p + 1, len(exp)):
                            if j not in nxt and same(mode, exp[j][2], w) and exp[j][1] == bool(s):
                                nxt[j] = p
                            if not full(j, n):
                                break
                    back.append(nxt)
                ends = [p for p in back[-1] if all(full(q, len(words)) for q in range(p + 1, len(exp)))]
                if not ends:
                    q, a = lost
                    raise Violation("lost-word", "word %d of the stream was lost while the FIFO held at most %d of %d words" % (q, a - room[q], depth))
                drops = [(q, len(words)) for q in range(ends[0] + 1, len(exp))]
                p = ends[0]
                for n in range(len(words) - 1, -1, -1):
                    o = back[n + 1][p]
                    drops += [(q, n) for q in range(o + 1, p)]
                    p = o
                drops.sort()
            dt = []
            for q, a in drops:
                i = exp[q][0]
                dt.append(times[i] if i < len(times) else k.now)
                res.probe("drop")
                res.fault("overflow")
            # ---- overflow flag
            win = slack + 20 * pp + 8 * ps
            clears = [(t0, t1 + 4 * pp + 4 * ps) for o, t0, t1, v in log if o == "clear"]
            for o, t0, t1, v in log:
                if o != "read":
                    continue
                last = max([c for c in clears if c[0] < t1], default=None)
                since = [x for x in dt if last is None or x > last[0] - win]
                if v:
                    res.probe("flag-set-read")
                    if not any(x - slack < t1 for x in since):
                        raise Violation("false-overflow", "the overflow flag reads set although no word was dropped%s" % (" since it was cleared" if last else ""))
                else:
                    res.probe("flag-clear-read")
                    sure = [x for x in dt if x + win < t0 and (last is None or x > last[1] + slack)]
                    if last and t0 > last[1] and dt:
                        res.probe("flag-cleared")
                    if last is not None and t0 < last[1]:
                        continue
                    if sure:
                        raise Violation("silent-overflow", "a word was dropped %d ns before the overflow flag read clear" % ((t0 - sure[-1]) // 1000))
                res.state(mode, width, v, bool(dt), len(since) > 0)
        else:
            # ---- every frame during which the input was valid must appear, whole, as one start-of-frame group
            groups = []
            for t, s, w in words:
                if s or not groups:
                    groups.append([])
                groups[-1].append((s, w))
            okf = []
            for start, last, ws, ends in fr:
                a, b = max(0, start - 3), min(N, last + 16)
                b2 = min(N, last + 24 + 12 * ps // pp)
                okf.append(0 not in vin[a:b] and 1 not in rin[max(0, start - 16):b2])
            # set of possible "next frame" positions
            pos = {0}
            why = None
            for g, grp in enumerate(groups):
                nxt = set()
                for p in pos:
                    q = p
                    while q < len(fr):
                        if okf[q]:
                            if grp[0][0] and len(grp) == len(fr[q][2]) and all(same(mode, a[1], b) for a, b in zip(grp, fr[q][2])):
                                nxt.add(q + 1)
                            else:
                                why = (g, q)
                            break
                        nxt.add(q + 1)
                        q += 1
                if not nxt:
                    g, q = why if why else (g, -1)
                    ref = fr[q][2] if q >= 0 else []
                    raise Violation("frame", "group %d of the stream (%d words, sof=%d, first %s) is not frame %d of the picture (%d words, first %s)" % (
                        g, len(grp), grp[0][0], grp[0][1][:4], q, len(ref), ref[0][:4] if ref else None))
                pos = nxt
            if not any(all(not okf[q] for q in range(p, len(fr))) for p in pos):
                q = min(q for p in pos for q in range(p, len(fr)) if okf[q])
                raise Violation("lost-frame", "frame %d did not come out although the input was valid" % q)
            for q, o in enumerate(okf):
                if o:
                    res.probe("word-compared", len(fr[q][2]))
                    if q and not okf[q - 1]:
                        res.probe("frame-after-loss")
                        pf = width // (32 if mode == "rgb" else 16)
                        a, b = fr[q - 1][0], fr[q][0]
                        if sum(1 for j in range(a, b) if src[j][0] and vin[j]) % pf:
                            res.probe("frame-after-partial-word")
            for o, t0, t1, v in log:
                if o == "read" and v:
                    raise Violation("false-overflow", "the overflow flag reads set although the consumer never stalled")
            res.state(mode, width, len(groups), tuple(okf))
        res.nontrivial = len(words) >= 8 and bool(st.get("stall") or drops or plan["losses"])


CHECK = Check()
