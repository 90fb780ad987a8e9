import random

from ..kernel import Kernel, Violation, CSRMaster
from .. import runner, tmds, hdmiin

P = 10000
CTRL = frozenset(tmds.CONTROL)
T4 = frozenset(tmds.TERC4)
GB = tmds.DATA_GB
VGB = tmds.VIDEO_GB


def parse(words, valid):
    """Expected data enable (1, 0 or None = not judged) of each character, straight from the HDMI period rules."""
    n = len(words)
    exp = [None] * n
    kind = [None] * n           # c control, p the first controls after something not judged, g/t data guard band, d island data, v video guard band, x pixel
    i = 0
    clean = 0
    lanes = [[w[0] for w in words], [w[1] for w in words], [w[2] for w in words]]
    l0, l1, l2 = lanes
    ctl = [l0[j] in CTRL and l1[j] in CTRL and l2[j] in CTRL and valid[j] for j in range(n)]
    islands = vids = 0
    while i < n:
        if not ctl[i]:
            i += 1
            continue
        j = i
        while j < n and ctl[j]:
            exp[j] = 0
            kind[j] = "c" if clean or j >= i + 4 else "p"
            j += 1
        clean = 0
        # trailing preamble length
        code = None
        p = j - 1
        while p >= i:
            c = (tmds.CONTROL_INV[l1[p]], tmds.CONTROL_INV[l2[p]])
            if code is None:
                code = c
            if c != code:
                break
            p -= 1
        pre = j - 1 - p
        i = j
        if pre < 8 or j + 2 > n:
            continue
        if code == (1, 0) and all((l0[q], l1[q], l2[q]) == VGB and valid[q] for q in (j, j + 1)):
            exp[j] = exp[j + 1] = 0
            kind[j] = kind[j + 1] = "v"
            q = j + 2
            while q < n and valid[q] and l0[q] not in CTRL and l1[q] not in CTRL and l2[q] not in CTRL:
                exp[q] = 1
                kind[q] = "x"
                q += 1
            clean = q < n and ctl[q]
            if q < n and valid[q]:
                exp[q] = 0          # the first character with a control word on any lane ends the video period
            vids += 1
            i = q
        elif code == (1, 1) and all(l0[q] in T4 and l1[q] == GB and l2[q] == GB and valid[q] for q in (j, j + 1)):
            exp[j] = exp[j + 1] = 0
            kind[j] = kind[j + 1] = "g"
            q = j + 2
            while q < n and valid[q] and l0[q] in T4 and l1[q] in T4 and l2[q] in T4:
                exp[q] = 0
                kind[q] = "d"
                q += 1
            if q + 2 <= n and all(l0[r] in T4 and l1[r] == GB and l2[r] == GB and valid[r] for r in (q, q + 1)):
                exp[q] = exp[q + 1] = 0
                kind[q] = kind[q + 1] = "t"
                q += 2
                clean = q < n and ctl[q]
                islands += 1
            i = q
    return exp, islands, vids, kind


class Check:
    PROP = "C10"
    RUNS = {"quick": 12000, "thorough": 150000}
    CHUNK = 12
    MIN_RUNS = 100
    RULE = ("one run = HDMI or DVI signalling with data islands through the real chain (word-level front end), lane skew and phase, "
            "corrupted words, slips, mode switches by the CPU; non-trivial when a video period and (in HDMI runs) an island were judged")
    STATE_MEASURE = "hash of (mode, what preceded and what follows: kinds of the last three periods and corruption flags)"
    REAL = ["litevideo.input.HDMIIn without serdes and clocking: CharSync, Decoding, ChanSync, DecodeTERC4, TimingDelayChannel, SyncPolarity", "litex CSR bank"]
    STUB = ["word-level lane capture and clocking", "HDMI source", "CPU on the CSR bus"]
    ASSUMPTIONS = ["preambles are at least 8 and control periods at least 12 characters, guard bands 2 characters (HDMI 1.3)",
                   "corrupted periods are judged again from the next clean control period on"]
    FAULTS = ("word-corruption", "bit-slip", "mode-switch", "metastable-sample", "lane-skew")
    PROBES = ("island-judged", "video-judged", "guard-like-first-pixel", "dvi-judged", "one-pixel-line", "back-to-back-islands", "video-after-corruption")

    more = None

    def watch(self, h):
        return []

    def configs(self, tier):
        return [{"hdmi": 1}]

    def build(self, cfg):
        def b():
            m, d = hdmiin.word_chain(hdmi=True, more=self.more)
            return m, d
        return runner.design(self.PROP, b)

    def gen(self, rng, tier, i):
        dvi = rng.random() < .25
        ops = []
        if dvi:
            ops.append(["mode", 1])
        for _ in range(rng.randrange(5, 14)):
            k = rng.random()
            isl = []
            if not dvi or rng.random() < .1:
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    isl.append([rng.choice([4, 4, 7, 20]), rng.choice([1, 1, 1, 2, 3])])
            ops.append(["line", isl, rng.choice([12, 12, 13, 20, 40]), rng.choice([1, 2, 3, 16, 16, 24, 50]),
                        rng.choice(["rnd", "rnd", "guard", "guardlike", "solid"]), 0 if dvi else 1])
            if rng.random() < .1:
                ops.append(["endctl", rng.randrange(1, 3), rng.randrange(3)])
            if rng.random() < .12:
                ops.append(["err", rng.randrange(200), rng.choice([1, 1, 2, 5, 40]), rng.choice(["bit", "word", "ctl", "gb"])])
            if rng.random() < .03:
                ops.append(["slip", rng.randrange(3), rng.randrange(1, 10)])
            if rng.random() < .04:
                ops.append(["mode", rng.getrandbits(1)])
        sk = [0, 0, 0] if rng.random() < .5 else [rng.randrange(5) for _ in range(3)]
        ph = [0, 0, 0] if rng.random() < .5 else [rng.randrange(10) for _ in range(3)]
        return {"cfg": {"hdmi": 1}, "ops": ops, "skew": [x - min(sk) for x in sk], "phase": ph}

    FIXED = ("skew", "phase")

    def execute(self, plan, res):
        m, d = self.build(plan["cfg"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1000)
        k.clock("pix", P)
        ps = rng.choice([7000, 10000, 16000])
        k.clock("sys", ps, phase=rng.randrange(ps) + 1)
        mv = d.mv
        h = m.hdmi
        # ---- transmitted words
        enc = [tmds.Encoder() for _ in range(3)]
        tx = []
        modes = []        # (index, value)
        slips = []

        def ctl(n, c1, c2, c0=None):
            for _ in range(n):
                for e in enc:
                    e.cnt = 0
                tx.append([tmds.CONTROL[ch if c0 is None else c0], tmds.CONTROL[c1], tmds.CONTROL[c2]])
        ch = 0
        for op in plan["ops"]:
            if op[0] == "line":
                ch = rng.choice([0, 0, 0, 1, 2, 3])
                for gap, pk in op[1]:
                    ctl(gap, 0, 0)
                    ctl(8, 1, 1)
                    for _ in range(2):
                        tx.append([tmds.TERC4[12 + ch], GB, GB])
                    for _ in range(32 * pk):
                        tx.append([rng.choice(tmds.TERC4) for _ in range(3)])
                    for _ in range(2):
                        tx.append([tmds.TERC4[12 + ch], GB, GB])
                if len(op[1]) > 1:
                    res.probe("back-to-back-islands")
                ch = 0
                if op[5]:
                    ctl(max(op[2] - 8, 4), 0, 0)
                    ctl(8, 1, 0)
                    tx.append(list(VGB))
                    tx.append(list(VGB))
                else:
                    ctl(op[2], 0, 0)
                col = [rng.randrange(256) for _ in range(3)]
                for x in range(op[3]):
                    if op[4] == "guard" and (x < 2 or rng.random() < .3):
                        px = [0xab, 0x55, 0xab]
                        if x == 0:
                            res.probe("guard-like-first-pixel")
                    elif op[4] == "guardlike":
                        px = [rng.choice([0xab, 0x55]) for _ in range(3)]
                    elif op[4] == "solid":
                        px = col
                    else:
                        px = [rng.randrange(256) if rng.random() < .85 else rng.choice([0, 1, 255]) for _ in range(3)]
                    tx.append([enc[c].data(px[c]) for c in range(3)])
                for e in enc:
                    e.cnt = 0
                if op[3] == 1:
                    res.probe("one-pixel-line")
            elif op[0] == "err":
                for _ in range(op[2]):
                    at = len(tx) - 1 - rng.randrange(op[1] + 1)
                    if at < 0:
                        continue
                    c = rng.randrange(3)
                    res.fault("word-corruption")
                    if op[3] == "bit":
                        tx[at][c] ^= 1 << rng.randrange(10)
                    elif op[3] == "word":
                        tx[at][c] = rng.randrange(1024)
                    elif op[3] == "ctl":
                        tx[at][c] = rng.choice(tmds.CONTROL)
                    else:
                        tx[at][c] = rng.choice([VGB[c], GB])
            elif op[0] == "endctl":
                # a bit error in the first control words after the video period
                ctl(12, 0, 0, 0)
                for j in range(op[1]):
                    tx[len(tx) - 12 + j][op[2]] ^= 1 << rng.randrange(10)
                    res.fault("word-corruption")
            elif op[0] == "slip":
                slips.append((len(tx), op[1], op[2]))
                res.fault("bit-slip")
            elif op[0] == "mode":
                modes.append((len(tx), op[1]))
        ctl(40, 0, 0, 0)
        if any(plan["skew"]):
            res.fault("lane-skew")
        # ---- raw lane words with skew and phase
        raw = []
        for c in range(3):
            sh = hdmiin.LaneShift(plan["phase"][c])
            o = []
            sl = {at: n for at, l, n in slips if l == c}
            for j in range(len(tx) + plan["skew"][c]):
                s = j - plan["skew"][c]
                if s in sl and s >= 0:
                    sh.slip(-sl[s])
                o.append(sh.push(tx[s][c] if s >= 0 else tmds.CONTROL[0]))
            raw.append(o)
        N = len(tx)
        wi = [d.widx(getattr(h, "data%d_cap" % c).d) for c in range(3)]
        cs = h.chansync
        ro = [d.ridx(getattr(cs, "data_out%d" % c).raw) for c in range(3)] + [d.ridx(cs.chan_synced)] + \
             [d.ridx(getattr(cs, "data_out%d" % c).d) for c in range(3)] + [d.ridx(x) for x in (h.syncpol.de, h.syncpol.b, h.syncpol.g, h.syncpol.r)]
        r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10 = ro
        rw = [d.ridx(x) for x in self.watch(h)]
        w0, w1, w2 = wi
        st = {"i": 0}
        rec = []

        def hook():
            rec.append((mv[r0], mv[r1], mv[r2], mv[r3], mv[r4], mv[r5], mv[r6], mv[r7], mv[r8], mv[r9], mv[r10]) + tuple([mv[x] for x in rw]))
            i = st["i"]
            if i < N:
                mv[w0], mv[w1], mv[w2] = raw[0][i], raw[1][i], raw[2][i]
            st["i"] = i + 1
        k.hook("pix", hook)
        csr = CSRMaster(k, m)
        modet = []

        def cpu():
            for at, v in modes:
                while k.now < at * P:
                    yield
                t0 = k.now
                yield from csr.write("decode_terc4_dvimode", v)
                modet.append((t0 // P - 2, (k.now + 4 * ps) // P + 8, v))
                res.fault("mode-switch")
        k.thread("sys", cpu())
        k.run(P * (N + 30))
        res.cfg = "hdmi"
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.log(rec[-300:], modet)
        words = [r[0:3] for r in rec]
        valid = [r[3] for r in rec]
        exp, islands, vids, kind = parse(words, valid)
        res.probe("island-judged", islands)
        res.probe("video-judged", vids)
        self.judge(res, rec, words, valid, exp, islands, vids, kind, modet)

    def judge(self, res, rec, words, valid, exp, islands, vids, kind, modet):
        # DVI mode expectation
        mode = [0] * len(rec)
        last = 0
        mi = 0
        for i in range(len(rec)):
            while mi < len(modet) and i >= modet[mi][0]:
                last = modet[mi][2]
                mi += 1
            mode[i] = last
        near = bytearray(len(rec))
        for a, b, v in modet:
            for i in range(max(0, a), min(b, len(rec))):
                near[i] = 1
        dvi = 0
        for i in range(len(rec)):
            if near[i]:
                exp[i] = None
            elif mode[i]:
                exp[i] = 0 if words[i][0] in CTRL else 1
                dvi += 1
        res.probe("dvi-judged", dvi)
        corrupted = 0
        for i in range(1, len(exp)):
            if exp[i] is None and valid[i]:
                corrupted = 1
            if corrupted and exp[i] == 1:
                res.probe("video-after-corruption")
                corrupted = 0
            if exp[i] != exp[i - 1]:
                res.state(mode[i], exp[i], exp[i - 1], valid[i], words[i][1] in CTRL, words[i - 1][1], i & 3)
        best = None
        for L in range(1, 6):
            bad = None
            for i in range(4, len(rec) - 6):
                o = rec[i + L]
                if o[8:11] != rec[i][4:7]:
                    bad = (i, "pixel-data", o)
                    break
                if exp[i] is not None and o[7] != exp[i]:
                    bad = (i, "data-enable", o)
                    break
            if bad is None:
                break
            if best is None or bad[0] > best[0]:
                best = bad
        if bad is not None:
            i, what, o = best
            raise Violation(what, "character %d (words %s, %s) left with data enable %d and rgb %02x%02x%02x; expected data enable %r and %02x%02x%02x" % (
                i, ["%03x" % w for w in words[i]], "DVI mode" if mode[i] else "HDMI mode", o[7], o[10], o[9], o[8],
                exp[i], rec[i][6], rec[i][5], rec[i][4]))
        res.nontrivial = vids > 0 and (islands > 0 or dvi > 50)


CHECK = Check()
