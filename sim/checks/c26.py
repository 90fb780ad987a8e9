
from ..kernel import Violation
from .. import tmds
from . import c10


def watched(h):
    t = h.decode_terc4
    ch = [t.data0_dect4.decval, t.data1_dect4.decval, t.data2_dect4.decval]
    s = h.syncpol
    return [s.c0, s.c1, s.c2, t.encoding_terc4, t.encrypting_data, t.encrypting_video, t.ctl_code] + \
           [x for c in ch for x in (c.d, c.c, c.c_valid, c.de, c.dgb, c.vgb)]


class Check(c10.Check):
    PROP = "C26"
    RUNS = {"quick": 8000, "thorough": 120000}
    RULE = ("one run = HDMI signalling with data islands of every kind through the real chain (word-level front end), lane skew and phase, "
            "corrupted words, slips; non-trivial when an island's data and a video period were judged")
    STATE_MEASURE = "hash of (kind of the period before, kind of the period, length of the period)"
    PROBES = ("island-judged", "video-judged", "back-to-back-islands", "guard-like-first-pixel", "island-after-corruption", "nibble-judged", "all-nibbles")
    FAULTS = ("word-corruption", "bit-slip", "metastable-sample", "lane-skew")

    @staticmethod
    def more(h):
        return watched(h)

    def watch(self, h):
        return watched(h)

    def gen(self, rng, tier, i):
        ops = []
        for _ in range(rng.randrange(4, 12)):
            isl = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                isl.append([rng.choice([4, 4, 7, 20]), rng.choice([1, 1, 1, 2, 3, 18])])
            ops.append(["line", isl, rng.choice([12, 12, 13, 20, 40]), rng.choice([1, 2, 3, 16, 16, 24, 50]),
                        rng.choice(["rnd", "rnd", "guard", "guardlike", "solid"]), 1])
            if rng.random() < .1:
                ops.append(["endctl", rng.randrange(1, 3), rng.randrange(3)])
            if rng.random() < .2:
                ops.append(["err", rng.randrange(300), rng.choice([1, 1, 2, 5, 40]), rng.choice(["bit", "word", "ctl", "gb"])])
            if rng.random() < .03:
                ops.append(["slip", rng.randrange(3), rng.randrange(1, 10)])
        sk = [0, 0, 0] if rng.random() < .5 else [rng.randrange(5) for _ in range(3)]
        ph = [0, 0, 0] if rng.random() < .5 else [rng.randrange(10) for _ in range(3)]
        return {"cfg": {"hdmi": 1}, "ops": ops, "skew": [x - min(sk) for x in sk], "phase": ph}

    def judge(self, res, rec, words, valid, exp, islands, vids, kind, modet):
        n = len(rec)
        terc = [None] * n
        data = [None] * n
        video = [None] * n
        INV = {w: j for j, w in enumerate(tmds.TERC4)}
        prev, run, dirty = None, 0, 0
        nib = set()
        for i in range(n):
            kd = kind[i]
            if kd != prev:
                res.state(prev, kd, min(run, 40))
                prev, run = kd, 0
            run += 1
            if kd is None:
                dirty |= valid[i]
                continue
            if kd == "p":
                continue
            terc[i] = 1 if kd in "gdt" else 0
            data[i] = 1 if kd == "d" else 0
            video[i] = 1 if kd == "x" else 0
            if kd == "c" and i and kind[i - 1] != "c":
                video[i] = None         # it may stay for the character that ends the period
            if kd == "d" and dirty:
                res.probe("island-after-corruption")
                dirty = 0
        O = 14

        def check(what, want, get):
            """some fixed latency fits every judged character"""
            best = None
            for L in range(0, 8):
                bad = None
                for i in range(4, n - 10):
                    w = want[i]
                    if w is not None and get(rec[i + L], w) is False:
                        bad = i, L
                        break
                if bad is None:
                    return
                if best is None or bad[0] > best[0]:
                    best = bad
            i, L = best
            raise Violation(what, "%s of character %d (words %s, %s): read %s, expected %r" % (
                what, i, ["%03x" % x for x in words[i]],
                {"c": "control", "g": "leading data guard band", "d": "island data", "t": "trailing data guard band",
                 "v": "video guard band", "x": "pixel", None: "not judged", "p": "control"}[kind[i]], rec[i + L][O:], want[i]))
        raw = [words[i] if valid[i] else None for i in range(n)]
        check("raw words", raw, lambda o, w: o[O - 3:O] == w)
        check("island flag", terc, lambda o, w: o[O] == w)
        check("island data flag", data, lambda o, w: o[O + 1] == w)
        check("video flag", video, lambda o, w: o[O + 2] == w)
        for c in range(3):
            want = [INV[words[i][c]] if kind[i] == "d" else None for i in range(n)]
            k = sum(w is not None for w in want)
            res.probe("nibble-judged", k)
            if len(set(want) - {None}) == 16:
                res.probe("all-nibbles")
            check("channel %d nibble" % c, want, lambda o, w, b=O + 4 + 6 * c: o[b] == w)
            want = [tmds.CONTROL_INV[words[i][c]] if kind[i] in ("c", "p") else None for i in range(n)]
            check("channel %d control" % c, want, lambda o, w, b=O + 5 + 6 * c: (o[b], o[b + 1], o[b + 2], o[b + 3], o[b + 4]) == (w, 1, 0, 0, 0))
        want = [tmds.CONTROL_INV[words[i][1]] | tmds.CONTROL_INV[words[i][2]] << 2 if kind[i] in ("c", "p") else None for i in range(n)]
        check("control code", want, lambda o, w: o[O + 3] == w)
        res.nontrivial = vids > 0 and islands > 0


CHECK = Check()
