import random

from migen import *
from litevideo.output.hdmi.encoder import Encoder
from litevideo.input.decoding import Decoding

from ..fhdl2c import Design
from ..kernel import Kernel, Violation
from .. import runner, tmds

P = 10000


class Link(Module):
    """encoder -> wire with injected bit errors -> decoder"""
    def __init__(self):
        self.submodules.enc = ClockDomainsRenamer("pix")(Encoder())
        self.submodules.dec = Decoding()
        self.flip = Signal(10)
        self.comb += self.dec.input.eq(self.enc.out ^ self.flip)


def gen_symbols(rng, n):
    """flat symbol stream de<<10 | c<<8 | d with realistic and hostile period structure"""
    out = []
    while len(out) < n:
        k = rng.choice([1, 1, 2, 3, 5, 8, 12, 20, 40, 64])
        if rng.random() < .6:
            kind = rng.random()
            if kind < .35:
                f = lambda: rng.getrandbits(8)
            elif kind < .5:
                v = rng.getrandbits(8)
                f = lambda: v
            elif kind < .65:
                s = [rng.getrandbits(8) for _ in range(rng.randrange(2, 5))]
                f = lambda: rng.choice(s)
            elif kind < .85:
                # bytes that push the disparity the same way
                s = rng.choice([[0, 1, 2, 4, 8, 16, 32, 64, 128], [255, 254, 253, 251, 127, 191], [0x10, 0x01, 0x00], [0x0f, 0x1e, 0xf0, 0x55, 0xaa]])
                f = lambda: rng.choice(s)
            else:
                st = [rng.getrandbits(8)]

                def f():
                    st[0] = (st[0] + 1) & 255
                    return st[0]
            out += [1 << 10 | rng.getrandbits(2) << 8 | f() for _ in range(k)]
        else:
            c = rng.getrandbits(2)
            for _ in range(k):
                if rng.random() < .2:
                    c = rng.getrandbits(2)
                out.append(c << 8 | rng.getrandbits(8))
    return out[:n]


class Check:
    PROP = "C05"
    RUNS = {"quick": 6000, "thorough": 400000}
    CHUNK = 50
    MIN_RUNS = 100
    RULE = ("one run = a stream of active and blanking symbols through the real encoder, a wire with injected bit errors "
            "and the real decoder, with an optional reset at a random cycle; non-trivial when it has both period kinds "
            "and >= 20 symbols")
    STATE_MEASURE = "hash of (running disparity, data-enable, number of ones of the emitted word, after-error flag)"
    REAL = ["litevideo.output.hdmi.encoder.Encoder", "litevideo.input.decoding.Decoding"]
    STUB = ["pixel source", "wire between encoder and decoder (error injection)"]
    ASSUMPTIONS = ["reference encoder written from DVI 1.0"]
    FAULTS = ("bit-error", "reset", "valid-drop")
    PROBES = ("disparity-positive", "disparity-negative", "one-pixel-period", "one-control-period", "error-looks-like-control")

    def configs(self, tier):
        return [{"dut": "link"}]

    def build(self, cfg):
        def b():
            m = Link()
            return m, Design(m, keep=[m.enc.d, m.enc.c, m.enc.de, m.enc.out, m.flip, m.dec.valid_i, m.dec.valid_o,
                                      m.dec.output.raw, m.dec.output.d, m.dec.output.c, m.dec.output.de])
        return runner.design("C05", b)

    def gen(self, rng, tier, i):
        n = rng.choice([24, 60, 150, 400])
        errs = []
        if rng.random() < .6:
            for _ in range(rng.randrange(1, 12)):
                m = 1 << rng.randrange(10) if rng.random() < .6 else rng.getrandbits(10)
                errs.append([rng.randrange(n + 4), m])
        return {"cfg": {"dut": "link"}, "syms": gen_symbols(rng, n), "errs": errs,
                "vdrop": [rng.randrange(n) for _ in range(rng.randrange(4))],
                "reset": [rng.randrange(1, n), rng.randrange(1, 5)] if rng.random() < .3 else None}

    def simplify(self, p):
        if p["reset"]:
            yield dict(p, reset=None)

    def execute(self, plan, res):
        m, d = self.build(plan["cfg"])
        k = Kernel(d, plan["seed"])
        k.clock("pix", P)
        mv = d.mv
        wd, wc, wde, wf, wv = [d.widx(s) for s in (m.enc.d, m.enc.c, m.enc.de, m.flip, m.dec.valid_i)]
        ro = d.ridx(m.enc.out)
        rr, rd, rc, rde, rv = [d.ridx(s) for s in (m.dec.output.raw, m.dec.output.d, m.dec.output.c, m.dec.output.de, m.dec.valid_o)]
        syms = plan["syms"]
        errs = {}
        for a, b in plan["errs"]:
            errs[a] = errs.get(a, 0) ^ b
        vdrop = set(plan["vdrop"])
        outs, decs = [], []
        st = {"i": 0, "syms": syms}

        def hook():
            i = st["i"]
            outs.append((mv[ro], mv[d.ridx(m.flip)]))
            decs.append((mv[rr], mv[rd], mv[rc], mv[rde], mv[rv]))
            s = st["syms"][i] if i < len(st["syms"]) else 0
            mv[wd], mv[wc], mv[wde] = s & 255, s >> 8 & 3, s >> 10
            mv[wf] = errs.get(i, 0)
            mv[wv] = 0 if i in vdrop else 1
            vals.append(mv[wv])
            st["i"] += 1
        vals = []
        k.hook("pix", hook)
        res.cfg = "link"
        res.fault("bit-error", len(errs))
        res.fault("valid-drop", len(vdrop))
        first = syms
        if plan["reset"]:
            at, n = plan["reset"]
            k.run(P * at + 1)
            self.check(first[:max(0, at)], outs, decs, vals, res, partial=True)
            res.fault("reset")
            mv[d.widx(d.cds["pix"].rst)] = 1
            k.run(k.now + P * n)
            mv[d.widx(d.cds["pix"].rst)] = 0
            del outs[:], decs[:], vals[:]
            st["i"] = 0
            st["syms"] = first = syms[at:] + syms[:at]
            mv[wde] = mv[wc] = 0       # the source restarts together with the encoder
        k.run(k.now + P * (len(first) + 10))
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.log(outs, decs)
        self.check(first, outs, decs, vals, res)
        des = {s >> 10 for s in first}
        res.nontrivial = len(des) == 2 and len(first) >= 20

    def check(self, syms, outs, decs, vals, res, partial=False):
        if not syms:
            return
        enc = tmds.Encoder()
        exp, cnts = [], []
        prev = None
        run = 0
        for s in syms:
            exp.append(enc.word(s >> 10, s >> 8 & 3, s & 255))
            cnts.append(enc.cnt)
            res.state(enc.cnt, s >> 10, tmds.ones(exp[-1]))
            if enc.cnt > 0:
                res.probe("disparity-positive")
            elif enc.cnt < 0:
                res.probe("disparity-negative")
            if s >> 10 == prev:
                run += 1
            else:
                if run == 1 and prev is not None:
                    res.probe("one-pixel-period" if prev else "one-control-period")
                prev, run = s >> 10, 1
        # latency: constant; found from the stream itself, never assumed
        best = None
        for lat in range(1, 10):
            n = min(len(exp), len(outs) - lat)
            bad = next((i for i in range(n) if outs[i + lat][0] != exp[i]), None)
            if bad is None:
                best = (lat, None)
                break
            if best is None or bad > best[1]:
                best = (lat, bad)
        lat, bad = best
        if bad is not None and n > 0:
            s = syms[bad]
            got = outs[bad + lat][0]
            cls = "encode"
            if s >> 10 and got in tmds.CONTROL_INV:
                cls = "pixel-sent-as-control"
            elif not s >> 10 and got not in tmds.CONTROL_INV:
                cls = "control-not-a-token"
            elif s >> 10 and tmds.decode_data(got) != s & 255:
                cls = "encode-decode"
            raise Violation(cls, "symbol %d (de=%d c=%d d=%02x, latency %d, disparity %d before) sent as %s, DVI word is %s" % (
                bad, s >> 10, s >> 8 & 3, s & 255, lat, cnts[bad - 1] if bad else 0, format(got, "010b"), format(exp[bad], "010b")))
        # invariants on the emitted words themselves
        for i in range(len(exp)):
            if i + lat < len(outs) and syms[i] >> 10 and tmds.transitions9(outs[i + lat][0]) > 4:
                raise Violation("transitions", "pixel word %s has too many transitions" % format(outs[i + lat][0], "010b"))
        # decoder: word by word, one constant latency for all of its outputs
        words = [w ^ f for w, f in outs]
        first = None
        for dl in range(1, 6):
            bad = None
            for i in range(lat, min(len(words), len(decs) - dl, len(exp) + lat)):
                w = words[i]
                raw, dd, c, de, v = decs[i + dl]
                if w in tmds.CONTROL_INV:
                    ok = de == 0 and c == tmds.CONTROL_INV[w]
                    if outs[i][1]:
                        res.probe("error-looks-like-control")
                else:
                    ok = de == 1 and dd == tmds.decode_data(w)
                ok = ok and raw == w
                # valid_i was applied with the same hook index as the symbol; it is sampled one hook later
                if i - 1 >= 0 and ok and i - 1 < len(vals) and v != vals[i - 1]:
                    ok = False
                if not ok:
                    bad = (i, w, decs[i + dl])
                    break
            if bad is None:
                return
            if first is None or bad[0] > first[0]:
                first = bad
        i, w, g = first
        raise Violation("decode", "word %s decoded as raw=%s d=%02x c=%d de=%d valid=%d" % (
            format(w, "010b"), format(g[0], "010b"), g[1], g[2], g[3], g[4]))


CHECK = Check()
