from migen import *
from litex.soc.interconnect import stream
from litevideo.csc.ycbcr444to422 import YCbCr444to422
from litevideo.csc.ycbcr422to444 import YCbCr422to444

from .streamcheck import StreamCheck


class Chain(Module):
    def __init__(self):
        self.submodules.a = a = YCbCr444to422()
        self.submodules.b = b = YCbCr422to444()
        self.comb += a.source.connect(b.sink)
        self.sink, self.source = a.sink, b.source


class Check(StreamCheck):
    PROP = "C20"
    RUNS = {"quick": 20000, "thorough": 1000000}
    REAL = ["litevideo.csc YCbCr444to422, YCbCr422to444 (alone and chained)", "litex SyncFIFO and pipeline control"]
    TOK = (2, 80)

    def MULT(self, cfg):
        return 2

    def configs(self, tier):
        return [{"dut": "444to422", "w": 8}, {"dut": "422to444", "w": 8}, {"dut": "chain", "w": 8},
                {"dut": "444to422", "w": 10}, {"dut": "422to444", "w": 10}]

    def make(self, cfg):
        return {"444to422": lambda: YCbCr444to422(cfg["w"]), "422to444": lambda: YCbCr422to444(cfg["w"]),
                "chain": Chain}[cfg["dut"]]()

    def tokens(self, rng, cfg, n):
        names = ["y", "cb_cr"] if cfg["dut"] == "422to444" else ["y", "cb", "cr"]
        w = cfg["w"]

        def v():
            return rng.choice([0, 2**w - 1]) if rng.random() < .2 else rng.getrandbits(w)
        return [[{x: v() for x in names}, int(rng.random() < .2), int(rng.random() < .2)] for _ in range(n)]

    def model(self, cfg, toks):
        out = []
        for i in range(0, len(toks) - 1, 2):
            (p0, f0, l0), (p1, f1, l1) = toks[i], toks[i + 1]
            if cfg["dut"] == "422to444":
                for p, f, l in ((p0, f0, l0), (p1, f1, l1)):
                    out.append((dict(y=p["y"], cb=p0["cb_cr"], cr=p1["cb_cr"]), f, l))
                continue
            cb, cr = (p0["cb"] + p1["cb"]) >> 1, (p0["cr"] + p1["cr"]) >> 1
            if cfg["dut"] == "444to422":
                out.append((dict(y=p0["y"], cb_cr=cb), f0, l0))
                out.append((dict(y=p1["y"], cb_cr=cr), f1, l1))
            else:
                out.append((dict(y=p0["y"], cb=cb, cr=cr), f0, l0))
                out.append((dict(y=p1["y"], cb=cb, cr=cr), f1, l1))
        return out


CHECK = Check()
