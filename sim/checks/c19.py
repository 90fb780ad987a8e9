import numpy as np
from migen import *
from litex.soc.interconnect.stream import Endpoint, EndpointDescription, PipelinedActor
from litevideo.csc.rgb2ycbcr import RGB2YCbCr
from litevideo.csc.ycbcr2rgb import YCbCr2RGB
from litevideo.csc.common import rgb_layout, rgb16f_layout
from litevideo.csc.rgb2rgb16f import RGB2RGB16f, PIX2PIXFLUT
from litevideo.csc.rgb16f2rgb import RGB16f2RGB

from .streamcheck import StreamCheck


def fl(x):
    return int(x)          # coefficients are truncated toward zero


def clamp(v, hi):
    return 0 if v < 0 else hi if v > hi else v


def rgb2ycbcr(r, g, b, dw, cw):
    ca, cb, cc, cd = (fl(c * 2**cw) for c in (.1819, .0618, .5512, .6495))
    yraw = ((ca * (r - g) + cb * (b - g)) >> cw) + g
    y = yraw + 2**(dw - 4)
    cbv = ((cc * (b - yraw)) >> cw) + 2**(dw - 1)
    crv = ((cd * (r - yraw)) >> cw) + 2**(dw - 1)
    m = 2**dw - 1
    return dict(y=clamp(y, m), cb=clamp(cbv, m), cr=clamp(crv, m))


def ycbcr2rgb(y, cb, cr, dw, cw):
    ca, cbc, cc, cd = .1819, .0618, .5512, .6495
    x = cw - 2
    a = fl(1 / cd * 2**x)
    b = fl(-cbc / (cc * (1 - ca - cbc)) * 2**x)
    c = fl(-ca / (cd * (1 - ca - cbc)) * 2**x)
    dd = fl(1 / cc * 2**x)
    yo, co = 2**(dw - 4), 2**(dw - 1)
    m = 2**dw - 1
    yy, u, v = y - yo, cb - co, cr - co
    return dict(r=clamp(yy + ((v * a) >> x), m),
                g=clamp(yy + ((u * b) >> x) + ((v * c) >> x), m),
                b=clamp(yy + ((u * dd) >> x), m))


def f16(v):
    return int(np.float16(v / 256.).view("H"))


class LUTConverter(PipelinedActor, Module):
    """the table variant of the converter, put together like the computed one"""
    def __init__(self):
        self.sink = sink = Endpoint(EndpointDescription(rgb_layout(8)))
        self.source = source = Endpoint(EndpointDescription(rgb16f_layout(16)))
        PipelinedActor.__init__(self, PIX2PIXFLUT.latency)
        for n in "rgb":
            p = PIX2PIXFLUT(8, 16)
            self.submodules += p
            self.comb += [p.ce.eq(self.pipe_ce), p.sink.pix.eq(getattr(sink, n)), getattr(source, n + "f").eq(p.source.pixf)]


class Check(StreamCheck):
    PROP = "C19"
    RUNS = {"quick": 20000, "thorough": 1000000}
    REAL = ["litevideo.csc RGB2YCbCr, YCbCr2RGB, RGB2RGB16f (computed and PIX2PIXFLUT table), RGB16f2RGB", "litex stream pipeline control"]

    def configs(self, tier):
        out = [{"dut": "rgb2ycbcr", "w": 8, "cw": c} for c in (8, 6, 10)]
        out += [{"dut": "ycbcr2rgb", "w": 8, "cw": c} for c in (8, 6, 10)]
        out += [{"dut": "rgb2rgb16f", "w": 8, "cw": 0}, {"dut": "rgb16f2rgb", "w": 8, "cw": 0}, {"dut": "lut", "w": 8, "cw": 0}]
        out += [{"dut": "rgb2ycbcr", "w": 10, "cw": 8}, {"dut": "ycbcr2rgb", "w": 10, "cw": 8}]
        return out

    def make(self, cfg):
        w, cw = cfg["w"], cfg["cw"]
        return {"rgb2ycbcr": lambda: RGB2YCbCr(w, w, cw), "ycbcr2rgb": lambda: YCbCr2RGB(w, w, cw),
                "rgb2rgb16f": lambda: RGB2RGB16f(), "rgb16f2rgb": lambda: RGB16f2RGB(), "lut": LUTConverter}[cfg["dut"]]()

    def tokens(self, rng, cfg, n):
        w = cfg["w"]
        corner = [0, 1, 2, 2**w - 1, 2**w - 2, 2**(w - 1), 2**(w - 1) - 1, 16, 235, 240]

        def px():
            k = rng.random()
            if k < .35:
                return rng.choice(corner)
            if k < .5:
                return 1 << rng.randrange(w)
            return rng.getrandbits(w)

        def half():
            k = rng.random()
            if k < .2:
                return f16(px())
            if k < .25:
                return 0
            e = rng.choice([0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14])
            return (e << 10) | rng.choice([0, 1, 1023, rng.getrandbits(10)])
        names = {"rgb2ycbcr": "r g b", "ycbcr2rgb": "y cb cr", "rgb2rgb16f": "r g b", "lut": "r g b", "rgb16f2rgb": "rf gf bf"}[cfg["dut"]].split()
        g = half if cfg["dut"] == "rgb16f2rgb" else px
        return [[{x: g() for x in names}, int(rng.random() < .2), int(rng.random() < .2)] for _ in range(n)]

    def model(self, cfg, toks):
        d, w, cw = cfg["dut"], cfg["w"], cfg["cw"]
        out = []
        for p, f, l in toks:
            if d == "rgb2ycbcr":
                e = rgb2ycbcr(p["r"], p["g"], p["b"], w, cw)
            elif d == "ycbcr2rgb":
                e = ycbcr2rgb(p["y"], p["cb"], p["cr"], w, cw)
            elif d in ("rgb2rgb16f", "lut"):
                e = {c + "f": f16(p[c]) for c in "rgb"}
            else:
                e = {c: int(float(np.uint16(p[c + "f"]).view(np.float16)) * 256.) for c in "rgb"}
            out.append((e, f, l))
        return out


CHECK = Check()
