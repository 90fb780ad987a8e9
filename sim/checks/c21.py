from fractions import Fraction

from litevideo.float_arithmetic.floatadd import FloatAdd
from litevideo.float_arithmetic.floatmult import FloatMult

from .streamcheck import StreamCheck


def val(x):
    e, f = (x >> 10) & 31, x & 1023
    return Fraction(f, 1 << 24) if e == 0 else Fraction((1024 + f) * 2**e, 1 << 25)


MAX = val(30 << 10 | 1023)


def ulp_floor(v):
    """largest half-float <= v, as code (v >= 0)"""
    lo, hi = 0, (30 << 10 | 1023)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if val(m) <= v:
            lo = m
        else:
            hi = m - 1
    return lo


class Check(StreamCheck):
    PROP = "C21"
    RUNS = {"quick": 20000, "thorough": 1000000}
    REAL = ["litevideo.float_arithmetic FloatAdd, FloatMult", "litex stream pipeline control"]
    TOK = (2, 50)

    def configs(self, tier):
        return [{"dut": "add"}, {"dut": "mult"}]

    def make(self, cfg):
        return FloatAdd() if cfg["dut"] == "add" else FloatMult()

    def tokens(self, rng, cfg, n):
        def half():
            k = rng.random()
            if k < .08:
                return 0
            if k < .2:
                return rng.getrandbits(10)                  # subnormal
            e = rng.randrange(1, 31) if k < .6 else rng.randrange(8, 18)
            return e << 10 | rng.choice([0, 1, 512, 1022, 1023, rng.getrandbits(10), rng.getrandbits(10)])
        out = []
        while len(out) < n:
            a, b = half(), half()
            v = val(a) + val(b) if cfg["dut"] == "add" else val(a) * val(b)
            if v > MAX:
                continue                                   # overflow is outside the property
            out.append([{"in1": a, "in2": b}, int(rng.random() < .2), int(rng.random() < .2)])
        return out

    def model(self, cfg, toks):
        out = []
        for p, f, l in toks:
            a, b = val(p["in1"]), val(p["in2"])
            v = a + b if cfg["dut"] == "add" else a * b
            c = ulp_floor(v)
            if cfg["dut"] == "add":
                # the smaller operand may be truncated while it is aligned with the larger
                E = max((p["in1"] >> 10) & 31, (p["in2"] >> 10) & 31, 1)
                q = Fraction(2**E, 1 << 25)
                t = (a // q + b // q) * q
                out.append(({"out": (ulp_floor(t), c)}, f, l))
            else:
                out.append(({"out": (c, c)}, f, l))
        return out

    def value_ok(self, cfg, e, g):
        return g in e


CHECK = Check()
