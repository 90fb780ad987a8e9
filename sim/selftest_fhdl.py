"""Differential self-test: compiled designs against migen's own Simulator on random FHDL
programs (arithmetic, slices, parts, arrays, cases, memories, two clock domains)."""
import random
import sys
from migen import *
from migen.fhdl.specials import READ_FIRST, WRITE_FIRST, NO_CHANGE
from migen.sim.core import Simulator
try:
    from .fhdl2c import Design
except ImportError:
    sys.path.insert(0, __file__.rsplit("/", 2)[0])
    from sim.fhdl2c import Design


class Rand(Module):
    def __init__(self, seed):
        r = random.Random(seed)
        self.ins = [Signal((r.choice([1, 3, 8, 16, 33, 64, 70]), r.random() < .3)) for _ in range(5)]
        self.small = Signal(3)
        pool = list(self.ins) + [self.small]
        regs = [Signal((r.choice([1, 2, 5, 9, 17, 40, 64, 90]), r.random() < .3)) for _ in range(8)]
        pool += regs

        def ex(d):
            k = r.randrange(14)
            if d == 0 or k < 3:
                return r.choice(pool) if r.random() < .85 else Constant(r.randrange(-20, 200))
            if k < 6:
                return getattr_op(r.choice(["+", "-", "*", "&", "|", "^"]), ex(d-1), ex(d-1))
            if k == 6:
                return ~ex(d-1)
            if k == 7:
                return getattr_op(r.choice(["<", "<=", "==", "!=", ">", ">="]), ex(d-1), ex(d-1))
            if k == 8:
                return Mux(r.choice(pool)[0], ex(d-1), ex(d-1))
            if k == 9:
                return Cat(*[r.choice(pool) for _ in range(r.randrange(1, 4))])
            if k == 10:
                s = r.choice(pool)
                a = r.randrange(len(s)); b = r.randrange(a, len(s)) + 1
                return s[a:b]
            if k == 11:
                return Replicate(r.choice(pool)[0], r.randrange(1, 5))
            if k == 12:
                return (ex(d-1) >> self.small) if r.random() < .5 else (ex(d-1) << self.small)
            if k == 13:
                if r.random() < .5:
                    return r.choice(self.ins).part(self.small, 3)
                return Array([r.choice(pool) for _ in range(r.randrange(1, 5))])[self.small]

        def getattr_op(op, a, b):
            from migen.fhdl.structure import _Operator
            return _Operator(op, [a, b])

        def lhs(s):
            k = r.random()
            if k < .6 or len(s) < 3:
                return s
            a = r.randrange(len(s)-1); b = r.randrange(a, len(s)) + 1
            return s[a:b]

        def stmts(targets, d):
            out = []
            for _ in range(r.randrange(1, 4)):
                k = r.random()
                if d == 0 or k < .5:
                    if r.random() < .15 and len(targets) > 1:
                        out.append(Cat(*r.sample(targets, 2)).eq(ex(2)))
                    elif r.random() < .1:
                        out.append(Array(targets)[self.small].eq(ex(2)))
                    else:
                        out.append(lhs(r.choice(targets)).eq(ex(3)))
                elif k < .8:
                    out.append(If(r.choice(pool)[0] if r.random() < .5 else r.choice(pool),
                                  *stmts(targets, d-1)).Else(*stmts(targets, d-1)))
                else:
                    c = {i: stmts(targets, d-1) for i in r.sample(range(8), 3)}
                    if r.random() < .5:
                        c["default"] = stmts(targets, d-1)
                    out.append(Case(self.small, c))
            return out
        # comb in layers: no loops
        self.outs = []
        for _ in range(6):
            ts = [Signal((r.choice([1, 4, 8, 20, 64, 100]), r.random() < .3)) for _ in range(2)]
            self.comb += stmts(ts, 2)
            # make sure every one is assigned at least once
            for t in ts:
                self.comb += If(self.small == 7, t.eq(ex(1)))
            pool += ts
            self.outs += ts
        half = len(regs)//2
        self.sync.a += stmts(regs[:half], 2)
        self.sync.b += stmts(regs[half:], 2)
        for i in regs[:half]:
            self.sync.a += If(self.small == 6, i.eq(ex(1)))
        for i in regs[half:]:
            self.sync.b += If(self.small == 6, i.eq(ex(1)))
        self.regs = regs
        m = Memory(r.choice([8, 72]), 8, init=[r.getrandbits(8) for _ in range(5)])
        mode = r.choice([READ_FIRST, WRITE_FIRST, NO_CHANGE])
        p1 = m.get_port(write_capable=True, mode=mode, clock_domain="a",
                        we_granularity=0 if mode == NO_CHANGE else r.choice([0, 4]))
        p2 = m.get_port(async_read=r.random() < .5, clock_domain="b", has_re=False, mode=r.choice([READ_FIRST, WRITE_FIRST]))
        self.specials += m, p1, p2
        self.comb += [p1.adr.eq(ex(1)), p1.we.eq(ex(1)), p1.dat_w.eq(ex(1)), p2.adr.eq(ex(1))]
        self.outs += [p1.dat_r, p2.dat_r]


def one(seed, cycles=40):
    m1 = Rand(seed)
    r = random.Random(seed + 1)
    stim = [[r.getrandbits(len(s)) for s in m1.ins + [m1.small]] for _ in range(cycles)]
    log1 = []

    def gen():
        for v in stim:
            row = []
            for s in m1.regs + m1.outs:
                row.append((yield s))
            log1.append(row)
            for s, x in zip(m1.ins + [m1.small], v):
                yield s.eq(x)
            yield
    s1 = Simulator(m1, {"a": [gen()]}, clocks={"a": 10, "b": (14, 3)})
    s1.run()
    m2 = Rand(seed)
    d = Design(m2, keep=m2.ins + [m2.small] + m2.outs + m2.regs, opt="-O0")
    d.reset()
    mv = d.mv
    ra, rb = d.domain_root["a"], d.domain_root["b"]
    # migen: first rising edge of a at 5; b: half=7 phase 3 -> rises at 4
    for rt, per, first in ((ra, 10, 5), (rb, 14, 4)):
        mv[d.C_PERIOD+rt] = per; mv[d.C_NEXT+rt] = first; mv[d.C_BASE+rt] = first
    d.lib.apply(d.addr)
    for i, v in enumerate(stim):
        m = d.lib.run(d.addr, 10**9, 1 << ra)
        row = [d.get(s) for s in m2.regs + m2.outs]
        if row != log1[i]:
            bad = [(k, a, b) for k, (a, b) in enumerate(zip(log1[i], row)) if a != b]
            return "seed %d cycle %d: (index, migen, compiled) %r" % (seed, i, bad)
        for s, x in zip(m2.ins + [m2.small], v):
            if d.has(s) and d.is_input(s):
                d.set(s, x)
    return None


if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    bad = 0
    for s in range(a, b):
        try:
            e = one(s)
        except Exception as ex:
            import traceback; traceback.print_exc()
            e = "seed %d exception %r" % (s, ex)
        if e:
            print(e); bad += 1
    print("ran", b-a, "bad", bad)
