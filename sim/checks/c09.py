import random

from migen import *
from litevideo.input.wer import WER

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from .. import runner, tmds

CLEAN = [tmds.Encoder().data(d) for d in range(256)] + [w ^ 0x3ff & 0x2ff for w in [tmds.Encoder().data(d) for d in range(256)]]
CLEAN = [w for w in CLEAN if not tmds.is_wer_error(w)] + list(tmds.CONTROL) * 16
BAD = [w for w in range(1024) if tmds.is_wer_error(w)]
NEAR = [w for w in range(1024) if tmds.transitions9(w) in (4, 5)]


class Env(Module):
    """the word source and its count of errors as gateware, for periods of full length; threshold/256 of the words are errors"""
    def __init__(self, dut, bits, bad, clean):
        self.thr = Signal(9)
        s, a, b = Signal(32, reset=0x2545f491), Signal(32), Signal(32)
        self.comb += [a.eq(s ^ (s << 13)), b.eq(a ^ (a >> 17))]
        self.sync += s.eq(b ^ (b << 5))
        tabs = [Memory(10, 1024, init=[t[i * 7 % len(t)] for i in range(1024)]) for t in (clean, bad)]
        outs = []
        for t in tabs:
            p = t.get_port(async_read=True)
            self.specials += t, p
            self.comb += p.adr.eq(s[8:18])
            outs.append(p.dat_r)
        isbad = Signal()
        self.comb += [isbad.eq(s[20:28] < self.thr), dut.data.eq(Mux(isbad, outs[1], outs[0]))]
        # cum: errors among the words before word n; snapshots of it for n = q * 2**bits + (-8..7)
        self.n = n = Signal(40)
        cum = Signal(40)
        self.sync += [n.eq(n + 1), cum.eq(cum + isbad)]
        self.snap = Memory(40, 16 * 64)
        w = self.snap.get_port(write_capable=True)
        self.specials += self.snap, w
        at = Signal(40)
        self.comb += [at.eq(n + 8), w.adr.eq(Cat(at[:4], at[bits:bits + 6])), w.dat_w.eq(cum), w.we.eq(at[4:bits] == 0)]


class Check:
    PROP = "C09"
    RUNS = {"quick": 12000, "thorough": 200000}
    CHUNK = 20
    MIN_RUNS = 100
    RULE = ("one run = a word stream with error bursts, clean stretches and control words, and a CPU that waits, requests updates and "
            "reads at random times; unrelated clocks with metastability; non-trivial when >= 2 updated values were "
            "compared and at least one was non-zero; some runs use periods of up to the full 2**24 words, with word source and reference counter as gateware")
    STATE_MEASURE = "hash of (period bits, value bucket, phase of the update inside the period in 16ths)"
    REAL = ["litevideo.input.wer.WER", "migen PulseSynchronizer", "litex CSR bank"]
    STUB = ["word source", "CPU on the CSR bus"]
    ASSUMPTIONS = ["a period lasts at least 8 system clocks plus the pulse synchroniser (true by orders of magnitude for the default 2**24)"]
    FAULTS = ("word-error", "metastable-sample", "clock-jitter", "torn-crossing")
    PROBES = ("value-checked", "full-period-of-errors", "zero-value", "read-without-update", "full-length-period")

    def configs(self, tier):
        return [{"bits": b} for b in (5, 6, 7, 8, 9)]

    def build(self, cfg):
        def b():
            m = CSRTop(WER(period_bits=cfg["bits"]))
            return m, Design(m, keep=[m.dut.data] + m.keep, unrelated=(("sys",), ("pix",)))
        return runner.design("C09-%d" % cfg["bits"], b)

    def build_full(self, bits):
        def b():
            m = CSRTop(WER(period_bits=bits))
            env = Env(m.dut, bits, BAD, CLEAN)
            m.submodules.env = ClockDomainsRenamer("pix")(env)
            m.env = env
            return m, Design(m, keep=[env.thr, env.n] + m.keep, unrelated=(("sys",), ("pix",)))
        return runner.design("C09-full-%d" % bits, b)

    def gen(self, rng, tier, i):
        if i % 2000 == 3:
            return self.gen_full(rng, 24)
        if i % 100 == 37:
            return self.gen_full(rng, rng.choice([12, 14, 16, 17]))
        cfgs = self.configs(tier)
        cfg = cfgs[i % len(cfgs)]
        per = 1 << cfg["bits"]
        segs = []
        for _ in range(rng.choice([3, 5, 8, 12, 20])):
            segs.append([rng.choice(["clean", "clean", "mix", "bad", "near", "any"]), rng.choice([1, 2, per // 4, per - 1, per, per + 1, 2 * per]),
                         rng.choice([1, 5, 20, 50, 90]), rng.getrandbits(30)])
        ops = []
        for _ in range(rng.randrange(3, 14)):
            k = rng.random()
            ops.append([rng.choice(["wait", "upd", "upd", "read"]), rng.randrange(1, 2 * per)])
        return {"cfg": cfg, "segs": segs, "ops": ops, "ppix": rng.choice([6734, 10000, 13468, 39722]),
                "psys": rng.choice([8000, 10000, 12500, 20000]) + rng.choice([0, rng.randrange(60)]), "jit": rng.choice([0, 0, 300, 1500])}

    def gen_full(self, rng, bits):
        per = 1 << bits
        ops = []
        for _ in range(4 if bits > 20 else 5):
            ops.append([rng.choice([0, 1, 3, 40, 128, 220, 256, 256]), per // 2 + rng.randrange(per)])
        return {"full": bits, "ops": ops, "ppix": rng.choice([6734, 10000, 13468]), "psys": rng.choice([8000, 10000, 12500])}

    def execute_full(self, plan, res):
        bits = plan["full"]
        per = 1 << bits
        m, d = self.build_full(bits)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=rng.choice([0, 2000, 4000]))
        pp, ps = plan["ppix"], plan["psys"]
        k.clock("pix", pp, phase=rng.randrange(pp) + 1)
        k.clock("sys", ps, phase=rng.randrange(ps) + 1)
        csr = CSRMaster(k, m)
        env = m.env
        obs = []
        st = {}

        def read(last):
            v = yield from csr.read("value")
            if last is not None and v != last:
                raise Violation("changed-without-update", "value changed from %d to %d although no update was requested" % (last, v))
            n0 = d.get(env.n)
            yield from csr.write("update", 1)
            yield
            yield
            v = yield from csr.read("value")
            obs.append((n0, d.get(env.n), v))
            st["done"] = v
        last = None
        for thr, n in plan["ops"]:
            d.set(env.thr, thr)
            res.fault("word-error", per * thr // 256)
            k.run(k.now + n * pp)
            st.pop("done", None)
            k.thread("sys", read(last))
            for _ in range(50):
                k.run(k.now + 40 * ps)
                if "done" in st:
                    break
            else:
                raise Violation("hang", "CPU access did not finish")
            last = st["done"]
        res.cfg = "full%d" % bits
        res.sim_ps, res.edges = k.now, d.mv[d.C_EDGES]
        res.fault("metastable-sample", d.mv[d.C_METAN])
        res.fault("torn-crossing", d.mv[d.C_TEARN])
        res.log(obs)

        def cum(q, off):
            if q * per + off <= 0:
                return 0
            return d.mem_get(env.snap, q % 64 * 16 + 8 + off)
        cands = set(range(-6, 7))
        for n0, n1, v in obs:
            ok = set()
            for off in range(-6, 7):
                for q in range((n0 - 40) // per - 2, (n1 + 40) // per + 1):
                    end = (q + 1) * per + off
                    if end <= n1 + 40 and end + per >= n0 - 40:
                        if q < 0:
                            if v == 0:
                                ok.add(off)
                            continue
                        c = cum(q + 1, off) - cum(q, off)
                        edge = cum(q, off + 1) != cum(q, off) or cum(q + 1, off) != cum(q + 1, off - 1)
                        if v == c or (v == c - 1 and edge):
                            ok.add(off)
            res.probe("value-checked")
            if bits == 24:
                res.probe("full-length-period")
            res.state("full", bits, v * 16 >> bits)
            if not ok & cands:
                q = n0 // per
                raise Violation("count", "periods of 2**%d words: value %d after an update at word %d: the last complete periods had %r errors" % (
                    bits, v, n0, [cum(q - j, 0) - cum(q - j - 1, 0) for j in range(min(2, q))]))
            cands &= ok
        res.nontrivial = any(o[2] for o in obs)

    def execute(self, plan, res):
        if "full" in plan:
            return self.execute_full(plan, res)
        cfg = plan["cfg"]
        m, d = self.build(cfg)
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=rng.choice([0, 2000, 4000, 4000]))
        pp, ps = plan["ppix"], plan["psys"]
        if (pp << cfg["bits"]) < 14 * ps + 8 * pp:
            ps = 8000
            pp = max(pp, 10000)
        k.clock("pix", pp, phase=rng.randrange(pp) + 1, jitter=plan["jit"])
        k.clock("sys", ps, phase=rng.randrange(ps) + 1, jitter=plan["jit"])
        if plan["jit"]:
            res.fault("clock-jitter")
        mv = d.mv
        w = d.widx(m.dut.data)
        words = []
        for kind, n, p, sd in plan["segs"]:
            r = random.Random(sd)
            for _ in range(n):
                if kind == "clean":
                    words.append(r.choice(CLEAN))
                elif kind == "bad":
                    words.append(r.choice(BAD))
                elif kind == "near":
                    words.append(r.choice(NEAR))
                elif kind == "any":
                    words.append(r.getrandbits(10))
                else:
                    words.append(r.choice(BAD) if r.randrange(100) < p else r.choice(CLEAN))
        per = 1 << cfg["bits"]
        isbad = [tmds.is_wer_error(x) for x in words]
        res.fault("word-error", sum(isbad))
        st = {"i": 0}
        times = []           # time of the edge after which word i is applied
        cum = [0]

        def hook():
            i = st["i"]
            times.append(k.now)
            x = words[i] if i < len(words) else 0
            mv[w] = x
            cum.append(cum[-1] + (1 if i < len(isbad) and isbad[i] else 0))
            st["i"] = i + 1
        k.hook("pix", hook)
        csr = CSRMaster(k, m)
        obs = []
        reads = []

        def cpu():
            v = yield from csr.read("value")
            reads.append((v, None))
            last = v
            for op, n in plan["ops"]:
                if op == "wait":
                    for _ in range(n):
                        yield
                elif op == "upd":
                    t0 = k.now
                    yield from csr.write("update", 1)
                    t1 = k.now
                    for _ in range(n % 4):
                        yield
                    last = yield from csr.read("value")
                    obs.append((t0, t1 + 2 * ps, last))
                else:
                    for _ in range(n % 37):
                        yield
                    v = yield from csr.read("value")
                    reads.append((v, last))
            st["done"] = True
        k.thread("sys", cpu())
        lim = pp * per * 400
        while not st.get("done"):
            k.run(k.now + pp * per)
            if k.now > lim:
                raise Violation("hang", "CPU access did not finish")
        res.cfg = str(cfg["bits"])
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.fault("torn-crossing", mv[d.C_TEARN])
        res.log(obs, reads)
        for v, want in reads:
            if want is None:
                if v != 0:
                    raise Violation("initial", "value reads %d before any update" % v)
            else:
                res.probe("read-without-update")
                if v != want:
                    raise Violation("changed-without-update", "value changed from %d to %d although no update was requested" % (want, v))
        # periods are per words long; where they start relative to reset is one unknown constant of the design
        import bisect

        def count(a, b):
            a, b = max(a, 0), max(b, 0)
            return cum[min(b, len(cum) - 1)] - cum[min(a, len(cum) - 1)]
        slack = 8 * pp + 6 * ps + 2 * plan["jit"] + 3000
        cands = None
        why = None
        for t0, t1, v in obs:
            if v == 0:
                res.probe("zero-value")
            if v >= per - 1:
                res.probe("full-period-of-errors")
            res.probe("value-checked")
            res.state(cfg["bits"], v * 8 // per, (bisect.bisect_left(times, t0) % per) * 16 // per)
            ok = set()
            for off in range(-6, 7):
                # period q covers words [q*per+off, (q+1)*per+off)
                i0 = bisect.bisect_left(times, t0 - slack)
                i1 = bisect.bisect_left(times, t1 + slack)
                for q in range((i0 - off) // per - 1, (i1 - off) // per + 1):
                    end = (q + 1) * per + off
                    nxt = end + per
                    # q is the last completed period at some instant of the update window
                    if end <= i1 and nxt >= i0:
                        if q < 0:
                            if v == 0:
                                ok.add(off)
                            continue
                        c = count(q * per + off, end)
                        a = q * per + off
                        edge = any(0 <= x < len(isbad) and isbad[x] for x in (a, end - 1))
                        if v == c or (v == c - 1 and edge):
                            ok.add(off)
            if not ok:
                i = bisect.bisect_left(times, t0)
                raise Violation("count", "value %d after an update at word %d: the last complete periods had %r errors" % (
                    v, i, [count((i // per - j - 1) * per, (i // per - j) * per) for j in range(2)]))
            c2 = ok if cands is None else cands & ok
            if not c2:
                raise Violation("count", "values %r do not belong to periods of %d words with one common phase" % ([o[2] for o in obs], per))
            cands = c2
        res.nontrivial = len(obs) >= 2 and any(o[2] for o in obs)


CHECK = Check()
