import random

from migen import *
from litevideo.input.charsync import CharSync

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from .. import runner, chainstat, tmds

NEED = 12          # consecutive control words that must be enough


class Check:
    PROP = "C03"
    RUNS = {"quick": 24000, "thorough": 400000}
    CHUNK = 40
    MIN_RUNS = 100
    RULE = ("one run = a serial lane (control periods, TMDS pixel periods, shifted control-like bursts, noise) cut into raw words at "
            "a random bit phase, with bit slips, bit errors and resets; non-trivial when a lock was expected and "
            ">= 20 words were compared")
    STATE_MEASURE = "hash of (expected phase or unlocked, period kind, hardware bit position)"
    REAL = ["litevideo.input.charsync.CharSync", "litex CSR bank"]
    STUB = ["lane deserialiser (raw words cut from a bit stream)", "CPU on the CSR bus"]
    ASSUMPTIONS = ["a control period means >= %d consecutive uncorrupted control words" % NEED]
    FAULTS = ("bit-slip", "bit-error", "noise", "foreign-control-burst", "reset", "late-lane", "dead-lane")
    PROBES = ("lock", "relock-after-slip", "csr-checked", "words-compared", "chain-char-sync", "chain-no-input") + tuple("phase-%d" % i for i in range(10))

    def configs(self, tier):
        return [{"dut": "charsync"}]

    def build(self, cfg):
        def b():
            m = CSRTop(CharSync())
            return m, Design(m, keep=[m.dut.raw_data, m.dut.data, m.dut.synced] + m.keep)
        return runner.design("C03", b)

    def gen(self, rng, tier, i):
        if i % 60 == 17:
            return chainstat.gen(rng)
        ops = []
        for _ in range(rng.randrange(2, 9)):
            k = rng.random()
            sd = rng.getrandbits(30)
            if k < .40:
                ops.append(["ctl", rng.choice([1, 4, 7, 8, 9, 11, 12, 13, 14, 16, 20, 40]), sd])
            elif k < .65:
                ops.append(["pix", rng.choice([1, 2, 3, 8, 20, 60]), sd])
            elif k < .75:
                ops.append(["slip", rng.randrange(1, 10), 0])
            elif k < .85:
                ops.append(["foreign", rng.randrange(1, 8), rng.randrange(1, 10), sd])
            elif k < .89:
                # the same foreign position again and again, never a full run
                sh, n = rng.randrange(1, 10), rng.choice([1, 1, 1, 2, 3, 6])
                ops.append(["ctl", rng.randrange(12, 20), sd])
                for _ in range(rng.choice([8, 9, 12, 24])):
                    ops.append(["foreign", n, sh, rng.getrandbits(30)])
                    if rng.random() < .8:
                        ops.append(["pix", rng.randrange(1, 4), rng.getrandbits(30)])
            elif k < .95:
                ops.append(["noise", rng.randrange(1, 15), sd])
            else:
                ops.append(["reset", rng.randrange(1, 4), 0])
            if rng.random() < .4:
                ops.append(["ctl", rng.randrange(12, 30), rng.getrandbits(30)])
                ops.append(["pix", rng.randrange(5, 40), rng.getrandbits(30)])
        return {"cfg": {"dut": "charsync"}, "phase": rng.randrange(10), "ops": ops,
                "errs": [[rng.randrange(1200), rng.randrange(10)] for _ in range(rng.choice([0, 0, 1, 3, 8]))],
                "psys": rng.choice([8000, 10000, 13000, 20000]), "ppix": rng.choice([6734, 13468, 10000, 40000])}

    # -- the transmitted lane: list of [bit list, kind]; words keep their identity for the comparison
    def lane(self, plan):
        """-> segments between resets; each a list of (word, kind, nbits_before) in transmission order"""
        enc = tmds.Encoder()
        segs = [[]]
        for op in plan["ops"]:
            seg = segs[-1]
            if op[0] == "reset":
                segs.append([])
                continue
            r = random.Random(op[-1])
            if op[0] == "ctl":
                c = r.getrandbits(2)
                for _ in range(op[1]):
                    if r.random() < .1:
                        c = r.getrandbits(2)
                    seg.append(("w", enc.control(c), "ctl"))
            elif op[0] == "pix":
                for _ in range(op[1]):
                    seg.append(("w", enc.data(r.choice([r.getrandbits(8), 0x10, 0x55, 0xaa])), "pix"))
            elif op[0] == "slip":
                seg.append(("slip", op[1], "slip"))
            elif op[0] == "foreign":
                # n control tokens at another phase, embedded in words of the current phase
                n, sh = op[1], op[2]
                bits = [0, 1, 1, 0, 0, 0, 1, 1, 0, 0][:sh]
                for _ in range(n):
                    t = tmds.CONTROL[r.getrandbits(2)]
                    bits += [t >> j & 1 for j in range(10)]
                while len(bits) % 10:
                    bits.append(len(bits) // 2 & 1)
                for j in range(0, len(bits), 10):
                    seg.append(("w", sum(b << x for x, b in enumerate(bits[j:j + 10])), "foreign"))
            elif op[0] == "noise":
                for _ in range(op[1]):
                    seg.append(("w", r.getrandbits(10), "noise"))
        return segs

    def execute(self, plan, res):
        if plan.get("chain"):
            return chainstat.execute(plan, res, {"char-sync"})
        m, d = self.build(plan["cfg"])
        k = Kernel(d, plan["seed"], metaw=1500)
        rng = random.Random(plan["seed"])
        k.clock("pix", plan["ppix"], phase=rng.randrange(plan["ppix"]) + 1)
        k.clock("sys", plan["psys"], phase=rng.randrange(plan["psys"]) + 1)
        mv = d.mv
        wr, rd, rs = d.widx(m.dut.raw_data), d.ridx(m.dut.data), d.ridx(m.dut.synced)
        rstw = d.widx(d.cds["pix"].rst)
        errs = plan["errs"]
        csr = CSRMaster(k, m)
        res.cfg = "charsync"
        segs = self.lane(plan)
        nrst = [op[1] for op in plan["ops"] if op[0] == "reset"]
        for o in plan["ops"]:
            f = {"slip": "bit-slip", "noise": "noise", "foreign": "foreign-control-burst", "reset": "reset"}.get(o[0])
            if f:
                res.fault(f)
        gpos = 0
        total = 0
        for si, seg in enumerate(segs):
            phase = plan["phase"]
            # bit stream with word starts
            bits = [rng.getrandbits(1) for _ in range(phase)]
            words = []         # [start bit, kind]
            for what, v, kind in seg:
                if what == "slip":
                    bits += [j & 1 for j in range(v)]
                    words.append([None, "slip"])
                else:
                    words.append([len(bits), kind])
                    bits += [v >> j & 1 for j in range(10)]
            for w, b in errs:
                p = w * 10 + b - gpos
                if 0 <= p < len(bits):
                    bits[p] ^= 1
                    res.fault("bit-error")
            gpos += len(bits)
            while len(bits) % 10:
                bits.append(0)
            bits += [0, 0, 1, 1, 1] * 12         # quiet tail so that everything drains
            raws = [sum(bits[i + j] << j for j in range(10)) for i in range(0, len(bits), 10)]
            outs = []
            it = {"i": 0}

            def hook():
                outs.append((mv[rd], mv[rs]))
                i = it["i"]
                mv[wr] = raws[i] if i < len(raws) else 0b0011100111
                it["i"] = i + 1
            h = k.hook("pix", hook)
            k.run(k.now + plan["ppix"] * (len(raws) + 6) + 5)
            k.unhook(h)
            res.log(outs)
            exp_phase, lock_end, ctl_pos = self.judge(bits, words, raws, outs, res)
            if exp_phase is not None:
                # the CPU's view
                got = {}

                def cpu():
                    for _ in range(8):
                        yield
                    got["sync"] = yield from csr.read("char_synced")
                    got["pos"] = yield from csr.read("ctl_pos")
                k.thread("sys", cpu())
                k.run(k.now + plan["psys"] * 40)
                res.probe("csr-checked")
                if got.get("sync") != 1:
                    raise Violation("not-reported", "char_synced reads %r although the lane is locked" % got.get("sync"))
                if got.get("pos") != exp_phase:
                    raise Violation("position", "ctl_pos reads %r, words start at bit %d" % (got.get("pos"), exp_phase))
            if si < len(segs) - 1:
                mv[rstw] = 1
                k.run(k.now + plan["ppix"] * nrst[si])
                mv[rstw] = 0
                k.apply()
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]

    def judge(self, bits, words, raws, outs, res):
        # windows that look like control tokens, per phase
        n = len(bits)
        tok = [False] * n
        x = sum(b << i for i, b in enumerate(bits[:10]))
        big = 0
        for i in range(n - 9):
            v = 0
            for j in range(10):
                v |= bits[i + j] << j
            tok[i] = v in tmds.CONTROL_INV
        # lock expectation per word
        locked = None
        nsync = 0
        run = 0
        seen = False
        compare = []          # (start bit) of words that must come out intact
        epochs = []           # list of lists
        alien = [0] * 10
        for st, kind in words:
            if st is None:
                if locked is not None:
                    epochs.append(compare)
                locked, run, compare = None, 0, []
                continue
            ph = st % 10
            if tok[st]:
                run += 1
            else:
                run = 0
            # hits at other phases, in the same order the hardware scans
            bad = False
            for o in range(1, 10):
                q = st + o
                p = q % 10
                if q < n and tok[q]:
                    alien[p] += 1
                    if alien[p] >= 8:
                        bad = True
                else:
                    alien[p] = 0
            alien[ph] = 0
            if locked is not None:
                compare.append(st)
            if bad:
                if locked is not None:
                    epochs.append(compare[:-12])
                locked, run, compare = None, 0, []
            elif run >= NEED:
                if locked is None:
                    if seen:
                        res.probe("relock-after-slip")
                    res.probe("lock")
                    res.probe("phase-%d" % ph)
                    seen = True
                    locked, compare = ph, []
            res.state(locked, kind)
        if locked is not None:
            epochs.append(compare)
        lat = None
        for ep in epochs:
            if not ep:
                continue
            # candidate latencies (in raw words) at which every word of the epoch comes out
            ok = []
            worst = None
            for L in range(0, 6):
                bad = None
                for st in ep:
                    want = 0
                    for j in range(10):
                        want |= bits[st + j] << j
                    i = st // 10 + 1 + L
                    if i >= len(outs):
                        break
                    if outs[i][0] != want or not outs[i][1]:
                        bad = (st, i, want)
                        break
                if bad is None:
                    ok.append(L)
                elif worst is None or bad[0] > worst[0]:
                    worst = bad
            if not ok:
                st, i, want = worst
                if outs[i][0] == want:
                    raise Violation("sync-lost", "synced is low while aligned data are delivered (word at bit %d)" % st)
                raise Violation("word", "word sent at bit %d (phase %d) is %s but %s came out" % (
                    st, st % 10, format(want, "010b"), format(outs[i][0], "010b")))
            if len(ep) >= 20:
                res.nontrivial = True
            res.probe("words-compared", len(ep))
            lat = ok
        return locked, None, None


CHECK = Check()
