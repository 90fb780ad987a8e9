import random

from migen import *
from litevideo.input.analysis import SyncPolarity, ResolutionDetection
from litex.soc.interconnect.csr import AutoCSR

from ..fhdl2c import Design
from ..kernel import Kernel, Violation, CSRTop, CSRMaster
from ..video import gen_timing, scan
from .. import runner, chainstat

P = 10000


class Chain(Module, AutoCSR):
    """wired as in HDMIIn"""
    def __init__(self, nbits=None):
        self.submodules.syncpol = s = SyncPolarity()
        self.submodules.resdetection = r = ResolutionDetection(nbits) if nbits else ResolutionDetection()
        self.comb += [r.valid_i.eq(s.valid_o), r.de.eq(s.de), r.vsync.eq(s.vsync)]


class Check:
    PROP = "C06"
    RUNS = {"quick": 3000, "thorough": 150000}
    CHUNK = 12
    MIN_RUNS = 60
    RULE = ("one run = a sequence of video modes (frames of random timing and polarity) with losses of the input and resets at "
            "random characters, and a CPU reading the resolution registers; non-trivial when >= 1 complete "
            "frame was measured and read back")
    STATE_MEASURE = "hash of (polarities, measured resolution, validity)"
    REAL = ["litevideo.input.analysis.SyncPolarity", "litevideo.input.analysis.ResolutionDetection", "litex CSR bank"]
    STUB = ["decoded lanes (video timing generator of the harness)", "CPU on the CSR bus"]
    ASSUMPTIONS = ["both syncs are inactive in the first character after each active line (true for all CEA/VESA timings)",
                   "registers are compared when stable for 8 system clocks (multi-bit synchronisers)"]
    FAULTS = ("input-loss", "reset", "mode-change", "metastable-sample", "late-lane", "dead-lane")
    PROBES = ("frame-measured", "max-hres", "max-vres", "neg-hsync", "neg-vsync", "csr-checked", "csr-invalid-checked", "one-line-frame", "one-pixel-line", "chain-status-set", "chain-no-input")

    def configs(self, tier):
        return [{"dut": "chain"}, {"dut": "chain", "nbits": 12}, {"dut": "chain", "nbits": 5}]

    def build(self, cfg):
        def b():
            m = CSRTop(Chain(cfg.get("nbits")))
            s = m.dut.syncpol
            keep = [s.valid_i, s.valid_o, s.de, s.hsync, s.vsync, s.r, s.g, s.b, s.c0, s.c1, s.c2] + m.keep
            for i in range(3):
                keep += getattr(s, "data_in%d" % i).flatten()
            return m, Design(m, keep=keep)
        return runner.design("C06-%s" % cfg.get("nbits"), b)

    def gen(self, rng, tier, i):
        if i % 30 == 17:
            return chainstat.gen(rng)
        ops = []
        for _ in range(rng.randrange(1, 5)):
            ops.append(["mode"] + gen_timing(rng, wide=True) + [rng.choice([1, 2, 2, 3])])
            if rng.random() < .35:
                ops.append(["loss", rng.randrange(4000), rng.choice([1, 3, 20, 300])])
            if rng.random() < .12:
                ops.append(["reset", rng.randrange(3000), rng.randrange(1, 4)])
        return {"cfg": self.configs(tier)[0 if i % 6 else 1 + i // 6 % 2], "ops": ops, "reads": rng.randrange(2, 8), "psys": rng.choice([7000, 10000, 16000]) + rng.choice([0, rng.randrange(60)])}

    def execute(self, plan, res):
        if plan.get("chain"):
            return chainstat.execute(plan, res, {"resolution"})
        m, d = self.build(plan["cfg"])
        rng = random.Random(plan["seed"])
        k = Kernel(d, plan["seed"], metaw=1200)
        k.clock("pix", P)
        k.clock("pix_o", P)
        ps = plan["psys"]
        k.clock("sys", ps, phase=rng.randrange(ps) + 1)
        mv = d.mv
        s = m.dut.syncpol
        ins = [getattr(s, "data_in%d" % i) for i in range(3)]
        wi = [tuple(d.widx(getattr(x, f)) for f in ("raw", "d", "c", "de")) for x in ins]
        wv = d.widx(s.valid_i)
        ro = [d.ridx(x) for x in (s.valid_o, s.de, s.hsync, s.vsync, s.r, s.g, s.b, s.c0, s.c1, s.c2)]
        # ---- stream: (de, c_wire, logical hs, vs, mode)
        stream = []
        loss, rst = [], []
        for mi, op in enumerate(plan["ops"]):
            if op[0] == "mode":
                t = op[1:11]
                if stream:
                    res.fault("mode-change")
                if t[0] >= 2046:
                    res.probe("max-hres")
                if t[4] >= 2046:
                    res.probe("max-vres")
                res.probe("one-line-frame", int(t[4] == 1))
                res.probe("one-pixel-line", int(t[0] == 1))
                res.probe("neg-hsync", int(not t[8]))
                res.probe("neg-vsync", int(not t[9]))
                f = scan(t)
                h, v = 1 - t[8], 1 - t[9]
                fr = [(de, (hs ^ h) | (vs ^ v) << 1, hs, vs, mi) for de, hs, vs in f]
                # a mode starts anywhere in its frame
                off = rng.randrange(len(fr)) if rng.random() < .5 else 0
                stream += (fr * (op[11] + 2))[off:]
            elif op[0] == "loss":
                at = max(0, len(stream) - op[1])
                loss.append((at, at + op[2]))
                res.fault("input-loss")
            else:
                at = max(0, len(stream) - op[1])
                rst.append((at, at + op[2]))
                res.fault("reset")
        if len(stream) > 60000:
            stream = stream[:60000]
        N = len(stream)
        vin = bytearray([1]) * N
        for a, b in loss:
            for j in range(a, min(b, N)):
                vin[j] = 0
        rin = bytearray(N)
        for a, b in rst:
            for j in range(a, min(b, N)):
                rin[j] = 1
        data = [rng.getrandbits(54) for _ in range(64)]
        rstw = d.widx(d.cds["pix"].rst)
        rsto = d.widx(d.cds["pix_o"].rst) if d.has(d.cds["pix_o"].rst) and d.is_input(d.cds["pix_o"].rst) else None
        st = {"i": 0, "c": 0}
        rec = []
        cheld = []
        (w00, w01, w02, w03), (w10, w11, w12, w13), (w20, w21, w22, w23) = wi
        r0, r1, r2, r3, r4, r5, r6, r7, r8, r9 = ro

        def hook():
            rec.append((mv[r0], mv[r1], mv[r2], mv[r3], mv[r4], mv[r5], mv[r6], mv[r7], mv[r8], mv[r9]))
            i = st["i"]
            if i < N:
                de, c = stream[i][0], stream[i][1]
                x = data[(i * 7 + i // 64) & 63]
                mv[w01], mv[w11], mv[w21] = x & 255, x >> 8 & 255, x >> 16 & 255
                mv[w00], mv[w10], mv[w20] = x >> 24 & 1023, x >> 34 & 1023, x >> 44
                if not de:
                    st["c"] = c
                mv[w02] = st["c"]
                mv[w03] = mv[w13] = mv[w23] = de
                mv[wv] = vin[i]
                mv[rstw] = rin[i]
                if rsto is not None:
                    mv[rsto] = rin[i]
                st["i"] = i + 1
        k.hook("pix", hook)
        # CPU
        csr = CSRMaster(k, m)
        obs = []

        def cpu():
            while True:
                t0 = k.now
                h = yield from csr.read("resdetection_hres")
                v = yield from csr.read("resdetection_vres")
                obs.append((t0, k.now, h, v))
                for _ in range(gap):
                    yield
        total = N * P
        gap = max(10, total // ps // (plan["reads"] * 12))
        k.thread("sys", cpu())
        k.run(P * (N + 4))
        res.cfg = "chain"
        res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
        res.fault("metastable-sample", mv[d.C_METAN])
        res.log(rec[-200:], obs)
        # ---- syncs, de, pixels: one constant latency
        known = 0
        tainted = True      # polarity not learnt since reset or mode change
        expn = [None] * N
        prev = None
        for i in range(N):
            de, c, hs, vs, mi = stream[i]
            if rin[i]:
                tainted = True
            if prev is not None and prev[4] != mi:
                # the levels learnt in the previous mode may not apply
                po, pn = plan["ops"][prev[4]], plan["ops"][mi]
                if po[9:11] != pn[9:11] or de:
                    tainted = True
                if de and not prev[0]:
                    pass
            if prev is not None and prev[0] and not de and not rin[i] and not rin[i - 1]:
                tainted = not (hs == 0 and vs == 0)
            expn[i] = None if tainted else (hs, vs)
            prev = stream[i]
        best = None
        for L in range(1, 5):
            bad = None
            for i in range(1, N - 6):
                if rin[i] or rin[i - 1] or any(rin[i:i + L + 1]):
                    continue
                o = rec[i + L] if i + L < len(rec) else None
                if o is None:
                    break
                x = data[(i * 7 + i // 64) & 63]
                if o[0] != vin[i]:
                    bad = (i, "valid", o)
                    break
                if o[1] != stream[i][0]:
                    bad = (i, "de", o)
                    break
                if (o[6], o[5], o[4]) != (x & 255, x >> 8 & 255, x >> 16 & 255):
                    bad = (i, "pixel", o)
                    break
                if o[7:10] != (x >> 24 & 1023, x >> 34 & 1023, x >> 44):
                    bad = (i, "raw", o)
                    break
                e = expn[i]
                if e is not None and not stream[i][0] and (o[2], o[3]) != e:
                    bad = (i, "sync", o)
                    break
                # while data enable is high the syncs are inactive
                if e is not None and stream[i][0] and (o[2] or o[3]) and expn[i - 1] is not None:
                    bad = (i, "sync-in-active", o)
                    break
            if bad is None:
                break
            if best is None or bad[0] > best[0]:
                best = bad
        if bad is not None:
            i, what, o = best
            raise Violation(what, "character %d (de=%d hsync=%d vsync=%d, mode %r) came out as valid=%d de=%d hsync=%d vsync=%d rgb=%02x%02x%02x" % (
                (i,) + (stream[i][0], stream[i][2], stream[i][3], plan["ops"][stream[i][4]][1:11]) + o[:7]))
        # ---- resolution registers
        self.judge_res(plan, stream, vin, rin, expn, obs, ps, res, N)

    def judge_res(self, plan, stream, vin, rin, expn, obs, ps, res, N):
        mask = (1 << (plan["cfg"].get("nbits") or 11)) - 1
        # timeline of expected register values: list of (first index, hres or None, vres or None)
        tl = []
        h = v = 0
        run = 0
        runok = False
        lines = 0
        frame_ok = False
        pvs = None
        pde = 0
        for i in range(N):
            de = stream[i][0]
            vs = None if expn[i] is None else expn[i][1]
            oh, ov = h, v
            newmode = i and stream[i][4] != stream[i - 1][4]
            if rin[i]:
                h = v = 0
                run, runok, frame_ok, pvs = 0, False, False, None
                if de:
                    runok = False
            elif not vin[i]:
                h = v = 0
                runok = frame_ok = False
            else:
                if newmode:
                    frame_ok = False
                    runok = runok and not de
                if de:
                    if not pde or (i and (rin[i - 1])):
                        run, runok = 0, not (i and (rin[i - 1] or newmode and pde))
                    elif not vin[i - 1] or newmode:
                        runok = False
                    run += 1
                elif pde:
                    h = run if runok else None
                    lines += 1
                if vs is None:
                    frame_ok = False
                    v = None if v is not None and not (v == 0) else v
                    v = None
                elif vs and pvs == 0:
                    if frame_ok:
                        v = lines
                        res.probe("frame-measured")
                    else:
                        v = None
                    frame_ok = True
                    lines = 0
                elif vs and pvs is None:
                    v = None
                if h == 0 and not (i and vin[i - 1]):
                    pass
            pvs = vs if not rin[i] else None
            pde = de
            if (oh, ov) != (h, v) or i == 0:
                tl.append((i, h, v))
        n = 0
        slack = 10 * ps + 6 * P
        for t0, t1, hv, vv in obs:
            a = t0 - slack
            if a < 0:
                continue
            ia, ib = a // P - 1, t1 // P + 2
            if ib >= N:
                continue
            # entries in force during [ia, ib]
            cur = None
            many = False
            for j, (i, h, v) in enumerate(tl):
                if i <= ia:
                    cur = (h, v)
                elif i <= ib:
                    many = True
            if many or cur is None:
                continue
            h, v = cur
            if h is not None:
                res.probe("csr-checked" if vin[ib] else "csr-invalid-checked")
                if hv != h & mask:
                    raise Violation("hres", "hres reads %d, the last complete line had %d pixels (0 = invalid input)" % (hv, h))
            if v is not None:
                if v:
                    n += 1
                    res.state(h, v)
                if vv != v & mask:
                    raise Violation("vres", "vres reads %d, the last complete frame had %d lines (0 = invalid input)" % (vv, v))
        res.nontrivial = n > 0


CHECK = Check()
