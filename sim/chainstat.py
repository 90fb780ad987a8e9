"""Status of the assembled receive chain while lanes come, go and come back: what the status registers of HDMIIn may say.
Used by C03 (character sync), C04 (channel sync) and C06 (resolution) for a share of their runs."""
import random

from .kernel import Kernel, Violation, CSRMaster
from . import hdmiin, runner, tmds

RUN = 8            # consecutive control words needed at least
NEED = 12          # that must be enough
KINDS = ("zeros", "ones", "pixels", "noise", "short", "short")
REGS = ["chansync_channels_synced", "data0_charsync_char_synced", "data1_charsync_char_synced", "data2_charsync_char_synced", "resdetection_hres", "resdetection_vres"]


def design(hdmi):
    def b():
        return hdmiin.word_chain(bool(hdmi))
    return runner.design("chainstat-%d" % hdmi, b)


def gen(rng):
    from .checks.c01 import gen_mode
    hdmi = rng.getrandbits(1)
    t = gen_mode(rng, 1, False, hdmi, 1200)
    per = sum(t[:4]) * sum(t[4:8])
    n = rng.randrange(3, 7)
    # each lane starts at its own time; one may die for a while
    late = rng.randrange(4)
    start = [rng.choice([0, 0, rng.randrange(60)]) if l != late else rng.randrange(n * per * 2 // 3) for l in range(3)]
    dead = []
    if rng.random() < .6:
        a = rng.randrange(n * per // 4, n * per)
        dead = [rng.randrange(3), a, rng.choice([2, 200, 2 * sum(t[:4]) + rng.randrange(per), 2 * per]), rng.choice(["zeros", "ones", "pixels"])]
    return {"chain": 1, "cfg": {"hdmi": hdmi}, "t": t, "n": n, "start": start, "kind": [rng.choice(KINDS) for _ in range(3)], "dead": dead,
            "phase": [rng.randrange(10) for _ in range(3)], "skew": [rng.randrange(4) for _ in range(3)],
            "pp": rng.choice([6734, 13468, 10000]), "ps": rng.choice([7000, 10000, 12500])}


def filler(kind, r):
    if kind == "zeros":
        return 0
    if kind == "ones":
        return 0x3ff
    if kind == "noise":
        return r.getrandbits(10)
    return tmds.Encoder().data(r.getrandbits(8))


def execute(plan, res, want):
    from .checks.c01 import Link
    m, d = design(plan["cfg"]["hdmi"])
    rng = random.Random(plan["seed"])
    k = Kernel(d, plan["seed"], metaw=1200)
    pp, ps = plan["pp"], plan["ps"]
    k.clock("pix", pp, phase=rng.randrange(pp) + 1)
    k.clock("sys", ps, phase=rng.randrange(ps) + 1)
    mv = d.mv
    link = Link(rng, res)
    t = plan["t"]
    for _ in range(plan["n"]):
        r = random.Random(rng.getrandbits(30))
        link.frame(t, lambda x, y: (r.getrandbits(8), r.getrandbits(8), r.getrandbits(8)), plan["cfg"]["hdmi"], 0)
    N = len(link.tx[0])
    line = sum(t[:4])
    raw, ctl8, ctl12 = [], [], []
    for l in range(3):
        w = list(link.tx[l])
        s = plan["start"][l]
        n = min(s, N)
        for j in range(n):
            w[j] = filler(plan["kind"][l], rng)
        if plan["kind"][l] == "short":
            # runs of control words, none long enough
            q = 0
            while q < n - 1:
                q += rng.randrange(1, 12)
                for j in range(q, min(n - 1, q + rng.randrange(1, RUN - 1))):
                    w[j] = tmds.CONTROL[rng.getrandbits(2)]
                q += RUN
        if s:
            res.fault("late-lane")
        if plan["dead"] and plan["dead"][0] == l:
            _, a, n, kd = plan["dead"]
            res.fault("dead-lane")
            for j in range(a, min(N, a + n)):
                w[j] = filler(kd, rng)
        # when the lane has had a run of control words at its true phase
        run = 0
        a = b = None
        for j in range(N):
            run = run + 1 if w[j] in tmds.CONTROL else 0
            if run == RUN and a is None:
                a = j
            if run == NEED and b is None:
                b = j
        ctl8.append(N if a is None else a)
        ctl12.append(N if b is None else b)
        sh = hdmiin.LaneShift(plan["phase"][l] + 10 * plan["skew"][l])
        raw.append([sh.push(x) for x in w + [tmds.CONTROL[0]] * 8])
    wi = [d.widx(getattr(m.hdmi, "data%d_cap" % l).d) for l in range(3)]
    st = {"i": 0}
    times = []

    def pix():
        i = st["i"]
        times.append(k.now)
        if i < N:
            mv[wi[0]], mv[wi[1]], mv[wi[2]] = raw[0][i], raw[1][i], raw[2][i]
        st["i"] = i + 1
    k.hook("pix", pix)
    d.set(m.hdmi.clocking.locked, 1)
    csr = CSRMaster(k, m)
    obs = []
    focus = {"char-sync": "data", "channel-sync": "chansync", "resolution": "res"}[min(want)]

    def cpu():
        while st["i"] < N:
            # mostly the register the check is about
            for r in rng.sample(REGS, 3) + [x for x in REGS if x.startswith(focus)] * 4:
                i0 = st["i"]
                v = yield from csr.read(r)
                obs.append((r, i0, st["i"], v))
            for _ in range(rng.choice([0, 0, rng.randrange(40)])):
                yield
    k.thread("sys", cpu())
    k.run(k.now + (N + 4) * pp)
    res.cfg = "chain-%d" % plan["cfg"]["hdmi"]
    res.sim_ps, res.edges = k.now, mv[d.C_EDGES]
    res.fault("metastable-sample", mv[d.C_METAN])
    res.log(obs)
    sync = 4 * ps // pp + 8
    # channel sync is impossible before every lane had its control run, and while a lane shows no control words although the others do
    first = max(ctl8)
    never = [(0, first)]
    if plan["dead"]:
        _, a, n, _ = plan["dead"]
        e = min(a + n, N)
        # the others' next control period starts within a line (in vertical blanking they are in one already)
        if e - a > line + 40:
            never.append((a + line + 40, e))
    for r, i0, i1, v in obs:
        if "charsync" in r:
            l = int(r[4])
            if v and i1 < ctl8[l] and "char-sync" in want:
                raise Violation("char-sync", "lane %d reports character sync at word %d; it carries no %d control words in a row before word %d" % (l, i1, RUN, ctl8[l]))
            if not v and i0 > ctl12[l] + max(plan["skew"]) + sync + 8 and "char-sync" in want:
                raise Violation("char-sync", "lane %d reports no character sync at word %d although %d control words in a row ended at word %d" % (l, i0, NEED, ctl12[l]))
            res.probe("chain-char-sync")
            continue
        off = any(a + sync + 8 <= i0 and i1 < b for a, b in never) or i1 < first
        if off and v:
            if r == "chansync_channels_synced":
                if "channel-sync" in want:
                    raise Violation("channel-sync", "channel sync is reported at word %d of a link whose lanes %s" % (
                        i1, "have not all shown control words yet (lane %d does from word %d)" % (ctl8.index(first), first) if i1 < first else "disagree since word %d (lane %d is dead)" % (never[-1][0], plan["dead"][0])))
            elif "resolution" in want:
                raise Violation("resolution", "%s reads %d at word %d although the receiver has no valid input there" % (r, v, i1))
        if off:
            res.probe("chain-no-input")
        elif v:
            res.probe("chain-status-set")
    res.state("chain", tuple(plan["kind"]), bool(plan["dead"]), tuple(x > 0 for x in plan["start"]))
    res.nontrivial = len(obs) > 20
