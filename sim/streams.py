"""Stream endpoint agents: a producer that may stall at any cycle (driving garbage while idle)
and a consumer that may withhold ready at any cycle, both driven by a plan."""
import random

from .kernel import Violation

FLAGS = ("valid", "ready", "first", "last")


def ep_signals(ep):
    return [s for s in ep.flatten()]


def payload_fields(ep):
    return [(name, getattr(ep.payload, name)) for name, *_ in ep.payload.layout]


class Sched:
    """A piecewise schedule: list of [mode, length, p]; after the list: always on."""
    def __init__(self, segs, rng):
        self.rng = rng
        self.segs = [list(s) for s in segs]
        self.i = 0
        self.left = self.segs[0][1] if self.segs else 0
        self.k = 0

    def __call__(self):
        if self.i >= len(self.segs):
            return 1
        if self.left <= 0:
            self.i += 1
            self.k = 0
            if self.i >= len(self.segs):
                return 1
            self.left = self.segs[self.i][1]
            return self()
        self.left -= 1
        self.k += 1
        m, n, p = self.segs[self.i]
        if m == "on":
            return 1
        if m == "off":
            return 0
        if m == "rand":
            return 1 if self.rng.random() < p else 0
        if m == "alt":
            return self.k & 1
        if m == "every":
            return 1 if self.k % max(1, int(p)) == 0 else 0
        raise ValueError(m)


def gen_sched(rng, total, faulty=True):
    segs = []
    if not faulty:
        return segs
    left = total
    while left > 0:
        n = rng.choice([1, 2, 3, 5, 8, 16, 30, 60])
        n = min(n, left)
        k = rng.random()
        if k < .25:
            segs.append(["on", n, 1])
        elif k < .40:
            segs.append(["off", min(n, 20), 0])
        elif k < .75:
            segs.append(["rand", n, round(rng.choice([.05, .2, .5, .8, .95]), 2)])
        elif k < .87:
            segs.append(["alt", n, 0])
        else:
            segs.append(["every", n, rng.choice([2, 3, 4, 5])])
        left -= n
    return segs


class Producer:
    def __init__(self, k, domain, ep, tokens, sched, rng, garbage=True):
        """tokens: list of (dict payload, first, last)"""
        d = k.d
        self.mv = d.mv
        self.k = k
        self.tokens = tokens
        self.sched = sched
        self.rng = rng
        self.garbage = garbage
        self.pos = 0
        self.stalls = 0
        self.backpressured = 0
        self.valid_w = d.widx(ep.valid)
        self.first_w = d.widx(ep.first) if d.is_input(ep.first) else None
        self.last_w = d.widx(ep.last) if d.is_input(ep.last) else None
        self.ready_r = d.ridx(ep.ready)
        self.f = [(n, d.widx(s), (1 << s.nbits) - 1) for n, s in payload_fields(ep)]
        self.presenting = False
        self.accepted_at = []
        self.h = k.hook(domain, self.step)
        self.cycle = 0
        self._idle()

    def _idle(self):
        mv = self.mv
        mv[self.valid_w] = 0
        r = self.rng
        if self.garbage:
            for n, w, m in self.f:
                mv[w] = r.getrandbits(64) & m
            # qualifiers are meaningless while valid is low
            if self.first_w is not None:
                mv[self.first_w] = r.getrandbits(1)
            if self.last_w is not None:
                mv[self.last_w] = r.getrandbits(1)

    def step(self):
        mv = self.mv
        self.cycle += 1
        if self.presenting:
            if mv[self.ready_r]:
                self.accepted_at.append(self.cycle)
                self.pos += 1
                self.presenting = False
            else:
                self.backpressured += 1
                return
        if self.pos < len(self.tokens) and self.sched():
            p, f, l = self.tokens[self.pos]
            for n, w, m in self.f:
                mv[w] = p[n]
            if self.first_w is not None:
                mv[self.first_w] = f
            if self.last_w is not None:
                mv[self.last_w] = l
            mv[self.valid_w] = 1
            self.presenting = True
        else:
            if self.pos < len(self.tokens):
                self.stalls += 1
            self._idle()


class Consumer:
    def __init__(self, k, domain, ep, sched, flags=True, on_token=None, stable=True):
        d = k.d
        self.mv = d.mv
        self.k = k
        self.sched = sched
        self.got = []
        self.valid_r = d.ridx(ep.valid)
        self.ready_w = d.widx(ep.ready) if d.is_input(ep.ready) else None
        self.first_r = d.ridx(ep.first)
        self.last_r = d.ridx(ep.last)
        self.f = [(n, d.ridx(s)) for n, s in payload_fields(ep)]
        self.ready = 0
        self.held = None
        self.withheld = 0
        self.on_token = on_token
        self.stable = stable
        self.cycle = 0
        if self.ready_w is not None:
            self.mv[self.ready_w] = 0
        self.h = k.hook(domain, self.step)

    def step(self):
        mv = self.mv
        self.cycle += 1
        if mv[self.valid_r]:
            tok = tuple(mv[i] for n, i in self.f) + (mv[self.first_r], mv[self.last_r])
            if self.stable and self.held is not None and self.held != tok:
                raise Violation("unstable-payload", "token %d changed from %r to %r while waiting for ready (t=%d)" % (
                    len(self.got), self.held, tok, self.k.now))
            if self.ready:
                self.got.append(tok)
                self.held = None
                if self.on_token:
                    self.on_token(tok)
            else:
                self.held = tok
                self.withheld += 1
        elif self.held is not None:
            if self.stable:
                raise Violation("valid-retracted", "valid dropped before ready for token %d (t=%d)" % (len(self.got), self.k.now))
        self.ready = self.sched()
        if self.ready_w is not None:
            mv[self.ready_w] = self.ready
