"""Reference TMDS coding, written from DVI 1.0 (section 3.3.3) and HDMI 1.3 TERC4 tables."""

CONTROL = (0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011)
CONTROL_INV = {t: i for i, t in enumerate(CONTROL)}
TERC4 = (0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110,
         0b0110001110, 0b0100111100, 0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110,
         0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011)
VIDEO_GB = (0b1011001100, 0b0100110011, 0b1011001100)
DATA_GB = 0b0100110011     # channels 1 and 2


def ones(v):
    return bin(v).count("1")


def q_m(d):
    n1 = ones(d)
    xnor = n1 > 4 or (n1 == 4 and not d & 1)
    q = d & 1
    for i in range(1, 8):
        b = (q >> (i - 1) & 1) ^ (d >> i & 1) ^ (1 if xnor else 0)
        q |= b << i
    return q | (0 if xnor else 1) << 8


QM = [q_m(d) for d in range(256)]


class Encoder:
    def __init__(self):
        self.cnt = 0

    def control(self, c):
        self.cnt = 0
        return CONTROL[c]

    def data(self, d):
        q = QM[d]
        lo, f = q & 255, q >> 8
        n1 = ones(lo)
        n0 = 8 - n1
        if self.cnt == 0 or n1 == n0:
            w = (1 - f) << 9 | f << 8 | (lo if f else lo ^ 255)
            self.cnt += (n1 - n0) if f else (n0 - n1)
        elif (self.cnt > 0 and n1 > n0) or (self.cnt < 0 and n0 > n1):
            w = 1 << 9 | f << 8 | (lo ^ 255)
            self.cnt += 2 * f + n0 - n1
        else:
            w = f << 8 | lo
            self.cnt += -2 * (1 - f) + n1 - n0
        return w

    def word(self, de, c, d):
        return self.data(d) if de else self.control(c)


def decode_data(w):
    lo = w & 255
    if w >> 9 & 1:
        lo ^= 255
    d = lo & 1
    for i in range(1, 8):
        b = (lo >> i & 1) ^ (lo >> (i - 1) & 1)
        if not w >> 8 & 1:
            b ^= 1
        d |= b << i
    return d


def transitions9(w):
    return sum((w >> i & 1) != (w >> (i + 1) & 1) for i in range(8))


def is_wer_error(w):
    return transitions9(w) > 4 and (w & 511) not in CONTROL_LOW9


CONTROL_LOW9 = frozenset(t & 511 for t in CONTROL)
assert all(decode_data(Encoder().data(d)) == d for d in range(256))
