"""Video timings used by the input-side harnesses."""


def gen_timing(rng, wide=False, mult=1, maxpix=6000):
    """[hres, hfp, hsync, hbp, vres, vfp, vsync, vbp, hpol, vpol]; pol 1 = active high"""
    while True:
        h = rng.choice([mult * rng.randrange(1, 9), mult * rng.randrange(4, 40)])
        v = rng.choice([rng.randrange(1, 5), rng.randrange(2, 16)])
        t = [h, rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 12), v, rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 5),
             rng.getrandbits(1), rng.getrandbits(1)]
        if wide and rng.random() < .15:
            if rng.random() < .5:
                t[0] = rng.choice([1023, 1024, 1920, 2046, 2047])
                t[4] = rng.randrange(1, 3)
            else:
                t[4] = rng.choice([1023, 1024, 1080, 2046, 2047])
                t[0] = rng.randrange(1, 3)
                t[1:4] = [1, 1, 1]
            return t
        if (sum(t[:4])) * (sum(t[4:8])) <= maxpix:
            return t


def scan(t):
    """One frame as (de, hs, vs) logical (active-high) in scan order; starts with the first active line."""
    hres, hfp, hsw, hbp, vres, vfp, vsw, vbp = t[:8]
    ht, vt = hres + hfp + hsw + hbp, vres + vfp + vsw + vbp
    out = []
    for y in range(vt):
        for x in range(ht):
            de = x < hres and y < vres
            hs = hres + hfp <= x < hres + hfp + hsw
            # vsync changes together with the hsync start
            yy = y if x >= hres + hfp else y - 1
            vs = vres + vfp - 1 <= yy < vres + vfp + vsw - 1
            out.append((int(de), int(hs), int(vs)))
    return out
