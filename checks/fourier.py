"""Wrapping and image Fourier transforms: replay histories on real images."""
import random

import vlib
import ftdrv as W

PID = "P04"


class G:
    def __init__(g, rng):
        g.r, g.H, g.ims = rng, [], []

    def ev(g, op, a=0, s="", t=(), mode="", re=(), im=(), c=""):
        g.H.append(dict(op=op, a=a, s=s, t=list(t), mode=mode, re=list(re), im=list(im), c=c))

    def image(g, b, dt, sc):
        r = g.r
        n = (b[1] - b[0] + 1) * (b[3] - b[2] + 1) if b else 0
        v = lambda: repr(float(r.randint(0, 60))) if dt == "u2" else repr(float(r.randint(-60, 60))) if dt[0] == "i" else repr(r.randint(-800, 800) / 8)
        g.ev("im", s=dt, t=b, re=[v() for _ in range(n)], im=[v() if dt[0] == "c" else "0.0" for _ in range(n)], c=sc)
        g.ims.append([b, dt, sc])
        return len(g.ims)


def rect(r, w, o):
    x, y = r.randint(-o, o), r.randint(-o, o)
    return [x, x + r.randint(1, w) - 1, y, y + r.randint(1, w) - 1]


def inner(r, b):
    x = sorted([r.randint(b[0], b[1]), r.randint(b[0], b[1])])
    y = sorted([r.randint(b[2], b[3]), r.randint(b[2], b[3])])
    return x + y


def scale(r):
    return r.choice(["0.5", "1.0", "0.2", "2.0", repr(round(r.uniform(0.05, 3), 3))])


def gen(r, k):
    g = G(r)
    for _ in range(r.choice([2, 3, 4])):
        t = r.random()
        if t < 0.36:
            big = r.random() < 0.25
            b = rect(r, 20 if big else 9, 30 if r.random() < 0.2 else 6)
            a = g.image(b, r.choice(["f8", "f8", "f4", "i4", "i2", "u2", "c16", "c8"]), r.choice(["", "0.5", "J"]))
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.12:
                    q = inner(r, b)
                    q[r.randrange(4)] += r.choice([-12, 12, -1, 1, 9])
                    if q[0] <= q[1] and q[2] <= q[3]:
                        g.ev("wrap", a=a, t=q)
                        g.ev("see", a=a)
                elif x < 0.16:
                    g.ev("badb", a=a, s=r.choice("dtn"))
                    g.ev("see", a=a)
                elif x < 0.2:
                    g.ev("wrap", a=a, s=r.choice(["xy", "X", "both"]), t=inner(r, b))
                    g.ev("see", a=a)
                else:
                    tt = [b[0], b[0] + r.choice([0, 0, 1]), b[2], b[2]] if big and r.random() < 0.5 else inner(r, b)
                    tt = [tt[0], min(tt[1], b[1])] + tt[2:]
                    jit = r.random() < 0.2
                    g.ev("wrap", a=a, t=tt, mode="jit" if jit else "")
                    g.ev("see", a=a)
                    if jit:
                        g.ims.append([b, "", ""])
        elif t < 0.62:
            # half-plane images
            ax = r.choice("xy")
            m, n = r.randint(1, 9), r.randint(0, 7)
            off = r.random() < 0.08
            b = [1 if off else 0, m, -n, n]
            q = r.random()
            i, j = sorted([r.randint(-n, n), r.randint(-n, n)])
            tt = [b[0], r.randint(1, m), i, j]
            if q < 0.4 and n > 0:
                p = r.randint(1, n)
                tt[2:] = [-p + 1, p] if r.random() < 0.5 else [-p, p - 1]
            if r.random() < 0.06:
                tt[0] = 1
            if ax == "y":
                b, tt = b[2:] + b[:2], tt[2:] + tt[:2]
            a = g.image(b, r.choice(["c16", "c16", "c8", "f8"]), "")
            jit = r.random() < 0.15 and not off
            g.ev("wrap", a=a, s=ax, t=tt, mode="jit" if jit else "")
            g.ev("see", a=a)
            if jit:
                g.ims.append([b, "", ""])
        elif t < 0.8:
            n = r.randint(1, 5)
            b = [-n, n - 1, -n, n - 1] if r.random() < 0.35 else rect(r, 7, 4)
            dt = r.choice(["f8", "f8", "f8", "f4", "i4", "i2", "u2"])
            if r.random() < 0.05:
                dt = "c16"
            sc = r.choice([scale(r)] * 12 + ["", "J"])
            if r.random() < 0.03:
                b = []
            a = g.image(b, dt, sc)
            g.ev("fft", a=a, mode="jit" if r.random() < 0.2 and b else "")
            ok = b and dt != "c16" and sc not in ("", "J")
            g.ev("see", a=a)
            if ok:
                g.ims.append([None, "c16", ""])
                f = len(g.ims)
                g.ev("ifft", a=f)
                g.ims.append([None, "f8", ""])
                if r.random() < 0.3:
                    g.ev("fft", a=len(g.ims))
                    g.ims.append([None, "c16", ""])
        else:
            n = r.randint(1, 4)
            x = r.random()
            b = [0, n, -n, n - 1] if x < 0.35 else [0, n, -n, n] if x < 0.5 else [r.choice([0, 0, -1, -3]), r.randint(0, 4), r.randint(-4, 0), r.randint(0, 4)]
            if r.random() < 0.05:
                b = [1, 4, 2, 5]
            sc = r.choice([scale(r)] * 12 + ["", "J"])
            a = g.image(b, r.choice(["c16", "c16", "c8", "f8"]), sc)
            if max(b[1], -b[2], b[3]) > 0:
                g.ev("ifft", a=a, mode="jit" if r.random() < 0.2 else "")
                if sc not in ("", "J") and b[0] <= 0 and b[2] <= 0 <= b[3]:
                    g.ims.append([None, "f8", ""])
                    g.ev("fft", a=len(g.ims))
                    g.ims.append([None, "c16", ""])
            g.ev("see", a=a)
    return g.H


def sizes(r, quick):
    out, xs = [], [str(i) for i in range(1, 700 if quick else 6000)]
    xs += [str(r.randint(1, 10**6)) for _ in range(300)] + [repr(r.randint(5, 40000) / 4 + 0.125) for _ in range(300)]
    for p in range(1, 21):
        xs += [str(2**p + d) for d in (-1, 0, 1) if 2**p + d > 0] + [str(3 * 2 ** (p - 1) + d) for d in (-1, 0, 1)]
    for i in range(0, len(xs), 100):
        g = G(r)
        g.ev("size", re=xs[i : i + 100])
        out.append(g.H)
    return out


def check(c):
    quick = c.tier == "quick"
    c.model_check("FourierMC", "FourierMC.cfg" if quick else "FourierMC2.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 4)
    c.conform("FourierTrace", W.run, sizes(rng, quick) + [gen(rng, k) for k in range(260 if quick else 6000)])


if __name__ == "__main__":
    vlib.main(PID, check)
