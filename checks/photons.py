"""Photon arrays: what they hold after any history, and where their flux goes."""
import random

import vlib
import photdrv as W

PID = "P11"


def copy(g, a):
    r = g.rng
    n = g.size[a]
    b = r.choice(g.pas) if r.random() < 0.4 else g.array(fix=0 if r.random() < 0.7 else None)
    if b == a:
        b = g.array()
    m = g.size[b]
    if not n or not m:
        return
    d1, k1 = g.index(n)
    if d1[0] == "slice" and k1 is None:
        k1 = -int(d1[1])
    d2 = None
    for _ in range(40):
        d, k = g.index(m)
        if d[0] == "slice" and k is None:
            k = -int(d[1])
        if k == k1 and (d[0] == "int") == (d1[0] == "int"):
            d2 = d
            break
    if d2 is None:
        k = min(n, m, k1 or 1)
        d1, d2 = ["slice", 0, k, 1], ["slice", m - k, m, 1]
    if r.random() < 0.05:
        d1 = ["int", r.choice([n, -n - 1, n + 3])]
    elif r.random() < 0.05:
        d2 = ["int", r.choice([m, -m - 1])]
    g.ev("copy", a=a, b=b, i1=d1, i2=d2, n=r.choice([["T", "T", "T"]] * 4 + [["T", "F", "T"], ["F", "T", "F"], ["F", "F", "T"], ["T", "T", "F"], ["F", "F", "F"]]),
         mode=mode(g, a))


def mode(g, a, p=0.15):
    return "jit" if g.rng.random() < p else "eager"


def made(g, a):
    """a traced call makes a new array"""
    if g.H[-1]["mode"] == "jit" and g.N not in g.size and g.N not in [i for i, _ in g.ims]:
        g.pas.append(g.N)
        g.size[g.N] = g.size[a]


def gen(rng, k):
    g = W.Gen(rng)
    g.array()
    for _ in range(rng.randint(4, 9)):
        a = rng.choice(g.pas)
        n = g.size[a]
        t = rng.random()
        if t < 0.1:
            g.array()
        elif t < 0.22:
            c = rng.choice(["x", "y", "flux", "flux"] + W.CH)
            bad = rng.random() < 0.06
            g.ev("put", a=a, arr=[[c, g.vals(c, n + 2 if bad else rng.choice([1, n]) if n else 1)]], mode=mode(g, a))
            made(g, a)
        elif t < 0.32:
            g.ev(rng.choice(["scalef", "scalexy", "settot"]), a=a, n=["%.3f" % rng.choice([rng.uniform(-3, 3), rng.uniform(0.1, 4)])], mode=mode(g, a))
            made(g, a)
        elif t < 0.36:
            g.ev("corr", a=a, s=rng.choice("TTF"))
        elif t < 0.4:
            if n:
                g.ev("keep", a=a, n=[rng.randint(1, n)], mode=mode(g, a))
                made(g, a)
        elif t < 0.54:
            copy(g, a)
            made(g, a)
        elif t < 0.58:
            b = g.array(rng.randint(1, max(1, n)), 0)
            g.ev("assign", a=a, b=b, n=[rng.randint(0, max(0, n - g.size[b]) + (1 if rng.random() < 0.2 else 0))])
        elif t < 0.68:
            # same number of photons, all or the same number of them counting
            b = g.array(n, 0) if rng.random() < 0.8 else rng.choice(g.pas)
            if b != a:
                if rng.random() < 0.4 and n:
                    g.ev("corr", a=a, s="T")
                    g.ev("corr", a=b, s="T")
                if rng.random() < 0.4 and n and g.size[b]:
                    k = rng.randint(1, min(n, g.size[b]))
                    g.ev("keep", a=a, n=[k])
                    g.ev("keep", a=b, n=[k])
                g.ev("conv", a=a, b=b, n=[rng.randint(1, 999)], mode=mode(g, a))
                made(g, a)
                g.ev("see", a=b)
        elif t < 0.82:
            im = rng.choice(g.ims)[0] if g.ims and rng.random() < 0.5 else g.image()
            dt = [d for i, d in g.ims if i == im][0]
            if dt != "u2" or rng.random() < 0.0:
                m = mode(g, a)
                g.ev("addto", a=im, b=a, s=rng.choice(["addto", "sensor"]), mode=m)
                if m == "jit":
                    g.ims.append((g.N, dt))
                if rng.random() < 0.3:
                    g.ev("see", a=a)
        elif t < 0.9:
            im = g.image(make=True) if rng.random() < 0.6 or not g.ims else rng.choice(g.ims)[0]
            if [d for i, d in g.ims if i == im][0] not in ("c8", "c16"):
                mx = rng.choice(["1.0", "2.0", "0.7", "%.2f" % rng.uniform(0.6, 5), "100.0", "0.0" if rng.random() < 0.3 else "3.0"])
                s = str(rng.randint(1, 99))
                p = g.ev("make", a=im, n=[mx], s=s)
                if rng.random() < 0.5:
                    g.ev("make", a=im, n=[mx], s=rng.choice([s, s, "7"]))
                if rng.random() < 0.6:
                    # back onto an image of the same pixels
                    w = g.ev("see", a=p)
        elif t < 0.97:
            s = g.ev("same", a=a, s=rng.choice(["file", "file", "tree", "jit", "repr", "copy", "deep"]))
            g.pas.append(s)
            g.size[s] = n
            if rng.random() < 0.4:
                g.ev("scalef", a=s, n=["2.5"])
                g.ev("put", a=s, arr=[["x", ["3.25"]]])
                g.ev("see", a=a)
        else:
            g.ev("eq", a=a, b=rng.choice(g.pas), s=rng.choice(["", "", "T"]))
    a = rng.choice(g.pas)
    g.ev("see", a=a)
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("PhotonMC", "PhotonMC.cfg" if quick else "PhotonMC4.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 11)
    c.conform("PhotonTrace", W.run, [gen(rng, k) for k in range(130 if quick else 5000)])


if __name__ == "__main__":
    vlib.main(PID, check)
