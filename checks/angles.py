"""Angles and shears."""
import random

import vlib
import geodrv as G

PID = "P05"
UNITS = ["radians", "degrees", "hours", "arcmin", "arcsec"]


def theta(g, unit):
    r = g.rng
    big = {"radians": 12, "degrees": 800, "hours": 50, "arcmin": 40000, "arcsec": 3e6}[unit]
    half = {"radians": None, "degrees": "180.0", "hours": "12.0", "arcmin": "10800.0", "arcsec": "648000.0"}[unit]
    x = r.random()
    if x < 0.12 and half:
        return r.choice([half, "-" + half, repr(float(half) * 2), repr(float(half) / 2), repr(-float(half) * 1.5), repr(float(half) * 3)])
    if x < 0.2:
        return "0.0"
    if x < 0.35:
        return repr(r.uniform(-1, 1) * 10 ** r.randint(-9, -2))
    return g.u(-big, big, r.choice([1, 4, 9]))


def ang(g, **kw):
    u = g.rng.choice(UNITS)
    if g.rng.random() < 0.1:
        return g.ev("angc", n=[g.u(-5, 5), g.u(0.01, 3)], c=g.rng.choice(["", "x"]), kind="ang", **kw)
    c = g.rng.choice(["", "", "ctor", "name", "copy", "_Angle"])
    return g.ev("ang", n=[theta(g, u)], s=u, c=c, kind="ang", mode=g.mode(0.05) if c != "copy" else "eager")


def aops(g, m):
    r = g.rng
    for _ in range(m):
        a, b = g.any("ang"), g.any("ang")
        op = r.choice(["aadd", "asub", "aneg", "aabs", "apos", "acopy", "amul", "armul", "adiv", "awrap", "awrap", "awrap", "rt"])
        if op in ("aadd", "asub"):
            g.ev(op, a, b, mode=g.mode(), kind="ang")
        elif op in ("amul", "armul", "adiv"):
            g.ev(op, a, n=[r.choice([g.u(0.1, 4), "-" + g.u(0.1, 4), "2", "-1"])], mode=g.mode(), kind="ang")
        elif op == "awrap":
            g.ev(op, a, r.choice([0, b]), c=r.choice(["", "kw"]), mode=g.mode(), kind="ang")
        elif op == "rt":
            g.ev("rt", a, c=r.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr", "galsim"]), kind="ang")
        else:
            g.ev(op, a, mode=g.mode(), kind="ang")


def sex(g, a):
    r = g.rng
    sep = r.choice(["", "", ":", " ", "dms", "tuple"])
    s1, s2, s3 = {"": (":", ":", ""), ":": (":", ":", ""), " ": (" ", " ", ""), "dms": ("d", "m", "s"), "tuple": ("h:", "m:", "s")}[sep]
    g.ev("sex", a, s=r.choice(["hours", "degrees"]), c=sep,
         n=[r.choice(["none", "none", "0", "1", "3", "6", "11"]), r.choice(["T", "T", "F"]), r.choice(["T", "F", "F"]), "0", "0", "0", s1, s2, s3])


def unsex(g):
    r = g.rng
    d, m = str(r.randint(0, 400)), "%02d" % r.randint(0, 59)
    s = r.choice(["%02d" % r.randint(0, 59), "%.4f" % r.uniform(0, 60), "%.9f" % r.uniform(0, 60), "00.0"])
    neg = r.random() < 0.5
    t = r.choice([[":", ":", ""], [" ", " ", ""], ["d", "m", "s"], ["h ", "m ", "s "], ["deg", "arcmin", "arcsec"]])
    g.ev("unsex", n=["-1" if neg else "1", d, m, s], s=r.choice(["hours", "degrees"]), c=r.choice(["", "+"]), tx=t, kind="ang")


def angles(rng, k):
    g = G.Geo(rng)
    for _ in range(3):
        ang(g)
    if rng.random() < 0.4:
        unsex(g)
    aops(g, rng.randint(2, 6))
    for a in g.rng.sample(g.k["ang"], 3) + [g.N]:
        op = rng.choice(["aread", "aread", "atrig", "sex", "sex", "acmp", "awrap"])
        if op == "aread":
            g.ev(op, a, s=rng.choice(UNITS), mode=g.mode())
        elif op == "atrig":
            g.ev(op, a, mode=g.mode())
        elif op == "sex":
            sex(g, a)
        elif op == "awrap":
            g.ev(op, a, rng.choice([0, g.any("ang")]), mode=g.mode(), kind="ang")
        else:
            # clearly different values, or the same value copied
            b = g.ev("acopy", a, kind="ang") if rng.random() < 0.5 else g.ev("ang", n=[g.u(50, 60)], s="radians", kind="ang")
            g.ev(op, *rng.sample([a, b], 2))
    g.ev("units", s=rng.choice(UNITS), c=rng.choice(UNITS))
    if rng.random() < 0.3:
        g.ev("bad", g.any("ang"), g.any("ang"), c=rng.choice(["aadd1", "asub1", "amula", "adiva", "anoun", "aunit", "aangunit", "alt", "uname", "usep", "uprec", "ustr", "ustr7", "uau"]), s="any", how="py")
    return g.H


def size(g, kind):
    r = g.rng
    if kind in ("g", "e"):
        return r.choice([g.u(0, 0.95), g.u(0, 0.95), repr(10 ** r.uniform(-9, -3)), repr(10 ** r.uniform(-3, -1.5)), "0.0", g.u(0.9, 0.99)])
    if kind == "eta":
        return r.choice([g.u(0, 3), repr(10 ** r.uniform(-9, -3)), repr(10 ** r.uniform(-3, -1.5)), "0.0"])
    return r.choice([g.u(0.05, 1), "1.0", "0.5"])


def shear(g, mode=None):
    import math

    r = g.rng
    s = r.choice(["c", "g", "e", "eta", "gb", "eb", "etab", "qb", "gb", "qb"])
    m = g.mode(0.12) if mode is None else mode
    if r.random() < 0.03:
        return g.ev("shr", s="none", kind="shr")
    if s in ("c", "g", "e", "eta"):
        z = float(size(g, {"c": "g"}.get(s, s)))
        t = r.choice([r.uniform(0, 2 * math.pi), r.randint(0, 7) * math.pi / 4])
        n = [repr(round(z * math.cos(t), 12)), repr(round(z * math.sin(t), 12))]
        return g.ev("shr", n=n, s=s, c=r.choice(["", "_Shear"]) if s == "c" else "", mode=m, kind="shr")
    b = ang(g)
    return g.ev("shr", b=b, n=[size(g, s[:-1])], s=s, mode=m, kind="shr")


def badshear(g):
    r = g.rng
    if r.random() < 0.5:
        b = ang(g)
        s, v = r.choice([("gb", "1.2"), ("gb", "-0.2"), ("eb", "1.01"), ("eb", "-0.1"), ("etab", "-0.3"), ("qb", "1.3"), ("qb", "-0.2"), ("qb", "0.0")])
        g.ev("shr", b=b, n=[v], s=s, how="py")
    elif r.random() < 0.5:
        g.ev("shr", n=["0.8", r.choice(["0.7", "-0.9"])], s=r.choice(["g", "e"]), how="py")
    else:
        g.ev("bad", b=g.any("ang") if "ang" in g.k else ang(g), how="py", s="any",
             c=r.choice(["sreal", "sstr", "stwo", "sg1e1", "sgnob", "sbnog", "sbnum", "sfoo", "sge", "sneg", "sq0", "sargkw"]))


def shears(rng, k):
    g = G.Geo(rng)
    for _ in range(2):
        shear(g)
    for _ in range(rng.randint(2, 6)):
        a, b = g.any("shr"), g.any("shr")
        op = rng.choice(["sadd", "sadd", "ssub", "sneg", "srot", "shr", "rt", "bad"])
        if op in ("sadd", "ssub"):
            g.ev(op, a, b, mode=g.mode(), kind="shr")
        elif op == "sneg":
            g.ev(op, a, mode=g.mode(), kind="shr")
        elif op == "srot":
            g.ev(op, a, b, mode=g.mode(0.05), kind="ang")
        elif op == "shr":
            shear(g)
        elif op == "bad":
            badshear(g)
        else:
            g.ev("rt", a, c=rng.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr", "galsim"]), kind="shr")
    for a in rng.sample(g.k["shr"], min(3, len(g.k["shr"]))):
        g.ev("sattr", a, mode=g.mode())
        if rng.random() < 0.6:
            g.ev("smat", a, mode=g.mode())
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("GeoMC", "GeoMCa.cfg" if c.tier == "quick" else "GeoMCa4.cfg", timeout=900)
    c.model_check("GeoMC", "GeoMCh.cfg" if c.tier == "quick" else "GeoMCh4.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 5)
    n = 150 if quick else 4000
    c.conform("GeoTrace", G.run, [angles(rng, k) for k in range(n)] + [shears(rng, k) for k in range(n)])


if __name__ == "__main__":
    vlib.main(PID, check)
