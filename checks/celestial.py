"""Positions on the sky."""
import math
import random

import vlib
import geodrv as G

PID = "P06"
PROJ = ["", "gnomonic", "stereographic", "lambert", "postel"]
RMAX = {"": 1.5, "gnomonic": 1.5, "stereographic": 6.0, "lambert": 1.9, "postel": 2.6}
DMAX = {"": 1.0, "gnomonic": 1.0, "stereographic": 2.6, "lambert": 2.6, "postel": 2.6}


class Sky(G.Geo):
    """Also remembers where each position was put (to place others near or far)."""

    def __init__(self, rng):
        super().__init__(rng)
        self.at = {}

    def coo(self, ra, dec, c=""):
        a = self.ev("ang", n=[repr(ra)], s="radians", kind="ang", how="py")
        b = self.ev("ang", n=[repr(dec)], s="radians", kind="ang", how="py")
        h = self.ev("coo", a, b, c=c, kind="coo", mode=self.mode(0.05) if not c else "eager")
        self.at[h] = (ra, dec)
        return h

    def random_coo(self):
        r = self.rng
        x = r.random()
        ra = r.choice([r.uniform(0, 2 * math.pi), r.uniform(-20, 20), 0.0, round(2 * math.pi, 15) - 1e-9, 1e-7, math.pi])
        dec = math.asin(r.uniform(-1, 1))
        if x < 0.12:
            dec = r.choice([1, -1]) * (math.pi / 2 - 10 ** r.uniform(-8, -1))
        elif x < 0.18:
            dec = r.choice([math.pi / 2, -math.pi / 2])
        elif x < 0.25:
            dec = 0.0
        return self.coo(ra, dec, r.choice(["", "", "copy"]))

    def near(self, h, lo=1e-8, hi=2.0, anti=0.1):
        """A position at a chosen distance and bearing."""
        r = self.rng
        ra, dec = self.at[h]
        d = 10 ** r.uniform(math.log10(lo), math.log10(hi))
        if r.random() < anti:
            d = math.pi - d
        t = r.uniform(0, 2 * math.pi)
        sd = math.sin(dec) * math.cos(d) + math.cos(dec) * math.sin(d) * math.cos(t)
        y = math.sin(t) * math.sin(d)
        x = math.cos(d) * math.cos(dec) - math.sin(dec) * math.sin(d) * math.cos(t)
        dec2 = math.asin(max(-1, min(1, sd)))
        if d < 1e-3:
            dec2 = dec + d * math.cos(t)
            if abs(dec2) > math.pi / 2:
                dec2 = dec - d * math.cos(t)
            ra2 = ra + d * math.sin(t) / max(math.cos(dec), 1e-9)
            return self.coo(ra2, dec2)
        return self.coo(ra + math.atan2(y, x), dec2)


def dist(p, q):
    a = [math.cos(p[1]) * math.cos(p[0]), math.cos(p[1]) * math.sin(p[0]), math.sin(p[1])]
    b = [math.cos(q[1]) * math.cos(q[0]), math.cos(q[1]) * math.sin(q[0]), math.sin(q[1])]
    return 2 * math.asin(min(1, math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))) / 2))


def pole(p):
    return abs(abs(p[1]) - math.pi / 2) < 1e-6


def sphere(rng, k):
    g = Sky(rng)
    a = g.random_coo()
    b = g.near(a) if rng.random() < 0.8 else g.random_coo()
    c = g.near(a, 1e-3, 2.5, 0.05)
    g.ev("cparts", rng.choice([a, b]), mode=g.mode())
    g.ev("dist", a, b, mode=g.mode(), kind="ang")
    g.ev("dist", b, a, mode=g.mode(), kind="ang")
    if rng.random() < 0.3:
        g.ev("dist", a, a, kind="ang")
    g.ev("dist", *rng.sample([a, b, c], 2), kind="ang")
    # clear triangles
    x, y, z = g.random_coo(), 0, 0
    y, z = g.near(x, 1e-2, 2.2, 0), g.near(x, 1e-2, 2.2, 0)
    s = sorted([dist(g.at[x], g.at[y]), dist(g.at[x], g.at[z]), dist(g.at[y], g.at[z])])
    if s[0] > 1e-3 and s[0] + s[1] - s[2] > 0.05 * s[0] and sum(s) < 6 and s[2] < 3:
        p = rng.sample([x, y, z], 3)
        g.ev("area", *p, mode=g.mode(0.05))
        for w in range(2):
            p = rng.sample([x, y, z], 3)
            g.ev("angb", *p, mode=g.mode(0.05), kind="ang")
    d = dist(g.at[x], g.at[y])
    if 1e-3 < d < 3.1:
        t = g.ev("ang", n=[rng.choice([repr(rng.uniform(-3, 6)), "0.0", repr(d), repr(rng.uniform(0, 1e-3))])], s="radians", kind="ang", how="py")
        g.ev("gcp", x, y, t, mode=g.mode(0.05), kind="coo")
    g.ev("cnorm", rng.choice([a, b, c]), mode=g.mode(), kind="coo")
    v = [repr(round(rng.uniform(-3, 3), 6)) for _ in range(3)]
    if rng.random() < 0.1:
        v = rng.choice([["0.0", "0.0", "2.0"], ["0.0", "0.0", "-1.0"], ["1.0", "0.0", "0.0"], ["-2.0", "0.0", "0.0"], ["0.0", "-1.0", "0.0"]])
    g.ev("fromxyz", n=v, mode=g.mode(0.05), kind="coo")
    g.ev("xyz2rd", n=v, mode="eager")
    g.ev("rd2xyz", n=[g.u(-7, 7), g.u(-1.5, 1.5), g.u(0.5, 5)], mode=g.mode())
    if rng.random() < 0.4:
        i = g.ev("rt", a, c=rng.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr", "galsim"]), kind="coo")
        g.ev("csame", a, rng.choice([i, c]))
        g.ev("dist", i, c, kind="ang")
    if rng.random() < 0.15:
        if rng.random() < 0.3:
            g.ev("bad", g.any("ang"), c=rng.choice(["conly", "cnum", "cmix"]), s="any", how="py")
        elif rng.random() < 0.5:
            g.ev("fromxyz", n=["0.0", "0.0", "0.0"], how="py")
        else:
            p = g.ev("ang", n=[g.u(-3, 3)], s="radians")
            q = g.ev("ang", n=[rng.choice(["90.1", "-95", "400"])], s="degrees", how="py")
            g.ev("coo", p, q)
    return g.H


def plane(rng, k):
    g = Sky(rng)
    a = g.random_coo()
    p = rng.choice(PROJ)
    q = [g.near(a, 1e-7, DMAX[p], 0) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.15:
        q.append(a)
    g.ev("proj", a, hs=q, s=p, c=rng.choice(["", "rad"]), mode=rng.choice(["eager", "eager", "jit", "vmap"]))
    if rng.random() < 0.4:
        g.ev("proj", a, hs=q, s=rng.choice([x for x in PROJ if DMAX[x] >= DMAX[p]]), c="rad", mode="arr")
    for _ in range(2):
        p = rng.choice(PROJ)
        uv = []
        for _ in range(3):
            r, t = RMAX[p] * 10 ** rng.uniform(-7, 0), rng.uniform(0, 2 * math.pi)
            if rng.random() < 0.5:
                r = RMAX[p] * rng.random()
            if rng.random() < 0.08:
                r = 0.0
            uv += [repr(r * math.cos(t)), repr(r * math.sin(t))]
        g.ev("deproj", a, n=uv[:2], s=p, c=rng.choice(["", "rad"]), mode=g.mode(), kind="coo")
        d = g.N
        if rng.random() < 0.4:
            g.ev("deprojs", a, n=uv, s=p, mode=rng.choice(["eager", "jit"]))
        if rng.random() < 0.7 and not pole(g.at[a]):
            # away from the poles, where west and north are defined
            n = uv[2:4]
            x = sphere_of(g.at[a], float(n[0]), float(n[1]), p)
            if abs(x[1]) < 1.5:
                g.ev("jacd", a, n=n, s=p, c=rng.choice(["", "rad"]), mode=g.mode())
        g.ev("proj", a, hs=[d], s=p, c=rng.choice(["", "rad"]))        # there and back
    if rng.random() < 0.15:
        if rng.random() < 0.5:
            g.ev("proj", a, hs=q[:1], s="mercator", how="py")
        else:
            g.ev(rng.choice(["deproj", "jacd"]), a, n=["0.1", "0.2"], s="TAN", how="py")
    return g.H


def sphere_of(c, u, v, p):
    r = math.hypot(u, v)
    d = {"": math.atan, "gnomonic": math.atan, "stereographic": lambda x: 2 * math.atan(x / 2), "lambert": lambda x: 2 * math.asin(x / 2), "postel": lambda x: x}[p](r)
    t = math.atan2(-u, v)
    sd = math.sin(c[1]) * math.cos(d) + math.cos(c[1]) * math.sin(d) * math.cos(t)
    return (0, math.asin(max(-1, min(1, sd))))


def frames(rng, k):
    g = Sky(rng)
    a = g.random_coo()
    ep = lambda: rng.choice(["2000.0", "1950.0", g.u(1900, 2100, 2), g.u(1850, 2150, 1)])
    e1, e2 = ep(), ep()
    if rng.random() < 0.1:
        e2 = e1
    x = g.ev("prec", a, n=[e1, e2], mode=g.mode(0.05), kind="coo") if e1 != e2 else g.ev("prec", a, n=[e1, e2], kind="coo")
    g.ev("cparts", x)
    if rng.random() < 0.5:
        g.ev("prec", x, n=[e2, e1], kind="coo")
    g.ev("gal", a, c=rng.choice(["", "kw"]), mode=g.mode(0.05))
    l, b = g.ev("ang", n=[g.u(-7, 7)], s="radians"), g.ev("ang", n=[g.u(-1.57, 1.57)], s="radians")
    y = g.ev("fromgal", l, b, mode=g.mode(0.05), kind="coo")
    g.ev("gal", y)
    g.ev("ecl", a, n=[ep()], mode=g.mode(0.05))
    z = g.ev("fromecl", l, b, n=[ep()], mode=g.mode(0.05), kind="coo")
    g.ev("dist", y, z, kind="ang")
    if rng.random() < 0.5:
        g.ev("ecldate", a, n=[str(rng.randint(1990, 2030)), str(rng.randint(1, 12)), str(rng.randint(1, 28))], how="py", kind="coo")
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("GeoMC", "GeoMCs.cfg" if c.tier == "quick" else "GeoMCs3.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 6)
    n = 110 if quick else 3000
    c.conform("GeoTrace", G.run, [sphere(rng, k) for k in range(n)] + [plane(rng, k) for k in range(n)] + [frames(rng, k) for k in range(n // 2)])


if __name__ == "__main__":
    vlib.main(PID, check)
