"""Flat coordinate systems."""
import math
import random

import vlib
import geodrv as G

PID = "P07"
KINDS = ["PixelScale", "ShearWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform"]


class W(G.Geo):
    def num(self, lo, hi):
        r = self.rng
        return r.choice([self.u(lo, hi, 4), self.u(lo, hi, 4), repr(round(r.uniform(lo, hi))) + ".0", "0.0" if lo <= 0 <= hi else self.u(lo, hi)])

    def pair(self, big=200):
        return [self.num(-big, big), self.num(-big, big)]

    def lin(self):
        r = self.rng
        s, t, g = 10 ** r.uniform(-1.5, 0.7), r.choice([r.uniform(0, 2 * math.pi), r.randint(0, 3) * math.pi / 2, r.uniform(-0.01, 0.01)]), r.choice([0, 0.7 * r.random(), 0.02])
        b = r.uniform(0, math.pi)
        g1, g2 = g * math.cos(2 * b), g * math.sin(2 * b)
        c, q = math.cos(t), math.sin(t)
        k = s / math.sqrt(1 - g * g)
        m = [k * ((1 + g1) * c + g2 * q), k * (-(1 + g1) * q + g2 * c), k * (g2 * c + (1 - g1) * q), k * (-g2 * q + (1 - g1) * c)]
        if r.random() < 0.25:  # any matrix that is not close to singular
            while True:
                m = [s * r.uniform(-1, 1) for _ in range(4)]
                if abs(m[0] * m[3] - m[1] * m[2]) > 0.1 * s * s:
                    break
        if r.random() < 0.35:
            m = [m[1], m[0], m[3], m[2]]
        return [repr(round(x, 7)) for x in m]

    def shr(self):
        r = self.rng
        return self.ev("shr", n=[self.u(-0.5, 0.5), self.u(-0.5, 0.5)] if r.random() < 0.9 else ["0.0", "0.0"], s="g", kind="shr")

    def wcs(self, kind=None):
        r = self.rng
        kind = kind or r.choice(KINDS)
        b = self.shr() if "Shear" in kind else 0
        n = self.lin() if kind in ("JacobianWCS", "AffineTransform") else [r.choice([self.u(0.05, 4), "1.0", "0.2"])]
        c = ""
        if kind in ("OffsetWCS", "OffsetShearWCS", "AffineTransform"):
            x = r.random()
            if x < 0.85:
                o = self.pair()
                if r.random() < 0.25:
                    o, c = [str(r.randint(-99, 99)), str(r.randint(-99, 99))], "I"
                n += o
            if 0.1 < x < 0.75:
                n += self.pair()
        m = self.mode(0.06) if c == "" else "eager"
        return self.ev("wcs", b=b, n=n, s=kind, c=c, mode=m, kind="wcs")

    def pos(self):
        """Where a local quantity is asked for: nowhere, at a pixel or at a position on the sky."""
        x = self.rng.random()
        if x < 0.35:
            return [], ""
        if x < 0.65:
            return self.pair(), ""
        if x < 0.72:
            return [str(self.rng.randint(-50, 50)), str(self.rng.randint(-50, 50))], "posI"
        if x < 0.95:
            return self.pair(20), "w"
        return [], self.rng.choice(["both", "badpos"])

    def leaf(self):
        r = self.rng
        s = r.choice(["Gaussian", "Gaussian", "Exponential", "Box", "Pixel"])
        c = {"Gaussian": r.choice(["sigma", "fwhm", "half_light_radius"]), "Exponential": r.choice(["scale_radius", "half_light_radius"])}.get(s, "")
        n = [self.u(0.4, 3)] * (2 if s == "Box" else 1) + [self.u(0.5, 20)]
        if s == "Box":
            n[1] = self.u(0.4, 3)
        a = self.ev("p.leaf", n=n, s=s, c=c, kind="prof")
        if r.random() < 0.4:
            a = self.ev("p.shear", a, n=[self.u(-0.4, 0.4), self.u(-0.4, 0.4)], kind="prof")
        if r.random() < 0.4:
            a = self.ev("p.shift", a, n=[self.u(-2, 2), self.u(-2, 2)], kind="prof")
        return a

    def probe(self, p, scale=1.0):
        r = self.rng
        for _ in range(2):
            op = r.choice(["p.x", "p.k", "p.attrs", "p.x"])
            self.ev(op, p, n=[] if op == "p.attrs" else [self.u(-2 * scale, 2 * scale) for _ in range(4)] if op == "p.x" else [self.u(-1, 1) for _ in range(4)])


def shifts(g, a, m):
    r = g.rng
    for _ in range(m):
        n, c = g.pair(), r.choice(["", "", "with"])
        if r.random() < 0.2:
            n, c = [str(r.randint(-99, 99)), str(r.randint(-99, 99))], "I"
        if r.random() < 0.4:
            n = n + g.pair()
        a = g.ev("shorg", a, n=n, c=c, mode=g.mode(0.06) if c == "" else "eager", kind="wcs")
    return a


def maps(g, a, m):
    r = g.rng
    for _ in range(m):
        op = r.choice(["i2w", "i2w", "w2i", "w2i"])
        k = r.randint(1, 3)
        c, mode = r.choice(["", "xy", "pos"]), r.choice(["eager", "eager", "arr", "jit", "vmap"])
        n = [x for _ in range(k) for x in g.pair(500)]
        if r.random() < 0.15:
            c, n, mode = "I", [str(r.randint(-300, 300)) for _ in range(2 * k)], "eager"
        g.ev(op, a, n=n, c=c, mode=mode)


def gen(rng, k):
    g = W(rng)
    a = g.wcs(KINDS[k % 6])
    if rng.random() < 0.7:
        a = shifts(g, a, rng.randint(1, 3))
    maps(g, a, 2)
    for _ in range(rng.randint(3, 6)):
        op = rng.choice(["local", "jac", "aff", "parea", "scales", "wmat", "decomp", "winv", "shw", "shi", "prof", "sky", "hdr", "lin", "flags", "wparts", "rt", "shorg", "bad", "compat"])
        n, c = g.pos()
        err = c in ("both", "badpos")
        m = g.mode(0.08) if not err and c != "posI" else "eager"
        if op in ("local", "jac", "aff"):
            x = g.ev(op, a, n=n, c=c, mode=m, kind="wcs", ok=not err)
            if not err and rng.random() < 0.5:
                maps(g, x, 1)
                if rng.random() < 0.3:
                    a = x
        elif op in ("parea", "scales"):
            g.ev(op, a, n=n, c=c, mode=m)
        elif op in ("wmat", "decomp"):
            g.ev(op, a, mode=g.mode(0.08) if op == "wmat" else "eager")
        elif op == "winv":
            x = g.ev(op, a, kind="wcs", mode=g.mode(0.08))
            maps(g, x, 1)
        elif op in ("shw", "shi"):
            s = g.shr()
            x = g.ev(op, a, s, n=n, c=c or rng.choice(["", "named"]), mode=m, kind="shr", ok=not err)
            if not err:
                g.ev("shi" if op == "shw" else "shw", a, x, kind="shr")
        elif op == "prof":
            p = g.leaf()
            h = ["1.0", "0.0", "0.0"] if rng.random() < 0.5 else [g.u(0.3, 3), g.u(-3, 3), g.u(-3, 3)]
            o = rng.choice(["pfw", "pfi"])
            x = g.ev(o, a, p, n=h + n, c=c or rng.choice(["", "named"]), kind="prof", ok=not err)
            if not err:
                g.probe(x)
                if rng.random() < 0.5:
                    g.probe(g.ev("pfi" if o == "pfw" else "pfw", a, x, n=["1.0", "0.0", "0.0"], kind="prof"))
        elif op == "sky":
            x0, y0 = rng.randint(-20, 20), rng.randint(-20, 20)
            w, hh = rng.randint(1, 6), rng.randint(1, 6)
            px = [(rng.randint(x0, x0 + w), rng.randint(y0, y0 + hh)) for _ in range(3)]
            g.ev("sky", a, n=[str(x0), str(x0 + w), str(y0), str(y0 + hh), g.u(0.5, 900)] + [str(t) for q in px for t in q], s=rng.choice(["", "F"]), how="py")
        elif op in ("hdr", "lin"):
            xy = rng.choice([["1", "1"], ["1", str(rng.randint(-60, 60))], [str(rng.randint(-60, 60)), "1"], [str(rng.randint(-60, 60)), str(rng.randint(-60, 60))]])
            x = g.ev(op, a, n=xy, c=rng.choice(["d", "g", "a"]), how="py", kind="wcs")
            if op == "hdr":
                maps(g, x, 1)
        elif op in ("flags", "wparts"):
            g.ev(op, a, mode=g.mode(0.05) if op == "wparts" and False else "eager")
        elif op == "rt":
            x = g.ev("rt", a, c=rng.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr", "galsim", "meth"]), kind="wcs")
            g.ev("same", a, x, s="rt")
            maps(g, x, 1)
        elif op == "shorg":
            a = shifts(g, a, 1)
        elif op == "bad":
            g.ev("bad", a, c=rng.choice(["oarg", "oarg2", "t2w0", "t2w3", "t2i3", "p2w", "p2i", "orgtype", "worgtype", "shnotype"]), s="any", how="py")
        else:
            x = shifts(g, a, 1) if rng.random() < 0.5 else g.wcs()
            g.ev("compat", *rng.sample([a, x], 2))
            g.ev("same", *rng.sample([a, x], 2))
    maps(g, a, 1)
    if "Shear" not in KINDS[k % 6] or rng.random() < 0.3:
        g.ev("decomp", a)
        g.ev("scales", a)
    if rng.random() < 0.5:
        t = str(rng.randint(-60, 60))
        maps(g, g.ev("hdr", a, n=rng.choice([["1", t], [t, "1"], [t, t]]), c=rng.choice(["d", "g"]), how="py", kind="wcs"), 1)
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("GeoMC", "GeoMCw.cfg" if c.tier == "quick" else "GeoMCw4.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 7)
    c.conform("GeoTrace", G.run, [gen(rng, k) for k in range(150 if quick else 4000)])


if __name__ == "__main__":
    vlib.main(PID, check)
