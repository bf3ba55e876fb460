"""Celestial coordinate systems."""
import math
import random

import vlib
import geodrv as G
from flatwcs import W

PID = "P08"
TYPES = ["TAN", "TAN", "TPV", "TAN-SIP", "STG", "ZEA", "ARC", "STG-SIP", "ZEA-SIP", "ARC-SIP", "TAN+PV", "tan"]


class F(W):
    def center(self):
        r = self.rng
        ra = r.choice([r.uniform(0, 360), r.uniform(0, 360), r.uniform(-0.01, 0.01), 359.999, 180.0])
        dec = r.choice([math.degrees(math.asin(r.uniform(-0.97, 0.97))), r.uniform(-70, 70), 0.0])
        if r.random() < 0.06:
            dec = r.choice([89.9, -89.7, 90.0, -90.0])
        return round(ra, 7), round(dec, 7)

    def coo(self, ra, dec):
        """ra, dec in degrees"""
        a = self.ev("ang", n=[repr(ra)], s="degrees", kind="ang", how="py")
        b = self.ev("ang", n=[repr(dec)], s="degrees", kind="ang", how="py")
        return self.ev("coo", a, b, kind="coo")

    def header(self, ty):
        r = self.rng
        ra, dec = self.center()
        pv = ty == "TAN+PV"
        ty = "TAN" if pv else ty
        flip = r.random() < 0.15 and ty != "TPV" and not pv
        ct = ["RA---" + ty, "DEC--" + ty]
        h = [["CTYPE1", ct[1] if flip else ct[0]], ["CTYPE2", ct[0] if flip else ct[1]]]
        s = 10 ** r.uniform(-1.3, 0.7) / 3600
        crpix = [round(r.uniform(-1500, 3000), 3), round(r.uniform(-1500, 3000), 3)]
        units = r.choice(["", "", "deg", "rad", "arcsec"]) if r.random() < 0.6 else ""
        f = {"": 1.0, "deg": 1.0, "rad": math.pi / 180, "arcsec": 3600.0}[units]
        t, g = r.uniform(0, 6.28), r.uniform(-0.2, 0.2)
        m = [s * (math.cos(t) + g), -s * math.sin(t), s * math.sin(t), s * (math.cos(t) - g / 2)]
        if r.random() < 0.5:
            m = [-m[0], m[1], m[2] * -1, m[3]]
        c = [ra, dec] if not flip else [dec, ra]
        h += [["CRVAL1", repr(c[0] * f)], ["CRVAL2", repr(c[1] * f)], ["CRPIX1", repr(crpix[0])], ["CRPIX2", repr(crpix[1])]]
        form = r.choice(["CD", "CD", "PC", "CDELT"])
        if form == "CD":
            h += [["CD%d_%d" % (i, j), repr(m[2 * i + j - 3] * f)] for i in (1, 2) for j in (1, 2)]
        elif form == "PC":
            d1, d2 = -s * f, s * 1.1 * f
            h += [["CDELT1", repr(d1)], ["CDELT2", repr(d2)]]
            h += [["PC%d_%d" % (i, j), repr(round(m[2 * i + j - 3] / s, 9))] for i in (1, 2) for j in (1, 2)]
        else:
            h += [["CDELT1", repr(-s * f)], ["CDELT2", repr(s * 1.05 * f)]]
        if units:
            h += [["CUNIT1", units], ["CUNIT2", units]]
        if ty == "TPV" or pv:
            order = r.choice([1, 2, 3, 3, 4])
            top = [2, 6, 10, 10, 16][order - 1 if order < 3 else order]
            top = {1: 2, 2: 6, 3: 10, 4: 16}[order]
            for z in (1, 2):
                for k in range(top + 1):
                    if k in (3, 11):
                        continue
                    v = r.gauss(0, 1) * {0: 1e-4}.get(k, 2e-3)
                    if k == 1:
                        v = 1 + r.gauss(0, 5e-3)
                    if r.random() < 0.25 and k != 1 or (k == top and r.random() < 0.5):
                        continue
                    h.append(["PV%d_%d" % (z, k), repr(v)])
        if ty.endswith("SIP"):
            orders = [r.choice([2, 3, 4])] * 2
            if r.random() < 0.5:
                orders[r.randint(0, 1)] = r.choice([2, 3, 4])
            h += [["A_ORDER", str(orders[0])], ["B_ORDER", str(orders[1])]]
            for z, order in zip("AB", orders):
                for i in range(order + 1):
                    for j in range(order + 1 - i):
                        if r.random() < 0.7 and i + j != 1:
                            h.append(["%s_%d_%d" % (z, i, j), repr(r.gauss(0, 1) * {0: 0.3, 2: 1e-6, 3: 1e-10, 4: 1e-13}[i + j])])
            if r.random() < 0.3:
                h += [["AP_ORDER", str(r.choice([2, 2, 1, 3]))], ["BP_ORDER", str(r.choice([2, 2, 3]))]]
                d = dict(map(tuple, h))
                for z in "AB":
                    for k in ("2_0", "1_1", "0_2"):
                        if z + "_" + k in d:
                            h.append([z + "P_" + k, repr(-float(d[z + "_" + k]))])
        return h, crpix, (ra, dec)

    def near(self, crpix, big=1200):
        r = self.rng
        if r.random() < 0.06:
            return [repr(crpix[0]), repr(crpix[1])]
        b = 10 ** r.uniform(0, math.log10(big))
        return [repr(round(crpix[0] + r.uniform(-b, b), 4)), repr(round(crpix[1] + r.uniform(-b, b), 4))]


def gen(rng, k):
    g = F(rng)
    ty = TYPES[k % len(TYPES)]
    if ty == "tan":
        ra, dec = g.center()
        c = g.coo(ra, dec)
        if rng.random() < 0.75:
            n = g.lin()
            if rng.random() < 0.8:
                n += g.pair(2000)
            if rng.random() < 0.6 and len(n) > 4:
                n += g.pair(20)
            a = g.ev("wcs", n=n, s="AffineTransform", kind="flat")
        else:
            a = g.ev("wcs", n=g.lin(), s="JacobianWCS", kind="flat")
            a = g.ev("aff", a, kind="flat")
            n = ["0"] * 4
        w = g.ev("tan", a, c, s=rng.choice(["arcsec", "arcsec", "arcmin"]), c=rng.choice(["", "def"]), kind="fits", mode=g.mode(0.08))
        crpix = [float(n[4]), float(n[5])] if len(n) >= 6 else [0.0, 0.0]
    else:
        h, crpix, (ra, dec) = g.header(ty)
        mode, c = rng.choice(["eager", "ahdr", "ghdr"]), rng.choice(["", "GS", "read", "", "file"])
        if c == "GS" and mode == "ghdr":
            mode = "eager"
        w = g.ev("fits", hdr=h, c=c, mode=mode, how="py", kind="fits")
    polar = abs(dec) > 85
    if rng.random() < 0.5:
        n = g.pair(300)
        if rng.random() < 0.3:
            n = [str(rng.randint(-99, 99)), str(rng.randint(-99, 99))]
        i = "." not in n[0]
        w = g.ev("shorg", w, n=n, c="I" if i else "", kind="fits", mode=g.mode(0.06) if not i else "eager")
        crpix = [crpix[0] + float(n[0]), crpix[1] + float(n[1])]
    pt = lambda: g.near(crpix)
    g.ev("i2w", w, n=pt() + pt(), c=rng.choice(["", "xy", "str"]), mode=rng.choice(["eager", "arr", "jit", "vmap"]))
    cs = [g.ev("i2c", w, n=pt(), mode=g.mode(0.05), kind="coo") for _ in range(2)]
    if ty != "tan" or True:
        cs.append(g.coo(round(ra + rng.uniform(-0.02, 0.02) / max(0.02, math.cos(math.radians(dec))), 7), round(max(-90, min(90, dec + rng.uniform(-0.02, 0.02))), 7)))
    g.ev("c2i", w, hs=rng.sample(cs, rng.randint(1, 3)), c=rng.choice(["", "rd", "pos"]), mode=rng.choice(["eager", "eager", "arr", "jit"]))
    for _ in range(rng.randint(2, 4)):
        op = rng.choice(["local", "jac", "aff", "parea", "scales", "shw", "prof", "sky", "hdr", "flags", "rt", "i2p", "bad", "i2w", "c2i", "shorg4", "nopos"])
        n, c = pt(), rng.choice(["", "", "w"])
        m = g.mode(0.06) if c == "" else "eager"
        if polar and op in ("local", "jac", "aff", "parea", "scales", "shw", "prof", "sky"):
            op = "i2w"
        if op in ("local", "jac", "aff"):
            x = g.ev(op, w, n=n, c=c, mode=m, kind="flat")
            if op != "aff" and rng.random() < 0.5:
                g.ev(rng.choice(["decomp", "parea", "scales"]), x)
        elif op in ("parea", "scales"):
            g.ev(op, w, n=n, c=c, mode=m)
        elif op == "shw":
            s = g.shr()
            x = g.ev(rng.choice(["shw", "shi"]), w, s, n=n, c=c, mode=m, kind="shr")
        elif op == "prof":
            p = g.leaf()
            h = ["1.0", "0.0", "0.0"] if rng.random() < 0.5 else [g.u(0.3, 3), g.u(-3, 3), g.u(-3, 3)]
            x = g.ev(rng.choice(["pfw", "pfi"]), w, p, n=h + n, c=c, kind="prof")
            g.probe(x)
        elif op == "sky":
            x0, y0 = int(crpix[0]) + rng.randint(-20, 20), int(crpix[1]) + rng.randint(-20, 20)
            ww, hh = rng.randint(1, 6), rng.randint(1, 6)
            px = [(rng.randint(x0, x0 + ww), rng.randint(y0, y0 + hh)) for _ in range(3)]
            g.ev("sky", w, n=[str(x0), str(x0 + ww), str(y0), str(y0 + hh), g.u(0.5, 900)] + [str(t) for q in px for t in q], s=rng.choice(["", "F"]), how="py")
        elif op == "hdr":
            xy = rng.choice([["1", "1"], ["1", str(rng.randint(-60, 60))], [str(rng.randint(-60, 60)), "1"], [str(rng.randint(-60, 60)), str(rng.randint(-60, 60))]])
            x = g.ev("hdr", w, n=xy, c=rng.choice(["d", "g", "a"]), how="py", kind="fits")
            g.ev("i2w", x, n=pt())
        elif op == "flags":
            g.ev(op, w)
        elif op == "rt":
            x = g.ev("rt", w, c=rng.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "galsim", "meth", "repr"]), kind="fits")
            g.ev("same", w, x, s="rt")
            g.ev(rng.choice(["i2w", "wparts"]), x, n=pt())
        elif op == "i2p":
            g.ev("i2p", w, rng.choice(cs), n=n, s=rng.choice(["", "gnomonic", "stereographic", "lambert", "postel"]), mode=g.mode(0.05))
        elif op == "bad":
            g.ev("bad", w, cs[0], c=rng.choice(["oarg", "oarg2", "t2w0", "t2w3", "t2i3", "p2w", "p2i", "c2i", "nounits", "badunits", "badproj", "tanaff", "fitsnone", "gsnone"]), s="any", how="py")
        elif op == "shorg4":
            g.ev("shorg", w, n=g.pair() + g.pair(), kind="fits", ok=False)
        elif op == "nopos":
            g.ev(rng.choice(["local", "jac", "parea"]), w, c=rng.choice(["", "both", "badpos"]), kind="flat", ok=False)
        elif op == "c2i":
            g.ev("c2i", w, hs=[rng.choice(cs)])
        else:
            g.ev("i2w", w, n=pt())
    if rng.random() < 0.12:
        bad(g)
    return g.H


def bad(g):
    r = g.rng
    h, _, _ = g.header(r.choice(["TAN", "TPV"]))
    d = dict(map(tuple, h))
    swapped = d["CTYPE1"].startswith("DEC")
    k = r.choice(["odd", "type", "celestial", "agree", "missing"])
    if k == "odd":
        d.update({"CTYPE1": "RA---TPV", "CTYPE2": "DEC--TPV", "PV1_1": "1.0", "PV%d_%d" % (r.choice([1, 2]), r.choice([3, 11, 23, 39])): "0.01"})
        e = "GalSimNotImplementedError"
    elif k == "type":
        d.update({"CTYPE1": "RA---SIN", "CTYPE2": "DEC--SIN"})
        e = "GalSimValueError"
    elif k == "celestial":
        d.update({"CTYPE1": "GLON-TAN", "CTYPE2": "GLAT-TAN"})
        e = "GalSimError"
    elif k == "agree":
        d.update({"CTYPE1": "RA---TAN", "CTYPE2": "DEC--STG"})
        e = "any"
    else:
        d.pop(r.choice(["CRVAL1", "CRPIX2"]))
        e = "any"
    # (axes relabelled: the header may be wrong in more than one way)
    g.ev("fits", hdr=list(d.items()), c="GS", s="any" if swapped else e, how="py", kind="fits", ok=False)


def check(c):
    quick = c.tier == "quick"
    c.model_check("GeoMC", "GeoMCf.cfg" if c.tier == "quick" else "GeoMCf3.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 8)
    c.conform("GeoTrace", G.run, [gen(rng, k) for k in range(120 if quick else 3600)])


if __name__ == "__main__":
    vlib.main(PID, check)
