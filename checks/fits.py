"""FITS: replay histories of writes and reads on a real directory."""
import random

import vlib
import fitsdrv as W

PID = "P19"
EXT = {"a.fits": "fits", "b.fits": "fits", "c.fits.fz": "fz", "d.fits.gz": "gz", "e.fits.bz2": "bz2", "s/f.fits": "fits"}
COMPS = {"fits": ["auto", "auto", "none", "rice", "gzip_tile", "plio", "hcompress", "gzip", "bzip2"],
         "fz": ["auto", "auto", "rice", "gzip_tile", "none"], "gz": ["auto", "gzip"], "bz2": ["auto", "bzip2"],
         "": ["auto", "none", "rice", "gzip_tile"]}


class G:
    def __init__(g, rng):
        g.r, g.H, g.ims, g.lists, g.fc = rng, [], [], 0, {}

    def ev(g, op, as_=(), f="", l=0, comp="auto", how="", clob=True, hdu=-1, rh=False, s="", t=(), w="", wp=(), px=(), h=(), dir=False):
        g.H.append({"op": op, "as": list(as_), "f": f, "l": l, "comp": comp, "how": how, "clob": clob, "hdu": hdu, "rh": rh, "s": s,
                    "t": list(t), "w": w, "wp": list(wp), "px": list(px), "h": [list(x) for x in h], "dir": dir, "ext": EXT.get(f, "")})

    def f(g, lo, hi):
        return repr(g.r.randint(int(lo * 8), int(hi * 8)) / 8)

    def wcs(g):
        r, f = g.r, g.f
        w = r.choice(["None", "Pix", "Pix", "Shear", "Jac", "Jac", "Off", "OffShear", "Aff", "Aff", "Tan"])
        jac = ["0.25", f(-0.1, 0.1), f(-0.1, 0.1), r.choice(["0.25", "-0.25", "0.5"])]
        o = [f(-9, 9) for _ in range(4)]
        return w, {"None": [], "Pix": [f(0.125, 3)], "Shear": [f(0.125, 3), f(-0.5, 0.5), f(-0.5, 0.5)], "Jac": jac, "Off": [f(0.125, 3)] + o,
                   "OffShear": [f(0.125, 3), f(-0.5, 0.5), f(-0.5, 0.5)] + o, "Aff": jac + o, "Tan": jac + o[:2] + [f(0, 359), f(-80, 80)]}[w]

    def image(g, dt=None, shape=None, small=None):
        r = g.r
        dt = dt or r.choice(["f8", "f8", "f4", "i4", "i2", "u2", "u4", "i4", "c16" if r.random() < 0.3 else "c8" if r.random() < 0.3 else "f4"])
        nx, ny = shape or (r.randint(1, 5), r.randint(1, 5))
        x0, y0 = r.choice([(1, 1), (1, r.randint(-9, 9)), (r.randint(-9, 9), 1), (0, 0), (r.randint(-20, 20), r.randint(-20, 20))])
        small = small if small is not None else r.random() < 0.3
        lo, hi = {"i2": (-32768, 32767), "u2": (0, 65535), "i4": (-2**31, 2**31 - 1), "u4": (0, 2**32 - 1)}.get(dt, (-1000, 1000))
        px = []
        for _ in range(nx * ny):
            v = float(r.randint(0, 100) if small else r.choice([lo, hi, r.randint(lo, hi), r.randint(0, 9)]))
            if dt[0] == "f" and not small:
                v = r.choice([v / 8, v, v * 1e-3 if dt == "f8" else v / 1024])
            px.append("=" + repr(v))
        w, wp = g.wcs()
        h = []
        if r.random() < 0.35:
            h = [(k, r.choice(["i7.0", "f2.5", "shello", "bTrue", "bFalse", "i-3.0", "f1e-05", "s3"])) for k in ("AKEY", "BKEY", "CKEY") if r.random() < 0.6]
        g.ev("im", t=(x0, x0 + nx - 1, y0, y0 + ny - 1), s=dt, w=w, wp=wp, px=px, h=h, how=r.choice(["", "", "sub", "const"]))
        g.ims.append(dict(dt=dt, nx=nx, ny=ny, small=small, pos=all(float(p[1:]) >= 0 for p in px), i=len(g.ims) + 1))
        return g.ims[-1]

    def place(g, ims, force_auto=False):
        """a destination and compression fit for these images"""
        r = g.r
        if g.lists and r.random() < 0.2:
            f, l = "", r.randint(1, g.lists)
        else:
            f, l = r.choice(list(EXT)), 0
        c = COMPS[EXT.get(f, "")]
        comp = "auto" if force_auto else r.choice(c)
        big = all(x["nx"] == 4 and x["ny"] == 4 for x in ims)
        if comp == "plio" and not all(x["dt"] in ("i2", "i4") and x["small"] and x["pos"] for x in ims):
            comp = "auto"
        if comp == "hcompress" and not (big and all(x["dt"] in ("i2", "i4") and x["small"] for x in ims)):
            comp = "auto"
        return f, l, comp

    def write(g):
        r = g.r
        op = r.choice(["write", "write", "write", "writem", "writec", "writec"])
        plain = [x for x in g.ims if x["dt"][0] != "c" or r.random() < 0.15] or g.ims[:1]
        how = s = ""
        if op == "write":
            ims, how = [r.choice(plain)], r.choice(["", "method", "method", "explicit", "positional"])
        elif op == "writem":
            ims = [r.choice(plain) for _ in range(r.randint(1, 4))]
        else:
            a = r.choice(plain)
            same = [x for x in plain if (x["nx"], x["ny"], x["dt"]) == (a["nx"], a["ny"], a["dt"])]
            ims = [a] + [r.choice(same) for _ in range(r.randint(0, 3))]
            if r.random() < 0.12:
                ims.append(r.choice(plain))
            if len({x["dt"] for x in ims}) > 1 and not all(x["small"] for x in ims):
                ims = ims[:1]
            if r.random() < 0.03:
                ims = []
            how = r.choice(["", "", "tuple", "arr", "cube3", "jarr"])
            if how in ("arr", "cube3", "jarr"):
                if len({(x["nx"], x["ny"], x["dt"]) for x in ims}) > 1 or not ims:
                    how = ""
                elif all(x["small"] for x in ims) and r.random() < 0.6:
                    s = r.choice(["i8", "u1", "f4", "i4"])
        f, l, comp = g.place(ims)
        if op == "writec" and comp in ("plio", "hcompress"):
            comp = "auto"
        if s in ("i8", "u1") and comp not in ("none", "gzip", "bzip2"):
            f, l, comp = "a.fits", 0, "none"
        g.ev(op, [x["i"] for x in ims], f=f, l=l, comp=comp, how=how, s=s, clob=r.random() < 0.75, dir=r.random() < 0.3)
        return f, l, comp, op

    def read(g, last=None):
        r = g.r
        if last and r.random() < 0.75:
            f, l, comp, op = last
            op = {"write": "read", "writem": "readm", "writec": "readc", "writef": "readm"}[op]
            if r.random() < 0.2:
                op = r.choice(["read", "readm", "header"])
        else:
            f, l = r.choice(list(EXT)), 0
            if g.lists and r.random() < 0.2:
                f, l = "", r.randint(1, g.lists)
            comp = r.choice(["auto", "auto", "rice", "none"] if EXT.get(f, "") in ("fits", "fz", "") else ["auto"])
            op = r.choice(["read", "read", "readm", "readc", "header"])
        hdu = -1
        if op in ("read", "readc", "header") and r.random() < 0.3:
            hdu = r.randint(0, 3)
        g.ev(op, f=f, l=l, comp=comp, hdu=hdu, rh=op in ("read", "readm") and r.random() < 0.5, dir=r.random() < 0.3, how=r.choice(["", "explicit"]))


def gen(rng, k):
    g = G(rng)
    for _ in range(rng.randint(1, 3)):
        a = g.image()
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.image(dt=a["dt"], shape=(a["nx"], a["ny"]), small=a["small"])
    last = None
    for _ in range(rng.choice([8, 14, 22])):
        t = rng.random()
        if t < 0.12:
            # write again what was read
            i = len(g.ims) + rng.randint(1, 3)
            f = rng.choice(["a.fits", "b.fits", "c.fits.fz"])
            g.ev(rng.choice(["write", "write", "writem", "see"]), [i], f=f, how=rng.choice(["", "explicit"]), clob=rng.random() < 0.8)
            last = (f, 0, "auto", "write")
        elif t < 0.17 and g.lists < 2:
            g.ev("list")
            g.lists += 1
        elif t < 0.5:
            last = g.write()
        elif t < 0.85:
            g.read(last)
        elif t < 0.9 and g.lists:
            f = rng.choice(list(EXT))
            l = rng.randint(1, g.lists)
            comp = rng.choice([c for c in COMPS[EXT[f]]])
            if EXT[f] == "fz" or comp in W_TILES and rng.random() < 0.6:
                comp = "auto"
            g.ev("writef", f=f, l=l, comp=comp, clob=rng.random() < 0.75, dir=rng.random() < 0.3)
            if comp not in W_TILES:
                last = (f, 0, comp, "writef")
        elif t < 0.94:
            op, as_ = rng.choice([("write", [1]), ("writem", [1]), ("writec", [1]), ("read", []), ("readm", []), ("readc", [])])
            if op[0] != "w" or g.ims[0]["dt"][0] != "c":
                x = rng.choice(["both", "neither", "bad"])
                g.ev(op, as_, f="a.fits", comp="zip" if x == "bad" else "auto", how="" if x == "bad" else x)
        else:
            g.ev("see", [rng.randint(1, len(g.ims))])
    for i in range(len(g.ims)):
        g.ev("see", [i + 1])
    return g.H


W_TILES = ("rice", "gzip_tile", "plio", "hcompress")


def check(c):
    quick = c.tier == "quick"
    c.model_check("FitsMC", "FitsMC.cfg" if quick else "FitsMC3.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 19)
    c.conform("FitsTrace", W.run, [gen(rng, k) for k in range(400 if quick else 6000)])


if __name__ == "__main__":
    vlib.main(PID, check)
