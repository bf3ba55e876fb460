"""Noise: replay histories of generators, noises and images on the real noise classes."""
import random

import vlib
import noisedrv as W

PID = "P10"


class G:
    def __init__(g, rng):
        g.r, g.H, g.hs, g.ns, g.ims, g.u = rng, [], [], [], [], 0

    def ev(g, op, h=0, gg=0, n=0, s="", k="", p=(), how="py", a=0, b=0, im=0, **kw):
        g.H.append(dict(op=op, h=h, g=gg, n=n, s=s, k=k, p=list(p), how=how, a=a, b=b, im=im, **kw))

    def f(g, lo, hi):
        return repr(g.r.randint(int(lo * 4), int(hi * 4)) / 4)

    def params(g, k):
        r, f = g.r, g.f
        return {"B": [], "U": [], "G": [f(-5, 5), r.choice([f(0.25, 4), "1.0"])], "Bi": [str(r.randint(1, 9)), "0.25"],
                "Po": [f(0.25, 30)], "W": [f(1, 4), f(0.5, 3)], "Ga": [f(0.5, 6), f(0.5, 3)], "C": [f(1, 9)]}[k]

    def dev(g, k=None):
        k = k or g.r.choice(list(W.NAMES))
        p = g.params(k)
        if g.hs and g.r.random() < 0.4:
            g.ev("newfrom", gg=g.r.randint(1, len(g.hs)), k=k, p=p)
        else:
            g.ev("new", s=str(g.r.choice([1, 2, 3, g.r.randint(1, 10**9)])), k=k, p=p)
        g.hs.append(k)
        return len(g.hs)

    def image(g, dt=None, nx=None, ny=None, const=False):
        r = g.r
        dt = dt or r.choice(["f8", "f8", "f8", "f4", "i4", "i2"])
        nx, ny = nx or r.choice([1, 2, 3, 4]), ny or r.choice([1, 2, 3])
        lv = r.choice(["flat", "mix", "neg", "zero", "big"])
        def v():
            x = {"flat": 7.0, "mix": r.randint(-40, 400) / 4, "neg": r.randint(-200, 8) / 4, "zero": 0.0, "big": float(r.randint(500, 20000))}[lv]
            return repr(float(int(x)) if dt[0] == "i" else x)
        g.ev("im", n=nx, k=dt, p=[v() for _ in range(nx * ny)], how="const" if const else "")
        g.ims.append([dt, nx, ny, const, lv])
        return len(g.ims)

    def made(g, k):
        g.hs.append("B")
        g.ns.append([k, len(g.hs)])
        return len(g.ns)

    def noise(g, k=None, im=None):
        r = g.r
        k = k or r.choice(["Gauss", "Poisson", "Poisson", "CCD", "CCD", "CCD", "Dev", "Var"])
        nx, p = 0, []
        if k == "Gauss":
            p = [r.choice([g.f(0.25, 9), "0.0", "1.0"])]
        elif k == "Poisson":
            p = [r.choice([g.f(0, 40), "0.0", str(float(r.randint(1, 900)))])]
        elif k == "CCD":
            p = [r.choice([g.f(0, 40), "0.0", "100.0"]), r.choice(["1.0", "2.0", "0.5", "0.0", "4.0", "-1.0"]), r.choice(["0.0", g.f(0.25, 9), "4.0"])]
        elif k == "Var":
            im = im or (r.randint(1, len(g.ims)) if g.ims else g.image())
            nx, ny = g.ims[im - 1][1:3]
            if r.random() < 0.1:
                nx, ny = r.choice([(ny, nx), (nx, ny + 1), (nx + 1, ny)])
            p = [g.f(0, 9) for _ in range(nx * ny)]
        if k == "Dev":
            c = [i + 1 for i, x in enumerate(g.hs) if x != "B"]
            h = r.choice(c) if c else g.dev(r.choice(["U", "G", "Po", "Bi", "W", "Ga", "C"]))
        elif g.hs and r.random() < 0.9:
            h = r.randint(1, len(g.hs))
        else:
            g.u += 1
            g.ev("nnew", k=k, p=p, n=nx, s="U%d" % g.u)
            return g.made(k)
        g.ev("nnew", h=h, k=k, p=p, n=nx)
        return g.made(k)

    def apply(g, a, im):
        r = g.r
        k, hn = g.ns[a - 1]
        if k in ("Poisson", "CCD") and r.random() < 0.75 or r.random() < 0.15:
            g.ev("learn", a=a, im=im, hn=hn)
            g.hs += ["B", "Po", "G"]
        jit = r.random() < 0.12 and not g.ims[im - 1][3]
        g.ev("apply", a=a, im=im, how="jit" if jit else r.choice(["apply", "add"]), hn=hn)
        if r.random() < 0.4:
            g.ev("pix", im=im)

    def derived(g, a):
        r = g.r
        k = g.ns[a - 1][0]
        op = r.choice(["wvar", "wscale", "mul", "rmul", "div"])
        g.ev(op, a=a, p=[r.choice(["4.0", "0.25", "2.0", "9.0", "1.0", g.f(0.25, 12)])])
        if k in ("Gauss", "Poisson", "CCD"):
            n = g.made(k)
            g.ev("attrs", a=n)
            g.ev("var", a=n)


def gen(rng, k):
    g = G(rng)
    for _ in range(rng.randint(1, 2)):
        g.dev()
    for _ in range(rng.randint(1, 2)):
        g.image()
    g.noise()
    for _ in range(rng.choice([8, 14, 22])):
        t = rng.random()
        a = rng.randint(1, len(g.ns))
        if t < 0.08:
            g.dev()
        elif t < 0.16 and len(g.ims) < 5:
            g.image(const=rng.random() < 0.08)
        elif t < 0.3 and len(g.ns) < 14:
            g.noise()
        elif t < 0.58:
            im = rng.randint(1, len(g.ims))
            if g.ns[a - 1][0] == "Var" and rng.random() < 0.8:
                im = g.image()
                a = g.noise("Var", im)
            g.apply(a, im)
        elif t < 0.65:
            c = [i + 1 for i, x in enumerate(g.ims) if x[0][0] == "f" and not x[3] and x[4] != "zero"]
            if c:
                g.ev("snr", a=a, im=rng.choice(c), p=[rng.choice(["5.0", "20.0", "100.0", g.f(1, 50)])], how=rng.choice("TF"))
        elif t < 0.71:
            g.ev(rng.choice(["var", "attrs"]), a=a)
        elif t < 0.79:
            g.derived(a)
        elif t < 0.87:
            how = rng.choice(["copy", "copyrng", "deepcopy", "pickle", "tree", "jit"])
            g.ev("ncopy", a=a, how=how, h=rng.randint(1, len(g.hs)) if how == "copyrng" else 0)
            n = g.made(g.ns[a - 1][0])
            g.ev("neq", a=a, b=n)
        elif t < 0.91:
            g.ev("neq", a=a, b=rng.randint(1, len(g.ns)))
        elif t < 0.95:
            h = rng.randint(1, len(g.hs))
            x = rng.random()
            if x < 0.3:
                g.ev("seed", h=h, s=str(rng.choice([1, 2, rng.randint(1, 10**9)])))
            elif x < 0.5:
                g.ev("dup", h=h)
                g.hs.append(g.hs[h - 1])
            elif x < 0.65:
                g.ev("discard", h=h, n=rng.randint(0, 5))
            elif g.hs[h - 1] != "B":
                g.ev(*rng.choice([("draw", h), ("gen", h, 0, 3)]))
        elif t < 0.98:
            w = rng.choice(["rng", "array", "base"])
            if w == "rng":
                k = rng.choice(["Gauss", "Poisson", "CCD", "Var"])
                g.ev("nbad", how=w, s="TypeError", k="CCD", p=["1.0", "1.0", "1.0"], g_=rng.choice("23"))
            elif w == "array":
                g.ev("nbad", how=w, s="TypeError", a=a, g_="")
            else:
                g.ev("nbad", how=w, s="NotImplementedError", h=1, g_=rng.choice("123456"))
        elif g.ns[a - 1][0] != "Var" and rng.random() < 0.5:
            g.ev("ndist", a=a, n=10000, p=[rng.choice(["0.0", "5.0", "100.0", "-3.0"])])
    # what the seeded streams deliver, from generators of their own
    for s in sorted({e["s"] for e in g.H if e["op"] in ("new", "seed")}):
        g.ev("new", s=s, k="U")
        g.hs.append("U")
        g.ev("gen", len(g.hs), 0, 120)
    # what every stream would deliver next, and every image
    for i in range(len(g.ns)):
        g.ev("newfrom", gg=g.ns[i][1], k="U")
        g.hs.append("U")
        g.ev("draw", h=len(g.hs))
    for i in range(len(g.ims)):
        g.ev("pix", im=i + 1)
    return g.H


def dists(rng):
    out = []
    for k in ("Gauss", "Poisson", "CCD", "Dev") * 3:
        g = G(rng)
        if k == "Dev":
            g.dev(rng.choice(["U", "G", "Po", "Bi", "W", "Ga", "C"]))
        a = g.noise(k)
        for o in ("0.0", "-6.0", g.f(1, 300)):
            g.ev("ndist", a=a, n=10000, p=[o])
        out.append(g.H)
    return out


def check(c):
    quick = c.tier == "quick"
    c.model_check("NoiseMC", "NoiseMC.cfg" if quick else "NoiseMC5.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 10)
    c.conform("NoiseTrace", W.run, dists(rng) + [gen(rng, k) for k in range(150 if quick else 4000)])


if __name__ == "__main__":
    vlib.main(PID, check)
