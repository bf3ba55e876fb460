"""Interpolation kernels and images turned into profiles."""
import random

import interpdrv
import vlib

PID = "P16"
NAMES = ["Delta", "Nearest", "Linear", "Cubic", "Quintic", "Sinc", "Lanczos"]


class Gen:
    def __init__(self, rng):
        self.rng, self.H, self.N = rng, [], 0

    def u(self, a, b, d=4):
        return str(round(self.rng.uniform(a, b), d))

    def ev(self, op, a=0, b=0, d=0, s="", c="", n=(), px=(), jac=(), kw=(), gs=(), mode="eager", how="class"):
        self.H.append(dict(op=op, a=a, b=b, d=d, s=s, c=str(c), n=[str(x) for x in n], px=list(px), jac=list(jac), kw=[[k, str(v)] for k, v in kw],
                           gs=[list(x) for x in gs], mode=mode, how=how))
        if op in ("kern", "kgs", "img", "ii", "iigs", "tr"):
            self.N += 1
            return self.N

    def mode(self, *more):
        return self.rng.choice(["eager", "eager", "flat", "copy", "deep", "pickle", "jit"] + list(more))

    # ---- kernels
    def kern(self, names=NAMES, acc=True):
        r = self.rng
        s = r.choice(list(names) + ["Lanczos"])
        n = [r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 30])] if s == "Lanczos" else []
        c = r.choice(["T", "F", ""]) if s == "Lanczos" else ""
        kw = []
        if acc and r.random() < 0.4:
            kw.append(["kvalue_accuracy", r.choice(["1e-3", "1e-4", "1e-6", "3e-4"])])
        if s == "Sinc" and acc:
            kw = [["kvalue_accuracy", r.choice(["1e-2", "1e-3", "3e-3"])]]
        return self.ev("kern", s=s, n=n, c=c, kw=kw, how=r.choice(["class", "name", "Name", "NAME"]) if s != "Sinc" else r.choice(["class", "name"]))


def kernels(g):
    r = g.rng
    for _ in range(3):
        k = g.kern()
        h = [q for q in g.H if q["op"] == "kern"][-1]
        n = int(h["n"][0]) if h["n"] else 3
        xs = [g.u(-n - 1, n + 1) for _ in range(6)] + [g.u(-1, 1) for _ in range(3)] + [r.choice(["0", "1", "-2", "3", str(n), "0.5", "-1.5"]) for _ in range(3)]
        if h["s"] == "Delta":
            xs = [g.u(-1e-5, 1e-5, 8) for _ in range(3)] + xs
        g.ev("xval", a=k, n=xs, mode=g.mode(), how=r.choice(["np", "class"]), s=r.choice(["", "", "each"]))
        g.ev("kval", a=k, n=[g.u(-7, 7) for _ in range(6)] + [g.u(-0.5, 0.5)] + [g.u(-30, 30)],
             mode=g.mode(), how=r.choice(["np", "class"]), s=r.choice(["", "", "each"]))
        g.ev("units", a=k, n=[r.randint(1, 6)] if r.random() < 0.5 else [])
        g.ev("parts", a=k, mode=g.mode())
        if r.random() < 0.1:
            g.ev(r.choice(["xval", "kval"]), a=k, n=["0.1", "0.2"], s="2d")
        q = k
        if r.random() < 0.5:
            q = g.ev("kgs", a=k, kw=[["kvalue_accuracy", r.choice(["1e-5", "1e-4", "2e-3"])]], how=r.choice(["class", "obj"]), mode=r.choice(["eager", "pickle"]))
            g.ev("keq", a=k, b=q, mode=g.mode())
        if r.random() < 0.5:
            g.H.append(dict(h))
            g.N += 1
            g.ev("keq", a=k, b=g.N, mode=g.mode())
    ks = [i + 1 for i, x in enumerate([q for q in g.H if q["op"] in ("kern", "kgs")])]
    for _ in range(3):
        g.ev("keq", a=r.choice(ks), b=r.choice(ks), mode=g.mode())
    if r.random() < 0.15:
        g.ev("kern", s=r.choice(["Quadratic", "Lanczos", "gaussian"]), how="name")


def pixels(g, nx, ny, sign=False):
    r = g.rng
    t = r.random()
    if t < 0.3:
        return [g.u(0, 9) for _ in range(nx * ny)]
    if t < 0.45 and sign:
        return [g.u(-3, 9) for _ in range(nx * ny)]
    import math

    w, e, a, cx, cy = r.uniform(0.6, 2), r.uniform(0.5, 2), r.uniform(1, 30), (nx - 1) / 2 + r.uniform(-1, 1), (ny - 1) / 2 + r.uniform(-1, 1)
    s = -1 if sign and r.random() < 0.1 else 1
    return [str(round(s * a * math.exp(-((i - cx) ** 2 * e + (j - cy) ** 2 / e) / w / w / 2), 6)) for j in range(ny) for i in range(nx)]


def image(g, lo=3, hi=8, sign=True):
    r = g.rng
    nx, ny = r.randint(lo, hi), r.randint(lo, hi)
    if r.random() < 0.4:
        ny = nx
    kw, jac = [], []
    if r.random() < 0.6:
        kw.append(["scale", g.u(0.3, 2)])
    elif r.random() < 0.8:
        jac = jacobian(g)
        if r.random() < 0.4:
            kw.append(["wtype", "affine"])
    px = pixels(g, nx, ny, sign)
    if r.random() < 0.1:
        kw.append(["dtype", "f4"])
        px = [str(round(float(p) * 8) / 8) for p in px]
        px[0] = "3.0"
    return g.ev("img", n=[nx, ny, r.randint(-9, 9), r.randint(-9, 9)], px=px, kw=kw, jac=jac, s="const" if r.random() < 0.1 else "")


def jacobian(g):
    r = g.rng
    f = -1 if r.random() < 0.3 else 1
    return [str(round(f * r.uniform(0.3, 1.5), 4)), g.u(-0.25, 0.25), g.u(-0.25, 0.25), g.u(0.3, 1.5)]


def options(g, im, raw=False):
    r = g.rng
    kw, jac, b, d, s, c, gs = [], [], 0, 0, "", "", []
    h = [q for q in g.H if q["op"] in ("kern", "kgs", "img", "ii", "iigs", "tr")][im - 1]
    bare = not h["jac"] and "scale" not in dict(h["kw"])
    nl = False
    if r.random() < 0.75:
        s = r.choice(["Nearest", "Linear", "Cubic", "Quintic", "Lanczos", "Lanczos"])
        if s == "Lanczos":
            kw += [["xn", r.choice([2, 3, 4, 5, 7])]]
            if r.random() < 0.5:
                kw.append(["xdc", r.choice("TF")])
    if r.random() < 0.5:
        c = r.choice(["Nearest", "Linear", "Cubic", "Quintic", "Lanczos"])
        if c == "Lanczos":
            kw += [["kn", r.choice([3, 5])], ["kdc", r.choice("TF")]]
    if r.random() < 0.4:
        kw += [["ox", g.u(-2, 2)], ["oy", g.u(-2, 2)], ["ohow", r.choice(["tuple", "pos"])]]
    if r.random() < 0.25:
        kw.append(["utc", r.choice("TF")])
    if r.random() < 0.35:
        gs.append(r.choice([["folding_threshold", r.choice(["0.02", "0.1", "0.3"])], ["maxk_threshold", r.choice(["0.01", "0.05", "0.2"])], ["kvalue_accuracy", r.choice(["1e-2", "1e-4"])]]))
    if raw:
        kw.append(["raw", "T"])
        if r.random() < 0.5:
            kw.append(["force_stepk", g.u(0.1, 0.9)])
        if r.random() < 0.5:
            kw.append(["force_maxk", g.u(1, 9)])
        return dict(kw=kw, s=s, c=c, gs=gs)
    if r.random() < 0.4:
        kw.append(["norm", r.choice(["flux", "f", "sb", "SB", "surface brightness", "Surface Brightness", "F"])])
    if r.random() < 0.35:
        kw.append(["flux", r.choice([g.u(0.5, 90), "-" + g.u(1, 9)])])
    if r.random() < 0.35:
        kw.append(["pad", r.choice(["1.0", "0.5", "2.0", "3.3", "1.1", "6.0"])])
    if bare or r.random() < 0.25:
        if r.random() < 0.6:
            kw.append(["scale", g.u(0.3, 2)])
        else:
            jac = jacobian(g)
    if r.random() < 0.3:
        kw.append(["stepk", r.choice(["F", "T", "0.5", "0.9", "1.4"])])
    if r.random() < 0.3:
        kw.append(["maxk", r.choice(["F", "T", "1.1", "2.0"])])
    return dict(kw=kw, jac=jac, s=s, c=c, gs=gs)


def pts(g, k, s):
    return [g.u(-s, s) for _ in range(2 * k)]


def visit(g, o, deep=True):
    r = g.rng
    if r.random() < 0.8:
        g.ev("xv", a=o, n=pts(g, 4, r.choice([1, 3, 6])), mode=g.mode("jit"))
    if r.random() < 0.8:
        g.ev("kv", a=o, n=pts(g, 3, r.choice([0.3, 2, 4, 9])), mode=g.mode("jit"))
    if r.random() < 0.3:
        g.ev("draw", a=o, n=[r.randint(3, 6), r.randint(3, 6), g.u(0.3, 1.2)], mode=g.mode())
    if r.random() < 0.15:
        g.ev("kdraw", a=o, n=[r.randint(2, 4), r.randint(2, 4), g.u(0.2, 1.2)], mode=g.mode())


def images(g):
    r = g.rng
    im = image(g)
    g.im = im
    opt = options(g, im, raw=False)
    if r.random() < 0.12:
        k = g.kern(["Linear", "Cubic", "Quintic", "Nearest", "Lanczos"])
        opt["b"], opt["s"] = k, ""
    o = g.ev("ii", a=im, how=r.choice(["name", "NAME"]), **opt)
    const = g.H[0]["s"] == "const"
    if not const and r.random() < 0.25:
        g.ev("grad", a=o, b=o, n=pts(g, 1, 1.5))
    if not const and r.random() < 0.35:
        g.ev("edit", a=im, s=r.choice(["value", "fill", "move"]), n=[0, 1, "55.5"])
    visit(g, o)
    if r.random() < 0.5:
        g.ev("look", a=o, mode=r.choice(["eager", "flat", "copy", "deep", "pickle"]))
    q = o
    for _ in range(r.choice([0, 1, 2])):
        s = r.choice(["shift", "rotate", "dilate", "expand", "shear", "transform", "scaleflux"])
        n = {"shift": lambda: pts(g, 1, 1.5), "rotate": lambda: [g.u(-3, 3)], "dilate": lambda: [g.u(0.5, 2)], "expand": lambda: [g.u(0.5, 2)],
             "shear": lambda: pts(g, 1, 0.4), "transform": lambda: jacobian(g), "scaleflux": lambda: [g.u(-2, 3)]}[s]()
        q = g.ev("tr", a=q, s=s, n=n)
    if q != o:
        visit(g, q)
    if r.random() < 0.3:
        gs = [r.choice([["folding_threshold", r.choice(["0.03", "0.2"])], ["maxk_threshold", r.choice(["0.02", "0.3"])], ["kvalue_accuracy", "1e-4"]])]
        q = g.ev("iigs", a=o, gs=gs, mode=r.choice(["eager", "flat", "pickle"]))
        visit(g, q)
    if r.random() < 0.3:
        if r.random() < 0.5:
            q = g.ev("ii", a=im, how="name", **opt) if not any(h["op"] == "edit" for h in g.H) else o
            g.ev("ieq", a=o, b=q, mode=r.choice(["eager", "flat", "copy", "deep", "pickle"]))
        elif not any(h["op"] == "edit" for h in g.H):
            kw = [x for x in opt["kw"] if x[0] not in ("flux",)]
            q = g.ev("ii", a=im, how="name", **dict(opt, kw=kw + [["flux", "777.5"]]))
            g.ev("ieq", a=o, b=q, s="differ")


def raws(g):
    r = g.rng
    nx, ny = r.randint(3, 7), r.randint(3, 7)
    im = g.ev("img", n=[nx, ny, -(nx // 2), -(ny // 2)], px=pixels(g, nx, ny), kw=[["scale", g.u(0.3, 2)]] if r.random() < 0.7 else [], jac=[])
    if not g.H[-1]["kw"]:
        g.H[-1]["jac"] = jacobian(g)
    o = g.ev("ii", a=im, how="name", **options(g, im, raw=True))
    visit(g, o)


def errors(g):
    r = g.rng
    for _ in range(3):
        t = r.randint(0, 8)
        im = image(g, sign=False)
        opt = options(g, im)
        kw = opt["kw"]
        if t == 0:
            g.H[-1]["kw"] = [x for x in g.H[-1]["kw"] if x[0] != "dtype"] + [["dtype", r.choice(["i4", "c16"])]]
        elif t == 1:
            kw[:] = [x for x in kw if x[0] != "norm"] + [["norm", r.choice(["counts", "", "fluxes"])]]
        elif t == 2:
            opt["s" if r.random() < 0.5 else "c"] = r.choice(["quad", "Lanczosx"])
        elif t == 3:
            kw[:] = [x for x in kw if x[0] != "pad"] + [["pad", r.choice(["0.0", "-1.0"])]]
        elif t == 4:
            kw[:] = [x for x in kw if x[0] != "scale"] + [["scale", "0.7"]]
            opt["jac"] = jacobian(g)
        elif t == 5:
            kw[:] = [x for x in kw if x[0] != "scale"]
            opt["jac"] = []
            kw.append(["badwcs", "T"])
        elif t == 6:
            kw.append(r.choice([["pad_image", "T"], ["noise_pad", "1.0"], ["noise_pad_size", "5"], ["depixelize", "T"]]))
        elif t == 7:
            g.H[-1]["kw"], g.H[-1]["jac"] = [x for x in g.H[-1]["kw"] if x[0] == "dtype"], []
            kw[:] = [x for x in kw if x[0] != "scale"]
            opt["jac"] = []
        else:
            h = g.H[-1]
            if r.random() < 0.5:
                h["px"] = ["0.0"] * len(h["px"])
            else:
                h["n"], h["px"], h["s"] = ["0", "0", "0", "0"], [], ""
        if t == 6 and r.random() < 0.3:
            im = 0
        g.ev("ii", a=im, how="name", **opt)


def shots(g):
    r = g.rng
    im = image(g, sign=False)
    opt = options(g, im)
    opt["kw"] = [x for x in opt["kw"] if x[0] not in ("maxk", "stepk")]
    o = g.ev("ii", a=im, how="name", **opt)
    if r.random() < 0.4:
        o = g.ev("tr", a=o, s="shear", n=pts(g, 1, 0.3))
    g.ev("shoot", a=o, n=[20000] + pts(g, 4, r.choice([0.3, 1, 2])), c=r.randint(1, 10**6))


def pairs(g):
    """Two interpolated images added or convolved."""
    r = g.rng
    os = []
    for _ in range(2):
        im = image(g, sign=r.random() < 0.8)
        g.im = im
        o = g.ev("ii", a=im, how="name", **options(g, im))
        if r.random() < 0.4:
            o = g.ev("tr", a=o, s=r.choice(["shift", "transform", "scaleflux"]), n=None or [])
            h = g.H[-1]
            h["n"] = {"shift": lambda: pts(g, 1, 1.5), "transform": lambda: jacobian(g), "scaleflux": lambda: [g.u(-2, 3)]}[h["s"]]()
        os.append(o)
    for s in ("conv", "sum"):
        g.ev("comb", a=os[0], b=os[1], s=s, n=pts(g, 3, 2), mode=r.choice(["eager", "flat", "copy", "deep", "pickle"]))


def gen(rng, k):
    g = Gen(rng)
    if k % 10 in (2, 8):
        pairs(g)
        return g.H
    if k % 5 == 0:
        kernels(g)
    elif k % 10 == 1:
        errors(g)
    elif k % 10 == 3:
        raws(g)
    elif k % 10 == 7:
        shots(g)
    else:
        images(g)
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("InterpMC", "InterpMC.cfg" if quick else "InterpMC2.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 16)
    c.conform("InterpTrace", interpdrv.run, [gen(rng, k) for k in range(120 if quick else 3000)])


if __name__ == "__main__":
    vlib.main(PID, check)
