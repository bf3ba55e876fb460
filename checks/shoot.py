"""Photon shooting: how many photons, how large, where they fall and land."""
import os
import random
import sys

import vlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import interp
import interpdrv
import shootdrv as W

PID = "P15"


def obj(g, flux=None, deep=True):
    """a profile that can be shot (parts of a sum of one sign)"""
    r = g.rng
    t = r.random()
    if t < 0.45 or not deep:
        return g.shape(g.leafs(flux))
    sgn = "" if r.random() < 0.8 else "-"
    if t < 0.75:
        a = g.ev("sum", hs=[g.tr(g.leafs(sgn + g.u(2, 40)), ["shift", "shear", "rotate", "dilate"]) for _ in range(r.choice([2, 2, 3]))], c=r.choice(["args", "list", "Add"]))
    else:
        a = g.ev("conv", hs=[g.tr(g.leafs(g.u(1, 5)), ["shift", "shear", "rotate"]) for _ in range(r.choice([2, 2, 3]))], c=r.choice(["args", "list", "Convolve"]))
    if r.random() < 0.15:
        if t >= 0.75:
            sgn = ""
        b = g.leafs(sgn + g.u(2, 9))
        a = g.ev("sum", hs=[a, b], c="list")
    return g.shape(a)


def waves(g, k):
    r = g.rng
    out = []
    for _ in range(k):
        s = r.choice([0.2, 0.7, 2.0])
        out += [g.u(-s, s), g.u(-s, s)]
    return out


def shots(g):
    r = g.rng
    leaf = g.leafs()
    spg = g.H[-1]["s"] == "Spergel"
    n, s = r.randint(1, 6), r.randint(1, 10**6)
    if r.random() < 0.05:
        n = 0
    g.ev("pn", a=leaf)
    g.ev("shoot", a=leaf, n=[n], c=s)
    for _ in range(r.randint(1, 2)):
        a = g.tr(leaf, [r.choice(["shear", "rotate", "shift", "scaleflux", "dilate", "magnify", "lens", "expand", "transform", "neg", "mul"])])
        a = g.shape(a)
        g.ev("shoot", a=a, n=[n], c=s, mode=r.choice(["eager", "eager", "jit"]) if not spg else "eager")
        g.ev("pn", a=a)
    g.ev("shoot", a=leaf, n=[n], c=s, mode=r.choice(["eager", "jit"]) if not spg else "eager")
    g.ev("shoot", a=leaf, n=[n], c=s, s="twice")
    if r.random() < 0.1:
        d = g.ev("deconv", a=leaf)
        g.ev("shoot", a=d, n=[3], c=s)


def spread(g, n=20000):
    r = g.rng
    a = obj(g)
    g.ev("pn", a=a)
    s = r.randint(1, 10**6)
    g.ev("ecf", a=a, n=[n] + waves(g, 4), c=s, mode="jit" if r.random() < 0.1 else "eager")


def budget(g, phot=False):
    r = g.rng
    kw = [["rng", r.randint(1, 10**6)]]
    t = r.random()
    if t < 0.4:
        kw.append(["n_photons", r.choice([str(r.randint(1, 30)), g.u(1, 20), "0" if not phot else "4"])])
    if r.random() < 0.45:
        kw.append(["poisson_flux", r.choice("TF")])
    if r.random() < 0.35:
        kw.append(["max_extra_noise", g.u(0.01, 2)])
    return kw


def makes(g):
    r = g.rng
    for _ in range(2):
        a = obj(g, flux=r.choice([g.u(3, 60), "-" + g.u(3, 60), g.u(0.1, 2), g.u(200, 3000), "0.0" if r.random() < 0.3 else "1.0"]), deep=r.random() < 0.3)
        for _ in range(r.choice([1, 2])):
            kw = budget(g)
            mode = "eager"
            if r.random() < 0.3:
                kw.append(["fixed", "5000"])
                mode = r.choice(["eager", "jit"])
            elif "n_photons" in dict(kw) and r.random() < 0.2:
                mode = "jit"
            g.ev("make", a=a, kw=kw, mode=mode)
            if r.random() < 0.3:
                g.ev("make", a=a, kw=kw, mode=mode)
    if r.random() < 0.1:
        g.ev("make", a=g.ev("deconv", a=g.leafs("90.0")), kw=budget(g))


def place(g, im):
    r = g.rng
    kw, d = [], 0
    if not im:
        if r.random() < 0.55:
            kw += [["nx", r.randint(4, 10)], ["ny", r.randint(4, 10)]]
        else:
            kw += [[k, v] for k, v in zip(["bx0", "bx1", "by0", "by1"], g.box(4, 10))]
        if r.random() < 0.6:
            kw.append(["dtype", r.choice(["f4", "f8", "f8", "i4", "i2"])])
    if r.random() < 0.4:
        d = r.choice(g.wcss) if g.wcss and r.random() < 0.5 else g.wcs()
    elif r.random() < 0.8:
        kw.append(["scale", g.u(0.3, 0.9)])
    if r.random() < 0.45:
        kw += [["ox", g.u(-2, 2)], ["oy", g.u(-2, 2)], ["ohow", r.choice(["tuple", "PositionD", "list"])]]
    if r.random() < 0.2:
        kw += [["cx", g.u(-3, 9)], ["cy", g.u(-3, 9)], ["chow", "tuple"]]
    if r.random() < 0.2:
        kw.append(["true", "F"])
    for k in ("area", "exptime", "gain"):
        if r.random() < 0.25:
            kw.append([k, g.u(0.4, 3)])
    return kw, d


def draws(g):
    r = g.rng
    a = obj(g, flux=r.choice([g.u(5, 40), g.u(5, 40), "-" + g.u(5, 20), g.u(1, 4)]), deep=r.random() < 0.35)
    im = g.image(dts=("f4", "f8", "f8", "i4", "i2"), undef=0.03, const=0.05, lo=4, hi=10) if r.random() < 0.6 else 0
    for i in range(r.choice([1, 2, 3])):
        kw, d = place(g, im)
        kw += budget(g, True)
        t = r.random()
        mode, s, n, hs = "eager", "", [], []
        if t < 0.5:
            kw.append(["save_photons", "T"])
            s = "full" if "n_photons" in dict(kw) else ""
            if r.random() < 0.3:
                kw = [x for x in kw if x[0] != "n_photons"] + [["n_photons", "4000"]]
                s, n = "", waves(g, 2)
                if r.random() < 0.4:
                    hs = [g.leafs(g.u(0.7, 1.3), size=(0.3, 0.8)) for _ in range(r.choice([1, 1, 2]))]
        elif t < 0.85:
            kw.append(["maxN", r.choice([3, 7, 20, 100])])
            if r.random() < 0.4:
                kw.append(["fixed", r.choice([2, 5, 30])])
        if r.random() < 0.05:
            kw = W.W and kw + [r.choice([["maxN", 10], ["gain", "-1.0"], ["nx", 3], ["add", "T"], ["bx0", "none"]])]
        elif im and r.random() < 0.5:
            kw.append(["add", "T"])
        if im and "maxN" in dict(kw) and len(dict(kw)) == len(kw) and r.random() < 0.3 and g.okim(im, kw, d):
            mode = "jit"
        if len(dict(kw)) < len(kw):
            seen = {}
            kw = [x for x in kw if not (x[0] in seen or seen.setdefault(x[0], 1) is None)]
        x = g.ev("phot", a=a, b=im, d=d, s=s, n=n, kw=kw, mode=mode, hs=hs)
        if r.random() < 0.2 and not im:
            g.ev("phot", a=a, b=0, d=d, s=s, n=n, kw=kw, mode=mode, hs=hs)
        if im and r.random() < 0.2:
            g.ev("see", b=im)
    if r.random() < 0.06:
        g.ev("phot", a=g.ev("deconv", a=a), b=im, kw=[["n_photons", 5], ["rng", 3]] + ([] if im else [["nx", 5], ["ny", 5]]) + [["scale", "0.4"]])
        if im:
            g.ev("see", b=im)


class Gen(W.Gen):
    def okim(g, im, kw, d):
        import draw as C

        class F:
            pass

        made, n = {}, 0
        for h in g.H:
            if W.news(h):
                n += 1
                made[n] = h
        h = made[im]
        if h["op"] != "img" or not h["n"] or h["c"] == "const" or (d and made[d]["c"] == "FitsWCS"):
            return False
        if not d and "scale" not in dict(kw):
            return bool(h["d"]) and made[h["d"]]["c"] != "FitsWCS"
        return True


def known(rng):
    """the same for every seed: histories of the known findings"""
    g = Gen(random.Random(5))
    a = g.ev("leaf", n=["1.0", "3.0"], s="Gaussian", c="sigma")
    b = g.ev("leaf", n=["0.5", "-1.0"], s="Gaussian", c="sigma")
    m = g.ev("sum", hs=[a, b], c="list")
    g.ev("ecf", a=m, n=[20000, "0.5", "0.2", "1.0", "-0.7"], c=77)
    out = [g.H]
    g = Gen(random.Random(6))
    a = g.ev("leaf", n=["1.0", "50.0"], s="Gaussian", c="sigma")
    g.ev("make", a=a, s="ideal", kw=[["rng", 1], ["poisson_flux", "F"], ["max_extra_noise", "1.0"]])
    return out + [g.H]


def gen(rng, k):
    g = Gen(rng)
    t = k % 10
    g.spergel = t < 5 or k % 50 == 9
    if t < 3:
        shots(g)
    elif t < 5:
        spread(g)
    elif t < 7:
        makes(g)
    else:
        draws(g)
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("ShootMC", "ShootMC.cfg" if quick else "ShootMC2.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 15)
    c.conform("ShootTrace", W.run, known(rng) + [gen(rng, k) for k in range(100 if quick else 3000)])
    # profiles that shoot negative photons of their own: interpolated images, alone and together
    def images(k):
        g = interp.Gen(rng)
        (interp.shots if k % 4 == 0 else interp.pairs)(g)
        return g.H
    c.conform("InterpTrace", interpdrv.run, [images(k) for k in range(32 if quick else 800)])


if __name__ == "__main__":
    vlib.main(PID, check)
