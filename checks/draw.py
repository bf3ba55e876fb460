"""Drawing: what, where and how much lands in the pixels."""
import random

import vlib
import drawdrv as W

PID = "P14"


def kws(g, target, method, nyq_ok, w):
    """target: image handle or 0; returns (kw, wcs handle)"""
    r = g.rng
    kw, d = [], 0
    if not target:
        t = r.random()
        if t < 0.4:
            kw += [["nx", r.randint(4, 13)], ["ny", r.randint(4, 13)]]
        elif t < 0.65:
            kw += [[k, v] for k, v in zip(["bx0", "bx1", "by0", "by1"], g.box())]
        if r.random() < 0.5:
            kw.append(["dtype", r.choice(["f4", "f8", "f8", "i4", "i2"])])
    t = r.random()
    if t < 0.35:
        d = r.choice(g.wcss) if g.wcss and r.random() < 0.5 else g.wcs()
    elif t < 0.75 or not nyq_ok:
        kw.append(["scale", g.u(0.3, 0.9)])
    elif t < 0.8:
        kw.append(["scale", r.choice(["0.0", "-1.0"])])
    if r.random() < 0.4:
        kw += [["ox", g.u(-2, 2)], ["oy", g.u(-2, 2)], ["ohow", r.choice(["tuple", "PositionD", "list", "array"])]]
    if r.random() < 0.25:
        f = r.choice(["tuple", "PositionD", "PositionI", "array"])
        c = [g.u(-3, 9), g.u(-3, 9)] if f != "PositionI" else [str(r.randint(-3, 9)) + ".0", str(r.randint(-3, 9)) + ".0"]
        kw += [["cx", c[0]], ["cy", c[1]], ["chow", f]]
    if r.random() < 0.25:
        kw.append(["true", r.choice(["F", "F", "T"])])
    for k in ("area", "exptime", "gain"):
        if r.random() < 0.2:
            kw.append([k, g.u(0.3, 4)])
    return kw, d


def mistake(g, kw, d, target):
    """one thing wrong; the call must be refused"""
    r = g.rng
    have = {k for k, _ in kw}
    c = r.choice(["gain", "phot", "wcs2", "img2", "half", "add0", "bounds2", "dtype", "undefb"])
    if c == "gain":
        kw = [x for x in kw if x[0] not in ("area", "gain", "exptime")] + [[r.choice(["area", "gain", "exptime"]), r.choice(["0.0", "-1.5"])]]
    elif c == "phot":
        kw = kw + [r.choice([["n_photons", 10], ["max_extra_noise", "0.1"], ["poisson_flux", "T"], ["rng", 5], ["maxN", 10], ["save_photons", "T"]])]
    elif c == "wcs2" and d and "scale" not in have:
        kw = kw + [["scale", "0.5"]]
    elif c == "img2" and target:
        kw = kw + r.choice([[["nx", 5], ["ny", 5]], [["bx0", 1], ["bx1", 4], ["by0", 1], ["by1", 4]], [["nx", 4]]])
    elif c == "half" and not target and not have & {"nx", "bx0"}:
        kw = kw + [[r.choice(["nx", "ny"]), 6]]
    elif c == "add0" and not target:
        kw = kw + [["add", "T"]]
    elif c == "bounds2" and not target and "nx" in have:
        kw = kw + [["bx0", 1], ["bx1", 4], ["by0", 1], ["by1", 4]]
    elif c == "undefb" and not target and not have & {"nx", "bx0"}:
        kw = kw + [["bx0", "none"]]
    elif c == "dtype" and target:
        kw = kw + [["dtype", r.choice(["f4", "f8", "i4"])]]
    return kw


def real(g, o, cls, fixed, composite):
    r = g.rng
    hard = cls in ("Box", "Pixel") and not composite
    m = r.choice(["auto", "auto", "auto", "fft", "fft", "no_pixel", "no_pixel", "sb", "sb", "real_space"])
    if hard and r.random() < 0.8:
        m = r.choice(["fft", "no_pixel", "sb"])
    im = 0
    if r.random() < 0.65:
        im = r.choice(g.imgs) if g.imgs and r.random() < 0.6 else g.image()
    direct = m in ("no_pixel", "sb") and composite != "conv"
    kw, d = kws(g, im, m, cls not in ("Moffat", "Spergel", "Box", "Pixel") and not composite, None)
    mode = "eager"
    if im and r.random() < 0.45:
        kw.append(["add", r.choice(["T", "T", "T", "F"])])
    if r.random() < 0.06:
        kw.append(["setup", "T"])
    elif r.random() < 0.06:
        kw = mistake(g, kw, d, im)
    elif im and (direct or fixed) and r.random() < 0.25 and g.H[[i for i, h in enumerate(g.H)][-1]] is not None:
        mode = "jit"
    src = next((h for h in g.H if h["op"] == "img" and False), None)
    if r.random() < 0.02:
        m = r.choice(["foo", "Auto"])
    # a traced call needs everything but numbers fixed beforehand
    if mode == "jit" and not okjit(g, im, kw, d):
        mode = "eager"
    a = g.ev("draw", a=o, b=im, d=d, s=m, c=r.choice(["named", ""]), kw=kw, px=g.spots(r.choice([3, 4, 6])), mode=mode)
    if mode == "jit":
        g.imgs.append(a)
    if im and r.random() < 0.4:
        g.ev("see", b=im, px=g.spots(3))


def okjit(g, im, kw, d):
    """the image is defined, has a flat wcs of its own or is given one"""
    n, k = 0, {a for a, _ in kw}
    made = {}
    for h in g.H:
        if h["op"] in ("see", "bad") or (h["op"] in ("draw", "kdraw") and h["b"] and h["mode"] != "jit"):
            continue
        n += 1
        made[n] = h
    h = made[im]
    if h["op"] != "img" or not h["n"] or h["c"] == "const":
        return False
    if d and made[d]["c"] == "FitsWCS":
        return False
    if not d and "scale" not in k:
        return bool(h["d"]) and made[h["d"]]["c"] != "FitsWCS"
    return True


def fourier(g, o, cls):
    r = g.rng
    im = 0
    kw, d = [], 0
    if r.random() < 0.55:
        im = r.choice(g.kims) if g.kims and r.random() < 0.5 else 0
        if not im:
            w = g.ev("wcs", c="PixelScale", n=[g.u(0.05, 0.6), "0", "0", "0", "0"]) if r.random() < 0.5 else 0
            b = [r.choice([1, -3, -5])] * 4
            x, y = r.choice([(-3, 3), (-2, 2), (-4, 4), (1, 6), (1, 5), (-2, 3), (4, 9)]), r.choice([(-3, 3), (-2, 2), (1, 6), (1, 5), (-3, 2)])
            n = [str(v) for v in (x + y)] + [str(r.randint(-3, 3)), str(r.randint(-1, 1)), str(r.randint(0, 2))]
            im = g.ev("img", s=r.choice(["c16", "c16", "c8"] + (["f8"] if r.random() < 0.2 else [])), n=[] if r.random() < 0.1 else n, d=w,
                      c="const" if r.random() < 0.06 else "", px=g.spots(2))
            g.kims.append(im)
        if r.random() < 0.3:
            kw.append(["add", "T"])
            if r.random() < 0.6:
                kw.append(["recenter", "F"])
    else:
        t = r.random()
        if t < 0.5 or cls in ("Box", "Pixel", "Moffat", "Spergel"):
            kw += [["nx", r.randint(3, 9)], ["ny", r.randint(3, 9)]]
        elif t < 0.75:
            kw += [[k, v] for k, v in zip(["bx0", "bx1", "by0", "by1"], g.box())]
    if r.random() < 0.5:
        kw.append(["scale", r.choice([g.u(0.05, 0.8), g.u(0.05, 0.8), "0.0"])])
    if r.random() < 0.3 and not any(k == "recenter" for k, _ in kw):
        kw.append(["recenter", r.choice(["T", "F"])])
    if r.random() < 0.06:
        kw.append(["setup", "T"])
    elif r.random() < 0.08:
        kw += r.choice([[["nx", 5]], [["bx0", "none"]], [["nx", 4], ["ny", 4], ["bx0", 1], ["bx1", 4], ["by0", 1], ["by1", 4]], [["add", "T"]]])
        kw = list({k: [k, v] for k, v in kw}.values())
    g.ev("kdraw", a=o, b=im, kw=kw, px=g.spots(r.choice([3, 5])))
    if im and r.random() < 0.4:
        g.ev("see", b=im, px=g.spots(2))


BAD = ["wcsnum", "imarr", "offnum", "offone", "kw", "kimarr", "methodnum", "real", "fft", "cennum"]


def gen(rng, k):
    g = W.Gen(rng)
    g.kims = []
    for _ in range(rng.choice([1, 1, 2])):
        fixed = rng.random() < 0.3
        cls = rng.choice(["Gaussian", "Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction"])
        o = g.prof(fixed, cls)
        comp = ""
        if rng.random() < 0.2 or cls == "DeltaFunction":
            p = g.prof(fixed, rng.choice(["Gaussian", "Exponential"]))
            comp = "conv" if cls == "DeltaFunction" else rng.choice(["sum", "conv"])
            o = g.ev(comp, hs=[o, p], c="args")
            if rng.random() < 0.3:
                o = g.tr(o, ["shear", "shift", "rotate"])
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.22:
                fourier(g, o, cls if not comp else "Box")
            else:
                real(g, o, cls, fixed, comp)
        if rng.random() < 0.15:
            im = g.image(undef=0, const=0)
            g.ev("bad", a=o, b=im, c=rng.choice(BAD))
            g.ev("see", b=im, px=g.spots(3))
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("DrawMC", "DrawMC.cfg" if quick else "DrawMC2.cfg", timeout=800 if quick else 3000)
    rng = random.Random(vlib.SEED * 7919 + 14)
    c.conform("DrawTrace", W.run, [gen(rng, k) for k in range(72 if quick else 2400)])


if __name__ == "__main__":
    vlib.main(PID, check)
