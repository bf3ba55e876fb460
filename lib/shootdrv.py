"""Replay shooting histories on the real profiles and record them."""
import warnings
from contextlib import nullcontext

import drawdrv as W
import profdrv as D
from vlib import num, nums, err_of

QUIET = {"see", "pn", "shoot", "ecf", "make"}


def news(h):
    return h["op"] not in QUIET and not (h["op"] == "phot" and h["b"] and h["mode"] != "jit")


def imlook(im):
    import numpy as np

    if not im.bounds.isDefined():
        return ["F", W.dname(im.dtype)]
    b = im.bounds
    return nums([b.xmin, b.xmax, b.ymin, b.ymax]) + [W.dname(im.dtype)] + nums(np.array(im.array).ravel())


def summary(p):
    """number, total of sizes, total, largest and smallest size of the photons that count"""
    import numpy as np

    f = np.asarray(p.flux)[~np.asarray(p._nokeep)]
    a = np.abs(f)
    if len(f) == 0:
        return ["0"] * 5
    return nums([len(f), a.sum(), f.sum(), a.max(), a.min()])


def waves(p, ks):
    import numpy as np

    x, y, f = np.asarray(p.x), np.asarray(p.y), np.asarray(p.flux)
    r = []
    for i in range(0, len(ks), 2):
        ph = float(ks[i]) * x + float(ks[i + 1]) * y
        r += [num(np.sum(f * np.cos(ph))), num(-np.sum(f * np.sin(ph)))]
    return r


def fixed(n):
    from jax_galsim.photon_array import fixed_photon_array_size

    return fixed_photon_array_size(int(n)) if n else nullcontext()


def kwargs(jg, ev, w):
    kw = W.kwargs(jg, ev, w)
    if "n_photons" in dict(ev["kw"]):
        v = dict(ev["kw"])["n_photons"]
        kw["n_photons"] = int(v) if v == str(int(float(v))) else float(v)
    return kw


def shoot(jg, h, o):
    import jax
    import numpy as np

    n = int(float(h["n"][0]))
    if h["mode"] == "jit":
        p = jax.jit(lambda o, r: o.shoot(n, rng=r))(o, jg.BaseDeviate(int(h["c"])))
    else:
        r = jg.BaseDeviate(int(h["c"]))
        p = o.shoot(n, rng=r)
        if h["s"] == "twice":
            p = o.shoot(n, rng=r)
    return p


def make(jg, h, o):
    import jax

    kw = kwargs(jg, h, None)
    fix = kw.pop("fixed", None) or dict(h["kw"]).get("fixed")
    with fixed(fix):
        if h["mode"] == "jit":
            rng = kw.pop("rng")
            return jax.jit(lambda o, r: o.makePhot(rng=r, **kw))(o, rng)
        return o.makePhot(**kw)


def phot(jg, ev, hs, o, im, w):
    with fixed(dict((a, b) for a, b in ev["kw"]).get("fixed")):
        return _phot(jg, ev, hs, o, im, w)


def _phot(jg, ev, hs, o, im, w):
    import jax

    kw = kwargs(jg, ev, w)
    if ev["hs"]:
        kw["photon_ops"] = [hs[i - 1] for i in ev["hs"]]
        if ev["how"] == "np":
            kw["photon_ops"] = tuple(kw["photon_ops"])
    if im is not None:
        kw["image"] = im
    if ev["mode"] == "jit":
        kw.pop("image")
        rng = kw.pop("rng")
        return jax.jit(lambda a, b, r: a.drawImage(image=b, method="phot", rng=r, **kw))(o, im, rng)
    return o.drawImage(method="phot", **kw)


def run(history, emit):
    import numpy as np
    import jax_galsim as jg

    warnings.simplefilter("ignore")
    hs = []
    for h in history:
        ev = dict(h, obs=[], err=[])
        op, new = h["op"], None
        refs = [x for x in [h["a"], h["b"], h["d"]] + h["hs"] if x]
        get = lambda k: hs[h[k] - 1] if h[k] else None
        try:
            if not any(hs[x - 1] is None for x in refs):
                o = get("a")
                if op == "wcs":
                    new = W.mkwcs(jg, h)
                elif op == "img":
                    new = W.mkimg(jg, h, get("d"))
                    ev["obs"] = imlook(new)
                elif op == "see":
                    ev["obs"] = imlook(get("b"))
                elif op == "pn":
                    ev["obs"] = nums([o.positive_flux, o.negative_flux])
                elif op == "shoot":
                    p = shoot(jg, h, o)
                    ev["obs"] = [num(len(p.x))] + nums(np.asarray(p.x)) + nums(np.asarray(p.y)) + nums(np.asarray(p.flux))
                elif op == "ecf":
                    p = shoot(jg, h, o)
                    a = np.abs(np.asarray(p.flux))
                    ev["obs"] = nums([np.asarray(p.flux).sum(), a.max(), a.min()]) + waves(p, h["n"][1:])
                elif op == "make":
                    p = make(jg, h, o)
                    s = summary(p)
                    ev["obs"] = [num(p.x.shape[0]), s[0], s[3], s[4], s[1], s[2]]
                elif op == "phot":
                    im, kw = get("b"), dict((a, b) for a, b in h["kw"])
                    new = phot(jg, h, hs, o, im, get("d"))
                    save = kw.get("save_photons") == "T"
                    p = new.photons if save else None
                    b = new.bounds
                    px = np.array(new.array)
                    ev["obs"] = ["T" if new is im else "F", num(new.added_flux)] + (summary(p) if save else ["0"] * 5) \
                        + (waves(p, h["n"]) if save else ["0"] * len(h["n"])) + nums([b.xmin, b.xmax, b.ymin, b.ymax]) + [W.dname(new.dtype)]
                    if px.size <= 400:
                        ev["obs"] += [num(np.sum(px.astype(float)))] + nums(px.ravel())
                        if save and h["s"] == "full":
                            ev["obs"] += nums(np.asarray(p.x)) + nums(np.asarray(p.y)) + nums(np.asarray(p.flux))
                else:
                    new = D.build(jg, hs, h)
        except Exception as e:
            ev["err"] = err_of(e)
            ev["obs"] = []
        if news(h):
            hs.append(new)
        emit(ev)


class Gen(W.Gen):
    spergel = True  # costs a long compilation in a compiled draw

    def ev(self, op, a=0, b=0, d=0, hs=(), n=(), s="", c="", gs=(), mode="eager", how=None, kw=(), px=(), hdr=()):
        self.H.append(dict(op=op, a=a, b=b, d=d, hs=list(hs), n=[str(x) for x in n], s=s, c=str(c), gs=[list(x) for x in gs], mode=mode,
                           how=how or self.rng.choice(["py", "py", "np", "jnp", "int"]), kw=[[k, str(v)] for k, v in kw], px=[], hdr=[list(x) for x in hdr]))
        if news(self.H[-1]):
            self.N += 1
        return self.N

    def leafs(self, flux=None, size=(0.5, 2.0)):
        r = self.rng
        cls = r.choice(["Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction"])
        while cls == "Spergel" and not self.spergel:
            cls = r.choice(["Gaussian", "Exponential", "Moffat", "Box", "Pixel", "DeltaFunction"])
        kinds = {"Gaussian": ["sigma", "fwhm", "half_light_radius"], "Exponential": ["scale_radius", "half_light_radius"],
                 "Moffat": ["scale_radius", "fwhm", "half_light_radius"], "Spergel": ["scale_radius", "half_light_radius"]}.get(cls, [""])
        n = {"Moffat": [r.choice([self.u(2.2, 5), "3.0", "4.5"])], "Spergel": [r.choice([self.u(0.05, 3.5), "0.5", "1.0", "-0.6", self.u(-0.8, -0.05), "0.0"])]}.get(cls, [])
        n += [] if cls == "DeltaFunction" else [self.u(*size), self.u(*size)] if cls == "Box" else [self.u(*size)]
        n += [flux or r.choice(["1.0", self.u(1, 50), self.u(50, 3000, 1), "-" + self.u(1, 30)])]
        gs = [["shoot_accuracy", r.choice(["1e-5", "1e-4", "1e-6"])]] if r.random() < 0.1 else []
        return self.ev("leaf", n=n, s=cls, c=r.choice(kinds), gs=gs)

    def shape(self, a, k=None):
        for _ in range(self.rng.choice([0, 1, 1, 2]) if k is None else k):
            a = self.tr(a, self.rng.sample(["shear", "rotate", "shift", "scaleflux", "dilate", "magnify", "lens", "expand", "withflux", "transform"], 1))
        return a
