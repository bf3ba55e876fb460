"""Replay drawing histories on real profiles and images and record them."""
import warnings

import profdrv as D
from profdrv import val
from vlib import num, nums, err_of

DT = {"f4": "float32", "f8": "float64", "i2": "int16", "i4": "int32", "u2": "uint16", "c8": "complex64", "c16": "complex128"}
TD = {v: k for k, v in DT.items()}
WOPS = {"wcs", "img", "draw", "kdraw", "see", "bad"}


def dname(d):
    import numpy as np

    return TD.get(str(np.dtype(d)), str(np.dtype(d)))


def wwords(w):
    import geodrv

    if w is None:
        return ["none"] + ["0"] * 6
    k = type(w).__name__
    if k == "GSFitsWCS":
        import jax_galsim as jg

        return [k] + nums(geodrv.cvec(w.toWorld(jg.PositionD(0.0, 0.0)))) + ["0", "0", "0"]
    import jax_galsim as jg

    j = w.jacobian()
    p = w.toWorld(jg.PositionD(0.0, 0.0))
    return [k] + nums([j.dudx, j.dudy, j.dvdx, j.dvdy, p.x, p.y])


def look(im, px):
    import numpy as np

    b = im.bounds
    if not b.isDefined():
        return ["F", "0", "0", "0", "0", dname(im.dtype), dname(im.array.dtype), "T" if im.isconst else "F"] + wwords(im.wcs)
    a = np.array(im.array)
    r = ["T"] + nums([b.xmin, b.xmax, b.ymin, b.ymax]) + [dname(im.dtype), dname(a.dtype), "T" if im.isconst else "F"] + wwords(im.wcs)
    ny, nx = a.shape
    for fx, fy in px:
        v = a[(fy * ny) // 1000, (fx * nx) // 1000]
        r += [num(np.real(v)), num(np.imag(v))] if np.iscomplexobj(a) else [num(v)]
    return r


def mkwcs(jg, ev):
    import geodrv

    k, t = ev["c"], ev["how"]
    if k == "FitsWCS":
        return jg.FitsWCS(header={a: geodrv_num(b) for a, b in ev["hdr"]})
    v = [val(x, t) for x in ev["n"]]
    p, o = v[:-4], v[-4:]
    if k in ("ShearWCS", "OffsetShearWCS"):
        p = [p[0], jg.Shear(g1=p[1], g2=p[2])]
    if k in ("PixelScale", "ShearWCS", "JacobianWCS"):
        return getattr(jg, k)(*p)
    return getattr(jg, k)(*p, origin=jg.PositionD(*o[:2]), world_origin=jg.PositionD(*o[2:]))


def geodrv_num(x):
    try:
        return float(x)
    except ValueError:
        return x


def mkimg(jg, ev, w):
    import numpy as np

    dt = getattr(np, DT[ev["s"]])
    if not ev["n"]:
        return jg.Image(dtype=dt, wcs=w)
    x0, x1, y0, y1 = [int(x) for x in ev["n"][:4]]
    a, b, c = [float(x) for x in ev["n"][4:]]
    yy, xx = np.meshgrid(np.arange(y0, y1 + 1), np.arange(x0, x1 + 1), indexing="ij")
    arr = (a + b * xx + c * yy).astype(dt)
    return jg.Image(arr, bounds=jg.BoundsI(x0, x1, y0, y1), wcs=w, make_const=ev["c"] == "const")


def kwargs(jg, ev, w, phot=False):
    import numpy as np

    kw, how = dict((a, b) for a, b in ev["kw"]), ev["how"]
    out = {}
    for k in ("nx", "ny"):
        if k in kw:
            out[k] = int(float(kw[k]))
    for k in ("scale", "area", "exptime", "gain", "max_extra_noise"):
        if k in kw:
            out[k] = val(kw[k], how)
    for k in ("n_photons", "maxN"):
        if k in kw:
            out[k] = int(float(kw[k]))
    if "bx0" in kw:
        out["bounds"] = jg.BoundsI() if kw["bx0"] == "none" else jg.BoundsI(*[int(kw[b]) for b in ("bx0", "bx1", "by0", "by1")])
    if "dtype" in kw:
        out["dtype"] = getattr(np, DT[kw["dtype"]])
    for k, a in (("c", "center"), ("o", "offset")):
        if k + "x" in kw:
            x, y = val(kw[k + "x"], how), val(kw[k + "y"], how)
            f = kw.get(k + "how", "tuple")
            out[a] = {"tuple": lambda: (x, y), "PositionD": lambda: jg.PositionD(x, y), "PositionI": lambda: jg.PositionI(int(float(x)), int(float(y))),
                      "list": lambda: [x, y], "array": lambda: np.array([float(x), float(y)])}[f]()
    for k, a in (("add", "add_to_image"), ("setup", "setup_only"), ("true", "use_true_center"), ("recenter", "recenter"), ("save_photons", "save_photons"),
                 ("poisson_flux", "poisson_flux")):
        if k in kw:
            out[a] = kw[k] == "T"
    if "rng" in kw:
        out["rng"] = jg.BaseDeviate(int(kw["rng"]))
    if w is not None:
        out["wcs"] = w
    return out


def draw(jg, ev, o, im, w):
    import jax

    kw = kwargs(jg, ev, w)
    if ev["op"] == "draw" and ev["s"] != "auto" or ev.get("c") == "named":
        kw["method"] = ev["s"]
    if im is not None:
        kw["image"] = im
    f = "drawImage" if ev["op"] == "draw" else "drawKImage"
    if ev["op"] == "kdraw" and "nx" not in kw and "bounds" not in kw and (im is None or not im.bounds.isDefined()):
        # a sheet of frequencies that no memory holds (the specification then asks for nothing)
        dk = kw.get("scale") or (im is not None and im.wcs is not None and im.wcs.isPixelScale() and im.scale) or o.stepk
        if 2 * float(o.maxk) / float(dk) > 4000:
            raise MemoryError("too large")
    if ev["mode"] == "jit":
        kw.pop("image")
        r = jax.jit(lambda a, b: getattr(a, f)(image=b, **kw))(o, im)
    elif ev["mode"] == "jitnew":
        r = jax.jit(lambda a: getattr(a, f)(**kw))(o)
    else:
        r = getattr(o, f)(**kw)
    return r


def wrong(jg, ev, o, im):
    c = ev["c"]
    return {
        "wcsnum": lambda: o.drawImage(image=im, wcs=0.3), "imarr": lambda: o.drawImage(image=im.array), "offnum": lambda: o.drawImage(image=im, offset=3.0),
        "offone": lambda: o.drawImage(image=im, offset=(1.0,)), "kw": lambda: o.drawImage(image=im, foo=3), "kimarr": lambda: o.drawKImage(image=3),
        "methodnum": lambda: o.drawImage(image=im, method=3), "real": lambda: o.drawReal(jg.Image(4, 4, wcs=jg.JacobianWCS(1.0, 0.1, 0.0, 1.0))),
        "fft": lambda: o.drawFFT(jg.Image(4, 4)), "cennum": lambda: o.drawImage(image=im, center=2),
    }[c]()


def run(history, emit):
    import jax_galsim as jg

    warnings.simplefilter("ignore")
    hs = []
    for h in history:
        ev = dict(h, obs=[], err=[])
        op, new = h["op"], None
        alias = op in ("see", "bad") or (op in ("draw", "kdraw") and h["b"] and h["mode"] != "jit")
        refs = [x for x in [h["a"], h["b"], h["d"]] + h["hs"] if x]
        get = lambda k: hs[h[k] - 1] if h[k] else None
        try:
            if not any(hs[x - 1] is None for x in refs):
                if op == "wcs":
                    new = mkwcs(jg, h)
                elif op == "img":
                    new = mkimg(jg, h, get("d"))
                    ev["obs"] = look(new, h["px"])
                elif op == "see":
                    ev["obs"] = look(get("b"), h["px"])
                elif op in ("draw", "kdraw"):
                    im = get("b")
                    new = draw(jg, h, get("a"), im, get("d"))
                    fl = num(getattr(new, "added_flux", 0.0)) if op == "draw" else "0"
                    ev["obs"] = ["T" if new is im else "F", fl] + look(new, h["px"])
                elif op == "bad":
                    wrong(jg, h, get("a"), get("b"))
                else:
                    new = D.build(jg, hs, h)
        except Exception as e:
            ev["err"] = err_of(e)
            ev["obs"] = []
        if not alias:
            hs.append(new)
        emit(ev)


class Gen(D.Gen):
    """Random drawing histories."""

    def __init__(self, rng):
        super().__init__(rng)
        self.imgs, self.wcss = [], []

    def ev(self, op, a=0, b=0, d=0, hs=(), n=(), s="", c="", gs=(), mode="eager", how=None, kw=(), px=(), hdr=()):
        self.H.append(dict(op=op, a=a, b=b, d=d, hs=list(hs), n=list(n), s=s, c=c, gs=[list(x) for x in gs], mode=mode,
                           how=how or self.rng.choice(["py", "py", "np", "jnp", "int"]), kw=[[k, str(v)] for k, v in kw], px=[list(p) for p in px],
                           hdr=[list(x) for x in hdr]))
        if not (op in ("see", "bad") or (op in ("draw", "kdraw") and b and mode != "jit")):
            self.N += 1
        return self.N

    def spots(self, k=4):
        r = self.rng
        return [[r.randrange(1000), r.randrange(1000)] for _ in range(k - 1)] + [[r.choice([0, 499, 500, 999]), r.choice([0, 499, 500, 999])]]

    def wcs(self, fits=0.15):
        r = self.rng
        if r.random() < fits:
            import math

            s, t = r.uniform(0.3, 0.9) / 3600, r.uniform(0, 6.28)
            h = [["CTYPE1", "RA---TAN-SIP"], ["CTYPE2", "DEC--TAN-SIP"], ["CRVAL1", self.u(1, 359)], ["CRVAL2", self.u(-80, 80)], ["CRPIX1", self.u(-20, 40)],
                 ["CRPIX2", self.u(-20, 40)], ["CD1_1", repr(-s * math.cos(t))], ["CD1_2", repr(s * math.sin(t))], ["CD2_1", repr(s * math.sin(t))],
                 ["CD2_2", repr(1.1 * s * math.cos(t))], ["A_ORDER", "2.0"], ["B_ORDER", "2.0"], ["A_2_0", self.u(-4e-3, 4e-3, 5)], ["A_0_2", self.u(-4e-3, 4e-3, 5)],
                 ["A_1_1", self.u(-4e-3, 4e-3, 5)], ["B_2_0", self.u(-4e-3, 4e-3, 5)], ["B_1_1", self.u(-4e-3, 4e-3, 5)]]
            w = self.ev("wcs", c="FitsWCS", hdr=h, how="py")
            self.wcss.append(w)
            return w
        k = r.choice(["PixelScale", "ShearWCS", "JacobianWCS", "JacobianWCS", "OffsetWCS", "OffsetShearWCS", "AffineTransform", "AffineTransform"])
        f = r.uniform(0.3, 0.9)
        if k in ("PixelScale", "OffsetWCS"):
            p = [repr(round(f, 3))]
        elif k in ("ShearWCS", "OffsetShearWCS"):
            p = [repr(round(f, 3)), self.u(-0.3, 0.3), self.u(-0.3, 0.3)]
        else:
            p = [repr(round(f * x, 4)) for x in (r.uniform(0.8, 1.2) * r.choice([1, 1, -1]), r.uniform(-0.3, 0.3), r.uniform(-0.3, 0.3), r.uniform(0.8, 1.2))]
        o = [self.u(-9, 9), self.u(-9, 9), self.u(-9, 9), self.u(-9, 9)] if k in ("OffsetWCS", "OffsetShearWCS", "AffineTransform") else ["0", "0", "0", "0"]
        w = self.ev("wcs", c=k, n=p + o)
        self.wcss.append(w)
        return w

    def box(self, lo=4, hi=13):
        r = self.rng
        x, y = r.choice([1, 1, 0, -5, r.randint(-30, 30)]), r.choice([1, 1, 0, 3, r.randint(-30, 30)])
        return [x, x + r.randint(lo, hi) - 1, y, y + r.randint(lo, hi) - 1]

    def image(self, dts=("f4", "f8", "f8", "i4", "i2"), undef=0.1, const=0.05, w=None, lo=4, hi=13):
        r = self.rng
        dt = r.choice(dts)
        if w is None:
            w = self.wcs() if r.random() < 0.4 else r.choice(self.wcss) if self.wcss and r.random() < 0.3 else 0
        if r.random() < undef:
            a = self.ev("img", s=dt, d=w, px=[])
        else:
            b = self.box(lo, hi)
            n = [str(x) for x in b] + ([str(r.randint(-5, 9)), str(r.randint(-2, 2)), str(r.randint(0, 3))] if r.random() < 0.7 else ["0", "0", "0"])
            a = self.ev("img", s=dt, n=n, d=w, c="const" if r.random() < const else "", px=self.spots(2))
        self.imgs.append(a)
        return a

    def fftgs(self, fixed=None):
        """small transforms (fixed: one size, usable when traced)"""
        r = self.rng
        if fixed or (fixed is None and r.random() < 0.25):
            n = r.choice(["16", "24", "28"])
            g = [["minimum_fft_size", n], ["maximum_fft_size", n]]
        else:
            g = [["minimum_fft_size", r.choice(["8", "12", "16", "20"])]]
            if r.random() < 0.1:
                g.append(["maximum_fft_size", r.choice(["16", "20"])])
        if r.random() < 0.6:
            g += [["folding_threshold", self.u(0.02, 0.1)], ["stepk_minimum_hlr", self.u(1.2, 3)]]
        if r.random() < 0.5:
            g += [["maxk_threshold", self.u(0.02, 0.2)]]
        return g

    def prof(self, fixed=None, cls=None):
        r = self.rng
        cls = cls or r.choice(["Gaussian", "Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel"])
        kinds = {"Gaussian": ["sigma", "fwhm", "half_light_radius"], "Exponential": ["scale_radius", "half_light_radius"],
                 "Moffat": ["scale_radius", "fwhm", "half_light_radius"], "Spergel": ["scale_radius"]}.get(cls, [""])
        n = {"Moffat": [r.choice([self.u(2.5, 5), "3.0", "4.5"])], "Spergel": [r.choice([self.u(0.4, 3.5), "0.5", "1.0"])]}.get(cls, [])
        n += [] if cls == "DeltaFunction" else [self.u(0.3, 1.1), self.u(0.3, 1.1)] if cls == "Box" else [self.u(0.3, 1.1)]
        n += [r.choice(["1.0", self.u(1, 50), self.u(50, 3000, 1), "-" + self.u(1, 30)])]
        a = self.ev("leaf", n=n, s=cls, c=r.choice(kinds), gs=self.fftgs(fixed))
        for _ in range(r.choice([0, 0, 1, 2])):
            a = self.tr(a, ["shear", "rotate", "shift", "scaleflux", "dilate"])
        return a
