"""Replay noise histories (generators, noises, images) on the real code and record them."""
import copy
import pickle

from vlib import num, nums, err_of

NAMES = {"B": "BaseDeviate", "U": "UniformDeviate", "G": "GaussianDeviate", "Bi": "BinomialDeviate",
         "Po": "PoissonDeviate", "W": "WeibullDeviate", "Ga": "GammaDeviate", "C": "Chi2Deviate"}
ARGS = {"B": [], "U": [], "G": ["mean", "sigma"], "Bi": ["N", "p"], "Po": ["mean"], "W": ["a", "b"],
        "Ga": ["k", "theta"], "C": ["n"]}
DT = {"f8": "float64", "f4": "float32", "i4": "int32", "i2": "int16", "u2": "uint16"}


def dev(jg, k, seed, p):
    return getattr(jg, NAMES[k])(seed, **{a: int(v) if a == "N" else float(v) for a, v in zip(ARGS[k], p)})


def noise(jg, k, r, p, nx):
    import numpy as np

    f = [float(x) for x in p]
    if k == "Gauss":
        return jg.GaussianNoise(r, sigma=f[0])
    if k == "Poisson":
        return jg.PoissonNoise(r, sky_level=f[0])
    if k == "CCD":
        return jg.CCDNoise(r, sky_level=f[0], gain=f[1], read_noise=f[2])
    if k == "Dev":
        return jg.DeviateNoise(r)
    return jg.VariableGaussianNoise(r, jg.Image(np.array(f).reshape(-1, nx)))


def kind(n):
    return {"GaussianNoise": "Gauss", "PoissonNoise": "Poisson", "CCDNoise": "CCD", "DeviateNoise": "Dev",
            "VariableGaussianNoise": "Var"}[type(n).__name__]


def attrs(n):
    k = kind(n)
    a = {"Gauss": ["sigma"], "Poisson": ["sky_level"], "CCD": ["sky_level", "gain", "read_noise"], "Dev": []}
    return [k] + (nums(n.var_image.array.ravel()) if k == "Var" else [num(getattr(n, x)) for x in a[k]])


def pix(im):
    return nums(im.array.ravel())


def run(history, emit):
    import jax
    import jax.numpy as jnp
    import jax_galsim as jg
    import numpy as np

    hs, ns, ims = [], [], []
    jf = jax.jit(lambda im, n: (n.applyTo(im), im, n)[1:])

    def one(h):
        op, how = h["op"], h["how"]
        r = hs[h["h"] - 1] if 0 < h["h"] <= len(hs) else None
        a = ns[h["a"] - 1] if 0 < h["a"] <= len(ns) else None
        im = ims[h["im"] - 1] if 0 < h["im"] <= len(ims) else None
        ev = dict(h, obs=[], err=[])
        f = [float(x) for x in h["p"]]
        res = []

        def made(n):
            ns.append(n)
            hs.append(n.rng)

        try:
            if op == "im":
                x = np.array(f).reshape(-1, h["n"]).astype(DT[h["k"]])
                ims.append(jg.Image(x, make_const=how == "const", xmin=3, ymin=-2))
                res = pix(ims[-1])
            elif op == "nnew":
                made(noise(jg, h["k"], r, h["p"], h["n"]))
            elif op == "nbad":
                if how == "rng":
                    noise(jg, h["k"], {"1": 5, "2": "x", "3": jg.GaussianNoise(jg.BaseDeviate(1))}[h["g_"]], h["p"], h["n"])
                elif how == "array":
                    a.applyTo(np.zeros((3, 3)))
                elif how == "base":
                    b = jg.BaseNoise(r)
                    {"1": b.getVariance, "2": lambda: b.withVariance(2.0), "3": lambda: b.withScaledVariance(2.0),
                     "4": lambda: b * 2.0, "5": lambda: b.applyTo(jg.ImageD(3, 3)), "6": lambda: b / 2.0}[h["g_"]]()
            elif op == "apply":
                if how == "apply":
                    a.applyTo(im)
                elif how == "add":
                    im.addNoise(a)
                else:
                    ims[h["im"] - 1], n2 = jf(im, a)
                    ns[h["a"] - 1] = n2
                    for i, x in enumerate(hs):
                        if x is a.rng and h["hn"] == i + 1:
                            hs[i] = n2.rng
                    im = ims[h["im"] - 1]
                res = pix(im)
            elif op == "snr":
                v = im.addNoiseSNR(a, f[0], preserve_flux=how == "T") if how == "T" else im.addNoiseSNR(a, f[0])
                res = [num(v)] + pix(im)
            elif op == "var":
                res = [num(a.getVariance())]
            elif op == "attrs":
                res = attrs(a)
            elif op == "wvar":
                made(a.withVariance(f[0]))
            elif op == "wscale":
                made(a.withScaledVariance(f[0]))
            elif op == "mul":
                made(a * f[0])
            elif op == "rmul":
                made(f[0] * a)
            elif op == "div":
                made(a / f[0])
            elif op == "ncopy":
                if how == "copy":
                    made(a.copy())
                elif how == "copyrng":
                    made(a.copy(r))
                elif how == "deepcopy":
                    made(copy.deepcopy(a))
                elif how == "pickle":
                    made(pickle.loads(pickle.dumps(a)))
                elif how == "tree":
                    made(jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(copy.deepcopy(a)))))
                elif how == "jit":
                    made(jax.jit(lambda x: x)(a))
            elif op == "neq":
                b = ns[h["b"] - 1]
                res = ["T" if bool(a == b) else "F", "T" if bool(a != b) else "F"]
            elif op == "ndist":
                m = int(round(h["n"] ** 0.5))
                big = jg.ImageD(m, m, init_value=f[0])
                big.addNoise(a)
                d = np.asarray(big.array, dtype=float) - f[0]
                res = [num(d.mean()), num(d.var())]
            elif op == "pix":
                k = [x for x in DT if DT[x] == np.dtype(im.dtype).name][0]
                res = [num(im.xmax - im.xmin + 1), num(im.ymax - im.ymin + 1), k, "T" if im.isconst else "F"] + pix(im)
                assert (im.xmin, im.ymin) == (3, -2)
            elif op == "new":
                hs.append(dev(jg, h["k"], int(h["s"]), h["p"]))
            elif op == "newfrom":
                hs.append(dev(jg, h["k"], hs[h["g"] - 1], h["p"]))
            elif op == "dup":
                hs.append(r.duplicate())
            elif op == "draw":
                res = [num(r())]
            elif op == "gen":
                res = nums(r.generate(jnp.zeros(h["n"])))
            elif op == "genexp":
                res = nums(r.generate_from_expectation(jnp.array(f)))
            elif op == "seed":
                r.seed(int(h["s"]))
            elif op == "discard":
                r.discard(h["n"])
            else:
                raise KeyError(op)
            ev["obs"] = res
        except Exception as e:
            ev["err"] = err_of(e)
        emit(ev)

    for h in history:
        if h["op"] == "learn":
            # look ahead on a copy of the noise's stream: the values that will decide its pixels
            a, im = ns[h["a"] - 1], ims[h["im"] - 1]
            px = np.asarray(im.array, dtype=float).ravel()
            k = len(hs)
            base = dict(h, op="", a=0, im=0, p=[], n=0, g=0, h=0, k="", s="", how="")
            one(dict(base, op="dup", h=h["hn"]))
            m = len(px)
            shot = kind(a) in ("Poisson", "CCD") and not (kind(a) == "CCD" and float(a.gain) <= 0)
            one(dict(base, op="newfrom", g=k + 1, k="Po", p=["1.0"]))
            if shot:
                mu = np.maximum((px + float(a.sky_level)) * (float(a.gain) if kind(a) == "CCD" else 1.0), 0.0)
                one(dict(base, op="genexp", h=k + 2, p=[repr(float(x)) for x in mu]))
            one(dict(base, op="newfrom", g=k + 1, k="G", p=["0.0", "1.0"]))
            if not shot or kind(a) == "CCD":
                one(dict(base, op="gen", h=k + 3, n=m))
        else:
            one(h)
