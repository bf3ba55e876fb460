"""Replay kernel and interpolated-image histories on the real code and record them."""
import copy
import pickle
import warnings

from vlib import num, nums, err_of

NEW = {"kern", "kgs", "img", "ii", "iigs", "tr"}
CLS = {"Sinc": "SincInterpolant"}


def gsp(jg, kw):
    kw = dict((k, v) for k, v in kw if k in ("kvalue_accuracy", "table_spacing", "folding_threshold", "maxk_threshold"))
    return jg.GSParams(**{k: float(v) for k, v in kw.items()}) if kw else None


def kern(jg, s, n, dc, how, kw):
    g = gsp(jg, kw)
    if how == "class":
        if s == "Lanczos":
            return jg.Lanczos(int(n[0]) if n else 0, **({"conserve_dc": dc == "T"} if dc else {}), gsparams=g)
        return getattr(jg, CLS.get(s, s))(gsparams=g)
    name = s + (str(n[0]) if n else "") + (dc if s == "Lanczos" else "")
    name = name.lower() if how == "name" else name.upper() if how == "NAME" else name
    return jg.Interpolant.from_name(name, gsparams=g)


def desc(k):
    t = type(k).__name__
    t = "Sinc" if t == "SincInterpolant" else t
    r = [t, num(k.xrange), num(k.ixrange), num(k.gsparams.kvalue_accuracy)]
    return r + ([num(k.n), "T" if k.conserve_dc else "F", num(k.krange)] if t == "Lanczos" else [num(k.krange)])


def via(o, mode):
    """the same object, by another road"""
    import jax

    if mode == "flat":
        l, t = jax.tree_util.tree_flatten(o)
        return jax.tree_util.tree_unflatten(t, l)
    if mode == "copy":
        return copy.copy(o)
    if mode == "deep":
        return copy.deepcopy(o)
    if mode == "pickle":
        return pickle.loads(pickle.dumps(o))
    return o


def img(jg, h):
    import numpy as np

    kw = dict(h["kw"])
    nx, ny, x0, y0 = [int(v) for v in h["n"]]
    dt = {"f4": np.float32, "f8": np.float64, "i4": np.int32, "c16": np.complex128}[kw.get("dtype", "f8")]
    if nx == 0:
        return jg.Image(dtype=dt, **({"scale": float(kw["scale"])} if "scale" in kw else {}))
    a = np.array([float(v) for v in h["px"]]).reshape(ny, nx).astype(dt)
    k = {"scale": float(kw["scale"])} if "scale" in kw else {"wcs": wcs(jg, h["jac"], kw.get("wtype"))} if h["jac"] else {}
    return jg.Image(a, xmin=x0, ymin=y0, make_const=h["s"] == "const", **k)


def wcs(jg, j, t):
    j = [float(v) for v in j]
    if t == "affine":
        return jg.AffineTransform(*j, origin=jg.PositionD(1.5, -2.0))
    return jg.JacobianWCS(*j)


def pick(jg, h, hs, ref, name, pre, kw):
    if h[ref]:
        return hs[h[ref] - 1]
    if not h[name]:
        return None
    if h[name] == "Lanczos":
        s = "lanczos%s%s" % (kw.get(pre + "n", "3"), kw.get(pre + "dc", ""))
    else:
        s = h[name]
    return s.lower() if h["how"] != "NAME" else s.upper()


def mkii(jg, h, hs):
    kw = dict(h["kw"])
    x, k = pick(jg, h, hs, "b", "s", "x", kw), pick(jg, h, hs, "d", "c", "k", kw)
    im = hs[h["a"] - 1] if h["a"] else [[1.0, 2.0], [3.0, 4.0]]
    a = {}
    if x is not None:
        a["x_interpolant"] = x
    if k is not None:
        a["k_interpolant"] = k
    if "ox" in kw or "oy" in kw:
        o = (float(kw.get("ox", 0)), float(kw.get("oy", 0)))
        a["offset"] = jg.PositionD(*o) if kw.get("ohow") == "pos" else o
    if "utc" in kw:
        a["use_true_center"] = kw["utc"] == "T"
    g = gsp(jg, h["gs"])
    if g is not None:
        a["gsparams"] = g
    if "raw" in kw:
        for k in ("x_interpolant", "k_interpolant"):
            if isinstance(a.get(k), str):
                a[k] = jg.Interpolant.from_name(a[k])
        for k in ("force_stepk", "force_maxk"):
            if k in kw:
                a[k] = float(kw[k])
        return jg._InterpolatedImage(im, **a)
    if "norm" in kw:
        a["normalization"] = kw["norm"]
    for k, n in (("scale", "scale"), ("flux", "flux"), ("pad", "pad_factor")):
        if k in kw:
            a[n] = float(kw[k])
    if h["jac"]:
        a["wcs"] = wcs(jg, h["jac"], kw.get("wtype"))
    if "badwcs" in kw:
        a["wcs"] = 0.3
    for k, n in (("stepk", "calculate_stepk"), ("maxk", "calculate_maxk")):
        if k in kw:
            a[n] = kw[k] == "T" if kw[k] in "TF" else float(kw[k])
    if "pad_image" in kw:
        a["pad_image"] = im
    if "noise_pad" in kw:
        a["noise_pad"] = float(kw["noise_pad"])
    if "noise_pad_size" in kw:
        a["noise_pad_size"] = int(kw["noise_pad_size"])
    if "depixelize" in kw:
        a["depixelize"] = True
    return jg.InterpolatedImage(im, **a)


def look(o):
    c = o.centroid
    return nums([o.flux, c.x, c.y, o.max_sb, o.stepk, o.maxk, o.x_interpolant.krange, o.positive_flux, o.negative_flux])


def two(z):
    import numpy as np

    r = []
    for v in np.asarray(z).ravel():
        r += [num(v.real), num(v.imag)]
    return r


_J = {}


def jitted(jax, key, f):
    if key not in _J:
        _J[key] = jax.jit(f)
    return _J[key]


def points(jg, n):
    return [(float(n[i]), float(n[i + 1])) for i in range(0, len(n), 2)]


def move(jg, o, s, n):
    v = [float(x) for x in n]
    if s == "shift":
        return o.shift(*v)
    if s == "rotate":
        return o.rotate(v[0] * jg.radians)
    if s == "dilate":
        return o.dilate(v[0])
    if s == "expand":
        return o.expand(v[0])
    if s == "shear":
        return o.shear(g1=v[0], g2=v[1])
    if s == "transform":
        return o.transform(*v)
    return o.withScaledFlux(v[0])


def run(history, emit):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jax_galsim as jg

    warnings.simplefilter("ignore")
    hs = []
    for h in history:
        ev = dict(h, obs=[], err=[], kr="")
        op, new, mode = h["op"], None, h["mode"]
        refs = [h[k] for k in ("a", "b", "d") if h[k]]
        try:
            if not any(hs[x - 1] is None for x in refs):
                o = hs[h["a"] - 1] if h["a"] else None
                if op == "edit":
                    if h["s"] == "value":
                        o.setValue(o.bounds.xmin + int(h["n"][0]), o.bounds.ymin + int(h["n"][1]), float(h["n"][2]))
                    elif h["s"] == "fill":
                        o.fill(float(h["n"][2]))
                    else:
                        o.setCenter(int(h["n"][0]), int(h["n"][1]))
                elif op == "kern":
                    new = kern(jg, h["s"], h["n"], h["c"], h["how"], h["kw"])
                    ev["obs"] = desc(new)
                elif op == "img":
                    new = img(jg, h)
                elif op == "comb":
                    u, v = via(hs[h["a"] - 1], mode), hs[h["b"] - 1]
                    o = jg.Convolve(u, v) if h["s"] == "conv" else jg.Sum(u, v)
                    ks = [o.kValue(*p) for p in points(jg, h["n"])]
                    ev["obs"] = nums([o.flux, o.positive_flux, o.negative_flux] + [z for k in ks for z in (k.real, k.imag)])
                elif op == "ii":
                    new = mkii(jg, h, hs)
                    ev["obs"] = look(new)
                else:
                    o = via(o, mode)
                    jit = mode == "jit"
                    if op == "kgs":
                        kw = {k: float(v) for k, v in h["kw"]}
                        new = o.withGSParams(**kw) if h["how"] == "class" else o.withGSParams(jg.GSParams(**{**dict(kvalue_accuracy=o.gsparams.kvalue_accuracy, table_spacing=o.gsparams.table_spacing), **kw}))
                        ev["obs"] = desc(new)
                    elif op == "parts":
                        ev["obs"] = nums([o.positive_flux, o.negative_flux])
                    elif op == "units":
                        ev["obs"] = nums(o.unit_integrals(int(h["n"][0])) if h["n"] else o.unit_integrals())
                    elif op in ("xval", "kval"):
                        x = np.array([float(v) for v in h["n"]])
                        f = getattr(o, op)
                        if h["s"] == "2d":
                            x = x.reshape(1, -1)
                        if h["s"] == "each":
                            ev["obs"] = [num(f(float(v))) for v in x]
                        elif jit:
                            ev["obs"] = nums(jax.jit(lambda k, x: getattr(k, op)(x))(o, jnp.asarray(x)))
                        else:
                            ev["obs"] = nums(f(x if h["how"] == "np" else jnp.asarray(x)))
                    elif op in ("keq", "ieq"):
                        p = hs[h["b"] - 1]
                        ev["obs"] = ["T" if x else "F" for x in (bool(o == p), bool(o != p), hash(o) == hash(p))]
                    elif op == "look":
                        ev["obs"] = look(o)
                    elif op == "iigs":
                        kw = {k: float(v) for k, v in h["gs"]}
                        new = o.withGSParams(**kw)
                        ev["obs"] = look(new)
                    elif op == "tr":
                        new = move(jg, o, h["s"], h["n"])
                    elif op == "xv":
                        p = points(jg, h["n"])
                        if jit:
                            f = jitted(jax, "xv", lambda o, x, y: o.xValue(jg.PositionD(x, y)))
                            ev["obs"] = [num(f(o, x, y)) for x, y in p]
                        else:
                            ev["obs"] = [num(o.xValue(x, y)) for x, y in p]
                    elif op == "kv":
                        p = points(jg, h["n"])
                        if jit:
                            f = jitted(jax, "kv", lambda o, x, y: o.kValue(jg.PositionD(x, y)))
                            ev["obs"] = two([f(o, x, y) for x, y in p])
                        else:
                            ev["obs"] = two([complex(o.kValue(x, y)) for x, y in p])
                    elif op == "grad":
                        x, y = points(jg, h["n"])[0]
                        src = [q for q in history if q["op"] in NEW][h["b"] - 1]

                        def val(a):
                            t = [None] * len(hs)
                            for i, q in enumerate(hs):
                                t[i] = q
                            m = hs[src["a"] - 1]
                            t[src["a"] - 1] = jg.Image(a, bounds=m.bounds, wcs=m.wcs)
                            return mkii(jg, src, t).xValue(x, y)

                        ev["obs"] = nums(np.asarray(jax.grad(val)(hs[src["a"] - 1].array)).ravel())
                    elif op == "draw":
                        nx, ny, s = int(h["n"][0]), int(h["n"][1]), float(h["n"][2])
                        im = jg.Image(nx, ny, scale=s, dtype=float)
                        ev["obs"] = nums(np.asarray(o.drawImage(im, method="no_pixel").array).ravel())
                    elif op == "kdraw":
                        nx, ny, s = int(h["n"][0]), int(h["n"][1]), float(h["n"][2])
                        im = o.drawKImage(bounds=jg.BoundsI(-(nx // 2), -(nx // 2) + nx - 1, -(ny // 2), -(ny // 2) + ny - 1), scale=s)
                        ev["obs"] = two(im.array)
                    elif op == "shoot":
                        n = int(h["n"][0])
                        p = o.shoot(n, rng=jg.BaseDeviate(int(h["c"])))
                        x, y, f = np.asarray(p.x), np.asarray(p.y), np.asarray(p.flux)
                        ev["obs"] = nums([len(x), f.sum(), np.abs(f).max()])
                        for kx, ky in points(jg, h["n"][1:]):
                            ph = kx * x + ky * y
                            ev["obs"] += nums([np.sum(f * np.cos(ph)), -np.sum(f * np.sin(ph))])
                    else:
                        raise AssertionError(op)
        except AssertionError:
            raise
        except Exception as e:
            ev["err"] = err_of(e)
            ev["obs"] = []
        if op in NEW:
            hs.append(new)
            if new is not None and op in ("kern", "kgs"):
                ev["kr"] = num(new.krange)
            elif new is not None and op in ("ii", "iigs"):
                ev["kr"] = num(new.x_interpolant.krange)
        emit(ev)
