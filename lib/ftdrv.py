"""Replay wraps and Fourier transforms on real images and record them."""
from vlib import num, nums, err_of

DT = {"f8": "float64", "f4": "float32", "i4": "int32", "i2": "int16", "u2": "uint16", "c8": "complex64", "c16": "complex128"}


def look(im):
    import numpy as np

    k = [x for x in DT if DT[x] == np.dtype(im.dtype).name][0]
    b = im.bounds
    sc = "" if im.wcs is None else num(im.scale) if im.wcs._isPixelScale else "J"
    if not b.isDefined():
        return ["F", k, sc]
    a = np.asarray(im.array)
    assert a.shape == (b.ymax - b.ymin + 1, b.xmax - b.xmin + 1) and a.dtype == np.dtype(im.dtype)
    return ["T"] + [num(int(x)) for x in (b.xmin, b.xmax, b.ymin, b.ymax)] + [k, sc] + nums(a.real.ravel()) + nums(a.imag.ravel())


def run(history, emit):
    import jax
    import jax_galsim as jg
    import numpy as np

    ims = []
    for h in history:
        op, s, t = h["op"], h["s"], h["t"]
        im = ims[h["a"] - 1] if 0 < h["a"] <= len(ims) else None
        ev = dict(h, obs=[], err=[])
        jit = h["mode"] == "jit"
        try:
            b = jg.BoundsI(*t) if t else jg.BoundsI()
            if op == "im":
                wcs = {"wcs": jg.JacobianWCS(1.0, 0.1, 0.0, 1.0)} if h["c"] == "J" else {"scale": float(h["c"])} if h["c"] else {}
                if not t:
                    ims.append(jg.Image(bounds=b, dtype=np.dtype(DT[s]).type, **wcs))
                else:
                    x = np.array([float(v) for v in h["re"]]) + (1j * np.array([float(v) for v in h["im"]]) if s[0] == "c" else 0)
                    x = x.reshape(t[3] - t[2] + 1, -1).astype(DT[s])
                    ims.append(jg.Image(x, xmin=t[0], ymin=t[2], **wcs))
            elif op == "see":
                ev["obs"] = look(im)
            elif op == "wrap":
                hm = s if s else False
                f = (lambda im: (im.wrap(b) if s == "" and len(t) % 2 == 0 else im.wrap(b, hermitian=hm), im))
                if jit:
                    r, im = jax.jit(f)(im)
                    ims.append(im)
                else:
                    r, im = f(im)
                ev["obs"] = look(r) + look(im)
            elif op == "badb":
                im.wrap({"d": jg.BoundsD(0, 1, 0, 1), "t": (0, 1, 0, 1), "n": None}[s])
            elif op in ("fft", "ifft"):
                f = (lambda im: im.calculate_fft()) if op == "fft" else (lambda im: im.calculate_inverse_fft())
                r = (jax.jit(f) if jit else f)(im)
                ims.append(r)
                ev["obs"] = look(r)
            elif op == "size":
                ev["obs"] = [num(jg.Image.good_fft_size(float(x) if "." in x else int(x))) for x in h["re"]]
            else:
                raise KeyError(op)
        except Exception as e:
            ev["err"] = err_of(e)
        emit(ev)
