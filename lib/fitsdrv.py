"""Replay histories of FITS writes and reads in a scratch directory and record them."""
import hashlib
import os
import shutil
import tempfile

from vlib import num, err_of

DT = {"f8": "float64", "f4": "float32", "i4": "int32", "i2": "int16", "u2": "uint16", "u4": "uint32", "c8": "complex64", "c16": "complex128",
      "i8": "int64", "u1": "uint8"}
KEYS = ("AKEY", "BKEY", "CKEY")


def cval(v):
    import numpy as np

    if isinstance(v, (bool, np.bool_)):
        return "b" + str(bool(v))
    if isinstance(v, str):
        return "s" + v
    return ("i" if isinstance(v, (int, np.integer)) else "f") + repr(float(v))


def mkval(t):
    return {"b": lambda x: x == "True", "s": str, "i": lambda x: int(float(x)), "f": float}[t[0]](t[1:])


def wobs(im):
    import jax_galsim as jg

    w = im.wcs
    if w is None:
        return []
    out = ["C" if w.isCelestial() else "E"]
    for x, y in ((1, 1), (5, -3), (2.5, 7)):
        p = w.toWorld(jg.PositionD(x, y))
        out += [num(p.ra.rad), num(p.dec.rad)] if w.isCelestial() else [num(p.x), num(p.y)]
    return out


def look(im):
    import jax
    import jax_galsim as jg
    import numpy as np

    assert type(im) is jg.Image, type(im)
    assert isinstance(im.array, jax.Array), type(im.array)
    k = [x for x in DT if DT[x] == np.dtype(im.dtype).name][0]
    b, a = im.bounds, np.asarray(im.array)
    assert a.dtype == np.dtype(im.dtype) and a.shape == (b.ymax - b.ymin + 1, b.xmax - b.xmin + 1), (a.dtype, a.shape)
    h = getattr(im, "header", None)
    hs = ["-" if h is None or k_ not in h else cval(h[k_]) for k_ in KEYS]
    px = ["=" + repr(float(v)) for v in (a.ravel() if a.dtype.kind != "c" else a.real.ravel())]
    return [k] + [num(int(x)) for x in (b.xmin, b.xmax, b.ymin, b.ymax)] + wobs(im) + hs + px


def wcs_of(jg, w, p):
    p = [float(x) for x in p]
    P = jg.PositionD
    if w == "None":
        return None
    if w == "Pix":
        return jg.PixelScale(p[0])
    if w == "Shear":
        return jg.ShearWCS(p[0], jg.Shear(g1=p[1], g2=p[2]))
    if w == "Jac":
        return jg.JacobianWCS(*p[:4])
    if w == "Off":
        return jg.OffsetWCS(p[0], P(*p[1:3]), P(*p[3:5]))
    if w == "OffShear":
        return jg.OffsetShearWCS(p[0], jg.Shear(g1=p[1], g2=p[2]), P(*p[3:5]), P(*p[5:7]))
    if w == "Aff":
        return jg.AffineTransform(*p[:4], P(*p[4:6]), P(*p[6:8]))
    if w == "Tan":
        return jg.TanWCS(jg.AffineTransform(*p[:4], P(*p[4:6])), jg.CelestialCoord(p[6] * jg.degrees, p[7] * jg.degrees), units=jg.arcsec)
    raise KeyError(w)


def snap(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(r, f)
            st = os.stat(q)
            out[os.path.relpath(q, d)] = (st.st_ino, st.st_mtime_ns, st.st_size, hashlib.sha1(open(q, "rb").read()).hexdigest())
    return out


def run(history, emit):
    d = tempfile.mkdtemp(prefix="vfits")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        _run(history, emit, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def _run(history, emit, d):
    import warnings

    import jax.numpy as jnp
    import jax_galsim as jg
    import numpy as np
    from galsim._pyfits import pyfits

    warnings.simplefilter("ignore")
    F = jg.fits
    ims, lists = [], []
    before = snap(d)
    for h in history:
        op, how = h["op"], h["how"]
        ev = dict(h, obs=[], err=[], ch=[], wo=[])
        name = h["f"]
        loc = {"file_name": name, "dir": d} if h["dir"] else {"file_name": os.path.join(d, name)}
        if h["l"]:
            loc = {"hdu_list": lists[h["l"] - 1]}
        if how == "both":
            loc = {"file_name": os.path.join(d, name), "hdu_list": pyfits.HDUList()}
        if how == "neither":
            loc = {}
        comp = {} if h["comp"] == "auto" and how != "explicit" else {"compression": h["comp"]}
        clob = {} if h["clob"] and how != "explicit" else {"clobber": h["clob"]}
        hdu = {} if h["hdu"] < 0 else {"hdu": h["hdu"]}
        try:
            args = [ims[i - 1] for i in h["as"]]
            if op == "im":
                t, dt = h["t"], np.dtype(DT[h["s"]])
                ny, nx = t[3] - t[2] + 1, t[1] - t[0] + 1
                x = np.array([float(v[1:]) for v in h["px"]]).reshape(ny, nx).astype(dt)
                w = wcs_of(jg, h["w"], h["wp"])
                if how == "sub":
                    big = jg.Image(jg.BoundsI(t[0] - 1, t[1] + 2, t[2] - 2, t[3] + 1), dtype=dt.type, init_value=3)
                    im = big[jg.BoundsI(*t)]
                    im.copyFrom(jg.Image(x, xmin=t[0], ymin=t[2]))
                    im.wcs = w
                else:
                    im = jg.Image(x, xmin=t[0], ymin=t[2], wcs=w, make_const=how == "const")
                if h["h"]:
                    im.header = F.FitsHeader({k: mkval(v) for k, v in h["h"]})
                ims.append(im)
                ev["obs"] = look(im)
                ev["wo"] = wobs(im)
            elif op == "list":
                lists.append(pyfits.HDUList())
            elif op == "see":
                ev["obs"] = look(args[0])
            elif op == "write":
                if how == "method":
                    args[0].write(**loc, **comp, **clob)
                elif how == "positional" and not h["l"]:
                    F.write(args[0], loc["file_name"], **({"dir": d} if h["dir"] else {}), **comp, **clob)
                else:
                    F.write(args[0], **loc, **comp, **clob)
                ev["obs"] = ["T"] + look(args[0])
            elif op == "writem":
                F.writeMulti(args, **loc, **comp, **clob)
                ev["obs"] = [x for im in args for x in ["T"] + look(im)]
            elif op == "writec":
                src = args
                if how in ("arr", "cube3", "jarr"):
                    dt = np.dtype(DT[h["s"]]) if h["s"] else None
                    src = [np.asarray(im.array).astype(dt or im.dtype) for im in args]
                    if how == "jarr":
                        src = [jnp.asarray(a) for a in src]
                    elif how == "cube3":
                        src = np.array(src)
                elif how == "tuple":
                    src = tuple(args)
                F.writeCube(src, **loc, **comp, **clob)
                ev["obs"] = [x for im in args for x in ["T"] + look(im)]
            elif op == "writef":
                F.writeFile(loc_name(d, h), lists[h["l"] - 1], **({"dir": d} if h["dir"] else {}), **comp, **clob)
            elif op in ("read", "readm", "readc"):
                if op == "read":
                    r = [F.read(**loc, **comp, **hdu, **({"read_header": True} if h["rh"] else {}))]
                elif op == "readm":
                    r = F.readMulti(**loc, **comp, **({"read_headers": True} if h["rh"] else {}))
                else:
                    r = F.readCube(**loc, **comp, **hdu)
                assert isinstance(r, list)
                ims += r
                ev["obs"] = [x for im in r for x in look(im)]
            elif op == "header":
                fh = F.FitsHeader(**loc, **comp, **hdu)
                ev["obs"] = [cval(fh[k]) if k in fh else "-" for k in KEYS]
            else:
                raise KeyError(op)
        except Exception as e:
            ev["err"] = err_of(e)
            ev["obs"] = [str(e)[:60]]
        after = snap(d)
        ev["ch"] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        before = after
        emit(ev)


def loc_name(d, h):
    return h["f"] if h["dir"] else os.path.join(d, h["f"])
