"""Angles, shears, sky positions and coordinate systems: histories replayed on the real code."""
import re

from vlib import num, nums, err_of
from profdrv import val

OBS = {"aread", "atrig", "acmp", "units", "sex", "sattr", "smat", "cparts", "rd2xyz", "xyz2rd", "area", "proj", "deprojs", "jacd", "gal", "ecl", "csame",
       "i2w", "i2p", "w2i", "c2i", "parea", "scales", "wmat", "decomp", "sky", "lin", "flags", "wparts", "same", "compat", "p.x", "p.k", "p.attrs"}


def xyz(ra, dec):
    import numpy as np

    ra, dec = np.asarray(ra, float), np.asarray(dec, float)
    return [np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)]


def cvec(c):
    return xyz(c.ra.rad, c.dec.rad)


def wnums(w):
    k = type(w).__name__
    if k in ("PixelScale", "OffsetWCS"):
        p = [w.scale]
    elif k in ("ShearWCS", "OffsetShearWCS"):
        p = [w.scale, w.shear.g1, w.shear.g2]
    else:
        p = [w.dudx, w.dudy, w.dvdx, w.dvdy]
    return [k] + nums(p + [w.x0, w.y0, w.u0, w.v0])


def look(o, op=""):
    """What is observed of a value that a call delivers."""
    k = type(o).__name__
    if k == "Angle":
        return [num(o.rad)]
    if k == "Shear":
        return [num(o.g1), num(o.g2)]
    if k == "CelestialCoord":
        r = nums(cvec(o))
        if op == "coo":
            return r + [num(o.ra.rad), num(o.dec.rad)]
        return r + [num(o.ra.rad)] if op in ("cnorm", "fromxyz", "gcp", "prec", "fromgal", "fromecl", "ecldate") else r
    if k == "GSFitsWCS":
        import numpy as np

        return [str(o.wcs_type)] + nums(np.ravel(o.crpix)) + nums(np.ravel(o.cd)) + nums(cvec(o.center))
    if hasattr(o, "toWorld"):
        return wnums(o)
    return []


def tf(*bs):
    return ["T" if bool(b) else "F" for b in bs]


def pos_kw(jg, w, ev, v, k):
    """Where the call speaks about: nothing, a pixel or a world position (starting at v[k])."""
    if ev["c"] == "both":
        return dict(image_pos=jg.PositionD(1.0, 2.0), world_pos=jg.PositionD(0.5, 0.5))
    if ev["c"] == "badpos":
        return dict(image_pos=(1.0, 2.0))
    if len(v) < k + 2:
        return {}
    p = jg.PositionD(v[k], v[k + 1])
    if ev["c"] == "w":
        return dict(world_pos=w.posToWorld(p) if w.isCelestial() else p)
    if ev["c"] == "posI":
        return dict(image_pos=jg.PositionI(int(float(ev["n"][k])), int(float(ev["n"][k + 1]))))
    return dict(image_pos=p)


def position(jg, ev, a, b):
    if ev["c"] == "I":
        return jg.PositionI(int(a), int(b))
    return jg.PositionD(a, b)


def call(jg, ev, o, p, q, hs, v):
    """The call itself, as a function of its operands and numbers: a new value or raw numbers."""
    import jax.numpy as jnp

    op, s, c = ev["op"], ev["s"], ev["c"]
    unit = lambda u: getattr(jg, u)
    proj = s or None
    pairs = [(v[2 * i], v[2 * i + 1]) for i in range(len(v) // 2)]
    # ---- angles
    if op == "ang":
        if c == "ctor":
            return jg.Angle(v[0], unit(s))
        if c == "name":
            return jg.Angle(v[0], jg.AngleUnit.from_name({"hours": "hr"}.get(s, s)))
        if c == "copy":
            return jg.Angle(v[0] * unit(s))
        if c == "_Angle":
            return jg._Angle(v[0] * (unit(s) / jg.radians))
        return v[0] * unit(s)
    if op == "angc":
        return v[0] * jg.AngleUnit(v[1]) if c else jg.Angle(v[0], jg.AngleUnit(v[1]))
    if op == "aadd":
        return o + p
    if op == "asub":
        return o - p
    if op == "aneg":
        return -o
    if op == "aabs":
        return abs(o)
    if op == "apos":
        return +o
    if op == "acopy":
        return jg.Angle(o)
    if op == "amul":
        return o * v[0]
    if op == "armul":
        return v[0] * o
    if op == "adiv":
        return o / v[0]
    if op == "awrap":
        return o.wrap() if p is None else (o.wrap(p) if c != "kw" else o.wrap(center=p))
    if op == "aread":
        return [o.rad, o.deg, o / unit(s)]
    if op == "atrig":
        sc = o.sincos()
        return [o.sin(), o.cos(), sc[0], sc[1], o.tan()]
    if op == "acmp":
        return tf(o == p, o != p, o < p, o <= p, o > p, o >= p, hash(o) == hash(p))
    if op == "units":
        a, b = unit(s), unit(c)
        return [a.value, a / b] + tf(a == b, hash(a) == hash(b))
    if op == "unsex":
        sg = "-" if ev["n"][0].startswith("-") else c
        t = ev["tx"]
        txt = sg + ev["n"][1] + t[0] + ev["n"][2] + t[1] + ev["n"][3] + t[2]
        return (jg.Angle.from_hms if s == "hours" else jg.Angle.from_dms)(txt)
    # ---- shears
    if op == "shr":
        if s == "none":
            return jg.Shear()
        if s == "c":
            return jg.Shear(v[0] + 1j * v[1]) if c != "_Shear" else jg._Shear(jnp.asarray(v[0] + 1j * v[1]))
        if s == "g":
            return jg.Shear(g1=v[0], g2=v[1])
        if s == "e":
            return jg.Shear(e1=v[0], e2=v[1])
        if s == "eta":
            return jg.Shear(eta1=v[0], eta2=v[1])
        return jg.Shear(**{s[:-1]: v[0], "beta": p})
    if op == "sadd":
        return o + p
    if op == "ssub":
        return o - p
    if op == "sneg":
        return -o
    if op == "sattr":
        return [o.g1, o.g2, o.g, o.e1, o.e2, o.e, o.esq, o.eta1, o.eta2, o.eta, o.q, jnp.real(o.shear), jnp.imag(o.shear), o.beta.rad]
    if op == "smat":
        return list(jnp.ravel(o.getMatrix()))
    if op == "srot":
        return o.rotationWith(p)
    # ---- positions on the sky
    if op == "coo":
        return jg.CelestialCoord(o, p) if c != "copy" else jg.CelestialCoord(jg.CelestialCoord(o, p))
    if op == "cparts":
        return [o.ra.rad, o.dec.rad, o.rad[0], o.rad[1]] + list(o.get_xyz())
    if op == "cnorm":
        return o.normal()
    if op == "fromxyz":
        return jg.CelestialCoord.from_xyz(*v)
    if op == "rd2xyz":
        return list(jg.CelestialCoord.radec_to_xyz(*v))
    if op == "xyz2rd":
        return list(jg.CelestialCoord.xyz_to_radec(*v, return_r=True))
    if op == "dist":
        return o.distanceTo(p)
    if op == "angb":
        return o.angleBetween(p, q)
    if op == "area":
        return [o.area(p, q)]
    if op == "gcp":
        return o.greatCirclePoint(p, q)
    if op == "proj":
        kw = {} if s == "" else dict(projection=s)
        if c == "rad":
            if ev["mode"] == "arr":
                u, w = o.project_rad(jnp.stack([jnp.asarray(h.ra.rad) for h in hs]), jnp.stack([jnp.asarray(h.dec.rad) for h in hs]), **kw)
                return list(jnp.ravel(jnp.stack([u, w], axis=1)))
            r = [o.project_rad(h.ra.rad, h.dec.rad, **kw) for h in hs]
            return [x for t in r for x in t]
        r = [o.project(h, **kw) for h in hs]
        return [x.rad for t in r for x in t]
    if op == "deproj":
        kw = {} if s == "" else dict(projection=s)
        if c == "rad":
            return jg.CelestialCoord(*[x * jg.radians for x in o.deproject_rad(v[0], v[1], **kw)])
        return o.deproject(v[0] * jg.radians, v[1] * jg.radians, **kw)
    if op == "deprojs":
        kw = {} if s == "" else dict(projection=s)
        ra, dec = o.deproject_rad(jnp.stack([jnp.asarray(a) for a, _ in pairs]), jnp.stack([jnp.asarray(b) for _, b in pairs]), **kw)
        return [("rd", r, d) for r, d in zip(ra, dec)]
    if op == "jacd":
        kw = {} if s == "" else dict(projection=s)
        r = o.jac_deproject_rad(v[0], v[1], **kw) if c == "rad" else o.jac_deproject(v[0] * jg.radians, v[1] * jg.radians, **kw)
        return list(jnp.ravel(r))
    if op == "prec":
        return o.precess(v[0], v[1])
    if op == "gal":
        el, b = o.galactic() if c != "kw" else o.galactic(epoch=2000.0)
        return [("rd", el.rad, b.rad), el.rad]
    if op == "fromgal":
        return jg.CelestialCoord.from_galactic(o, p)
    if op == "ecl":
        lam, b = o.ecliptic(epoch=v[0])
        return [("rd", lam.rad, b.rad), lam.rad]
    if op == "fromecl":
        return jg.CelestialCoord.from_ecliptic(o, p, epoch=v[0])
    if op == "ecldate":
        import datetime

        d = datetime.datetime(int(ev["n"][0]), int(ev["n"][1]), int(ev["n"][2]), 5, 30)
        lam, b = o.ecliptic(epoch=2000.0, date=d)
        return jg.CelestialCoord.from_ecliptic(lam, b, epoch=2000.0, date=d)
    if op == "csame":
        return tf(o == p, o != p, hash(o) == hash(p))
    # ---- coordinate systems
    if op == "wcs":
        k = s
        if k in ("PixelScale", "OffsetWCS"):
            a, i = [v[0]], 1
        elif k in ("ShearWCS", "OffsetShearWCS"):
            a, i = [v[0], p], 1
        else:
            a, i = list(v[:4]), 4
        kw = {}
        if len(v) >= i + 2:
            kw["origin"] = position(jg, ev, v[i], v[i + 1])
        if len(v) >= i + 4:
            kw["world_origin"] = jg.PositionD(v[i + 2], v[i + 3])
        return getattr(jg, k)(*a, **kw)
    if op == "i2w":
        if o.isCelestial():
            if ev["mode"] == "arr":
                u = jg.degrees if c != "str" else "deg"
                ra, dec = o.toWorld(jnp.stack([jnp.asarray(a) for a, _ in pairs]), jnp.stack([jnp.asarray(b) for _, b in pairs]), units=u)
                f = jg.degrees / jg.radians
                return [("rd", r * f, d * f) for r, d in zip(ra, dec)]
            r = [o.toWorld(jg.PositionD(a, b)) for a, b in pairs] if c != "xy" else None
            if r is None:
                return [("rd",) + tuple(o.toWorld(a, b, units=jg.radians)) for a, b in pairs]
            return [("rd", w.ra.rad, w.dec.rad) for w in r]
        if ev["mode"] == "arr":
            u, w = o.toWorld(jnp.stack([jnp.asarray(a) for a, _ in pairs]), jnp.stack([jnp.asarray(b) for _, b in pairs]))
            return list(jnp.ravel(jnp.stack([jnp.asarray(u), jnp.asarray(w)], axis=1)))
        if c == "xy":
            return [x for a, b in pairs for x in o.toWorld(a, b)]
        r = [(o.toWorld if c != "pos" else o.posToWorld)(position(jg, ev, a, b)) for a, b in pairs]
        return [x for t in r for x in (t.x, t.y)]
    if op == "i2p":
        r = o.posToWorld(jg.PositionD(v[0], v[1]), project_center=p, **({} if s == "" else dict(projection=s)))
        return [r.x, r.y]
    if op == "w2i":
        if ev["mode"] == "arr":
            u, w = o.toImage(jnp.stack([jnp.asarray(a) for a, _ in pairs]), jnp.stack([jnp.asarray(b) for _, b in pairs]))
            return list(jnp.ravel(jnp.stack([jnp.asarray(u), jnp.asarray(w)], axis=1)))
        if c == "xy":
            return [x for a, b in pairs for x in o.toImage(a, b)]
        r = [(o.toImage if c != "pos" else o.posToImage)(position(jg, ev, a, b)) for a, b in pairs]
        return [x for t in r for x in (t.x, t.y)]
    if op == "i2c":
        return o.toWorld(position(jg, ev, v[0], v[1]))
    if op == "c2i":
        if ev["mode"] == "arr":
            x, y = o.toImage(jnp.stack([jnp.asarray(h.ra / jg.degrees) for h in hs]), jnp.stack([jnp.asarray(h.dec / jg.degrees) for h in hs]), units=jg.degrees)
            return list(jnp.ravel(jnp.stack([x, y], axis=1)))
        if c == "rd":
            return [x for h in hs for x in o.toImage(h.ra / jg.hours, h.dec / jg.hours, units="hours")]
        r = [o.toImage(h) if c != "pos" else o.posToImage(h) for h in hs]
        return [x for t in r for x in (t.x, t.y)]
    if op in ("local", "jac", "aff"):
        f = {"local": o.local, "jac": o.jacobian, "aff": o.affine}[op]
        return f(**pos_kw(jg, o, ev, v, 0))
    if op == "parea":
        return [o.pixelArea(**pos_kw(jg, o, ev, v, 0))]
    if op == "scales":
        kw = pos_kw(jg, o, ev, v, 0)
        return [o.minLinearScale(**kw), o.maxLinearScale(**kw)]
    if op == "wmat":
        return list(jnp.ravel(o.jacobian().getMatrix()))
    if op == "decomp":
        sc, sh, th, fl = o.jacobian().getDecomposition()
        return [sc, sh.g1, sh.g2, th.rad, ("tf", fl)]
    if op == "winv":
        return o.inverse()
    if op == "shorg":
        f = o.withOrigin if c == "with" else o.shiftOrigin
        a = position(jg, ev, v[0], v[1])
        return f(a) if len(v) == 2 else f(a, jg.PositionD(v[2], v[3]))
    if op in ("shw", "shi"):
        f = (o.toWorld if op == "shw" else o.toImage) if c != "named" else (o.shearToWorld if op == "shw" else o.shearToImage)
        return f(p, **pos_kw(jg, o, ev, v, 0))
    if op in ("pfw", "pfi"):
        f = (o.toWorld if op == "pfw" else o.toImage) if c != "named" else (o.profileToWorld if op == "pfw" else o.profileToImage)
        kw = pos_kw(jg, o, ev, v, 3)
        if ev["n"][0] != "1.0":
            kw["flux_ratio"] = v[0]
        if ev["n"][1:3] != ["0.0", "0.0"]:
            kw["offset"] = jg.PositionD(v[1], v[2]) if c != "named" else (v[1], v[2])
        return f(p, **kw)
    if op == "sky":
        x0, x1, y0, y1 = [int(float(x)) for x in ev["n"][:4]]
        im = jg.ImageD(jg.BoundsI(x0, x1, y0, y1)) if s != "F" else jg.ImageF(jg.BoundsI(x0, x1, y0, y1))
        o.makeSkyImage(im, v[4])
        return [im.array[int(float(ev["n"][i + 1])) - y0, int(float(ev["n"][i])) - x0] for i in range(5, len(ev["n"]), 2)]
    if op == "hdr":
        hd = header_of(jg, o, ev)
        w, org = jg.wcs.readFromFitsHeader(hd)
        ev["_org"] = [org.x, org.y]
        return w
    if op == "lin":
        hd = header_of(jg, o, ev)
        return [hd[k] for k in ("CRVAL1", "CRVAL2", "CRPIX1", "CRPIX2", "CD1_1", "CD1_2", "CD2_1", "CD2_2", "GS_XMIN", "GS_YMIN")]
    if op == "flags":
        return tf(o.isPixelScale(), o.isLocal(), o.isUniform(), o.isCelestial())
    if op == "wparts":
        return look(o)
    if op == "same":
        try:
            hh = hash(o) == hash(p)
        except Exception as e:
            hh = err_of(e)[0]
        return tf(o == p, o != p) + (tf(hh) if not isinstance(hh, str) else [hh])
    if op == "compat":
        return tf(jg.wcs.compatible(o, p))
    if op == "fits":
        h = hdr_dict(jg, ev)
        kw = {}
        if c == "GS":
            return jg.GSFitsWCS(header=h)
        if c == "read":
            return jg.wcs.readFromFitsHeader(h)[0]
        if c == "file":
            return from_file(jg, h)
        return jg.FitsWCS(header=h)
    if op == "tan":
        return jg.TanWCS(o, p, **({} if s == "arcsec" and c == "def" else dict(units=unit(s))))
    if op == "rt":
        return again(jg, o, c)
    if op == "bad":
        return wrong(jg, o, p, c)
    # ---- profiles
    if op == "p.leaf":
        kw = {"flux": v[-1]}
        if s == "Sersic":
            raise KeyError(s)
        if s in ("Box",):
            return jg.Box(v[0], v[1], **kw)
        if s == "Pixel":
            return jg.Pixel(v[0], **kw)
        if s == "DeltaFunction":
            return jg.DeltaFunction(**kw)
        return getattr(jg, s)(**dict(kw, **{c: v[0]}))
    if op == "p.shear":
        return o.shear(g1=v[0], g2=v[1])
    if op == "p.shift":
        return o.shift(v[0], v[1])
    if op == "p.x":
        return [o.xValue(a, b) for a, b in pairs]
    if op == "p.k":
        return [x for a, b in pairs for x in (lambda z: (jnp.real(z), jnp.imag(z)))(o.kValue(a, b))]
    if op == "p.attrs":
        cc = o.centroid
        return [o.flux, cc.x, cc.y, o.max_sb]
    raise KeyError(op)


def header_of(jg, w, ev):
    import galsim

    hd = {"d": dict, "g": lambda: jg.fits.FitsHeader(), "a": lambda: __import__("astropy.io.fits", fromlist=["x"]).Header()}[ev["c"] or "d"]()
    x, y = int(float(ev["n"][0])), int(float(ev["n"][1]))
    w.writeToFitsHeader(hd, jg.BoundsI(x, x + 31, y, y + 47))
    if isinstance(hd, dict):
        hd = {k: (x[0] if isinstance(x, tuple) else x) for k, x in hd.items()}
    return hd


def hdr_dict(jg, ev):
    h = {}
    for k, x in ev["hdr"]:
        try:
            h[k] = float(x)
        except ValueError:
            h[k] = x
    if ev["mode"] == "ahdr":
        import astropy.io.fits as pf

        a = pf.Header()
        for k, x in h.items():
            a[k] = x
        return a
    if ev["mode"] == "ghdr":
        return jg.fits.FitsHeader(h)
    return h


def from_file(jg, h):
    import os
    import tempfile

    import astropy.io.fits as pf
    import numpy as np

    with tempfile.TemporaryDirectory() as d:
        hdu = pf.PrimaryHDU(np.zeros((4, 4), dtype=np.float32))
        for k, x in h.items():
            hdu.header[k] = x
        hdu.writeto(os.path.join(d, "w.fits"))
        return jg.FitsWCS("w.fits", dir=d)


def again(jg, o, c):
    import copy
    import pickle

    import jax
    import jax.numpy as jnp

    if c == "copy":
        return copy.copy(o)
    if c == "deepcopy":
        return copy.deepcopy(o)
    if c == "meth":
        return o.copy()
    if c == "pickle":
        return pickle.loads(pickle.dumps(o))
    if c == "tree":
        leaves, td = jax.tree_util.tree_flatten(o)
        return jax.tree_util.tree_unflatten(td, leaves)
    if c == "jit":
        return jax.jit(lambda x: x)(o)
    if c == "vmap":
        st = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x) * 2, jnp.asarray(x)]), o)
        return jax.tree_util.tree_map(lambda x: x[1], jax.vmap(lambda x: x)(st))
    if c == "repr":
        import numpy as np
        import galsim

        return eval(repr(o), {"galsim": jg, "array": np.array, "coord": jg, "np": np})
    if c == "galsim":
        return type(o).from_galsim(o.to_galsim())
    raise KeyError(c)


def wrong(jg, o, p, c):
    """Calls that must be refused."""
    D = jg.PositionD
    return {
        "aadd1": lambda: o + 1.0, "asub1": lambda: 1.0 - o, "amula": lambda: o * p, "adiva": lambda: o / p, "anoun": lambda: jg.Angle(3.0),
        "aunit": lambda: jg.Angle(3.0, "degrees"), "aangunit": lambda: jg.Angle(o, jg.degrees), "awrap1": lambda: o.wrap(3.0), "alt": lambda: o < 1.0,
        "uname": lambda: jg.AngleUnit.from_name("furlongs"), "usep": lambda: o.dms(sep="abcd"), "uprec": lambda: o.hms(prec=-1),
        "ustr": lambda: jg.Angle.from_dms("abc"), "ustr7": lambda: jg.Angle.from_hms("1:2:3:4"), "uau": lambda: jg.AngleUnit(jg.degrees),
        "sreal": lambda: jg.Shear(0.3), "sstr": lambda: jg.Shear("0.3"), "stwo": lambda: jg.Shear(0.1, 0.2), "sg1e1": lambda: jg.Shear(g1=0.1, e1=0.2),
        "sgnob": lambda: jg.Shear(g=0.1), "sbnog": lambda: jg.Shear(beta=p), "sbnum": lambda: jg.Shear(g=0.1, beta=0.3), "sfoo": lambda: jg.Shear(foo=0.3),
        "sge": lambda: jg.Shear(g=0.1, e=0.2, beta=p), "sneg": lambda: jg.Shear(q=-0.2, beta=p), "sq0": lambda: jg.Shear(q=1.2, beta=p),
        "sargkw": lambda: jg.Shear(0.1 + 0.2j, g1=0.3),
        "conly": lambda: jg.CelestialCoord(o), "cnum": lambda: jg.CelestialCoord(0.3, 0.2), "cmix": lambda: jg.CelestialCoord(o, 0.2),
        "oarg": lambda: o.shiftOrigin((1, 2)), "oarg2": lambda: o.shiftOrigin(3), "t2w0": lambda: o.toWorld(), "t2w3": lambda: o.toWorld(1, 2, 3),
        "t2i3": lambda: o.toImage(1, 2, 3), "p2w": lambda: o.posToWorld((1, 2)), "p2i": lambda: o.posToImage((1, 2)), "orgtype": lambda: jg.OffsetWCS(0.3, origin=5),
        "worgtype": lambda: jg.AffineTransform(1, 0, 0, 1, origin=D(0, 0), world_origin=5), "shnotype": lambda: jg.ShearWCS(0.3, 0.2),
        "c2i": lambda: o.posToImage(D(1, 2)), "nounits": lambda: o.toWorld(1.0, 2.0), "badunits": lambda: o.toWorld(1.0, 2.0, units=3), "badproj": lambda: o.posToWorld(D(1, 2), project_center=p, projection="mercator"),
        "tanaff": lambda: jg.TanWCS(o, 3), "fitsnone": lambda: jg.FitsWCS(), "gsnone": lambda: jg.GSFitsWCS(),
    }[c]()


def sex(jg, ev, o):
    """Printed text and its pieces."""
    n = ev["n"]
    sep = ev["c"]
    kw = {}
    if n[0] != "none":
        kw["prec"] = int(n[0])
    if n[1] != "T":
        kw["pad"] = False
    if n[2] == "T":
        kw["plus_sign"] = True
    s = {"": None, "dms": "dms", "tuple": ("h:", "m:", "s")}.get(sep, sep)
    if s is not None:
        kw["sep"] = s
    t = (o.hms if ev["s"] == "hours" else o.dms)(**kw)
    m = re.match(r"^([+-]?)(\d+)([^\d.]+)(\d+)([^\d.]+)(\d+)(?:\.(\d+))?([^\d.]*)$", t)
    if not m:
        return ["1"], ["text", t]
    g = m.groups()
    ev["n"] = n[:3] + [str(len(g[1])), str(len(g[3])), str(len(g[5]))] + n[6:]
    return ["1"], [g[0], g[1], g[2], g[3], g[4], g[5] + ("." + g[6] if g[6] else ""), str(len(g[6] or "")), g[7]]


_J = {}


def traced(jg, ev, objs, v):
    """The call inside jit or vmap, with operands and numbers traced."""
    import jax
    import jax.numpy as jnp

    key = (ev["op"], ev["s"], ev["c"], ev["mode"], len(v), len(ev["hs"]), ev["n"][1:3] if ev["op"] in ("pfw", "pfi") else 0, ev["n"][0:1] if ev["op"] in ("pfw", "pfi") else 0,
           ev["n"] if ev["op"] in ("sky", "unsex") else 0)
    key = repr(key)
    e = dict(ev)

    def f(os, w):
        r = call(jg, e, os[0], os[1], os[2], os[3:], [w[i] for i in range(len(v))])
        return [x if not isinstance(x, tuple) else tuple(y for y in x[1:]) for x in r] if isinstance(r, list) else r

    w = jnp.array([float(x) for x in v])
    if ev["mode"] == "jit":
        if key not in _J:
            _J[key] = jax.jit(f)
        return _J[key](objs, w)
    if key not in _J:
        _J[key] = jax.jit(jax.vmap(f)) if ev["mode"] == "vmapj" else jax.vmap(f)
    near = lambda x: jnp.stack([jnp.asarray(x) * 0.97, jnp.asarray(x)]) if jnp.issubdtype(jnp.asarray(x).dtype, jnp.inexact) else jnp.stack([jnp.asarray(x)] * 2)
    st = jax.tree_util.tree_map(near, objs)
    r = _J[key](st, jnp.stack([w * 0.97, w]))
    return jax.tree_util.tree_map(lambda x: x[1], r)


def flat(r):
    out = []
    for x in r:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out += nums(xyz(x[1], x[2])) if x[0] == "rd" else tf(x[1])
        elif isinstance(x, tuple):
            out += nums(xyz(x[0], x[1])) if len(x) == 2 else tf(x[0])
        else:
            out.append(x if isinstance(x, str) else num(x))
    return out


def step(jg, hs, ev):
    """Returns (new value or None); fills ev obs/err."""
    g = lambda i: hs[i - 1] if i else None
    objs = [g(ev["a"]), g(ev["b"]), g(ev["d"])] + [g(i) for i in ev["hs"]]
    if ev["op"] == "sex":
        ev["obs"], ev["tx"] = sex(jg, ev, objs[0])
        return None
    if ev["mode"] in ("jit", "vmap", "vmapj"):
        r = traced(jg, ev, objs, ev["n"])
    else:
        v = [val(x, ev["how"]) if re.match(r"^-?[\d.]", x) else x for x in ev["n"]]
        r = call(jg, ev, objs[0], objs[1], objs[2], objs[3:], v)
    if ev["op"] in OBS:
        ev["obs"] = flat(r) if isinstance(r, list) else r
        if ev["op"] == "xyz2rd":
            import numpy as np

            ev["obs"] = nums(xyz(r[0], r[1])) + [num(r[2])]
        return None
    ev["obs"] = look(r, ev["op"])
    if ev["op"] == "hdr":
        ev["obs"] += nums(ev.pop("_org"))
    return r


def run(history, emit):
    import jax_galsim as jg

    hs = []
    for h in history:
        ev = dict(h, obs=[], err=[])
        new = None
        refs = [x for x in [h["a"], h["b"], h["d"]] + h["hs"] if x]
        try:
            if not any(x > len(hs) or hs[x - 1] is None for x in refs):
                new = step(jg, hs, ev)
        except Exception as e:
            ev["err"] = err_of(e)
            ev.pop("_org", None)
        if h["op"] not in OBS:
            hs.append(new)
        emit(ev)


class Geo:
    """Random histories; tracks only which handle holds what."""

    def __init__(self, rng):
        self.rng, self.H, self.N, self.k = rng, [], 0, {}

    def ev(self, op, a=0, b=0, d=0, hs=(), n=(), s="", c="", mode="eager", how=None, hdr=(), tx=(), kind="", ok=True):
        self.H.append(dict(op=op, a=a, b=b, d=d, hs=list(hs), n=list(n), s=s, c=c, mode=mode, how=how or self.rng.choice(["py", "py", "np", "jnp"]),
                           hdr=[list(x) for x in hdr], tx=list(tx)))
        if op not in OBS:
            self.N += 1
            if kind and ok:
                self.k.setdefault(kind, []).append(self.N)
        return self.N

    def u(self, lo, hi, d=4):
        return repr(round(self.rng.uniform(lo, hi), d))

    def any(self, kind):
        return self.rng.choice(self.k[kind])

    def mode(self, p=0.1):
        x = self.rng.random()
        return "jit" if x < p else "vmap" if x < p * 1.5 else "eager"
