"""Rectangles & positions: drive real objects through random histories."""
import random

import vlib
from vlib import num, nums, err_of

PID = "P01"
JITOPS = {
    "shift", "border", "border1", "center", "truecenter", "origin", "padd", "psub",
    "pneg", "pmul", "pround", "q_incpos", "q_incb",
}


def proj(o):
    import jax_galsim as jg

    if isinstance(o, (jg.PositionD, jg.PositionI)):
        return ["PI" if isinstance(o, jg.PositionI) else "PD", num(o.x), num(o.y)]
    if isinstance(o, (jg.BoundsD, jg.BoundsI)):
        t = "BI" if isinstance(o, jg.BoundsI) else "BD"
        if bool(o.isDefined()):
            a = [o.xmin, o.xmax, o.ymin, o.ymax]
            g = [o.getXMin(), o.getXMax(), o.getYMin(), o.getYMax()]
            if [num(v) for v in a] != [num(v) for v in g]:
                return [t, "getters-disagree"]
            return [t, "T"] + [num(v) for v in a] + [num(o.area())]
        # the reference leaves the area of an undefined BoundsD open
        return [t, "F"] + ([num(o.area())] if t == "BI" else [])
    return ["?" + type(o).__name__]


def lit(s, kind, integer):
    """numeric literal text -> python / numpy / jax scalar"""
    import jax.numpy as jnp
    import numpy as np

    f = float(s)
    v = int(f) if integer and f == int(f) else f
    if kind == "np":
        return np.int64(v) if isinstance(v, int) else np.float64(v)
    if kind == "jnp":
        return jnp.asarray(v)
    return v


def call(op, a, b, n, t, tb, kind):
    import copy
    import pickle

    import galsim
    import jax
    import jax_galsim as jg

    C = {"BI": jg.BoundsI, "BD": jg.BoundsD, "PI": jg.PositionI, "PD": jg.PositionD}
    isint = (t or tb) in ("BI", "PI") or isinstance(a, (jg.BoundsI, jg.PositionI))
    v = [lit(x, kind, isint) for x in n]
    if op == "make":
        return C[t](*v)
    if op == "makekw":
        return C[t](xmin=v[0], xmax=v[1], ymin=v[2], ymax=v[3])
    if op == "delta":
        return C[t](xmin=v[0], deltax=v[1], ymin=v[2], deltay=v[3])
    if op == "empty":
        return C[t]()
    if op == "pos":
        return C[t](*v) if kind != "np" else C[t](x=v[0], y=v[1])
    if op == "frompos":
        return C[tb](a)
    if op == "convI":
        return jg.BoundsI(a)
    if op == "convD":
        return jg.BoundsD(a)
    if op == "union":
        return a + b
    if op == "inter":
        return a & b
    if op == "shift":
        return a.shift(b)
    if op == "border":
        return a.withBorder(v[0], v[1])
    if op == "border1":
        return a.withBorder(v[0])
    if op == "expand":
        return a.expand(float(n[0]), float(n[1]))
    if op == "expand1":
        return a.expand(float(n[0]))
    if op == "center":
        return a.center
    if op == "truecenter":
        return a.true_center
    if op == "origin":
        return a.origin
    if op == "padd":
        return a + b
    if op == "psub":
        return a - b
    if op == "pneg":
        return -a
    if op == "pmul":
        return a * v[0] if kind != "np" else v[0].item() * a
    if op == "pround":
        return a.round()
    if op.startswith("id:"):
        how = op[3:]
        if how == "copy":
            return copy.copy(a)
        if how == "deepcopy":
            return copy.deepcopy(a)
        if how == "pickle":
            return pickle.loads(pickle.dumps(a))
        if how == "repr":
            return eval(repr(a), {"galsim": jg})
        if how == "tree":
            return jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(a)))
        if how == "jit":
            return jax.jit(lambda x: x)(a)
        if how == "ref":
            g = a.to_galsim()
            assert type(g).__module__.startswith("galsim"), type(g)
            return type(a).from_galsim(g)
    if op == "q_incxy":
        return ["T" if bool(a.includes(v[0], v[1])) else "F"]
    if op == "q_incpos":
        return a.includes(b)
    if op == "q_incb":
        return a.includes(b)
    if op == "q_eq":
        e, ne = bool(a == b), bool(a != b)
        return [
            "T" if e else "F",
            "T" if ne else "F",
            "hash-equal" if e and hash(a) == hash(b) else ("hash-differs" if e else "-"),
        ]
    if op == "q_shape":
        return [num(x) for x in a.numpyShape()]
    if op == "q_again":
        return proj(a)
    raise KeyError(op)


def run(history, emit):
    import jax

    heap = []
    for h in history:
        op, ia, ib, n = h["op"], h["a"], h["b"], h["n"]
        a = heap[ia - 1] if ia else None
        b = heap[ib - 1] if ib else None
        ev = dict(
            op="id" if op.startswith("id:") else op, a=ia, b=ib, n=n, lax="F",
            mode=h["mode"] + (":" + op if op.startswith("id:") else ""), obs=[], err=[], t=h.get("t", "-"),
        )
        if "tb" in h:
            ev["tb"] = h["tb"]
        # validity of corner values that are jax arrays is documented as unchecked
        leaves = [v for o in (a, b) if o is not None for v in vars(o).values()]
        if h["mode"] in ("jnp", "jit", "vmap") or op.startswith("expand") or any(isinstance(v, jax.Array) for v in leaves):
            ev["lax"] = "T"
        res = None
        if (ia and a is None) or (ib and b is None):
            if not op.startswith("q_"):
                heap.append(None)
            ev["err"] = ["skipped"]
            emit(ev)
            continue
        try:
            m = h["mode"]
            if m == "jit":
                if b is None:
                    res = jax.jit(lambda x: call(op, x, None, n, None, None, "py"))(a)
                else:
                    res = jax.jit(lambda x, y: call(op, x, y, n, None, None, "py"))(a, b)
            elif m == "vmap" and not jax.tree_util.tree_leaves((a, b)):
                res = call(op, a, b, n, h.get("t"), h.get("tb"), "py")
            elif m == "vmap":
                import jax.numpy as jnp

                st = lambda o: jax.tree_util.tree_map(lambda v: jnp.stack([v * 0 + 3, v]), o)
                if b is None:
                    r = jax.vmap(lambda x: call(op, x, None, n, None, None, "py"))(st(a))
                else:
                    r = jax.vmap(lambda x, y: call(op, x, y, n, None, None, "py"))(st(a), st(b))
                res = jax.tree_util.tree_map(lambda v: v[1], r)
            elif m == "rt":
                f = lambda o: o if o is None else jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(o)))
                res = call(op, f(a), f(b), n, h.get("t"), h.get("tb"), "py")
            else:
                res = call(op, a, b, n, h.get("t"), h.get("tb"), m)
            if op in ("q_incpos", "q_incb"):
                res = ["T" if bool(res) else "F"]
            ev["obs"] = res if op.startswith("q_") else proj(res)
        except Exception as e:
            ev["err"] = err_of(e)
            res = None
        if not op.startswith("q_"):
            heap.append(res)
        emit(ev)


def gen(rng, length):
    """A random history. types[i] tracks the static type of handle i+1."""
    H, T = [], []

    def val(t):
        if t in ("BI", "PI"):
            v = rng.choice([rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(-100000, 100000)])
            if rng.random() < 0.02:
                return "2.5"
            return str(v)
        return rng.choice(
            ["%d" % rng.randint(-5, 5), "%r" % round(rng.uniform(-4, 4), 2), "%r" % rng.uniform(-1e3, 1e3), "%r" % (rng.randint(-20, 20) / 4)]
        )

    def add(op, a=0, b=0, n=(), mode=None, rt=None, **kw):
        mode = mode or rng.choice(["py", "py", "np", "jnp", "rt"])
        if mode in ("jit", "vmap") and op not in JITOPS:
            mode = "py"
        H.append(dict(op=op, a=a, b=b, n=list(n), mode=mode, **kw))
        if not op.startswith("q_"):
            T.append(rt)

    def pick(ts):
        c = [i + 1 for i, t in enumerate(T) if t in ts]
        return rng.choice(c[-6:]) if c else 0

    for t in ("BI", "BD"):
        lo = sorted([val(t), val(t)], key=float)
        hi = sorted([val(t), val(t)], key=float)
        add("make", n=[lo[0], lo[1], hi[0], hi[1]], t=t, rt=t)
    for t in ("PI", "PD"):
        add("pos", n=[val(t), val(t)], t=t, rt=t)
    while len(H) < length:
        r = rng.random()
        t = rng.choice(["BI", "BD"])
        pt = "PI" if t == "BI" else "PD"
        m = rng.choice([None, None, None, "jit", "vmap"]) if rng.random() < 0.35 else None
        if r < 0.10:
            v = [val(t) for _ in range(4)]
            if rng.random() < 0.8:
                v[0], v[1] = sorted(v[:2], key=float)
                v[2], v[3] = sorted(v[2:], key=float)
            add(rng.choice(["make", "makekw"]), n=v, t=t, rt=t)
        elif r < 0.14:
            w = lambda: str(rng.randint(0, 9)) if t == "BI" else repr(rng.choice([0.0, 1.5, 7.25, -1.0, rng.uniform(0, 9)]))
            add("delta", n=[val(t), w(), val(t), w()], t=t, rt=t, mode=rng.choice(["py", "np", "jnp"] if t == "BD" else ["py", "np"]))
        elif r < 0.16:
            add("empty", t=t, rt=t, mode="py")
        elif r < 0.22:
            add("pos", n=[val(pt), val(pt)], t=pt, rt=pt)
        elif r < 0.25:
            add("frompos", pick([pt]), t=t, tb=t, rt=t)
        elif r < 0.35:
            add("union", pick([t]), pick([t, t, pt] if rng.random() < 0.95 else ["BI", "BD"]), rt=t, mode=rng.choice(["py", "rt"]))
        elif r < 0.43:
            add("inter", pick([t]), pick([t] if rng.random() < 0.95 else ["BI", "BD"]), rt=t, mode=rng.choice(["py", "rt"]))
        elif r < 0.51:
            add("shift", pick([t]), pick([pt] if rng.random() < 0.95 else ["PI", "PD"]), rt=t, mode=m)
        elif r < 0.56:
            v = lambda: str(rng.randint(-3, 5)) if t == "BI" else val("BD")
            op = rng.choice(["border", "border1"])
            add(op, pick([t]), n=[v(), v()], rt=t, mode=m or rng.choice(["py", "np"]))
        elif r < 0.60:
            f = lambda: repr(rng.choice([1.0, 1.5, 2.0, 3.0, 0.5, 1.1, 2.75]))
            add(rng.choice(["expand", "expand1"]), pick([t]), n=[f(), f()], rt=t, mode="py")
        elif r < 0.68:
            op = rng.choice(["center", "truecenter", "origin"])
            add(op, pick([t]), rt="PD" if op == "truecenter" else pt, mode=m)
        elif r < 0.76:
            op = rng.choice(["padd", "psub"])
            a, b = pick(["PI", "PD"]), pick(["PI", "PD"])
            rt = "PI" if T[a - 1] == T[b - 1] == "PI" else "PD"
            add(op, a, b, rt=rt, mode=m)
        elif r < 0.80:
            p = pick(["PI", "PD"])
            op = rng.choice(["pneg", "pmul", "pround"])
            n = [str(rng.randint(-3, 3))] if op == "pmul" and T[p - 1] == "PI" else [repr(rng.uniform(-3, 3))]
            add(op, p, n=n, rt="PI" if op == "pround" else T[p - 1], mode=m or "py")
        elif r < 0.86:
            h = pick([t, pt])
            add("id:" + rng.choice(["copy", "deepcopy", "pickle", "repr", "tree", "jit", "ref"]), h, rt=T[h - 1], mode="py")
        elif r < 0.90:
            add("q_incpos", pick([t]), pick(["PI", "PD"]), mode=m)
        elif r < 0.92:
            add("q_incxy", pick([t]), n=[val(t), val(t)], mode="py")
        elif r < 0.95:
            add("q_incb", pick([t]), pick([t]), mode=m)
        elif r < 0.97:
            ts = rng.choice([[t], [pt], ["BI", "BD", "PI", "PD"]])
            add("q_eq", pick(ts), pick(ts), mode="py")
        elif r < 0.98:
            add("q_shape", pick(["BI"]), mode="py")
        else:
            add("q_again", rng.randint(1, len(T)), mode="py")
    for _ in range(12):
        t = rng.choice(["BI", "BD", "PI", "PD"])
        c = [i + 1 for i, x in enumerate(T) if x == t]
        add("q_eq", rng.choice(c), rng.choice(c), mode="py")
    for i in range(len(T)):
        add("q_again", i + 1, mode="py")
    return H


def check(c):
    c.model_check("BoundsMC", "BoundsMC.cfg" if c.tier == "quick" else "BoundsMC3.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 7919 + 1)
    hs = [gen(rng, 60) for _ in range(200 if c.tier == "quick" else 1500)]
    c.conform("BoundsTrace", run, hs)


if __name__ == "__main__":
    vlib.main(PID, check)
