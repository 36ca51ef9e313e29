from props.common import *
from symx import core

KINDS = ["same", "list", "tuple", "array"]


def comps(ctx, tag, kind, lo=-1e6, hi=1e6):
    k = {"float": core.FLT, "int": core.INT, "np": core.NPF}[kind]
    return [ctx.real(f"{tag}{a}", lo, hi, kind=k) for a in "xyze"]


def operand(ctx, cls, kind, c):
    return {"same": lambda: cls(*c), "list": lambda: list(c), "tuple": lambda: tuple(c), "array": lambda: ctx.array(c)}[kind]()


def comp(v):
    return [v.x, v.y, v.z, v.e]


def cls_of(ctx, name):
    return getattr(ctx.m.utils, name)


def unchanged(ctx, v, c):
    ctx.close_vec("operands keep their value", comp(v), c, 1e-12)


def addsub(ctx, name, ka, kb):
    cls = cls_of(ctx, name)
    a, b = comps(ctx, "a", ka), comps(ctx, "b", kb)
    kind = ctx.choice("kind", KINDS)
    va, vb = cls(*a), operand(ctx, cls, kind, b)
    s, d = va + vb, va - vb
    ctx.check("same kind of object", type(s) is cls and type(d) is cls)
    ctx.close_vec("addition per axis", comp(s), [x + y for x, y in zip(a, b)], 1e-6)
    ctx.close_vec("subtraction per axis", comp(d), [x - y for x, y in zip(a, b)], 1e-6)
    back = d + vb
    ctx.close_vec("subtracting and adding again", comp(back), a, 1e-6)
    unchanged(ctx, va, a)
    ctx.close_vec("operands keep their value", comp(vb) if kind == "same" else list(vb), b, 1e-12)
    ctx.check("new objects", s is not va and d is not va)
    ctx.reach("done")


def scaling(ctx, name, ka, kind):
    cls = cls_of(ctx, name)
    a = comps(ctx, "a", ka)
    if kind == "int":
        f = ctx.choice("f", [1, -1, 2, -7, 1000])
    else:
        f = ctx.real("f", -1e4, 1e4, kind=core.NPF if kind == "np" else core.FLT)
        ctx.assume((f > 1e-3) | (f < -1e-3) if ctx.symbolic else abs(f) > 1e-3)
    va = cls(*a)
    m, d = va * f, va / f
    ctx.check("same kind of object", type(m) is cls and type(d) is cls)
    ctx.close_vec("scaling per axis", comp(m), [x * f for x in a], 1e-4)
    ctx.close_vec("division per axis", [x * f for x in comp(d)], a, 1e-4)
    unchanged(ctx, va, a)
    ctx.reach("done")


def bad_scalar(ctx, name):
    """anything but a number is refused"""
    cls = cls_of(ctx, name)
    a = cls(*comps(ctx, "a", "float"))
    x = {"text": "2", "list": [1.0, 2.0, 3.0, 4.0], "none": None, "vector": a}[ctx.choice("arg", ["text", "list", "none", "vector"])]
    ctx.check("scaling by other objects is refused", ctx.raises(lambda: a * x) is not None)
    ctx.check("division by other objects is refused", ctx.raises(lambda: a / x) is not None)
    ctx.reach("done")


def lengths(ctx, name):
    """only four components make a vector"""
    cls = cls_of(ctx, name)
    n = ctx.choice("n", [0, 1, 2, 3, 4, 5])
    c = [ctx.real(f"c{i}", -100, 100) for i in range(n)]
    how = ctx.choice("how", ["args", "list", "tuple", "array"])
    if how == "args" and n == 1:
        return ctx.reach("done")
    fn = {"args": lambda: cls(*c), "list": lambda: cls(list(c)), "tuple": lambda: cls(tuple(c)), "array": lambda: cls(ctx.array(c))}[how]
    if n == 4:
        ctx.close_vec("components as given", comp(fn()), c, 1e-12)
        ctx.check("extrusion last", len(fn().get_vec(withExtrusion=True)) == 4 and len(fn().get_vec()) == 3)
    else:
        ctx.check("other lengths are refused", ctx.raises(fn) is not None)
        v = cls(1.0, 2.0, 3.0, 4.0)
        if how != "args":
            w = {"list": list, "tuple": tuple, "array": ctx.array}[how](c)
            ctx.check("operands of other lengths are refused", ctx.raises(lambda: v + w) is not None and ctx.raises(lambda: v - w) is not None)
            ctx.check("objects of other lengths are not equal", not (v == w))
    ctx.reach("done")


def equality(ctx, name, kind, near):
    """equal if and only if every component is close"""
    cls = cls_of(ctx, name)
    b = comps(ctx, "b", "float", -1000, 1000)
    i = ctx.choice("axis", [0, 1, 2, 3])
    d = [ctx.real(f"d{j}", -1, 1) if j == i else 0 for j in range(4)]
    a = [x + y for x, y in zip(b, d)]
    va, vb = cls(*a), operand(ctx, cls, kind, b)
    ab = lambda x: x if x >= 0 else -x  # noqa: E731
    tol = 1e-8 + 1e-5 * ab(b[i])
    if near:
        ctx.assume(ab(d[i]) <= tol * 0.999 - 1e-10)
        ctx.check("close components are equal", va == vb)
        ctx.check("close components are not unequal", not (va != vb))
    else:
        ctx.assume(ab(d[i]) >= tol * 1.001 + 1e-10)
        ctx.check("a differing component makes them unequal", not (va == vb))
        ctx.check("a differing component makes them unequal", va != vb)
    ctx.reach("done")


def norms(ctx, name, zero):
    cls = cls_of(ctx, name)
    a = [0.0 if z == "0" else ctx.real(f"a{k}", -1000, 1000) for k, z in zip("xyze", zero)]
    v = cls(*a)
    sq = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
    n3, n4 = v.get_norm(), v.get_norm(withExtrusion=True)
    ctx.le("norm is not negative", 0, n3, 1e-12)
    ctx.le("norm is not negative", 0, n4, 1e-12)
    ctx.eq("norm without extrusion", n3 * n3, sq, 1e-6, 1e-9)
    ctx.eq("norm with extrusion", n4 * n4, sq + a[3] * a[3], 1e-6, 1e-9)
    ctx.close_vec("components", v.get_vec(), a[:3], 1e-12)
    ctx.close_vec("components with extrusion", v.get_vec(withExtrusion=True), a, 1e-12)
    ctx.reach("done")


def direction(ctx, zero, ext, tiny=False):
    cls = cls_of(ctx, "velocity")
    a = [0.0 if z == "0" else ctx.real(f"a{k}", -1000, 1000) for k, z in zip("xyze", zero)]
    scale = 2.0 ** -48 if tiny else 1  # down to 4e-18: slow is not at rest
    v = cls(*[x * scale for x in a])
    sq = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
    for x in a:  # away from the numerically zero speeds
        ctx.assume((x == 0) | (x * x > 1e-6) if ctx.symbolic else x == 0 or x * x > 1e-6)
    d = v.get_norm_dir(withExtrusion=ext)
    ctx.check("not_zero if any component differs from zero", bool(v.not_zero()) == bool(a[0] != 0 or a[1] != 0 or a[2] != 0 or a[3] != 0))
    ctx.check("extruding if filament moves forward", bool(v.is_extruding()) == bool(a[3] > 0))
    want = a if ext else a[:3]
    if sq > 0:
        n = v.get_norm()
        ctx.check("direction of a travel", d is not None)
        ctx.close_vec("direction times speed", [x * n / scale for x in d], want, 1e-6)
        ctx.reach("travel")
    elif ext and a[3] != 0:
        ctx.check("direction of an extrusion", d is not None)
        ctx.close_vec("unit direction of an extrusion", list(d), [0, 0, 0, 1 if a[3] > 0 else -1], 1e-9)
        ctx.reach("extrusion")
    else:
        ctx.check("no direction at rest", d is None)
        ctx.reach("rest")


def distances(ctx, ka, kb, zero):
    P = cls_of(ctx, "position")
    a = comps(ctx, "a", ka, -1000, 1000)
    d = [0 if z == "0" else ctx.real("d" + k, -100, 100) for k, z in zip("xyze", zero)]
    for x in d:
        ctx.assume((x == 0) | (x * x > 1e-6) if ctx.symbolic else x == 0 or x * x > 1e-6)
    b = [x + y for x, y in zip(a, d)] if ka == "float" else [x + y for x, y in zip(a, d)]
    p, q = P(*a), P(*b)
    r = [x - y for x, y in zip(b, a)]
    sq = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
    t3, t4 = p.get_t_distance(q), p.get_t_distance(q, withExtrusion=True)
    ctx.le("distance is not negative", 0, t3, 1e-12)
    ctx.eq("distance without extrusion", t3 * t3, sq, 1e-5, 1e-6)
    ctx.eq("distance with extrusion", t4 * t4, sq + r[3] * r[3], 1e-5, 1e-6)
    u3 = q.get_t_distance(p)
    ctx.eq("distance in both directions", u3, t3, 1e-6)
    o3, o4 = p.get_t_distance(), p.get_t_distance(withExtrusion=True)
    ctx.eq("distance from the origin", o3 * o3, a[0] * a[0] + a[1] * a[1] + a[2] * a[2], 1e-4, 1e-6)
    ctx.eq("distance from the origin", o4 * o4, a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 1e-4, 1e-6)
    ctx.check("travel if any of XYZ differs", bool(p.is_travel(q)) == bool(sq > 0))
    ctx.check("extrusion if E grows", bool(p.is_extruding(q)) == bool(r[3] > 0))
    ctx.check("extrusion if E changes", bool(p.is_extruding(q, ignore_retract=False)) == bool(r[3] != 0))
    o = operand(ctx, P, ctx.choice("kind", KINDS[1:]), b)
    ctx.eq("distance from other objects", p.get_t_distance(o), t3, 1e-6)
    ctx.eq("distance from other objects with extrusion", p.get_t_distance(o, withExtrusion=True), t4, 1e-6)
    ctx.check("travel to other objects", bool(p.is_travel(o)) == bool(sq > 0))
    ctx.check("extrusion to other objects", bool(p.is_extruding(o)) == bool(r[3] > 0))
    ctx.check("any extrusion to other objects", bool(p.is_extruding(o, ignore_retract=False)) == bool(r[3] != 0))
    unchanged(ctx, p, a)
    ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    b = 60 if q else 600
    out = []

    def add(title, fn, reach=("done",), **p):
        out.append(Case(title, fn, p, budget=b, bounds="any components within +-1e6", must_reach=list(reach), witness=3))

    for n in ("vector_4D", "velocity", "position"):
        for ka, kb in (("float", "float"), ("int", "float"), ("float", "int"), ("np", "float")):
            add(f"{n} {ka} +- {kb}", addsub, name=n, ka=ka, kb=kb)
        for k in ("float", "int", "np"):
            for ka in ("float", "int", "np"):
                add(f"{n} of {ka} scaled by {k}", scaling, name=n, ka=ka, kind=k)
        add(f"{n} scaled by other objects", bad_scalar, name=n)
        add(f"{n} of other lengths", lengths, name=n)
        for k in KINDS:
            for near in (True, False):
                add(f"{n} {'equal' if near else 'unequal'} {k}", equality, name=n, kind=k, near=near)
        for z in ("0000", "1111", "0001", "1110", "0110"):
            add(f"{n} norm {z}", norms, name=n, zero=z)
    for z in ("0000", "1111", "0001", "1110", "0101", "0010"):
        for e in (True, False):
            for t in (False, True):
                add(f"direction{' at a crawl' if t else ''} {z} {'with' if e else 'without'} extrusion", direction, (), zero=z, ext=e, tiny=t)
    for z in ("0000", "1111", "0001", "1110", "0101", "0010", "1000"):
        add(f"distance {z}", distances, ka="float", kb="float", zero=z)
    return out
