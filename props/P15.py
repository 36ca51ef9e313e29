from props.junction import *

FW = "marlin_jerk"


def rule(ctx, ex, change2, v, j):
    """ex: exit speed, change2: squared velocity change at feed rates"""
    lim = 4 * j * j
    if change2 <= lim:
        ctx.eq("within the allowed change: full feed rate", ex, v, 1e-6)
        ctx.reach("within")
    else:
        ctx.eq("scaled by allowed over actual change", ex * ex * change2, v * v * lim, 1e-5, 1e-6)
        ctx.reach("scaled")


def angle(ctx, basis, between=0, ext=False, lens=True, other=False):
    s = ctx.real("s", F(-99, 100), F(99, 100))
    k = common_inputs(ctx)
    d1, d2, S, c = turn(basis, s)
    kw = dict(len1=ctx.real("len1", F(1, 1000), 100))
    if lens:
        kw["len2"] = ctx.real("len2", F(1, 1000), 100)
    if ext:
        kw.update(e1=ctx.real("e1", -5, 5), e2=ctx.real("e2", -5, 5))
    if other:
        kw["over_next"] = (ctx.real("acc2", 10, 20000), ctx.real("jerk2", 0, 100))
    ex = corner(ctx, FW, d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], between=between, **kw)
    rule(ctx, ex, k["v1"] * k["v1"] + k["v2"] * k["v2"] - 2 * k["v1"] * k["v2"] * c, k["v1"], k["jerk"])
    ctx.observe("exit", ex)


def fixed_dirs(ctx, d1, d2):
    k = common_inputs(ctx)
    a, b = DIRS[d1], DIRS[d2]
    ex = corner(ctx, FW, a, b, k["v1"], k["v2"], k["acc"], k["jerk"], len1=ctx.real("len1", F(1, 1000), 100),
                len2=ctx.real("len2", F(1, 1000), 100))
    rule(ctx, ex, sum((x * k["v1"] - y * k["v2"]) ** 2 for x, y in zip(a, b)), k["v1"], k["jerk"])


def with_extrusion(ctx, d1, d2, k1, k2):
    """filament speed plays no part in the rule"""
    k = common_inputs(ctx)
    a, b = DIRS[d1], DIRS[d2]
    n1, n2 = ctx.real("len1", F(1, 1000), 100), ctx.real("len2", F(1, 1000), 100)
    ex = corner(ctx, FW, a, b, k["v1"], k["v2"], k["acc"], k["jerk"], len1=n1, len2=n2, e1=k1 * n1, e2=k2 * n2)
    rule(ctx, ex, sum((x * k["v1"] - y * k["v2"]) ** 2 for x, y in zip(a, b)), k["v1"], k["jerk"])


def no_next(ctx, kind, d1):
    """the velocity after the last move / before an extrusion-only move is zero"""
    k = common_inputs(ctx)
    kw, d2 = {}, DIRS[d1]
    if kind == "last":
        kw = dict(nxt=False, between=ctx.choice("lines", [0, 2]))
    else:
        d2 = (F(0), F(0), F(0))
        kw = dict(e2=ctx.real("e2", F(1, 1000), 10) * ctx.choice("sg", [1, -1]))
    ex = corner(ctx, FW, DIRS[d1], d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=ctx.real("len1", F(1, 1000), 100), **kw)
    rule(ctx, ex, k["v1"] * k["v1"], k["v1"], k["jerk"])


def zero_jerk(ctx, d1, d2):
    k = common_inputs(ctx)
    a, b = DIRS[d1], DIRS[d2]
    ex = corner(ctx, FW, a, b, k["v1"], k["v2"], k["acc"], 0, len1=ctx.real("len1", F(1, 1000), 100))
    ch = sum((x * k["v1"] - y * k["v2"]) ** 2 for x, y in zip(a, b))
    if ch > F(1, 1000):
        ctx.eq("zero jerk and a change of velocity: stop", ex, 0, 1e-6)
        ctx.reach("stop")
    elif a == b and k["v1"] == k["v2"]:
        ctx.eq("zero jerk without a change of velocity: pass", ex, k["v1"], 1e-6)
        ctx.reach("pass")


def orientation(ctx, b1, b2, mirror):
    s = ctx.real("s", F(-99, 100), F(99, 100))
    k = common_inputs(ctx)
    d1, d2, S, c = turn(b1, s)
    f1, f2, _, _ = turn(b2, -s if mirror else s)
    length = ctx.real("len1", F(1, 1000), 100)
    a = corner(ctx, FW, d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=length)
    b = corner(ctx, FW, f1, f2, k["v1"], k["v2"], k["acc"], k["jerk"], p0=(1, 2, 3, 4), len1=length)
    ctx.eq("same corner speed in every orientation", a, b, 1e-6, 1e-6)


def whole(ctx, dirs, c, feeds):
    j = ctx.real("jerk", F(1, 10), 80)
    lines, pts, vs = program(ctx, FW, dirs, feeds=feeds, lens=[1000.0, 1000.0])
    sim = run(ctx, FW, lines, acc=1000, jerk=j)
    ex = speed(sim.blocklist[0].get_segments()[-1].vel_end)
    v1, v2 = feeds
    ch = v1 * v1 + v2 * v2 - 2 * v1 * v2 * c
    if ch <= 4 * j * j:
        ctx.eq("corner speed at the smaller feed rate", ex, min(v1, v2), 1e-6)
        ctx.reach("free")
    elif v1 * v1 * 4 * j * j >= v2 * v2 * ch:
        ctx.eq("corner speed at the feed rate of the next move", ex, v2, 1e-6)
    else:
        ctx.eq("corner speed in the trajectory", ex * ex * ch, v1 * v1 * 4 * j * j, 1e-3, 1e-6)
        ctx.reach("limited")


def cases(tier):
    q = tier == "quick"
    b = 40 if q else 400
    B = "any corner angle (deviation up to 178 deg), feed rates [1,500], acceleration [10,20000], jerk [0,100], lengths"
    R = ["within", "scaled"]
    out = [Case(f"any angle in plane {p}", angle, dict(basis=p), budget=b, bounds=B, must_reach=R)
           for p in (["xy", "122"] if q else list(BASES))]
    out += [Case("any angle, lines between", angle, dict(basis="zx", between=2), budget=b, bounds=B, must_reach=R),
            Case("any angle, many lines between", angle, dict(basis="zx", between=60), budget=b, bounds=B, must_reach=R),
            Case("any angle, extruding", angle, dict(basis="34", ext=True), budget=b, bounds=B + ", extrusion", must_reach=R),
            Case("any angle, settings of the next move", angle, dict(basis="xy", other=True), budget=b, bounds=B, must_reach=R)]
    out += [Case(f"corner {x}>{y}", fixed_dirs, dict(d1=x, d2=y), budget=b, bounds="any speeds, acceleration, jerk, lengths", must_reach=R)
            for x, y in (("34", "34"), ("+x", "-x"), ("+x", "+y"), ("122", "-z"))]
    out += [Case(f"corner {x}>{y} extruding {p} then {n}", with_extrusion, dict(d1=x, d2=y, k1=F(p), k2=F(n)), budget=b,
                 bounds="any speeds, acceleration, jerk, lengths", must_reach=R)
            for x, y in (("+x", "+y"), ("34", "-34")) for p, n in (("1/2", "1/4"), ("1/2", "-1/4"), ("-1/2", "0"), ("0", "1"))]
    out += [Case(f"{k} {d}", no_next, dict(kind=k, d1=d), budget=b, bounds="any speeds, jerk", must_reach=R)
            for k, d in (("last", "34"), ("extrusion only next", "+y"))]
    out += [Case(f"zero jerk {x}>{y}", zero_jerk, dict(d1=x, d2=y), budget=b, bounds="any speeds", must_reach=["stop"])
            for x, y in (("+x", "+x"), ("34", "-34"), ("-z", "-z"))]
    out += [Case(f"orientation {x}-{y}{' mirrored' if mi else ''}", orientation, dict(b1=x, b2=y, mirror=mi), budget=b, bounds=B)
            for x, y, mi in (("xy", "122", False), ("zx", "34", True))]
    out += [Case("program corner 724", whole, dict(dirs=["+x", "724"], c=F(7, 25), feeds=[100, 60]), budget=b,
                 bounds="two long moves, any jerk", must_reach=["limited", "free"]),
            Case("program corner 724 slower first", whole, dict(dirs=["+x", "724"], c=F(7, 25), feeds=[60, 100]), budget=b,
                 must_reach=["limited", "free"])]
    return out
