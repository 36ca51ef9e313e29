import math

from props.junction import *


SMAX = F(math.sin(math.radians(81)))
SMIN = F(math.sin(math.radians(9)))


def rule(ctx, ex, S, k):
    """asserts the published rule for exit speed ex"""
    v, j = k["v1"], k["jerk"]
    m = F(1, 10 ** 6)
    if S > SMAX + m:
        ctx.eq("nearly straight: full feed rate", ex, v, 1e-6)
        ctx.reach("straight")
    elif S < SMIN - m:
        ctx.eq("nearly reversing: stop", ex, 0, 1e-6)
        ctx.reach("reversing")
    elif S < SMAX - m and S > SMIN + m:
        lim = F(2, 5) * j * j * S / (1 - S)  # a*d*S/(1-S)
        if lim < v * v:
            ctx.eq("corner: junction deviation speed", ex * ex, lim, 1e-6, 1e-6)
            ctx.reach("corner")
        else:
            ctx.eq("corner: not above the feed rate", ex, v, 1e-6)
            ctx.reach("fast corner")


def angle(ctx, basis, between=0, ext=False, short=False):
    s = ctx.real("s", F(-99, 100), F(99, 100))
    k = common_inputs(ctx, jlo=F(1, 1000))
    d1, d2, S, c = turn(basis, s)
    e = dict(e1=ctx.real("e1", -5, 5), e2=ctx.real("e2", -5, 5)) if ext else {}
    e["len1"] = ctx.real("len1", F(1, 1000), 100)
    if short:
        e["len2"] = ctx.real("len2", F(1, 1000), 100)
        e["over_next"] = (ctx.real("acc2", 10, 20000), ctx.real("jerk2", 0, 100))
    ex = corner(ctx, "marlin_jd", d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], between=between, **e)
    rule(ctx, ex, S, k)
    ctx.observe("exit", ex)


def with_extrusion(ctx, d1, d2, S, k1, k2):
    """filament speed plays no part in the rule"""
    k = common_inputs(ctx, jlo=F(1, 1000))
    n1, n2 = ctx.real("len1", F(1, 1000), 100), ctx.real("len2", F(1, 1000), 100)
    ex = corner(ctx, "marlin_jd", DIRS[d1], DIRS[d2], k["v1"], k["v2"], k["acc"], k["jerk"], len1=n1, len2=n2, e1=k1 * n1, e2=k2 * n2)
    rule(ctx, ex, S, k)


def stops(ctx, kind, d1):
    k = common_inputs(ctx)
    d1 = DIRS[d1]
    kw = {}
    d2 = d1
    if kind == "no next":
        kw["nxt"] = False
    elif kind == "no next, empty lines":
        kw["nxt"] = False
        kw["between"] = 2
    elif kind == "zero jerk":
        k["jerk"] = 0
    elif kind == "extrusion only next":
        d2 = (F(0), F(0), F(0))
        kw["e2"] = ctx.real("e2", F(1, 1000), 10) * ctx.choice("sg", [1, -1])
    ex = corner(ctx, "marlin_jd", d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], **kw)
    ctx.eq("full stop", ex, 0, 1e-9)


def orientation(ctx, b1, b2, mirror):
    """the same corner elsewhere in space"""
    s = ctx.real("s", F(-99, 100), F(99, 100))
    k = common_inputs(ctx)
    d1, d2, S, c = turn(b1, s)
    f1, f2, _, _ = turn(b2, -s if mirror else s)
    margin = F(1, 10 ** 6)
    ctx.assume(abs(S - SMAX) > margin)
    ctx.assume(abs(S - SMIN) > margin)
    length = ctx.real("len1", F(1, 1000), 100)
    a = corner(ctx, "marlin_jd", d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=length)
    b = corner(ctx, "marlin_jd", f1, f2, k["v1"], k["v2"], k["acc"], k["jerk"], p0=(1, 2, 3, 4), len1=length)
    ctx.eq("same corner speed in every orientation", a, b, 1e-6, 1e-6)


def whole(ctx, dirs, S, feeds):
    """complete program: after planning, the corner is passed at the rule's speed (or what the moves can reach)"""
    j = ctx.real("jerk", F(1, 10), 50)
    lines, pts, vs = program(ctx, "marlin_jd", dirs, feeds=feeds, lens=[1000.0, 1000.0])
    sim = run(ctx, "marlin_jd", lines, acc=1000, jerk=j)
    ex = speed(sim.blocklist[0].get_segments()[-1].vel_end)
    lim = F(2, 5) * j * j * S / (1 - S)
    v = min(feeds)
    if lim < v * v:
        ctx.eq("corner speed in the trajectory", ex * ex, lim, 1e-6, 1e-6)
        ctx.reach("limited")
    else:
        ctx.eq("corner speed at the smaller feed rate", ex, v, 1e-6)
    ctx.eq("next move enters at the same speed", speed(sim.blocklist[1].get_segments()[0].vel_begin), ex, 1e-6)


def cases(tier):
    q = tier == "quick"
    b = 40 if q else 300
    B = "any corner angle (deviation up to 178 deg), feed rates [1,500], acceleration [10,20000], jerk [0.001,100]"
    R = ["straight", "reversing", "corner", "fast corner"]
    out = [Case(f"any angle in plane {p}", angle, dict(basis=p), budget=b, bounds=B, must_reach=R)
           for p in (["xy", "122"] if q else list(BASES))]
    out += [Case("any angle, lines between", angle, dict(basis="zx", between=2), budget=b, bounds=B + "; two lines without motion between", must_reach=R),
            Case("any angle, many lines between", angle, dict(basis="zx", between=60), budget=b, bounds=B + "; 60 lines without motion between", must_reach=R),
            Case("any angle, extruding", angle, dict(basis="34", ext=True), budget=b, bounds=B + "; any extrusion", must_reach=["corner"]),
            Case("any angle, lengths and settings of the next move", angle, dict(basis="xy", short=True), budget=b, bounds=B + "; any lengths, any acceleration and jerk of the next move", must_reach=["corner"])]
    out += [Case(f"corner {x}>{y} extruding {p} then {n}", with_extrusion, dict(d1=x, d2=y, S=S, k1=F(p), k2=F(n)), budget=b,
                 bounds="any speeds, acceleration, jerk, lengths", must_reach=R)
            for x, y, S, R in (("+x", "724", F(4, 5), ["corner", "fast corner"]), ("-x", "+x", F(0), ["reversing"]), ("-z", "-z", F(1), ["straight"]))
            for p, n in (("3/4", "3/4"), ("4/3", "-3/4"), ("-3/4", "0"), ("0", "4/3"))]
    out += [Case(f"stop: {k}", stops, dict(kind=k, d1=d), budget=20, bounds="any speeds, accelerations, jerk")
            for k, d in (("no next", "34"), ("no next, empty lines", "+z"), ("zero jerk", "122"), ("extrusion only next", "-x"))]
    out += [Case(f"orientation {x}-{y}{' mirrored' if mi else ''}", orientation, dict(b1=x, b2=y, mirror=mi), budget=b, bounds=B)
            for x, y, mi in (("xy", "122", False), ("zx", "34", True))]
    out += [Case("program corner 724", whole, dict(dirs=["+x", "724"], S=F(4, 5), feeds=[100, 60]), budget=b,
                 bounds="two long moves, any jerk", must_reach=["limited"]),
            Case("program corner 724 slower first", whole, dict(dirs=["+x", "724"], S=F(4, 5), feeds=[60, 100]), budget=b)]
    return out
