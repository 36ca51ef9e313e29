from props.junction import *

FW = "klipper"


def rule(ctx, ex, S, C, k, len1, len2):
    """S = sin(theta/2), C = cos(theta/2) for the angle theta between the moves"""
    v, a, sc = k["v1"], k["acc"], k["jerk"]
    # radius from the square corner velocity: R = delta*S/(1-S), delta = sc^2 (sqrt2-1)/a
    r2 = sc * sc * F(2 ** 0.5 - 1) * S / (1 - S)
    half = len1 if len1 < len2 else len2
    cent = a * half * S / (2 * C)
    best = v * v
    which = "feed rate"
    if r2 < best:
        best, which = r2, "corner radius"
    if cent < best:
        best, which = cent, "mid-move limit"
    ctx.reach(which)
    ctx.eq("corner speed follows the smallest limit", ex * ex, best, 1e-6, 1e-6)


def angle(ctx, basis, between=0, ext=False, conc=None, other=False):
    s = ctx.real("s", F(1, 1000), F(99, 100))
    if conc is None and ctx.choice("side", [False, True]):
        s = -s
    k = common_inputs(ctx)
    if conc:
        k["jerk"], k["acc"] = conc
    d1, d2, S, c = turn(basis, s)
    ctx.assume(c < 1 - F(2, 10 ** 6))
    ctx.assume(c > -1 + F(2, 10 ** 6))
    C = abs(2 * s / (1 + s * s))
    len1, len2 = ctx.real("len1", F(1, 1000), 100), ctx.real("len2", F(1, 1000), 100)
    kw = dict(e1=ctx.real("e1", -5, 5), e2=ctx.real("e2", -5, 5)) if ext else {}
    if other:
        kw["over_next"] = (ctx.real("acc2", 10, 20000), ctx.real("jerk2", 0, 100))
    ex = corner(ctx, FW, d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=len1, len2=len2, between=between, **kw)
    rule(ctx, ex, S, C, k, len1, len2)
    ctx.observe("exit", ex)


def square(ctx, d1, d2):
    """right angle: square corner velocity unless the feed rate or the move lengths limit"""
    k = common_inputs(ctx)
    len1, len2 = ctx.real("len1", 5, 1000), ctx.real("len2", 5, 1000)
    ex = corner(ctx, FW, DIRS[d1], DIRS[d2], k["v1"], k["v2"], k["acc"], k["jerk"], len1=len1, len2=len2)
    sc, v = k["jerk"], k["v1"]
    short = len1 if len1 < len2 else len2
    if sc < v and sc * sc < k["acc"] * short / 2:
        ctx.eq("right angle at the square corner velocity", ex, sc, 1e-6, 1e-6)
        ctx.reach("square corner")


def straight(ctx, d):
    """no deviation: only the feed rate and the mid-move limit of an almost straight corner remain"""
    k = common_inputs(ctx, jlo=1)
    len1, len2 = ctx.real("len1", 10, 100), ctx.real("len2", 10, 100)
    ex = corner(ctx, FW, DIRS[d], DIRS[d], k["v1"], k["v2"], k["acc"], k["jerk"], len1=len1, len2=len2)
    if k["v1"] <= 200 and k["acc"] >= 100:
        ctx.eq("straight line at feed rate", ex, k["v1"], 1e-6)
        ctx.reach("straight")


def stops(ctx, kind, d1):
    k = common_inputs(ctx)
    d1 = DIRS[d1]
    kw, d2 = dict(len1=ctx.real("len1", F(1, 1000), 100)), d1
    if kind == "no next":
        kw["nxt"] = False
    elif kind == "no next, empty lines":
        kw.update(nxt=False, between=2)
    elif kind == "zero square corner velocity":
        k["jerk"] = 0
    elif kind == "reversal":
        d2 = tuple(-x for x in d1)
    else:
        d2 = (F(0), F(0), F(0))
        kw["e2"] = ctx.real("e2", F(1, 1000), 10) * ctx.choice("sg", [1, -1])
    ex = corner(ctx, FW, d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], **kw)
    ctx.eq("full stop", ex, 0, 1e-6)


def from_extrusion(ctx):
    """an extrusion-only move followed by travel ends in a stop"""
    k = common_inputs(ctx)
    m = ctx.m
    e = ctx.real("e", F(1, 100), 10) * ctx.choice("sg", [1, -1])
    st = settings(ctx, k["acc"], k["jerk"], k["v1"])
    s = states(ctx, [[0, 0, 0, 0], [0, 0, 0, e], [10, 0, 0, e]], [st] * 3)
    z, v = m.utils.position(0, 0, 0, 0), m.utils.velocity(0, 0, 0, 0)
    seg = m.utils.segment(t_begin=0, t_end=0, pos_begin=z, vel_begin=v, pos_end=z, vel_end=v)
    b = m.planner_block.planner_block(state=s[1], prev_block=PrevBlock(seg), firmware=FW)
    ctx.eq("full stop after an extrusion-only move", speed(b.get_segments()[-1].vel_end, True), 0, 1e-6)


def cases(tier):
    q = tier == "quick"
    b = 45 if q else 600
    B = ("any corner angle (deviation 0.23 to 178 deg), feed rates [1,500], acceleration [10,20000], square corner "
         "velocity [0,100], any lengths")
    R = ["feed rate", "corner radius", "mid-move limit"]
    out = [Case(f"any angle in plane {p}", angle, dict(basis=p), budget=b, bounds=B, must_reach=R)
           for p in (["xy", "122"] if q else list(BASES))]
    out += [Case("any angle, lines between", angle, dict(basis="zx", between=2), budget=b, bounds=B, must_reach=R),
            Case("any angle, many lines between", angle, dict(basis="zx", between=60), budget=b, bounds=B, must_reach=R),
            Case("any angle, extruding", angle, dict(basis="34", ext=True), budget=b, bounds=B + ", extrusion", must_reach=R),
            Case("any angle, settings of the next move", angle, dict(basis="xy", other=True), budget=b, bounds=B, must_reach=R)]
    out += [Case(f"right angle {x}>{y}", square, dict(d1=x, d2=y), budget=b, bounds="any speeds, settings, lengths", must_reach=["square corner"])
            for x, y in (("+x", "+y"), ("-z", "+x"), ("34", "+z"))]
    out += [Case(f"straight {d}", straight, dict(d=d), budget=b, bounds="any speeds up to 200, lengths from 10", must_reach=["straight"])
            for d in ("+x", "122")]
    out += [Case(f"stop: {k}", stops, dict(kind=k, d1=d), budget=20, bounds="any speeds, accelerations")
            for k, d in (("no next", "34"), ("no next, empty lines", "+z"), ("zero square corner velocity", "122"),
                         ("reversal", "34"), ("extrusion only next", "-x"))]
    out += [Case("stop: extrusion only before", from_extrusion, budget=20, bounds="any extrusion")]
    return out
