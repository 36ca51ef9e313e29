from props.junction import *

FW = "MKA"
import itertools


def axis_step(a, b):
    """velocity step of one axis from a to b: reversals count the larger of both speeds"""
    if (a >= 0 and b >= 0) or (a <= 0 and b <= 0):
        d = a - b
        return abs(d)
    x, y = abs(a), abs(b)
    return x if x > y else y


def rule(ctx, ex, v0, v1, k):
    """v0, v1: velocity vectors (X,Y,Z,E) at feed rate before and after the corner"""
    jm = k["jerk"]
    s0, s1 = k["v1"], k["v2"]
    vmax = s0 if s0 < s1 else s1
    v0 = [x * vmax / s0 for x in v0]
    top = 0
    for a, b in zip(v0, v1):
        st = axis_step(a, b)
        if st > top:
            top = st
    if top > jm:
        ctx.eq("reduced once by jerk over the largest axis step", ex * top, vmax * jm, 1e-5, 1e-6)
        ctx.reach("reduced")
    else:
        ctx.eq("smaller of the two feed rates", ex, vmax, 1e-6)
        ctx.reach("free")


def fixed_dirs(ctx, d1, d2, r1=0, r2=0, between=0, other=False):
    """r1, r2: extrusion per travel ('sym' for any)"""
    k = common_inputs(ctx)
    a, b = DIRS[d1], DIRS[d2]
    len1, len2 = ctx.real("len1", F(1, 100), 100), ctx.real("len2", F(1, 100), 100)
    r1 = ctx.real("r1", -2, 2) if r1 == "sym" else r1
    r2 = ctx.real("r2", -2, 2) if r2 == "sym" else r2
    kw = {}
    if other:
        kw["over_next"] = (ctx.real("acc2", 10, 20000), ctx.real("jerk2", 0, 100))
    ex = corner(ctx, FW, a, b, k["v1"], k["v2"], k["acc"], k["jerk"], len1=len1, len2=len2, e1=r1 * len1, e2=r2 * len2,
                between=between, **kw)
    rule(ctx, ex, [x * k["v1"] for x in a] + [r1 * k["v1"]], [x * k["v2"] for x in b] + [r2 * k["v2"]], k)
    ctx.observe("exit", ex)


def angle(ctx, basis):
    s = ctx.real("s", F(-99, 100), F(99, 100))
    k = common_inputs(ctx)
    d1, d2, S, c = turn(basis, s)
    ex = corner(ctx, FW, d1, d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=ctx.real("len1", F(1, 100), 100))
    rule(ctx, ex, [x * k["v1"] for x in d1] + [0], [x * k["v2"] for x in d2] + [0], k)


def symmetric(ctx, d1, d2):
    """axes permuted or mirrored: same result"""
    k = common_inputs(ctx)
    length = ctx.real("len1", F(1, 100), 100)
    a, b = DIRS[d1], DIRS[d2]
    ref = corner(ctx, FW, a, b, k["v1"], k["v2"], k["acc"], k["jerk"], len1=length)
    perm = ctx.choice("perm", list(itertools.permutations(range(3))))
    sign = ctx.choice("sign", [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)])
    f = lambda d: tuple(sign[i] * d[perm[i]] for i in range(3))
    ex = corner(ctx, FW, f(a), f(b), k["v1"], k["v2"], k["acc"], k["jerk"], len1=length)
    ctx.eq("same corner speed with axes permuted or mirrored", ex, ref, 1e-6, 1e-6)


def last(ctx):
    k = common_inputs(ctx)
    kind = ctx.choice("kind", ["last", "last, empty lines", "extrusion only next"])
    kw, d2 = dict(nxt=False, between=2 if kind != "last" else 0), DIRS["34"]
    if kind == "extrusion only next":
        kw, d2 = dict(e2=ctx.real("e2", F(1, 100), 10)), (F(0), F(0), F(0))
    ex = corner(ctx, FW, DIRS["34"], d2, k["v1"], k["v2"], k["acc"], k["jerk"], len1=ctx.real("len1", F(1, 100), 100), **kw)
    ctx.eq("full stop", ex, 0, 1e-9)


def prime_first(ctx, d2, fw=FW):
    """an extrusion-only move followed by a travel move: the nozzle does not travel, hence the junction is a stop"""
    k = common_inputs(ctx)
    e1 = ctx.real("e1", F(1, 100), 20) * ctx.choice("sign", [1, -1])
    m = ctx.m
    s1, s2 = settings(ctx, k["acc"], k["jerk"], k["v1"]), settings(ctx, k["acc"], k["jerk"], k["v2"])
    p1 = [0, 0, 0, e1]
    sts = states(ctx, [[0, 0, 0, 0], p1, add(p1, DIRS[d2], 10.0, 0)], [s1, s1, s2])
    b = m.planner_block.planner_block(state=sts[1], prev_block=None, firmware=fw)
    ctx.eq("full stop", speed(b.get_segments()[-1].vel_end, True), 0, 1e-9)
    ctx.reach("planned")


def default(ctx, fw, d1, d2):
    k = common_inputs(ctx)
    ex = corner(ctx, fw, DIRS[d1], DIRS[d2], k["v1"], k["v2"], k["acc"], k["jerk"], len1=ctx.real("len1", F(1, 100), 100))
    ctx.eq("every corner is a full stop", ex, 0, 1e-9)


def whole(ctx, fw, feeds):
    """complete program with two corners; unknown firmware names mean a stop at each"""
    j = ctx.real("jerk", F(1, 10), 80)
    lines, pts, vs = program(ctx, fw, ["+x", "724", "724"], feeds=feeds, lens=[1000.0, 1000.0, 1000.0])
    sim = run(ctx, fw, lines, acc=1000, jerk=j)
    ex = [speed(b.get_segments()[-1].vel_end) for b in sim.blocklist]
    if fw == "MKA":
        v1, v2, v3 = feeds
        top = max(F(24, 25) * v2, 0)
        vm = min(v1, v2)
        cand = [axis_step(F(vm), F(7, 25) * v2), F(24, 25) * v2]
        top = max(cand)
        exp = vm if top <= j else vm * j / top
        ctx.eq("first corner", ex[0], exp, 1e-6)
        ctx.eq("last move ends at rest", ex[2], 0, 1e-9)
    else:
        for e in ex:
            ctx.eq("every corner is a full stop", e, 0, 1e-9)


def cases(tier):
    q = tier == "quick"
    b = 45 if q else 600
    B = "any feed rates [1,500], acceleration [10,20000], jerk [0,100], lengths"
    R = ["free", "reduced"]
    pairs = [("34", "-34", 0, 0), ("122", "-212", 0, 0), ("+x", "+x", 0, 0), ("5-12", "12-5", 0, 0), ("-z", "122", 0, 0),
             ("34", "34", "sym", "sym"), ("+x", "-x", "sym", 0), ("+y", "724", 0, "sym")]
    if not q:
        pairs += [(x, y, r, s) for x in ("122", "-34", "+z") for y in ("34", "-212", "-x") for r in (0, "sym") for s in (0, "sym")]
    out = [Case(f"corner {x}>{y} extrusion {r}/{s}", fixed_dirs, dict(d1=x, d2=y, r1=r, r2=s), budget=b, bounds=B, must_reach=R)
           for x, y, r, s in pairs]
    out += [Case("corner with lines between", fixed_dirs, dict(d1="34", d2="-34", between=2), budget=b, bounds=B, must_reach=R),
            Case("corner with many lines between", fixed_dirs, dict(d1="34", d2="-34", between=60), budget=b, bounds=B, must_reach=R),
            Case("corner, settings of the next move", fixed_dirs, dict(d1="122", d2="34", other=True), budget=b, bounds=B, must_reach=R)]
    out += [Case(f"any angle in plane {p}", angle, dict(basis=p), budget=b, bounds=B + ", any angle") for p in
            (["xy"] if q else list(BASES))]
    out += [Case(f"axes permuted and mirrored {x}>{y}", symmetric, dict(d1=x, d2=y), budget=b, bounds=B)
            for x, y in (("122", "-34"), ("-212", "5-12"))]
    out += [Case("last move", last, budget=b, bounds=B)]
    out += [Case(f"extrusion only before {d}", prime_first, dict(d2=d), budget=b, bounds=B, must_reach=["planned"]) for d in ("+x", "34")]
    out += [Case(f"default {fw} {x}>{y}", default, dict(fw=fw, d1=x, d2=y), budget=b, bounds=B)
            for fw, x, y in ((None, "34", "34"), ("no such firmware", "122", "122"), ("MARLIN_JD", "+x", "34"))]
    out += [Case("program MKA", whole, dict(fw="MKA", feeds=[100, 60, 80]), budget=b, bounds="three long moves, any jerk"),
            Case("program unknown", whole, dict(fw="something", feeds=[100, 60, 80]), budget=b)]
    return out
