"""Results stored per segment: velocity and its shortfall against a target velocity."""
from fractions import Fraction as F

from props.common import *

DIRS = {"X": (1, 0, 0), "-Y": (0, -1, 0), "3-4-0": (F(3, 5), F(4, 5), 0), "2-3-6": (F(2, 7), -F(3, 7), F(6, 7))}


def number(x):
    return float(x) if isinstance(x, F) else x


def make(ctx, d, v0, v1, dt, t0, e=0.0, tag="p"):
    u = ctx.m.utils
    if not ctx.symbolic:
        d = [number(c) for c in d]
    d = list(d)
    p0 = [ctx.real(f"{tag}{a}", -100, 100) for a in "xyze"]
    p1 = [p + (v0 + v1) * dt / 2 * c for p, c in zip(p0, d + [e])]
    return u.segment(t_begin=t0, t_end=t0 + dt, pos_begin=u.position(*p0), vel_begin=u.velocity(*[v0 * c for c in d + [e]]),
                     pos_end=u.position(*p1), vel_end=u.velocity(*[v1 * c for c in d + [e]]))


def judge(ctx, s, v0, v1, dt, vt, acc=True):
    got = s.get_result("vel")
    ctx.check("velocity: two values", len(got) == 2)
    ctx.eq("velocity at the begin", got[0], v0)
    ctx.eq("velocity at the end", got[1], v1)
    got = s.get_result("rel_vel_err")
    ctx.check("relative error: two values", len(got) == 2)
    if vt is None:
        ctx.eq("no error without a target (begin)", got[0], 0)
        ctx.eq("no error without a target (end)", got[1], 0)
    else:
        ctx.eq("relative error at the begin", got[0] * vt, vt - v0, 1e-6)
        ctx.eq("relative error at the end", got[1] * vt, vt - v1, 1e-6)
    got = s.get_result("segm_error")
    ctx.check("error of the segment: two equal values", len(got) == 2)
    ctx.eq("error of the segment is constant", got[0], got[1])
    if vt is None or not acc:
        ctx.eq("no error of the segment", got[0], 0)
    else:  # integral of (1 - v / vt) over the way
        ctx.eq("error of the segment", got[0] * vt * 6, 3 * (v0 + v1) * dt * vt - 2 * dt * (v0 * v0 + v0 * v1 + v1 * v1), 1e-4)


def single(ctx, d, kind):
    d = DIRS[d]
    dt, t0 = ctx.real("dt", F(1, 100), 10), ctx.real("t0", 0, 1000)
    top = 100
    vt = ctx.real("vt", 1, top)
    if kind == "from rest":
        v0, v1 = 0.0, ctx.real("v1", F(1, 10), top)
    elif kind == "to rest":
        v0, v1 = ctx.real("v0", F(1, 10), top), 0.0
    elif kind == "up":
        v0 = ctx.real("v0", F(1, 10), top)
        v1 = v0 + ctx.real("dv", F(1, 10), top)
    elif kind == "down":
        v1 = ctx.real("v1", F(1, 10), top)
        v0 = v1 + ctx.real("dv", F(1, 10), top)
    elif kind in ("slightly up", "slightly down"):  # the error counts, however slight the change
        v0 = ctx.real("v0", F(1, 10), top)
        dv = ctx.real("dv", F(1, 10**4), F(1, 10))
        v0, v1 = (v0, v0 + dv) if kind == "slightly up" else (v0 + dv, v0)
    elif kind == "constant":
        v0 = v1 = vt
    elif kind == "standstill":
        v0 = v1 = 0.0
    s = make(ctx, d, v0, v1, dt, t0, ctx.real("e", -1, 1))
    before = [s.t_begin, s.t_end] + v4(s.pos_begin) + v4(s.pos_end) + v4(s.vel_begin) + v4(s.vel_end)
    s.calc_results(vt)
    judge(ctx, s, v0, v1, dt, vt, kind not in ("constant", "standstill"))
    ctx.close_vec("the segment is kept", [s.t_begin, s.t_end] + v4(s.pos_begin) + v4(s.pos_end) + v4(s.vel_begin) + v4(s.vel_end), before)
    if kind == "up":  # a second target replaces the results
        s.calc_results(0.0)
        judge(ctx, s, v0, v1, dt, None)
        w = ctx.real("vt2", 1, top)
        s.calc_results(w)
        judge(ctx, s, v0, v1, dt, w)
    ctx.reach("done")


def names(ctx):
    """results are asked for by name, and belong to one segment"""
    u = ctx.m.utils
    a, b = (make(ctx, DIRS["X"], 1.0, 3.0, 2.0, 0.0, tag=t) for t in "pq")
    v = ctx.real("vt", 1, 100)
    err = ctx.raises(lambda: a.get_result("vel"), ValueError)
    ctx.check("nothing to report before the calculation", isinstance(err, ValueError), repr(err))
    a.calc_results(v)
    known = ["vel", "rel_vel_err", "segm_error"]
    w = ctx.word("w", ctx.choice("n", [0, 1, 3, 4]), "vel_V")
    is_known = any(bool(w == k) for k in known)
    w = ctx.opaque(w)
    err = ctx.raises(lambda: a.get_result(w), ValueError)
    ctx.check("only known results", (err is None) == is_known, repr(err))
    err = ctx.raises(lambda: b.get_result("vel"), ValueError)
    ctx.check("results of one segment are not another's", isinstance(err, ValueError), repr(err))
    ctx.reach("known" if is_known else "unknown")


def planned(ctx, firmware):
    """segments of a simulated program"""
    x, y, f = ctx.real("x", 60, 200), ctx.real("y", 60, 200), 3000
    sim = simulate(ctx, f"G1 X{ctx.lit(x)} F{f}\nG1 Y{ctx.lit(y)} E1\n", machine(ctx, firmware))
    for s in segs(sim):
        v0, v1 = s.vel_begin.get_norm(), s.vel_end.get_norm()
        s.calc_results(50.0)
        judge(ctx, s, v0, v1, s.t_end - s.t_begin, 50.0, bool(abs(v1 - v0) > 1e-6))
    ctx.reach("done")


def cases(tier):
    b = 60 if tier == "quick" else 400
    out = []
    for d in DIRS:
        for kind in ("from rest", "to rest", "up", "down", "slightly up", "slightly down", "constant", "standstill"):
            out.append(Case(f"{kind} along {d}", single, dict(d=d, kind=kind), budget=b, must_reach=["done"],
                            bounds="speeds 0.1-200 mm/s (changing by 0.1-100 mm/s, slightly: 0.0001-0.1), targets 1-100 mm/s, duration 0.01-10 s, any place and time, extrusion -1..1 per mm"))
    out.append(Case("names of results", names, {}, budget=b, strings=True, bounds="names of 0, 1, 3, 4 letters over vel_V", must_reach=["known", "unknown"]))
    for f in ("none", "MKA") if tier == "quick" else ("none", "MKA", "marlin_jd", "klipper"):
        out.append(Case(f"planned segments, {f}", planned, dict(firmware=f), budget=b, bounds="two moves of 60-200 mm", must_reach=["done"]))
    return out
