from props.common import *


def make(ctx, n=4, dur=None, zero=False):
    u = ctx.m.utils
    t0 = ctx.real("t0", 0, 10000)
    T = 0 if zero else (ctx.real("T", 0, 1000, lo_strict=True) if dur is None else dur)
    p0 = [ctx.real(f"p{a}", -1000, 1000) for a in "xyze"]
    v0 = [ctx.real(f"v{a}", -500, 500) for a in "xyze"]
    v1 = [ctx.real(f"w{a}", -500, 500) for a in "xyze"]
    return u, t0, T, p0, v0, v1


def interior(ctx):
    u, t0, T, p0, v0, v1 = make(ctx)
    p1 = [p + (a + b) * T / 2 for p, a, b in zip(p0, v0, v1)]
    s = u.segment(t_begin=t0, t_end=t0 + T, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                  pos_end=u.position(*p1), vel_end=u.velocity(*v1))
    x = ctx.real("x", 0, 1000)
    ctx.assume(x <= T)
    for rnd in ("", "shifted "):
        t = s.t_begin + x
        if not t <= s.t_end:  # rounding of t0+x only
            return
        vel, pos = s.get_velocity(t=t), s.get_position(t=t)
        ctx.check(rnd + "kinds", isinstance(vel, u.velocity) and isinstance(pos, u.position))
        ctx.close_vec(rnd + "velocity varies linearly", v4(vel), [a + (b - a) * x / T for a, b in zip(v0, v1)], 1e-6, 1e-7)
        ctx.close_vec(rnd + "position integrates the velocity", v4(pos),
                      [p + a * x + (b - a) * x * x / (2 * T) for p, a, b in zip(p0, v0, v1)], 1e-6, 1e-7)
        ctx.close_vec(rnd + "ends keep their positions", v4(s.pos_begin) + v4(s.pos_end), p0 + p1, 1e-6)
        ctx.close_vec(rnd + "ends keep their velocities", v4(s.vel_begin) + v4(s.vel_end), v0 + v1, 1e-6)
        ctx.close_vec(rnd + "position meets the begin", v4(s.get_position(s.t_begin)), p0, 1e-6, 1e-7)
        ctx.close_vec(rnd + "position meets the end", v4(s.get_position(s.t_end)), p1, 1e-5, 1e-6)
        ctx.close_vec(rnd + "velocity meets the end", v4(s.get_velocity(s.t_end)), v1, 1e-5, 1e-6)
        ctx.eq(rnd + "duration", s.get_segm_duration(), T, 1e-6)
        if rnd == "":
            d = ctx.real("shift", -1000, 1000)
            s.move_segment_time(d)
            ctx.eq("shift moves the begin", s.t_begin, t0 + d, 1e-7)
            ctx.eq("shift moves the end", s.t_end, t0 + T + d, 1e-7)
    ctx.reach("done")


def outside(ctx):
    u, t0, T, p0, v0, v1 = make(ctx)
    p1 = [p + (a + b) * T / 2 for p, a, b in zip(p0, v0, v1)]
    s = u.segment(t_begin=t0, t_end=t0 + T, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                  pos_end=u.position(*p1), vel_end=u.velocity(*v1))
    t = ctx.real("t", -20000, 20000)
    if t < s.t_begin or t > s.t_end:
        ctx.check("position outside is refused", ctx.raises(lambda: s.get_position(t)) is not None)
        ctx.check("velocity outside is refused", ctx.raises(lambda: s.get_velocity(t)) is not None)
        ctx.reach("outside")
    else:
        s.get_position(t)
        s.get_velocity(t)
        ctx.reach("inside")


def instant(ctx):
    """segments without duration"""
    u, t0, T, p0, v0, v1 = make(ctx, zero=True)
    s = u.segment(t_begin=t0, t_end=t0, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                  pos_end=u.position(*p0), vel_end=u.velocity(*v0))
    ctx.close_vec("position at the instant", v4(s.get_position(t0)), p0, 1e-7)
    ctx.close_vec("velocity at the instant", v4(s.get_velocity(t0)), v0, 1e-7)
    i = u.segment.create_initial(initial_position=u.position(*p0))
    ctx.close_vec("initial segment rests at the initial position", v4(i.pos_begin) + v4(i.pos_end), p0 + p0, 1e-9)
    ctx.close_vec("initial segment rests", v4(i.vel_begin) + v4(i.vel_end), [0] * 8, 1e-9)
    ctx.eq("initial segment has no duration", i.t_end, i.t_begin)
    z = u.segment.create_initial()
    ctx.close_vec("default initial segment is at the origin", v4(z.pos_begin) + v4(z.pos_end), [0] * 8, 1e-9)


def reject(ctx, axis):
    u, t0, T, p0, v0, v1 = make(ctx)
    offs = [ctx.real("off" + a, -100, 100) for a in axis]
    p1 = [p + (a + b) * T / 2 for p, a, b in zip(p0, v0, v1)]
    for a, off in zip(axis, offs):
        p1["xyz".index(a)] += off
    mk = lambda: u.segment(t_begin=t0, t_end=t0 + T, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                           pos_end=u.position(*p1), vel_end=u.velocity(*v1))
    e = ctx.raises(mk, ValueError)
    big = max([abs(o) for o in offs])
    if big > F(2, 10 ** 6):
        ctx.check("end point off by more than the tolerance is rejected", e is not None)
        ctx.reach("rejected")
    elif big < F(5, 10 ** 7):
        ctx.check("consistent segment is accepted", e is None)
        ctx.reach("accepted")


def reversed_time(ctx):
    u, t0, T, p0, v0, v1 = make(ctx)
    ctx.assume(t0 + T > t0)  # not lost by rounding
    same = ctx.choice("kind", ["integral", "rest"])
    if same == "rest":
        p1, v0, v1 = p0, [0] * 4, [0] * 4
    else:
        p1 = [p - (a + b) * T / 2 for p, a, b in zip(p0, v0, v1)]
    e = ctx.raises(lambda: u.segment(t_begin=t0 + T, t_end=t0, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                                     pos_end=u.position(*p1), vel_end=u.velocity(*v1)), ValueError)
    ctx.check("reversed time is rejected", e is not None)


def speedlimit(ctx):
    """checked against settings: speeds above the commanded one are reported"""
    u, t0, T, p0, v0, v1 = make(ctx)
    v0, v1 = [v0[0], 0, 0, 0], [v1[0], 0, 0, 0]
    p1 = [p + (a + b) * T / 2 for p, a, b in zip(p0, v0, v1)]
    s = u.segment(t_begin=t0, t_end=t0 + T, pos_begin=u.position(*p0), vel_begin=u.velocity(*v0),
                  pos_end=u.position(*p1), vel_end=u.velocity(*v1))
    lim = ctx.real("lim", 1, 400)
    ps = ctx.m.state.state.p_settings(p_acc=1000, jerk=10, vX=1, vY=1, vZ=1, vE=1, speed=lim)
    e = ctx.raises(lambda: s.self_check(p_settings=ps), ValueError)
    a, b = abs(v0[0]), abs(v1[0])
    if a > lim * F(101, 100) or b > lim * F(101, 100):
        ctx.check("speed above the limit is reported", e is not None)
        ctx.reach("above")
    elif a <= lim and b <= lim:
        ctx.check("speed within the limit passes", e is None)
        ctx.reach("within")


def cases(tier):
    b = 40 if tier == "quick" else 300
    B = "any begin time, duration, begin position, begin and end velocity (all four axes)"
    out = [Case("interior and shift", interior, budget=b, bounds=B + ", any inner time, any shift", must_reach=["done"]),
           Case("outside", outside, budget=b, bounds=B + ", any time", must_reach=["outside", "inside"]),
           Case("instant", instant, budget=b, bounds="zero duration"),
           Case("reversed time", reversed_time, budget=b, bounds=B),
           Case("speed limit", speedlimit, budget=b, bounds="any speeds and limit", must_reach=["above", "within"])]
    out += [Case(f"end point off in {a}", reject, dict(axis=a), budget=b, bounds=B + ", any error in [-100,100]",
                 must_reach=["rejected", "accepted"]) for a in ("x", "y", "z", "xy", "yz", "zx")]
    return out
