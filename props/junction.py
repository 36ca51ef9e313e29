"""Corner speed harness: one planner block entered at its feed rate, so that it leaves at the junction speed"""
from props.plan import *

# orthonormal rational bases of corner planes
BASES = {
    "xy": ((F(1), F(0), F(0)), (F(0), F(1), F(0))),
    "zx": ((F(0), F(0), F(-1)), (F(1), F(0), F(0))),
    "122": ((F(1, 3), F(2, 3), F(2, 3)), (F(2, 3), F(1, 3), F(-2, 3))),
    "34": ((F(3, 5), F(-4, 5), F(0)), (F(4, 5), F(3, 5), F(0))),
}


def turn(basis, s):
    """(direction 1, direction 2, S) with deviation angle phi = 4 atan s and S = cos(phi/2) = sin(theta/2)"""
    u, w = BASES[basis]
    n = 1 + s * s
    ch, sh = (1 - s * s) / n, 2 * s / n  # cos/sin(phi/2)
    c, si = ch * ch - sh * sh, 2 * ch * sh
    return u, tuple(c * a + si * b for a, b in zip(u, w)), ch, c


def corner(ctx, fw, d1, d2, v1, v2, acc, jerk, len1=10.0, len2=10.0, e1=0, e2=0, p0=(0, 0, 0, 0), between=0,
           entry="target", nxt=True, over_next=None):
    """exit speed of the first of two moves, entered at feed rate"""
    m = ctx.m
    p0 = list(p0)
    p1 = add(p0, d1, len1, e1)
    p2 = add(p1, d2, len2, e2)
    s1 = settings(ctx, acc, jerk, v1)
    s2 = settings(ctx, acc, jerk, v2)
    if over_next:
        s2 = settings(ctx, over_next[0], over_next[1], v2)
    other = settings(ctx, 777.0, 3.0, 55.0)  # settings of lines in front of the corner and in between do not count
    pts, sets = [p0, p1], [other, s1]
    for _ in range(between):  # lines without motion in between
        pts.append(list(p1))
        sets.append(other)
    if nxt:
        pts.append(p2)
        sets.append(s2)
    sts = states(ctx, pts, sets)
    u = v1 if entry == "target" else entry
    k = 1
    vel0 = m.utils.velocity(*[x * u for x in d1], 0)
    pos0 = m.utils.position(*p0)
    seg = m.utils.segment(t_begin=0, t_end=0, pos_begin=pos0, vel_begin=vel0, pos_end=pos0, vel_end=vel0)
    b = m.planner_block.planner_block(state=sts[1], prev_block=PrevBlock(seg), firmware=fw)
    ctx.reach("planned")
    return speed(b.get_segments()[-1].vel_end)


def common_inputs(ctx, jlo=0):
    return dict(v1=ctx.real("v1", 1, 500), v2=ctx.real("v2", 1, 500), acc=ctx.real("acc", 10, 20000),
                jerk=ctx.real("jerk", jlo, 100))


def rest_checks(ctx, fw, d1, d2):
    """no following move / zero jerk / extrusion-only neighbour"""
