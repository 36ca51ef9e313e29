from props.plan import *


def expected(ctx, ss, t):
    """(position, velocities allowed) by direct evaluation of the segment list"""
    for i, s in enumerate(ss):
        if t <= s.t_end:
            break
    T = s.t_end - s.t_begin
    pb, vb, ve = v4(s.pos_begin), v4(s.vel_begin), v4(s.vel_end)
    if T > 0:
        x = t - s.t_begin
        pos = [p + a * x + (b - a) * x * x / (2 * T) for p, a, b in zip(pb, vb, ve)]
        vel = [a + (b - a) * x / T for a, b in zip(vb, ve)]
    else:
        pos, vel = pb, vb
    ok = [vel, ve] if not T > 0 else [vel]
    if t == s.t_end:
        for r in ss[i + 1:]:
            if r.t_begin > t:
                break
            ok.append(v4(r.vel_begin))
            if r.t_end > t:
                break
            ok.append(v4(r.vel_end))
    elif i and t == s.t_begin:  # first instant of the program
        pass
    return pos, ok


def near(ctx, a, b, tol=1e-6):
    r = True
    for x, y in zip(a, b):
        d = x - y
        r = ctx_and(r, d <= tol)
        r = ctx_and(r, -d <= tol)
    return r


def ctx_and(a, b):
    if a is True:
        return b
    if a is False or b is False:
        return False
    if b is True:
        return a
    return a & b


def one_query(ctx, sim, ss, t, tag):
    end = ss[-1].t_end
    if t < 0:
        e = ctx.raises(lambda: sim.get_values(t))
        ctx.check("before the start is refused", e is not None)
        ctx.reach("before")
    elif t > end:
        e = ctx.raises(lambda: sim.get_values(t))
        ctx.check("after the end is refused", e is not None)
        ctx.reach("after")
    else:
        vel, pos = sim.get_values(t)
        p, ok = expected(ctx, ss, t)
        ctx.check("four values each", len(vel) == 4 and len(pos) == 4)
        ctx.close_vec("position of the segment containing the time", pos, p, 1e-6)
        if len(ok) == 1:
            ctx.close_vec("velocity of the segment containing the time", vel, ok[0], 1e-6)
        else:
            r = near(ctx, vel, ok[0])
            for o in ok[1:]:
                r2 = near(ctx, vel, o)
                r = r | r2 if not (r is True or r2 is True or r is False or r2 is False) else (
                    True if r is True or r2 is True else (r2 if r is False else r))
            ctx.check("velocity at a shared instant is one of the two", r)
        ctx.observe(tag, pos[0])
        ctx.reach("inside")


def queries(ctx, fw, dirs, lens, feeds, n, extra=None, acc=1000, span=10, asked=()):
    lines, pts, vs = program(ctx, fw, dirs, lens=lens, feeds=feeds, extra=extra,
                             extr=None if "E" in dirs else [0.5] * len(dirs))
    sim = run(ctx, fw, lines, acc=acc)
    ss = segs(sim)
    for i in asked:  # instants asked before, given by the segment (with a fraction) they lie in
        s = ss[int(i)]
        one_query(ctx, sim, ss, s.t_begin + (s.t_end - s.t_begin) * (i - int(i)), "asked")
    for i in range(n):
        t = ctx.real(f"t{i}", -1, span)
        one_query(ctx, sim, ss, t, f"x{i}")
    ss2 = segs(sim)
    ctx.check("queries leave the trajectory alone", len(ss2) == len(ss) and all(a is b for a, b in zip(ss, ss2)))


def after_refresh(ctx, fw, first, second, ask):
    """queries after a refresh are answered from the new trajectory, whatever was asked before"""
    lines, pts, vs = program(ctx, fw, **first)
    sim = run(ctx, fw, lines, fname="a.gcode")
    lines, pts, vs = program(ctx, fw, **second)
    other = run(ctx, fw, lines, fname="b.gcode")
    end = segs(sim)[-1].t_end
    if ask == "end":
        sim.get_values(end)
    elif ask == "any":
        t0 = ctx.real("t0", 0, 10)
        ctx.assume(t0 <= end)
        sim.get_values(t0)
    sim.refresh(new_state_list=other.states)
    ss = segs(sim)
    ctx.reach(f"{len(ss)} segments")
    one_query(ctx, sim, ss, ctx.real("t", -1, 10), "x")


def gaps(ctx, n, known):
    """a path with gaps of no movement, searched from nowhere or from the index of an earlier search"""
    m = ctx.m
    u, find = m.utils, m.gcode_interpreter.find_current_segment
    t, p, path = ctx.real("start", 0, 5), [ctx.real("p" + a, -100, 100) for a in "xyze"], []
    for i in range(n):
        if i:
            t = t + ctx.real(f"gap{i}", 0, 5)
        v = ctx.real(f"v{i}", 1, 100)
        d = ctx.real(f"d{i}", F(1, 10), 5)
        q = [p[0] + v * d / 2, p[1], p[2] - v * d / 2, p[3] + d / 2]
        path.append(u.segment(t_begin=t, t_end=t + d, pos_begin=u.position(*p), vel_begin=u.velocity(v, 0.0, -v, 1.0), pos_end=u.position(*q),
                              vel_end=u.velocity(0.0, 0.0, 0.0, 0.0)))
        t, p = t + d, q
    index = None
    if known == "any":
        index = ctx.choice("index", list(range(n + 1)))
    elif known == "searched":
        t0 = ctx.real("t0", 0, 60)
        ctx.assume(t0 >= path[0].t_begin)
        ctx.assume(t0 <= path[-1].t_end)
        index = find(path, t0, keep_position=True)[1]
    t = ctx.real("t", 0, 60)
    ctx.assume(t >= path[0].t_begin)
    ctx.assume(t <= path[-1].t_end)
    s, i = find(path, t, last_index=index, keep_position=True)
    ctx.check("found", s is not None)
    ctx.le("segment contains the instant (begin)", s.t_begin, t, 1e-9)
    ctx.le("segment contains the instant (end)", t, s.t_end, 1e-9)
    if any(s is x for x in path):
        ctx.check("index of the segment", path[i] is s)
        ctx.reach("moving")
    else:
        ctx.check("index of the segment before the gap", bool(path[i].t_end <= t) and i + 1 < n and bool(t <= path[i + 1].t_begin))
        ctx.close_vec("keeps the position in a gap", v4(s.get_position(t)), v4(path[i].pos_end), 1e-6)
        ctx.close_vec("stands still in a gap", v4(s.get_velocity(t)), [0, 0, 0, 0], 1e-9)
        ctx.close_vec("stands still at the begin of a gap", v4(s.vel_begin), [0, 0, 0, 0], 1e-9)
        ctx.close_vec("stands still at the end of a gap", v4(s.vel_end), [0, 0, 0, 0], 1e-9)
        ctx.close_vec("still there at the end of the gap", v4(s.pos_end), v4(path[i].pos_end), 1e-6)
        ctx.reach("gap")


def cases(tier):
    q = tier == "quick"
    B = "concrete program, {n} symbolic query times in any order anywhere in [-1,{s}] s"
    out = [
        Case("2 moves and a dwell, 2 queries", queries,
             dict(fw="marlin_jd", dirs=["34", "-34"], lens=[8, 16], feeds=[100, 40], n=2, extra={1: ["G4 P250"]}),
             budget=60 if q else 400, bounds=B.format(n=2, s=10), must_reach=["inside", "before", "after"]),
        Case("1 move, 3 queries", queries,
             dict(fw=None, dirs=["122"], lens=[30], feeds=[100], n=3), budget=60 if q else 400,
             bounds=B.format(n=3, s=10), must_reach=["inside", "before", "after"]),
        Case("move, prime, move, 2 queries", queries,
             dict(fw="marlin_jerk", dirs=["+x", "E", "+x"], lens=[8, 2, 0.5], feeds=[100, 5, 40], n=2),
             budget=60 if q else 400, bounds=B.format(n=2, s=10), must_reach=["inside"]),
        Case("1 symbolic move, 1 query", queries, dict(fw="klipper", dirs=["34"], lens=[None], feeds="sym", n=1, span=500),
             budget=40 if q else 400, bounds="move of any length and feed rate, any query time", must_reach=["inside"]),
        Case("2 symbolic moves straight, 1 query", queries,
             dict(fw="marlin_jd", dirs=["34", "34"], lens=[None, None], feeds=[100, 50], n=1, span=500),
             budget=40 if q else 400, bounds="moves of any length, any query time"),
        Case("dwell first, 2 queries", queries,
             dict(fw="MKA", dirs=["+x"], lens=[4], feeds=[100], n=2, extra={0: ["G4 S1", "G4 P0"], 1: ["G4 P10"]}),
             budget=60 if q else 400, bounds=B.format(n=2, s=10)),
    ]
    D = MANY * (3 if q else 6)
    L = [float(3 + (7 * i) % 11) if d not in "ER" else 2.0 for i, d in enumerate(D)]
    for fw in ("marlin_jd", None):
        out.append(Case(f"{len(D)} moves {fw}, 1 query", queries, dict(fw=fw, dirs=D, lens=L, feeds=(MANY_F * 6)[:len(D)], n=1, span=400, extra={**MANY_X, 7: ["G4 P250"], 40: ["G4 S1", "G4 P1"]}),
                        budget=200 if q else 900, bounds="concrete program with over 100 segments, any query time", must_reach=["inside", "before", "after"]))
    for nm, n, asked in (("the start", 60, (0.0,)), ("the middle", 48, (50.5,)), ("the start and the middle", 48, (0.25, 60.0)), ("some and back", 60, (30.5, 70.75, 20.25)), ("the last segments", 48, (90.5, 94.5))):
        out.append(Case(f"{n} moves, asked {nm}, 1 query", queries, dict(fw="marlin_jd", dirs=D[:n], lens=L[:n], feeds=(MANY_F * 6)[:n], n=1, span=400, extra={**MANY_X, 7: ["G4 P250"], 40: ["G4 S1", "G4 P1"]}, asked=asked),
                        budget=200 if q else 900, bounds="concrete program of about 100 segments, some instants asked before, any query time", must_reach=["inside", "before", "after"]))
    out.append(Case("6 moves, 2 queries", queries, dict(fw="marlin_jerk", dirs=D[:6], lens=L[:6], feeds=MANY_F[:6], n=2, span=60, extra={4: ["G4 P250"]}),
                    budget=200 if q else 900, bounds="concrete program with about 15 segments, any two query times", must_reach=["inside"]))
    CONST = dict(dirs=["34"], lens=[8], feeds=[100])
    VAR = {"a dwell less": dict(CONST, extra={1: ["G4 P250"]}), "a move more": dict(dirs=["34", "34"], lens=[8, 4], feeds=[100, 40]),
           "a short move": dict(dirs=["34"], lens=[0.5], feeds=[200]), "two dwells": dict(CONST, extra={1: ["G4 P250", "G4 P10"]}),
           "nothing but a dwell": dict(dirs=[], lens=[], feeds=[], extra={0: ["G4 S1"]}), "a dwell first": dict(CONST, extra={0: ["G4 P250"]}), "another direction": dict(CONST, dirs=["-34"]), "a faster move": dict(CONST, feeds=[120])}
    for nm, o in VAR.items():
        for ask in ("end", "any"):
            for a, b, w in ((CONST, o, "to"), (o, CONST, "from")):
                out.append(Case(f"refresh {w} {nm}, asked {ask}", after_refresh, dict(fw="marlin_jd", first=a, second=b, ask=ask), budget=40 if q else 200,
                                bounds="two concrete programs; any query time before (or the end) and behind the refresh", must_reach=["inside", "before", "after"]))
    for known in ("nothing", "any", "searched"):
        out.append(Case(f"path with gaps, {known} known", gaps, dict(n=3 if q else 4, known=known), budget=40 if q else 300,
                        bounds="3 (thorough 4) braking segments of any length and speed with gaps of 0-5 s, any instants", must_reach=["moving", "gap"]))
    if not q:
        out += [Case("2 moves and a dwell, 3 queries", queries,
                     dict(fw="marlin_jd", dirs=["34", "-34"], lens=[8, 16], feeds=[100, 40], n=3, extra={1: ["G4 P250"]}),
                     budget=1500, bounds=B.format(n=3, s=10)),
                Case("4 moves, 2 queries", queries,
                     dict(fw="marlin_jerk", dirs=["34", "-34", "+x", "122"], lens=[8, 16, 3, 9], feeds=[100, 40, 80, 90], n=2),
                     budget=600, bounds=B.format(n=2, s=10))]
    return out
