from props.plan import *


def step_facts(ctx, r, ss):
    speed_facts(ctx, ss, r["v"], r["eonly"])


def prog_facts(ctx, sim, pts, vs, dirs, **k):
    for b, v, d in zip(sim.blocklist, vs, dirs):
        speed_facts(ctx, b.get_segments(), v, d in ("E", "R"))


def feed_change(ctx, fw, d1, d2, dwell=False):
    """the feed rate changes between, before and after the moves, on lines of its own too"""
    v = [ctx.real(f"v{i}", 1, 300) for i in range(3)]
    n = [ctx.real(f"d{i}", F(1, 100), 300) for i in range(2)]
    p1 = add([0, 0, 0, 0], DIRS[d1], n[0], 0)
    p2 = add(p1, DIRS[d2], n[1], 0)
    x = ctx.choice("layout", ["own lines", "second only", "after"])
    kw = lambda p: {k: p[i] for i, k in enumerate("XYZ")}  # noqa: E731
    if x == "own lines":
        ls = [move(ctx, F=v[0] * 60), move(ctx, **kw(p1)), move(ctx, "G0", F=v[1] * 60), move(ctx, **kw(p2))]
        e = [v[0], v[1]]
    elif x == "second only":
        ls = [move(ctx, F=v[0] * 60), move(ctx, **kw(p1)), move(ctx, F=v[2] * 60, **kw(p2))]
        e = [v[0], v[2]]
    else:
        ls = [move(ctx, F=v[0] * 60, **kw(p1)), move(ctx, **kw(p2)), move(ctx, F=v[1] * 60)]
        e = [v[0], v[0]]
    if dwell:  # every line waits as well
        ls = [s + " G4 P" + ctx.lit(ctx.real(f"w{i}", 1, 5000)) for i, s in enumerate(ls)]
    sim = run(ctx, fw, ls)
    ctx.reach(x)
    moves = [b for b in sim.blocklist if any(bool(s.vel_begin.not_zero() or s.vel_end.not_zero()) for s in b.get_segments())]
    ctx.check("one piece of the plan per move", len(moves) == 2)
    for b, w in zip(moves, e):
        speed_facts(ctx, b.get_segments(), w, False)


def cases(tier):
    out = plan_cases(tier, step_facts, prog_facts)
    b = 30 if tier == "quick" else 300
    for fw, d1, d2 in [("marlin_jd", "+x", "+x"), ("marlin_jerk", "34", "34"), ("MKA", "+x", "+x"), ("klipper", "+x", "+x")]:
        for dwell in (False, True) if fw in ("marlin_jd", "klipper") else (False,):
            out.append(Case(f"feed rate change {fw} {d1}>{d2}{', dwells' if dwell else ''}", feed_change, dict(fw=fw, d1=d1, d2=d2, dwell=dwell), budget=b,
                            must_reach=("own lines", "second only", "after") if fw == "marlin_jd" else (),
                            bounds="two moves and F words on the same or separate lines; all lengths and feed rates"))
    return out
