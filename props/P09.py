from props.plan import *


def step_facts(ctx, r, ss):
    shape_facts(ctx, ss, r["v"], r["acc"], r["eonly"])
    speed_facts(ctx, ss, r["v"], r["eonly"])
    u, v = r["u"], r["v"]
    b0 = speed(ss[0].vel_begin, r["eonly"])
    # the entry speed is kept unless it exceeds the feed rate or the move is too short to brake
    b1 = speed(ss[-1].vel_end, r["eonly"])
    ctx.le("entry speed not above what came before", b0, u, tol=1e-6)
    n = len(ss)
    if n > 1:
        if u <= v:
            ctx.eq("entry speed is kept", b0, u, tol=1e-6)
        else:
            ctx.eq("entry speed is cut to the feed rate", b0, v, tol=1e-6)


def prog_facts(ctx, sim, pts, vs, dirs, acc, **k):
    for b, v, d in zip(sim.blocklist, vs, dirs):
        shape_facts(ctx, b.get_segments(), v, acc, d in ("E", "R"))
        speed_facts(ctx, b.get_segments(), v, d in ("E", "R"))


def acc_change(ctx, fw, d1, d2, own=True, dwell=False):
    """M204 changes the acceleration between two moves, on a line of its own or on the line of the move"""
    a0, a1 = ctx.real("a0", 50, 5000), ctx.real("a1", 50, 5000)
    n = [ctx.real(f"d{i}", F(1, 100), 300) for i in range(2)]
    p1 = add([0, 0, 0, 0], DIRS[d1], n[0], 0)
    p2 = add(p1, DIRS[d2], n[1], 0)
    kw = lambda p: {k: p[i] for i, k in enumerate("XYZ")}  # noqa: E731
    sep = "\n" if own else " "
    if own:  # speed limits of the axes do not limit the feed rate
        sep += "M203 " + " ".join(c + ctx.lit(ctx.real("lim" + c, F(1, 100), 500)) for c in "XYZE") + "\n"
    w = [" G4 P" + ctx.lit(ctx.real(f"w{i}", 1, 5000)) if dwell else "" for i in range(2)]
    sim = run(ctx, fw, ["M204 P" + ctx.lit(a0) + sep + move(ctx, F=6000, **kw(p1)) + w[0], "M204 P" + ctx.lit(a1) + sep + move(ctx, **kw(p2)) + w[1]])
    nseg_reach(ctx, sim)
    for b, a in zip(sim.blocklist, (a0, a1)):
        ss = list(b.get_segments())
        if dwell:  # the line waits and moves
            ss = [s for s in ss if not (speed(s.vel_begin, False) == 0 and speed(s.vel_end, False) == 0)]
        shape_facts(ctx, ss, 100, a, False)


def cases(tier):
    out = plan_cases(tier, step_facts, prog_facts, short=False)
    b = 30 if tier == "quick" else 300
    for fw, d1, d2 in [("marlin_jd", "+x", "+x"), (None, "34", "+y")]:
        for own, dwell in ((True, False), (False, False), (False, True), (True, True)):
            out.append(Case(f"acceleration change {fw}{'' if own else ' on the line of the move'}{', dwell on it' if dwell else ''}", acc_change,
                            dict(fw=fw, d1=d1, d2=d2, own=own, dwell=dwell), budget=b,
                            bounds="two moves, F6000, M204 before each; all lengths and both accelerations"))
    return out
