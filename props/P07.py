from props.plan import *


def step_facts(ctx, r, ss):
    line_facts(ctx, r["p0"], r["p1"], ss)


def prog_facts(ctx, sim, pts, vs, dirs, **k):
    ctx.check("one trajectory piece per move", len(sim.blocklist) == len(dirs))
    ctx.close_vec("starts at the initial position", v4(segs(sim)[0].pos_begin), pts[0])
    for i, b in enumerate(sim.blocklist):
        line_facts(ctx, pts[i], pts[i + 1], b.get_segments())


def any_direction(ctx, fw):
    """one move in any direction with any extrusion"""
    d = {a: ctx.real("d" + a, -300, 300) for a in "XYZ"}
    e = ctx.real("e", -20, 20)
    ctx.assume(d["X"] * d["X"] + d["Y"] * d["Y"] + d["Z"] * d["Z"] >= F(1, 10000))
    sim = run(ctx, fw, [move(ctx, F=3000, E=e, **d)], acc=500)
    line_facts(ctx, [0, 0, 0, 0], [d["X"], d["Y"], d["Z"], e], segs(sim), tol=1e-5)
    nseg_reach(ctx, sim)


def sampled(ctx, fw):
    """get_values at any instant: on the straight line between the two targets, never beyond them"""
    v, L, e = ctx.real("v", 1, 300), ctx.real("len", F(1, 100), 300), ctx.real("e", -20, 20)
    d = DIRS["122"]
    q = [x * L for x in d] + [e]
    sim = run(ctx, fw, [move(ctx, X=q[0], Y=q[1], Z=q[2], E=e, F=v * 60)], acc=800)
    t = ctx.real("t", 0)
    ctx.assume(t <= segs(sim)[-1].t_end)
    vel, pos = sim.get_values(t=t)
    f = sum(a * b for a, b in zip(d, pos[:3])) / L
    ctx.le("instant: not before the start", -f, 0, tol=1e-7)
    ctx.le("instant: not beyond the target", f, 1, tol=1e-7)
    ctx.close_vec("instant: on the straight line", pos, [f * x for x in q], tol=1e-5)
    g = sum(a * b for a, b in zip(d, vel[:3]))
    ctx.le("instant: never backwards", -g, 0, tol=1e-7)


def cases(tier):
    b = 30 if tier == "quick" else 300
    out = plan_cases(tier, step_facts, prog_facts)
    out.append(Case("any direction", any_direction, dict(fw="marlin_jd"), budget=b,
                    bounds="one move, all X, Y, Z in [-300,300] with length >= 0.01 mm, E in [-20,20]; F3000, acc 500"))
    for d in ("+x", "122"):
        for e in ("none", "mix"):
            out.append(step_case(step_facts, d1=d, d2="34", extr=e, fw="marlin_jerk", budget=b, lo=F(1, 100000)))
    out.append(Case("any instant", sampled, dict(fw="marlin_jd"), budget=b,
                    bounds="one move, all lengths, speeds, extrusions and query times"))
    return out
