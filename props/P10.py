from props.plan import *


def step_facts(ctx, r, ss):
    ctx.eq("follows the previous move without a gap", ss[0].t_begin, r["t0"], tol=1e-9)
    _chain(ctx, ss, r["eonly"])


def _chain(ctx, ss, eonly=False):
    for a, b in zip(ss, ss[1:]):
        ctx.eq("no gap or overlap in time", a.t_end, b.t_begin, tol=1e-9)
        ctx.close_vec("no jump in position", v4(a.pos_end), v4(b.pos_begin), tol=1e-6)
        ctx.eq("no jump in travel speed", speed(a.vel_end), speed(b.vel_begin), tol=1e-6)
        if eonly:
            ctx.eq("no jump in filament speed", speed(a.vel_end, True), speed(b.vel_begin, True), tol=1e-6)
    for s in ss:
        ctx.le("time runs forward", s.t_begin, s.t_end, tol=1e-9)


def prog_facts(ctx, sim, pts, vs, dirs, fw, jerk, **k):
    ss = segs(sim)
    ctx.eq("starts at time zero", ss[0].t_begin, 0, tol=1e-9)
    ctx.close_vec("starts at the initial position", v4(ss[0].pos_begin), pts[0])
    ctx.eq("starts from standstill", speed(ss[0].vel_begin), 0)
    _chain(ctx, ss)
    for b, d in zip(sim.blocklist, dirs):
        if d in ("E", "R"):
            _chain(ctx, b.get_segments(), True)
    if fw != "marlin_jerk":
        ctx.eq("comes to rest at the end", speed(ss[-1].vel_end), 0, tol=1e-6)
    ctx.close_vec("ends at the last target", v4(ss[-1].pos_end), pts[-1], tol=1e-5)


def cases(tier):
    out = plan_cases(tier, step_facts, prog_facts)
    b = 40 if tier == "quick" else 400
    out.append(prog_case(prog_facts, "with a dwell and lines without motion", fw="marlin_jd", dirs=["+x", "+x", "+x"],
                         feeds=[100, None, None], extra={1: ["G4 P100", "; comment"], 2: ["M204 P500", "G92 E0", ""]}, budget=b))
    out.append(prog_case(prog_facts, "dwells of no time", fw="marlin_jd", dirs=["+x", "+x", "+x"],
                         feeds=[100, None, None], lens=[50, None, None], extra={2: ["G4 P0"]}, budget=b))
    out.append(prog_case(prog_facts, "long-range back correction", fw="marlin_jd", dirs=["+x", "+x", "+x", "-x"],
                         feeds=[100, None, None, None], lens=[None, 1, 1, None], budget=b))
    out.append(prog_case(prog_facts, "slowing down over several moves", fw="marlin_jd", dirs=["+x", "+x", "+x"],
                         feeds=[150, None, 5], lens=[50, None, 1], acc="sym", budget=b))
    return out
