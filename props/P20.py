from props.plan import *


def prepare(ctx, fw, dirs, lens, feeds, extr, ini, extra=None):
    e = [ctx.real(f"e{i}", -10, 10) if x == "sym" else ctx.real(f"e{i}", F(1, 100), 10) if x == "pos"
         else -ctx.real(f"e{i}", 0, 10) if x == "neg" else x for i, x in enumerate(extr)]
    p = tuple(ctx.real(f"i{k}", -500, 500) for k in "XYZE") if ini else None
    L = [ctx.real(f"d{i}", 20, 300) if x == "sym" else x for i, x in enumerate(lens)]
    lines, pts, vs = program(ctx, fw, dirs, lens=L, feeds=feeds, extr=e, initial=p, extra=extra)
    sim = run(ctx, fw, lines, initial=p)
    # net extrusion of every move
    ext = [b[3] - a[3] for a, b in zip(pts, pts[1:])]
    return sim, pts, vs, ext


def lo(a, b):
    return a if a <= b else b


def extent(ctx, fw, dirs, lens, feeds, extr, ini=True, extra=None):
    sim, pts, vs, ext = prepare(ctx, fw, dirs, lens, feeds, extr, ini, extra)
    used = [i for i, x in enumerate(ext) if x > 0]
    ctx.reach(f"{len(used)} extruding")
    ctx.reach("extruding" if used else "nothing")
    if not used:
        ctx.check("refused without extrusion", ctx.raises(lambda: sim.extrusion_extent(), ValueError) is not None)
        return
    got = sim.extrusion_extent()
    P = [pts[i] for i in used] + [pts[i + 1] for i in used]
    mn, mx = [], []
    for k in range(3):
        a = b = P[0][k]
        for q in P[1:]:
            a = lo(a, q[k])
            b = -lo(-b, -q[k])
        mn.append(a)
        mx.append(b)
    ctx.check("two rows", len(got) == 2)
    ctx.close_vec("smallest corner", list(got[0])[:3], mn, 1e-9)
    ctx.close_vec("largest corner", list(got[1])[:3], mx, 1e-9)
    sim.save_summary(ctx.path("s.yaml"))
    s = ctx.read_yaml(ctx.path("s.yaml"))
    ctx.close_vec("summary repeats the extent", [s[f"{c}_{m}"] for m in ("min", "max") for c in "xyz"], mn + mx, 1e-9)
    ctx.eq("summary end time", s["t_end"], segs(sim)[-1].t_end, 1e-9)
    ctx.eq("summary repeats the maximum speed", s["max_extrusion_travel_velocity"], sim.extrusion_max_vel(), 1e-9)
    ctx.check("summary names the program", s["filename"] == str(sim.filename))


def maxvel(ctx, fw, dirs, lens, feeds, extr, ini=False, extra=None):
    sim, pts, vs, ext = prepare(ctx, fw, dirs, lens, feeds, extr, ini, extra)
    used = [i for i, x in enumerate(ext) if x > 0]
    ctx.assume(len(used) > 0)
    got = sim.extrusion_max_vel()
    # speeds attained: begin and end of every segment belonging to an extruding move
    want = None
    tot = 0
    for b in sim.blocklist:
        pa, pb = b.get_segments()[0].pos_begin, b.get_segments()[-1].pos_end
        if v4(pb)[3] - v4(pa)[3] > 0:
            for s in b.get_segments():
                for q in (s.vel_begin, s.vel_end):
                    n = speed(q)
                    ctx.le("no higher speed while extruding", n, got, 1e-7, 1e-9)
                    if want is None or n > want:
                        want = n
    ctx.eq("attained", got, want, 1e-7, 1e-9)
    ctx.reach("extruding")


def analytic(ctx):
    """trapezoids: the feed rates of the extruding moves are attained"""
    va, vb, vc = [ctx.real(f"v{i}", 1, 100) for i in range(3)]
    pat = ctx.choice("extruding", [(1, 0, 1), (0, 1, 0), (1, 1, 0), (0, 0, 1)])
    lines = ["G1 X50 F" + ctx.lit(va * 60) + (" E1" if pat[0] else ""),
             "G1 Y50 F" + ctx.lit(vb * 60) + (" E2" if pat[1] else ""),
             "G1 X10 Y20 F" + ctx.lit(vc * 60) + (" E3" if pat[2] else "")]
    sim = run(ctx, None, lines, acc=1000)
    want = 0
    for x, v in zip(pat, (va, vb, vc)):
        if x and v > want:
            want = v
    ctx.eq("highest feed rate of an extruding move", sim.extrusion_max_vel(), want, 1e-6)


def triangle(ctx):
    """short extruding moves do not reach the feed rate; the peak counts"""
    d = ctx.real("d", F(1, 100), 9)
    sim = run(ctx, None, ["G1 X30 F6000", "G1 X" + ctx.lit(30 + d) + " E1", "G1 X100"], acc=1000)
    got = sim.extrusion_max_vel()
    ctx.eq("peak of a triangular profile", got * got, 1000 * d, 1e-6, 1e-6)


def nothing(ctx, lines):
    a, b = ctx.real("a", -100, 100), ctx.real("b", 0, 50)
    sim = run(ctx, "marlin_jd", [x.format(a=ctx.lit(a), b=ctx.lit(b), mb=ctx.lit(-b)) for x in lines])
    ctx.check("refused without extrusion", ctx.raises(lambda: sim.extrusion_extent(), ValueError) is not None)


def cases(tier):
    q = tier == "quick"
    b = 45 if q else 400
    B = "any extrusion in [-10,10] per move (net sign decides), "
    out = [
        Case("extent symbolic signs", extent, dict(fw=None, dirs=["34", "-z", "-34"], lens=[20.0, 15.0, 25.0], feeds=[50, 10, 50],
             extr=["sym", "sym", "sym"]), budget=b, bounds=B + "any initial position",
             must_reach=["0 extruding", "1 extruding", "2 extruding", "3 extruding"]),
        Case("extent symbolic lengths", extent, dict(fw=None, dirs=["+x", "-y", "-x"], lens=["sym"] * 3, feeds=[50, 50, 50],
             extr=["pos", 0, "pos"]), budget=b, bounds="any lengths in [20,300], any initial position"),
        Case("extent symbolic lengths, travel first", extent, dict(fw=None, dirs=["-x", "+y", "34"], lens=["sym"] * 3, feeds=[50, 50, 50],
             extr=[0, "pos", "neg"]), budget=b, bounds="any lengths in [20,300], any initial position"),
        Case("extent with prime and retraction", extent, dict(fw="marlin_jerk", dirs=["+x", "E", "+y", "R", "-x"], lens=[30.0, 2.0, 30.0, 2.0, 80.0],
             feeds=[50, 5, 50, 5, 50], extr=["pos", 0, 0, 0, "sym"]), budget=b, bounds="prime and retraction between moves"),
        Case("extent with a prime elsewhere", extent, dict(fw=None, dirs=["-x", "E", "+x", "+x"], lens=[30.0, 2.0, "sym", 20.0],
             feeds=[50, 5, 50, 50], extr=[0, 0, 0, "pos"]), budget=b, bounds="prime away from the extruding move, any length in between"),
        Case("extent of 24 moves", extent, dict(fw=None, dirs=MANY, lens=[20.0 + i if i != 15 else "sym" for i in range(24)], feeds=MANY_F,
             extr=["sym" if i in (4, 9) else ((-1) ** (i // 3) * 0.5 if d not in "ER" else 0) for i, d in enumerate(MANY)]), budget=b,
             bounds="24 moves, two extrusions, one length and the initial position symbolic", must_reach=["12 extruding"]),
        *[Case(f"extent of {n} moves", extent, dict(fw=None, dirs=(MANY * 9)[:n], lens=[20.0 + (7 * i) % 11 if i != n - at else "sym" for i in range(n)], feeds=(MANY_F * 9)[:n],
               extr=[sign * 0.5 if d not in "ER" else 0 for d in (MANY * 9)[:n]]), budget=b,
               bounds=f"{n} extruding moves, one length and the initial position symbolic", must_reach=["extruding"]) for n, at, sign in ((72, 1, 1), (160, 2, 1), (200, 60, 1))],
        Case("speed of 24 moves", maxvel, dict(fw="marlin_jerk", dirs=MANY, lens=[20.0 + i for i in range(24)], feeds=MANY_F,
             extr=["sym" if i in (4, 9) else ((-1) ** (i // 3) * 0.5 if d not in "ER" else 0) for i, d in enumerate(MANY)]), budget=b,
             bounds="24 moves, two symbolic extrusions", must_reach=["extruding"]),
        Case("extent with dwell", extent, dict(fw=None, dirs=["+x", "+y"], lens=[30.0, 30.0], feeds=[50, 50], extr=["sym", "sym"],
             extra={0: ["G4 P100"], 1: ["G4 S1"], 2: ["G4 P5"]}), budget=b, bounds="dwells around the moves"),
        Case("speed any signs", maxvel, dict(fw=None, dirs=["34", "-z", "-34"], lens=[20.0, 15.0, 25.0], feeds=[50, 10, 70],
             extr=["sym", "sym", "sym"]), budget=b, bounds=B + "fixed lengths", must_reach=["extruding"]),
        Case("speed any feeds", analytic, budget=b, bounds="any feed rates in [1,100], trapezoids"),
        Case("speed triangle", triangle, budget=b, bounds="any length in [0.01,9]"),
        Case("speed through corner", maxvel, dict(fw="marlin_jd", dirs=["+x", "724", "+x"], lens=[20.0, None, 20.0], feeds=[100, None, None],
             extr=[0, "pos", 0]), budget=b, bounds="any length of the extruding move", must_reach=["extruding"]),
        Case("speed of a braking move", maxvel, dict(fw="marlin_jd", dirs=["+x", "+x"], lens=[100.0, None], feeds=[100, 100], extr=[0, "pos"]),
             budget=b, bounds="any length of the last, extruding move", must_reach=["extruding"]),
        Case("speed of an accelerating move", maxvel, dict(fw="marlin_jerk", dirs=["+x", "+x", "+y"], lens=[None, 80.0, 20.0], feeds=[100, 100, 30],
             extr=["pos", 0, "neg"]), budget=b, bounds="any length of the first, extruding move", must_reach=["extruding"]),
        Case("speed prime", maxvel, dict(fw="marlin_jerk", dirs=["+x", "E", "+y"], lens=[30.0, 2.0, 30.0], feeds=[50, 5, 80], extr=["pos", 0, 0]),
             budget=b, bounds="prime between moves"),
        Case("nothing extruded: travel", nothing, dict(lines=["G1 X100 F3000", "G1 X{a}"]), budget=b, bounds="any target"),
        Case("nothing extruded: retraction", nothing, dict(lines=["G1 X{a} E{mb} F3000", "G1 Y30"]), budget=b, bounds="any retraction"),
        Case("nothing extruded: relative retraction", nothing, dict(lines=["M83", "G1 X{a} E0 F3000", "G4 P100", "G1 E{mb}"]), budget=b, bounds="any"),
        Case("nothing extruded: re-zeroed", nothing, dict(lines=["G92 E{b}", "G1 X{a} E{b} F3000"]), budget=b, bounds="any"),
    ]
    if not q:
        out.append(Case("speed four moves", maxvel, dict(fw="marlin_jd", dirs=["34", "34", "34", "34"], lens=[None] * 4, feeds=[100, None, None, None],
                        extr=["sym", 0, "pos", 0]), budget=600, bounds="any lengths", must_reach=["extruding"]))
    return out
