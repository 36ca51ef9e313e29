from props.plan import *


def series(ctx, fw, dirs, lens, feeds, extr, tol=None, units=None, ini=False, extra=None, times="fixed"):
    e = [ctx.real(f"e{i}", -5, 5) if x == "sym" else x for i, x in enumerate(extr)]
    p = tuple(ctx.real(f"i{k}", -500, 500) for k in "XYZE") if ini else None
    L = [ctx.real(f"d{i}", F(1, 100), 300) if x is None else x for i, x in enumerate(lens)]
    lines, pts, vs = program(ctx, fw, dirs, lens=L, feeds=feeds, extr=e, initial=p, extra=extra)
    sim = run(ctx, fw, lines, initial=p)
    before = [(s.t_begin, s.t_end, v4(s.pos_begin), v4(s.vel_begin), v4(s.pos_end), v4(s.vel_end)) for s in segs(sim)]
    path = ctx.path("sub/events.inp")
    kw = {}
    t = F(1, 10 ** 12)
    if tol == "sym":
        t = kw["tolerance"] = ctx.real("tol", 0, 2)
    if units is not None:
        kw["output_unit_system"] = units
    f = {None: lambda v: v, "SImm": lambda v: v, "SI": lambda v: v / 1000, "inch": lambda v: v * 5 / 127}[units]
    ev = ctx.m.abaqus_file_generator.generate_abaqus_event_series(sim, filepath=path, **kw)
    rows = [(0, before[0][2])] + [(s[1], s[4]) for s in before]
    ctx.check("one row per segment end", len(ev) == len(rows), f"{len(ev)} {len(rows)}")
    flags = []
    for (t0, p0), (t1, p1) in zip(rows, rows[1:]):
        de = p1[3] - p0[3]
        # increments within rounding of the tolerance may be flagged either way
        flags.append(1 if de > t + F(1, 10 ** 9) else 0 if de <= 0 or de < t - F(1, 10 ** 9) else None)
    flags.append(0)
    for r, (tt, pos), fl in zip(ev, rows, flags):
        ctx.check("five entries per row", len(r) == 5)
        ctx.eq("time of the row", r[0], tt, 1e-9)
        ctx.close_vec("position of the row", list(r[1:4]), [f(x) for x in pos[:3]], 1e-9, 1e-9)
        if fl is not None:
            ctx.eq("extrusion flag", r[4], fl, 0)
        else:
            ctx.check("flag is 0 or 1", r[4] == 0 or r[4] == 1)
    for a, b in zip(ev, ev[1:]):
        ctx.le("rows in order of time", a[0], b[0], 1e-9)
    ctx.reach("extruding" if 1 in flags else "not extruding")
    text = [x for x in ctx.read_text(path).split("\n") if x.strip()]
    ctx.check("file has the same number of rows", len(text) == len(ev))
    for line, r in zip(text, ev):
        c = line.split(",")
        ctx.check("file: five columns", len(c) == 5)
        ctx.eq("file: time", ctx.num(c[0]), r[0], 1e-9)
        for i in (1, 2, 3):
            ctx.eq("file: position", ctx.num(c[i]), r[i], 1e-7)
        ctx.eq("file: flag", ctx.num(c[4]), r[4], 0)
    # the simulation is not touched
    after = [(s.t_begin, s.t_end, v4(s.pos_begin), v4(s.vel_begin), v4(s.pos_end), v4(s.vel_end)) for s in segs(sim)]
    for a, b in zip(before, after):
        for i in (2, 3, 4, 5):
            ctx.close_vec("trajectory untouched", b[i], a[i], 1e-12)
    ctx.eq("trajectory end untouched", after[-1][1], before[-1][1], 0)


def twice(ctx):
    """the second call returns and writes the same rows again, also to an existing file"""
    e = ctx.real("e", -5, 5)
    d = ctx.real("d", F(1, 10), 100)
    sim = run(ctx, None, ["G1 X20 F3000 E1", "G1 Y" + ctx.lit(d) + " E" + ctx.lit(1 + e)])
    g = ctx.m.abaqus_file_generator.generate_abaqus_event_series
    path = ctx.path("e.inp")
    a = g(sim, path)
    ta = ctx.read_text(path)
    b = g(sim, path)
    tb = ctx.read_text(path)
    ctx.check("same number of rows", len(a) == len(b))
    for x, y in zip(a, b):
        ctx.close_vec("same rows", list(x), list(y), 1e-12)
    ctx.check("file rewritten, not appended", len(ta.split("\n")) == len(tb.split("\n")))


def cases(tier):
    q = tier == "quick"
    b = 45 if q else 400
    B = "lengths in [0.01,300] where not fixed, extrusion in [-5,5] where symbolic"
    C = [
        ("any extrusion", dict(fw=None, dirs=["34", "-z", "+x"], lens=[20.0, 10.0, 30.0], feeds=[50, 10, 50], extr=["sym", "sym", "sym"])),
        ("any tolerance", dict(fw=None, dirs=["34", "+x"], lens=[20.0, 30.0], feeds=[50, 50], extr=["sym", 0.5], tol="sym")),
        ("any lengths", dict(fw=None, dirs=["34", "+x"], lens=[None, None], feeds=[50, 20], extr=[0.5, 0])),
        ("through a corner", dict(fw="marlin_jd", dirs=["+x", "724"], lens=[20.0, None], feeds=[100, None], extr=[0, 0.5])),
        ("any initial position", dict(fw=None, dirs=["122", "R"], lens=[9.0, 2.0], feeds=[30, 5], extr=["sym", 0], ini=True)),
        ("prime, dwell, retraction", dict(fw="marlin_jerk", dirs=["+x", "E", "+y", "R"], lens=[20.0, None, 20.0, 1.0], feeds=[50, 5, 50, 5],
                                         extr=[0.25, 0, 0.25, 0], extra={2: ["G4 P500"]})),
        ("starts with a dwell", dict(fw="klipper", dirs=["+x"], lens=[20.0], feeds=[50], extr=["sym"], extra={0: ["G4 S2"], 1: ["G4 P100"]})),
        ("dwells of no time", dict(fw="marlin_jd", dirs=["+x", "34", "E", "+y"], lens=[20.0, None, 1.0, 20.0], feeds=[50, 40, 5, 50], extr=[0, "sym", 0, 0.5],
                                   extra={0: ["G4 P0"], 1: ["G4 S0", "G4 P0"], 2: ["G4 P0"], 3: ["G4 P0"]})),
        ("24 moves", dict(fw="marlin_jerk", dirs=MANY, lens=[20.0 + i if i != 7 else None for i in range(24)], feeds=MANY_F,
                          extr=["sym" if i in (4, 9) else (0.5 * (-1) ** (i // 3) if d not in "ER" else 0) for i, d in enumerate(MANY)], extra={5: ["G4 P100"]})),
        ("72 moves", dict(fw=None, dirs=MANY * 3, lens=[20.0 + i for i in range(72)], feeds=MANY_F * 3, extr=["sym" if i == 50 else 0 if d in "ER" else 0.5 for i, d in enumerate(MANY * 3)])),
        ("metres", dict(fw=None, dirs=["34"], lens=[None], feeds=[50], extr=["sym"], units="SI")),
        ("inches", dict(fw=None, dirs=["34"], lens=[20.0], feeds=[50], extr=["sym"], units="inch", ini=True)),
    ]
    return [Case(n, series, k, budget=b, bounds=B, must_reach=["extruding"]) for n, k in C] + \
        [Case("called twice", twice, budget=b, bounds="any extrusion and length")]
