from props.plan import *

FACT = {"SImm": 1.0, "SI": 1e-3, "inch": 1 / 25.4}


def scaled(units, v):
    """mm value in the given unit system"""
    return v if units == "SImm" else v / 1000 if units == "SI" else v * 5 / 127


def choose(ctx):
    default = ctx.choice("simulation units", ["SImm", "SI", "inch"])
    asked = ctx.choice("requested units", [None, "SImm", "SI", "inch"])
    return default, asked, asked if asked is not None else default


def base(ctx, initial=True, extr=("sym", 0), units="SImm"):
    ini = tuple(ctx.real(f"i{k}", -500, 500) for k in "XYZE") if initial else None
    e = [ctx.real(f"e{i}", F(1, 10), 10) if x == "sym" else x for i, x in enumerate(extr)]
    lines, pts, vs = program(ctx, None, ["34", "+z"], lens=[20.0, 5.0], feeds=[50, 10], extr=e, initial=ini)
    sim = run(ctx, None, lines, initial=ini, units=units)
    return sim, pts, e


def values(ctx):
    d, a, u = choose(ctx)
    sim, pts, e = base(ctx, units=d)
    t = ctx.real("t", 0, 2)
    ss = segs(sim)
    ctx.assume(t <= ss[-1].t_end)
    mv, mp = sim.get_values(t, output_unit_system="SImm")
    v, p = sim.get_values(t, output_unit_system=a) if a is not None else sim.get_values(t)
    ctx.close_vec("velocity scaled", v, [scaled(u, x) for x in mv], 1e-9, 1e-9)
    ctx.close_vec("position scaled", p, [scaled(u, x) for x in mp], 1e-9, 1e-9)
    s = next(s for s in ss if t <= s.t_end)
    f = t - s.t_begin
    want = [a0 + v0 * f + (v1 - v0) / (s.t_end - s.t_begin) * f * f / 2
            for a0, v0, v1 in zip(v4(s.pos_begin), v4(s.vel_begin), v4(s.vel_end))]
    ctx.close_vec("millimetres unscaled", mp, want, 1e-6)
    ctx.reach(u)


def end_points(ctx):
    """the trajectory itself is in millimetres whatever the output units are"""
    d, a, u = choose(ctx)
    sim, pts, e = base(ctx, units=d)
    ss = segs(sim)
    t = ss[-1].t_end
    _, p = sim.get_values(t, a)
    ctx.close_vec("final position", p, [scaled(u, x) for x in pts[-1]], 1e-9, 1e-9)
    _, p = sim.get_values(0, a)
    ctx.close_vec("first position", p, [scaled(u, x) for x in pts[0]], 1e-9, 1e-9)
    # 20 mm at 50 mm/s with 1000 mm/s2 (0.45 s) and 5 mm at 10 mm/s (0.51 s): the same instant in every system
    ctx.eq("times are never scaled", t, 0.96, 1e-9)


def extents(ctx):
    d, a, u = choose(ctx)
    sim, pts, e = base(ctx, units=d)
    ext = sim.extrusion_extent(output_unit_system=a) if a is not None else sim.extrusion_extent()
    p0, p1 = pts[0], pts[1]
    ctx.close_vec("extent minimum", list(ext[0])[:3], [scaled(u, x) for x in p0[:3]], 1e-9, 1e-9)
    ctx.close_vec("extent maximum", list(ext[1])[:3], [scaled(u, x) for x in p1[:3]], 1e-9, 1e-9)
    v = sim.extrusion_max_vel(output_unit_system=a) if a is not None else sim.extrusion_max_vel()
    ctx.eq("maximum speed", v, scaled(u, 50), 1e-9, 1e-9)
    again, last = sim.get_values(segs(sim)[-1].t_end)
    ctx.close_vec("default stays the simulation's system", last, [scaled(d, x) for x in pts[-1]], 1e-9, 1e-9)


def series(ctx):
    d, a, u = choose(ctx)
    sim, pts, e = base(ctx, units=d)
    mm = [v4(s.pos_end) for s in segs(sim)]
    ev = ctx.m.abaqus_file_generator.generate_abaqus_event_series(
        sim, filepath=ctx.path("ev.inp"), output_unit_system=a)
    times = [0] + [s.t_end for s in segs(sim)]
    ctx.close_vec("times are never scaled", [r[0] for r in ev], times, 1e-9)
    for i, (r, p) in enumerate(zip(ev, [pts[0]] + mm)):
        ctx.close_vec("event positions scaled", list(r[1:4]), [scaled(u, x) for x in p[:3]], 1e-9, 1e-9)


def summary(ctx):
    d = ctx.choice("simulation units", ["SImm", "SI", "inch"])
    sim, pts, e = base(ctx, units=d)
    sim.save_summary(ctx.path("sum.yaml"))
    s = ctx.read_yaml(ctx.path("sum.yaml"))
    got = [s[f"{c}_{m}"] for m in ("min", "max") for c in "xyz"]
    ctx.close_vec("summary extent", got, [scaled(d, x) for x in pts[0][:3] + pts[1][:3]], 1e-9, 1e-9)
    ctx.eq("summary speed", s["max_extrusion_travel_velocity"], scaled(d, 50), 1e-9, 1e-9)
    ctx.eq("summary time", s["t_end"], 0.96, 1e-9)


def initial(ctx):
    """initial positions are converted from the input unit system, given as tuple or dictionary"""
    unit = ctx.choice("input units", [None, "SImm", "SI", "inch"])
    form = ctx.choice("form", ["tuple", "dict", "dict reordered"])
    default = ctx.choice("attribute", [False, True])
    val = [ctx.real(f"i{k}", -50, 50) for k in "XYZE"]
    s = make_setup(ctx, machine(ctx, None))
    q = unit
    if default:
        s.input_unit_system = unit or "SImm"
        q = None
    arg = tuple(val) if form == "tuple" else dict(zip("XYZE", val)) if form == "dict" \
        else {k: val["XYZE".index(k)] for k in "EZXY"}
    if q is None:
        s.set_initial_position(arg)
    else:
        s.set_initial_position(arg, input_unit_system=q)
    f = {None: 1, "SImm": 1, "SI": 1000, "inch": F(254, 10)}[unit]
    want = [x * f for x in val] if ctx.symbolic else [x * float(f) for x in val]
    d = s.get_dict()
    ctx.close_vec("initial position in mm", [d[k] for k in "XYZE"], want, 1e-9, 1e-9)
    other = ctx.choice("set again", [False, True])
    if other:
        b = [ctx.real(f"b{k}", -50, 50) for k in "XYZE"]
        s.set_initial_position(tuple(b), "SImm")
        want = b
    g = ctx.write_text("p.gcode", "G1 X5 F600\n")
    sim = ctx.m.gcode_interpreter.simulation(gcode_path=g, initial_machine_setup=s, output_unit_system="inch")
    ctx.close_vec("trajectory starts there", v4(sim.states[0].state_position), want, 1e-9, 1e-9)


def unknown(ctx):
    """unknown names of unit systems are refused everywhere"""
    name = ctx.choice("name", ["mm", "si", "Inch", "", "inches", "SImm ", 1])
    sim, pts, e = base(ctx, initial=False)
    x = ctx.real("x", -5, 5)
    setup = make_setup(ctx, machine(ctx, None), fname="o.yaml")
    setup.set_initial_position((x, 0, 0, 0))
    g = ctx.write_text("p.gcode", "G1 X5 F600\n")
    S = ctx.m.gcode_interpreter.simulation
    ctx.check("simulation refuses unknown units",
              ctx.raises(lambda: S(gcode_path=g, initial_machine_setup=setup, output_unit_system=name)) is not None)
    ctx.check("get_values refuses unknown units", ctx.raises(lambda: sim.get_values(0.1, name)) is not None)
    ctx.check("extent refuses unknown units", ctx.raises(lambda: sim.extrusion_extent(name)) is not None)
    ctx.check("max speed refuses unknown units", ctx.raises(lambda: sim.extrusion_max_vel(name)) is not None)
    ctx.check("initial position refuses unknown units",
              ctx.raises(lambda: setup.set_initial_position((1, 2, 3, 4), name)) is not None)
    d = setup.get_dict()
    ctx.close_vec("refused initial position leaves the old one", [d[k] for k in "XYZE"], [x, 0, 0, 0], 1e-9)
    ctx.check("event series refuses unknown units", ctx.raises(
        lambda: ctx.m.abaqus_file_generator.generate_abaqus_event_series(sim, ctx.path("e.inp"), output_unit_system=name)) is not None)


def cases(tier):
    b = 40 if tier == "quick" else 200
    B = "two moves, any initial position in [-500,500]^4, any positive extrusion, every pair of simulation and requested unit system"
    return [Case("values", values, budget=b, bounds=B + ", any query time", must_reach=["SI", "inch", "SImm"]),
            Case("end points", end_points, budget=b, bounds=B),
            Case("extent and speed", extents, budget=b, bounds=B),
            Case("event series", series, budget=b, bounds=B),
            Case("summary", summary, budget=b, bounds=B),
            Case("initial position", initial, budget=b, bounds="any values in [-50,50]^4 in every input unit system and form"),
            Case("unknown names", unknown, budget=b, bounds="seven unknown names; any position")]
