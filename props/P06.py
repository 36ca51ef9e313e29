from props.refmachine import *

KINDS = ["G20", "G21", "G0 XYZEF", "G1 XE", "G92 XYZE", "G91M83"]


def run_history(ctx, kinds, **k):
    sts, want = history(ctx, kinds, **k)
    check_positions(ctx, sts, want, "target position in mm")
    for s, w in zip(sts, want):
        ctx.eq("feed rate in mm/s", s.state_p_settings.speed, w["speed"], 1e-6, 1e-9)


class Twin(Ref):
    """writes the millimetre equivalent of an inch program"""


def equivalent(ctx, kinds, mixed):
    """an inch program against its translation to millimetres"""
    ini = [ctx.real(f"i{a}", -500, 500) for a in AX]
    inch, mm = ["G20"], ["G21"]
    unit = 25.4
    for i, ks in enumerate(kinds):
        kind = ctx.choice(f"k{i}", ks)
        if kind == "switch":
            unit = 1 if unit != 1 else 25.4
            inch.append("G21" if unit == 1 else "G20")
            mm.append("")
            continue
        if " " not in kind:
            inch.append(kind)
            mm.append(kind)
            continue
        name, letters = kind.split()
        kw = {c: ctx.real(f"w{i}{c}", 1 if c == "F" else -100, 1000) for c in letters}
        inch.append(move(ctx, name, **kw))
        mm.append(move(ctx, name, **{c: v * unit for c, v in kw.items()}))
    d = machine(ctx, "marlin_jd")
    d.update(dict(zip(AX, ini)), printer_name="printer")
    res = []
    for nm, ls in (("inch", inch), ("mm", mm)):
        p = ctx.write_text(nm + ".gcode", "\n".join(ls) + "\n")
        res.append(ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d))
    a, b = res
    ctx.check("same number of states", len(a) == len(b))
    for x, y in zip(a, b):
        ctx.close_vec("same position as the millimetre program", v4(x.state_position), v4(y.state_position), 1e-6)
        ctx.eq("same speed as the millimetre program", x.state_p_settings.speed, y.state_p_settings.speed, 1e-6, 1e-9)
    ctx.reach("done")


def trajectory(ctx, fw):
    """complete simulation of an inch move"""
    x, f = ctx.real("x", F(1, 10), 10), ctx.real("f", 20, 600)
    sim = simulate(ctx, f"G20\nG1 X{ctx.lit(x)} F{ctx.lit(f)}\n", machine(ctx, fw, p_acc=1000))
    ss = segs(sim)
    ctx.eq("end of the move in mm", v4(ss[-1].pos_end)[0], x * 25.4, 1e-6)
    for s in ss:
        ctx.le("speed in mm/s", speed(s.vel_end), f * 25.4 / 60, 1e-6)
    d = x * 25.4
    v = f * 25.4 / 60
    if v * v / 1000 < d:
        ctx.eq("cruises at the feed rate in mm/s", speed(ss[0].vel_end), v, 1e-6)
        ctx.reach("cruise")


def switching(ctx, kinds):
    """switching units alone moves nothing"""
    ini = [ctx.real(f"i{a}", -500, 500) for a in AX]
    ref = Ref(ini)
    lines = [line(ctx, ref, ctx.choice(f"k{i}", ks), i) for i, ks in enumerate(kinds)]
    d = machine(ctx, "marlin_jd")
    d.update(dict(zip(AX, ini)), printer_name="printer")
    p = ctx.write_text("prog.gcode", "\n".join(lines) + "\n")
    sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
    for i, t in enumerate(lines):
        if t in ("G20", "G21"):
            ctx.close_vec("switching units does not move the machine", v4(sts[i + 1].state_position), v4(sts[i].state_position), 1e-6)
            ctx.eq("switching units keeps the speed", sts[i + 1].state_p_settings.speed, sts[i].state_p_settings.speed, 1e-7, 1e-9)
            ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    K = ["G0 XYZEF", "G1 XE", "G92 XYZE", "G92 E", "G91", "M83", "switch"]
    out = split_first("history", run_history, KINDS, 5 if q else 6, budget=60 if q else 900)
    TOGETHER = ["G20 + G0 XYZEF", "G21 + G1 XE", "G20 + G92 XYZE", "G21 + G92 E", "G1 XE", "G91 + M83 + G20", "G90 + G21"]
    out += split_first("units with moves", run_history, TOGETHER, 3 if q else 4, budget=60 if q else 900)
    out += long_cases(run_history, KINDS + MOVES + UNITS + TOGETHER, q)
    out += [Case(f"inch program and its translation, first {k}", equivalent, dict(kinds=[[k], K, K] if q else [[k], K, K, K], mixed=True),
                 budget=60 if q else 600, bounds=f"four lines out of {K} after G20; any numbers", must_reach=["done"]) for k in K]
    out += [Case("switching", switching, dict(kinds=[["G0 XYZEF", "G20"], ["G20", "G21"], ["G92 XYZE", "G1 XE"], ["G20", "G21"], ["G1 XE"]]),
                 budget=60, bounds="five lines", must_reach=["done"]),
            Case("trajectory", trajectory, dict(fw="marlin_jd"), budget=40, bounds="one inch move of any length and feed rate", must_reach=["cruise"])]
    return out
