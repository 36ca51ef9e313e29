import math

from props.plan import *


def width(ctx, fw, dirs, lens, feeds, extr, extra=None, span=10, units="SImm"):
    e = [ctx.real(f"e{i}", -10, 10) if x == "sym" else x for i, x in enumerate(extr)]
    lines, pts, vs = program(ctx, fw, dirs, lens=lens, feeds=feeds, extr=e, extra=extra)
    mach = machine(ctx, fw, p_acc=1000)
    sim = simulate(ctx, "\n".join(lines) + "\n", mach, units=units)
    t = ctx.real("t", 0, span)
    ctx.assume(t <= segs(sim)[-1].t_end)
    h, dia = ctx.real("h", F(1, 100), 5), ctx.real("dia", F(1, 10), 10)
    w = sim.get_width(t=t, extrusion_h=h, filament_dia=dia)
    vel, _ = sim.get_values(t)
    sq = vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]
    if sq == 0:
        ctx.eq("zero width while not travelling", w, 0, 1e-9)
        ctx.reach("standing")
    else:
        area = dia * dia * math.pi / 4
        ctx.eq("volume is conserved", (w * h) ** 2 * sq, (vel[3] * area) ** 2, 1e-6, 1e-6)
        ctx.le("width has the sign of the filament feed", -(w * vel[3]), 0, 1e-9)
        ctx.reach("travelling")


def cases(tier):
    b = 40 if tier == "quick" else 300
    B = "any query time, layer height in [0.01,5], filament diameter in [0.1,10]"
    C = [("one move, any extrusion", dict(fw="marlin_jd", dirs=["34"], lens=[10.0], feeds=[50], extr=["sym"])),
         ("3D move", dict(fw=None, dirs=["122"], lens=[9.0], feeds=[50], extr=["sym"])),
         ("any length", dict(fw=None, dirs=["+y"], lens=[None], feeds=[50], extr=[F(1, 4) * 2.0], span=100)),
         ("dwell and retraction", dict(fw="marlin_jerk", dirs=["+x", "R", "+x"], lens=[8.0, 2.0, 4.0], feeds=[50, 5, 50], extr=[0.5, 0, 0.25],
                                      extra={1: ["G4 P500"]})),
         ("travel without extrusion", dict(fw="klipper", dirs=["+x", "724"], lens=[8.0, 5.0], feeds=[50, 100], extr=[0.5, 0])),
         ("metres", dict(fw=None, dirs=["34"], lens=[10.0], feeds=[50], extr=["sym"], units="SI"))]
    return [Case(n, width, k, budget=b, bounds=B) for n, k in C]
