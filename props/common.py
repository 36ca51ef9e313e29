"""Program builders shared by the property harnesses (public API only)."""
from fractions import Fraction

from symx.runner import Case  # noqa: F401

FIRMWARES = ["marlin_jd", "klipper", "marlin_jerk", "MKA", None]


def machine(ctx, firmware, p_vel=35, p_acc=200, jerk=10, **over):
    d = {"p_vel": p_vel, "p_acc": p_acc, "jerk": jerk, "vX": 180, "vY": 180, "vZ": 30, "vE": 33,
         "firmware": firmware if firmware is not None else "none", "nozzle_diam": 0.4, "filament_diam": 1.75}
    d.update(over)
    return d


def make_setup(ctx, mach, initial=None, layer_cue=None, name="printer", fname="presets.yaml"):
    path = ctx.write_yaml(fname, {name: mach})
    s = ctx.m.gcode_interpreter.setup(presets_file=path, printer=name, layer_cue=layer_cue)
    if initial is not None:
        s.set_initial_position(initial)
    return s


def simulate(ctx, text, mach, initial=None, layer_cue=None, units="SImm", fname="prog.gcode"):
    s = make_setup(ctx, mach, initial, layer_cue)
    g = ctx.write_text(fname, text)
    return ctx.m.gcode_interpreter.simulation(gcode_path=g, initial_machine_setup=s, output_unit_system=units)


def segs(sim):
    return [s for b in sim.blocklist for s in b.get_segments()]


def v4(v):
    return list(v.get_vec(withExtrusion=True))


def speed(v, eonly=False):
    """travel speed (filament speed for extrusion-only moves)"""
    return v.get_norm(withExtrusion=eonly)


def move(ctx, cmd="G1", **kw):
    """one G-code move line; values may be symbolic"""
    return cmd + "".join(f" {k}{ctx.lit(v)}" for k, v in kw.items() if v is not None)


# rational unit directions: exact norms, so that collinear / right-angle / oblique corners stay polynomial
F = Fraction
DIRS = {
    "724": (F(7, 25), F(24, 25), F(0)), "-724": (F(-7, 25), F(24, 25), F(0)), "12-5": (F(119, 169), F(120, 169), F(0)),
    "+x": (F(1), F(0), F(0)), "-x": (F(-1), F(0), F(0)), "+y": (F(0), F(1), F(0)), "-y": (F(0), F(-1), F(0)),
    "+z": (F(0), F(0), F(1)), "-z": (F(0), F(0), F(-1)), "34": (F(3, 5), F(4, 5), F(0)),
    "43": (F(4, 5), F(3, 5), F(0)), "-34": (F(-3, 5), F(4, 5), F(0)), "122": (F(1, 3), F(2, 3), F(2, 3)),
    "-212": (F(-2, 3), F(1, 3), F(2, 3)), "5-12": (F(5, 13), F(-12, 13), F(0)), "247": (F(24, 25), F(7, 25), F(0)),
}
