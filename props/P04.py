from props.refmachine import *

KINDS = ["G1 XYF", "G1 XE", "G0 XYZEF", "G91M83", "G90", "M82", "G1 XE G92 E", "G1 Y G92 XY"] + ZEROS


def run_history(ctx, kinds, **k):
    sts, want = history(ctx, kinds, **k)
    check_positions(ctx, sts, want, "target position measured from the declared origin")


def still(ctx, kinds):
    """the line that declares an origin leaves the physical position where it was"""
    ini = [ctx.real(f"i{a}", -500, 500) for a in AX]
    ref = Ref(ini)
    lines = [line(ctx, ref, ctx.choice(f"k{i}", ks), i) for i, ks in enumerate(kinds)]
    d = machine(ctx, "marlin_jd")
    d.update(dict(zip(AX, ini)), printer_name="printer")
    p = ctx.write_text("prog.gcode", "\n".join(lines) + "\n")
    sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
    for i, t in enumerate(lines):
        if t.startswith("G92"):
            ctx.close_vec("declaring an origin does not move the machine", v4(sts[i + 1].state_position),
                          v4(sts[i].state_position), 1e-6)
            ctx.reach("done")


def trajectory(ctx, kinds):
    """the trajectory ignores re-zeroing: no block for it, and moves end at the physical targets"""
    ini = [ctx.real(f"i{a}", -500, 500) for a in AX]
    d1, d2 = ctx.real("d1", 1, 100), ctx.real("d2", 1, 100)
    z = ctx.real("z", -100, 100)
    text = "\n".join(["G1 X" + ctx.lit(ini[0] + d1), "G92 X" + ctx.lit(z), "G1 X" + ctx.lit(z + d2)]) + "\n"
    sim = simulate(ctx, text, machine(ctx, None), initial=tuple(ini))
    ctx.check("two moves", len(sim.blocklist) == 2)
    ctx.close_vec("end of the first move", v4(segs_end(sim, 0)), [ini[0] + d1] + ini[1:], 1e-6)
    ctx.close_vec("end of the second move", v4(segs_end(sim, 1)), [ini[0] + d1 + d2] + ini[1:], 1e-6)
    ctx.reach("done")


def segs_end(sim, i):
    return sim.blocklist[i].get_segments()[-1].pos_end


def cases(tier):
    q = tier == "quick"
    out = split_first("history", run_history, KINDS, 4 if q else 5, budget=60 if q else 900)
    out += split_first("with inches", run_history, ["G20", "G92 XY", "G92 ZE"], 3, budget=60,
                       rest=["G20", "G21", "G92 XY", "G92 XYZE", "G0 XYZEF", "G91M83"])
    out += long_cases(run_history, KINDS + MODES + UNITS + ["G90 G1 XY", "G91 G1 XE"] * 2, q)
    out.append(Case("re-zeroing twice", run_history, dict(kinds=[ZEROS[:4], ["G1 XE", "G1 XYF"], ZEROS[:4], ["G0 XYZEF"]]),
                    budget=60 if q else 300, bounds="four lines", must_reach=["done"]))
    out.append(Case("machine stands still", still, dict(kinds=[["G0 XYZEF", "G92 XY"], ["G91M83", "G90", "G20"], ZEROS[:4], ZEROS[:4]]),
                    budget=60 if q else 300, bounds="four lines", must_reach=["done"]))
    out.append(Case("trajectory", trajectory, dict(kinds=[]), budget=40, bounds="move, G92, move", must_reach=["done"]))
    return out
