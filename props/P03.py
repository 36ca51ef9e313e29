from props.refmachine import *

KINDS = MOVES + MODES


def run_history(ctx, kinds, **k):
    sts, want = history(ctx, kinds, **k)
    check_positions(ctx, sts, want)


def same_g0_g1(ctx, letters):
    """G0 and G1 lines with the same words have the same effect"""
    kw = {c: ctx.real("w" + c, 6 if c == "F" else -1000, 30000 if c == "F" else 1000) for c in letters}
    d = machine(ctx, "marlin_jd")
    d.update(dict(zip(AX, [0, 0, 0, 0])), printer_name="printer")
    pre = ctx.choice("pre", ["", "G91\n", "M83\n", "G20\n"])
    got = []
    for cmd in ("G0", "G1", "G00", "G01"):
        p = ctx.write_text(cmd + ".gcode", pre + move(ctx, cmd, **kw) + "\n")
        s = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)[-1]
        got.append(v4(s.state_position) + [s.state_p_settings.speed])
    for g in got[1:]:
        ctx.close_vec("G0 and G1 behave alike", g, got[0], 1e-9)
    ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    out = split_first("history", run_history, KINDS, 4 if q else 5, budget=60 if q else 900)
    out += [Case(f"G0/G1 {l}", same_g0_g1, dict(letters=l), budget=20, bounds="any values", must_reach=["done"])
            for l in ("XYZEF", "E", "ZF")]
    out.append(Case("through a simulation", run_history, dict(kinds=[["M83", "G91"], ["G1 E", "G0 Z"], ["G92 ZE"], ["G0 Z"]], via="sim", init="zero"),
                    budget=40 if q else 200, bounds="four lines, through the simulation constructor"))
    out += split_first("any commands", run_history, ALLKINDS, 3, budget=60 if q else 900, rest=ALLKINDS)
    out += long_cases(run_history, ALLKINDS, q)
    if not q:
        out.append(Case("longer histories", run_history, dict(kinds=[["G91", "M83", "G90"], ["G1 XE"], ["G90", "M82", "G91"], ["G1 XE", "G1 E"], MODES, ["G0 XYZEF"]]),
                        budget=900, bounds="six lines, alternating modes and moves"))
    return out
