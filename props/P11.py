from props.plan import *

ASSUMPTIONS = ["the 'rounded norms' case lets every vector norm be off by any relative error up to 1e-14 (an "
               "over-approximation of floating point); only counterexamples that reproduce on the real code count there"]


def step_facts(ctx, r, ss):
    ctx.check("the move is planned", len(ss) >= 1)


def prog_facts(ctx, sim, pts, dirs, **k):
    ctx.check("every move is planned", len(sim.blocklist) == len(dirs))


KINDS = ["move", "prime", "dwell P", "dwell S", "feed", "comment", "zero", "origin", "move dwell"]


def mixed(ctx, fw, n, kinds):
    """any sequence of n lines"""
    lines = ["M83"]
    last = None
    for i in range(n):
        k = ctx.choice(f"k{i}", kinds)
        if k == "move":
            d = ctx.real(f"d{i}", F(1, 1000), 100)
            lines += ["G91", move(ctx, X=d)]
        elif k == "back":
            lines += ["G91", move(ctx, X=-ctx.real(f"d{i}", F(1, 1000), 100))]
        elif k == "prime":
            lines.append(move(ctx, E=ctx.real(f"e{i}", F(1, 1000), 10)))
        elif k == "dwell P":
            lines.append("G4 P" + ctx.lit(ctx.real(f"w{i}", 0, 5000)))
        elif k == "dwell S":
            lines.append("G4 S" + ctx.lit(ctx.real(f"w{i}", 0, 5)))
        elif k == "move dwell":
            d = ctx.real(f"d{i}", F(1, 1000), 100)
            lines += ["G91", move(ctx, X=d) + " G4 P" + ctx.lit(ctx.real(f"w{i}", 0, 500))]
        elif k == "feed":
            lines.append("G0 F" + ctx.lit(ctx.real(f"v{i}", 60, 10000)))
        elif k == "comment":
            lines.append("; text")
        elif k == "zero":
            lines += ["G91", "G1 X0"]
        elif k == "origin":
            lines.append("G92 X" + ctx.lit(ctx.real(f"o{i}", -10, 10)))
        last = k
    sim = run(ctx, fw, lines)
    ctx.check("simulated", sim is not None)
    ctx.check("one state per line and the initial one", len(sim.states) == len(lines) + 1)


def rounded(ctx, fw):
    """planning must also succeed when vector norms are rounded: a move at feed rate continues in the same direction"""
    v = ctx.real("v", 1, 300)
    t = ctx.real("t", F(1, 10), F(9, 10))
    d = ((1 - t * t) / (1 + t * t), 2 * t / (1 + t * t), 0)
    one_block(ctx, d, d, "target", fw, "none",
              conc=dict(acc=1000, v=v, jerk=10, len=0.015625), origin=False)


def any_text(ctx):
    """programs without any motion"""
    body = ctx.choice("body", ["", "\n", "; only a comment\n", "G28\nM104 S200\n", "G90\nG1 F1200\n", "G92 X1 Y2 Z3 E4\n",
                               "G1 X0 Y0 Z0 E0\n"])
    mach = machine(ctx, "marlin_jd")
    sim = simulate(ctx, body, mach)
    ctx.check("no trajectory", len(sim.blocklist) == 0)


def chain(ctx, fw, n):
    """many short moves before a stop: braking has to begin more than n moves earlier (deep corrections)"""
    initial = (-12.5,) + tuple(ctx.real("o" + a, -50, 50) for a in "YZE")
    step = 1 / 64
    lines = ["G91", "M83", "G1 X64 F3000"] + [f"G1 X{step}"] * n
    mach = machine(ctx, fw, p_acc=32, jerk=10)
    sim = simulate(ctx, "\n".join(lines) + "\n", mach, initial=initial)
    ctx.check("every move is planned", len(sim.blocklist) == n + 1)
    last = sim.blocklist[-1].get_segments()[-1]
    ctx.close_vec("the last target is reached", v4(last.pos_end), [initial[0] + 64 + n * step] + list(initial[1:]), 1e-5)
    a = [b.get_segments()[0].vel_begin.get_norm() for b in sim.blocklist[1:]]
    z = [b.get_segments()[-1].vel_end.get_norm() for b in sim.blocklist[:-1]]
    ctx.check("without a jump of speed", all(bool(abs(p - q) < 1e-6) for p, q in zip(a, z)))
    ctx.reach("planned")


def cases(tier):
    q = tier == "quick"
    b = 30 if q else 400
    out = plan_cases(tier, step_facts, prog_facts)
    for fw in FIRMWARES:
        out.append(Case(f"any {2 if q else 3} lines {fw}", mixed, dict(fw=fw, n=2 if q else 3, kinds=KINDS), budget=b,
                        bounds="every sequence of the listed line kinds with any numbers in the stated ranges: "
                               + ", ".join(KINDS)))
    out.append(Case("dwells and moves marlin_jd", mixed, dict(fw="marlin_jd", n=3 if q else 5, kinds=["move", "dwell P"]), budget=b))
    out.append(Case("reversals marlin_jerk", mixed, dict(fw="marlin_jerk", n=3, kinds=["move", "back"]), budget=b))
    for fw in ["marlin_jerk", "MKA"] if q else ["marlin_jerk", "MKA", "marlin_jd", "klipper"]:
        out.append(Case(f"long chain of short moves {fw}", chain, dict(fw=fw, n=1200 if q else 2500), budget=4 * b, must_reach=["planned"], float_roots=True, witness=1,
                        bounds="one long and 1200 (thorough 2500) moves of 1/64 mm in one line at 50 mm/s and 32 mm/s2, from any Y, Z, E"))
    out.append(Case("no motion", any_text, budget=10, bounds="seven texts without motion"))
    for fw in ["marlin_jd", "marlin_jerk", "MKA"]:
        out.append(Case(f"rounded norms {fw}", rounded, dict(fw=fw), budget=25 if q else 200,
                        norm_eps=F(1, 10 ** 14), jitter=3000, soft=True,
                        bounds="collinear moves in any direction of a quadrant's interior and at any feed rate in [1,300], every vector norm off by up to 1e-14 relative"))
    return out
