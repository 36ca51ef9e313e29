from props.refmachine import *

KINDS = ["G1 XYF", "G1 F", "M204 P", "M205 X", "M203 XYZE", "G4 P", "G4 S", "cue", "comment"]
MORE = ["M204 R", "M205 J", "M203 Z", "empty", "cue tight", "no cue", "G1 X comment", "G1 X cue", "G4 P M204 P", "G1 X G4 P",
        "G20", "G92 XY", "G91"]


def run_history(ctx, kinds, cue=True, **k):
    sts, want = history(ctx, kinds, cue=cue, init="zero", **k)
    ctx.check("one state per line and the initial one", len(sts) == len(want))
    for i, (s, w) in enumerate(zip(sts, want)):
        p = s.state_p_settings
        ctx.eq("feed rate in force", p.speed, w["speed"], 1e-7, 1e-9)
        ctx.eq("acceleration in force", p.p_acc, w["acc"], 1e-7)
        ctx.eq("jerk in force", p.jerk, w["jerk"], 1e-7)
        ctx.close_vec("axis limits in force", [p.vX, p.vY, p.vZ, p.vE], w["lim"], 1e-7)
        if i:
            ctx.check("line number", s.line_number == i)
            ctx.check("unit in force", p.units == w["units"])
            ctx.check("comment of the line", s.comment == w["comment"])
            ctx.check("layer of the line", s.layer == w["layer"])
            if w["pause"] is None:
                ctx.check("no dwell on other lines", s.pause is None)
            else:
                ctx.check("dwell on its line", s.pause is not None)
                if s.pause is not None:
                    ctx.eq("dwell duration", s.pause, w["pause"], 1e-7, 1e-9)
            ctx.check("linked to the previous line", s.prev_state is sts[i - 1])
        ctx.check("linked to the next line", (s.next_state is sts[i + 1]) if i + 1 < len(sts) else s.next_state is None)
    ctx.check("nothing before the initial state", sts[0].prev_state is None)
    ctx.observe("speed", sts[-1].state_p_settings.speed)
    ctx.reach("done")


def cue_text(ctx, n, before):
    """the layer counter moves exactly on comments equal to the cue"""
    from props.lines import Builder

    b = Builder(ctx, cue=True)
    c = [ctx.char(f"c{i}", d) for i, d in enumerate(["Ll ", "A_", "_ ", "CEe "])]
    lead, tail = ctx.choice("lead", ["", " "]), ctx.choice("tail", ["", " ", " x"])
    texts = []
    for i in range(n):
        texts.append(ctx.cat(lead, c[0], c[1], "YER", c[2], "CHANG", "E", tail) if i != 1 else ctx.cat("LAYER_CHANG", c[3]))
        b.end("G1 X1 " if before else "", ";", texts[-1])
    d = dict(machine(ctx, "marlin_jd"), X=0, Y=0, Z=0, E=0, printer_name="printer", layer_cue=CUE)
    p = ctx.write_lines("prog.gcode", b.lines)
    sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
    ctx.check("one state per line and the initial one", len(sts) == n + 1)
    k = 0
    for s, t in zip(sts[1:], texts):
        t = t.strip()
        ctx.check("comment of the line", s.comment == t)
        if t == CUE:
            k += 1
        ctx.check("layer of the line", s.layer == k)
    ctx.reach("done")


def any_comment(ctx, n, before):
    """the comment is everything behind the first semicolon, without surrounding blanks"""
    t = ctx.word("c", n, "a;G1 X_")
    d = dict(machine(ctx, "marlin_jd"), X=0, Y=0, Z=0, E=0, printer_name="printer")
    p = ctx.write_lines("prog.gcode", [ctx.cat("G1 X1 " if before else "", ";", t, "\n"), "G1 X2\n"])
    sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
    ctx.check("one state per line and the initial one", len(sts) == 3)
    ctx.check("comment of the line", sts[1].comment == t.strip())
    ctx.check("no comment on other lines", sts[2].comment is None)
    ctx.check("no layer without a cue", sts[1].layer is None)
    ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    out = split_first("history", run_history, KINDS, 4 if q else 5, budget=60 if q else 900, sym_machine=True)
    out += split_first("history", run_history, MORE, 2, rest=KINDS + MORE, budget=60)
    out += split_first("without a layer cue", run_history, ["cue", "G1 F"], 2, rest=KINDS + MORE, budget=60, cue=False)
    out += long_cases(run_history, ALLKINDS, q)
    out += long_cases(run_history, ALLKINDS, q, sizes=(40,), cue=False)
    out.append(Case("through a simulation", run_history, dict(kinds=[["M204 P", "cue"], ["G1 X cue", "G1 XYF"], ["G4 P", "G1 F"]], via="sim"),
                    budget=60, bounds="three lines through the simulation constructor", must_reach=["done"]))
    out.append(Case("with moves, through a simulation", run_history, dict(kinds=[["G1 X cue"], ["comment", "empty", "G4 P"], ["cue", "G91"], ["G1 X comment"], ["G4 P"]], via="sim"),
                    budget=60 if q else 300, bounds="five lines through the simulation constructor", must_reach=["done"]))
    for b in (True, False):
        for n in (range(0, 5) if q else range(0, 7)):
            out.append(Case(f"{n} comment characters {'behind a move' if b else 'alone'}", any_comment, dict(n=n, before=b), budget=60, strings=True,
                            bounds=f"any {n} characters of 'a;G1 X_'", must_reach=["done"]))
    for b in (True, False):
        out.append(Case(f"cue characters {'behind a move' if b else 'alone'}", cue_text, dict(n=2, before=b), budget=60, strings=True,
                        bounds="two comments close to the cue", must_reach=["done"]))
    seen = {}
    for c in out:
        seen[c.name] = seen.get(c.name, 0) + 1
        if seen[c.name] > 1:
            c.name += f" #{seen[c.name]}"
    return out
