from props.plan import *


def flat(s):
    return [s.t_begin, s.t_end] + v4(s.pos_begin) + v4(s.pos_end) + v4(s.vel_begin) + v4(s.vel_end)


def record(sim):
    return [[flat(s) for s in b.get_segments()] for b in sim.blocklist]


def same(ctx, label, got, want, tol=1e-9):
    ctx.check(label + " (blocks)", len(got) == len(want))
    for a, b in zip(got, want):
        ctx.check(label + " (segments)", len(a) == len(b))
        for x, y in zip(a, b):
            ctx.close_vec(label, x, y, tol)


def states_of(sim):
    for i, s in enumerate(sim.states):
        if s.prev_state is not (sim.states[i - 1] if i else None) or s.next_state is not (sim.states[i + 1] if i + 1 < len(sim.states) else None):
            return []
    return [v4(s.state_position) + [s.pause if s.pause is not None else -1, s.state_p_settings.speed] for s in sim.states]


def build(ctx, fw, dirs, lens, feeds, extra=None, extr=None, tail=()):
    if extra:
        extra = {i: [x.replace("{p}", ctx.lit(ctx.real(f"pause{i}{n}", F(1, 10), 3000))) if "{p}" in x else x for n, x in enumerate(v)]
                 for i, v in extra.items()}
    lines, pts, vs = program(ctx, fw, dirs, lens=lens, feeds=feeds, extr=extr, extra=extra)
    return lines + list(tail)


def queries(ctx, sim, which, t):
    out = []
    for w in which:
        if w == "values":
            v, p = sim.get_values(t)
            out.append(list(v) + list(p))
        elif w == "values inch":
            v, p = sim.get_values(t, output_unit_system="inch")
            out.append(list(v) + list(p))
        elif w == "end":
            v, p = sim.get_values(segs(sim)[-1].t_end)
            out.append(list(v) + list(p))
        elif w == "width":
            out.append([sim.get_width(t, 0.25, 1.75)])
        elif w == "extent":
            x = sim.extrusion_extent()
            out.append([x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2]])
        elif w == "max vel":
            out.append([sim.extrusion_max_vel()])
        elif w == "summary":
            sim.save_summary(ctx.path("summary.yaml"))
        elif w == "events":
            for r in ctx.m.abaqus_file_generator.generate_abaqus_event_series(sim, filepath=ctx.path("events.inp")):
                out.append(list(r))
        elif w == "layers":
            for r in zip(*ctx.m.tools.save_layer_metrics(sim, filepath=None, locale="C")):
                out.append([x for x in r if not isinstance(x, str)])
        elif w == "submodel":
            r = ctx.m.tools.write_submodel_times(sim, [5.0, 5.0, 0.0], 4.0, 200.0, 50.0, filename=None)
            out.append([r["time_process"]] + list(r["time_in"]) + [-1.0] + list(r["time_out"]))
    return out


def answers(ctx, label, ss, t, a, b):
    """on the border of two segments either velocity is right (P12), so only the position is compared there"""
    ctx.check("as many answers", len(a) == len(b))
    if len(a) == 8 or len(a) == 1:
        if any(bool(t == s.t_end) for s in ss):
            a, b = a[4:], b[4:]
    ctx.close_vec(label, a, b, 1e-9)


def refresh(ctx, fw, which, times=1, given=False, **k):
    """refresh with unchanged states, with queries before"""
    mach = machine(ctx, fw, p_acc=1000)
    sim = simulate(ctx, "\n".join(build(ctx, fw, **k)) + "\n", mach)
    first, st = record(sim), states_of(sim)
    end = segs(sim)[-1].t_end
    t = ctx.real("t", 0, 100)
    ctx.assume(t <= end)
    q1 = queries(ctx, sim, which, t)
    same(ctx, "queries leave the trajectory as it is", record(sim), first)
    for _ in range(times):
        if given:
            sim.refresh(new_state_list=sim.states)
        else:
            sim.refresh()
    same(ctx, "refreshing reproduces the trajectory", record(sim), first)
    ctx.check("states stay linked to their neighbours", len(st) == len(sim.states) == len(states_of(sim)))
    for a, b in zip(states_of(sim), st):
        ctx.close_vec("states stay as they were", a, b, 1e-9)
    q2 = queries(ctx, sim, which, t)
    for a, b in zip(q1, q2):
        answers(ctx, "the same answers after a refresh", segs(sim), t, a, b)
    ctx.reach("done")


def exchange(ctx, fw, first, second, ask, which=(), cue=None):
    """refresh with the states of another program equals simulating that program"""
    mach = machine(ctx, fw, p_acc=1000)
    a = simulate(ctx, "\n".join(build(ctx, fw, **first)) + "\n", mach, layer_cue=cue, fname="a.gcode")
    x = ctx.real("xb", 1, 3)
    k = dict(second, lens=[x if l is None else l for l in second["lens"]])
    b = simulate(ctx, "\n".join(build(ctx, fw, **k)) + "\n", mach, layer_cue=cue, fname="b.gcode")
    want = record(b)
    end = segs(b)[-1].t_end
    t = ctx.real("t", 0, 100)
    ctx.assume(t <= end)
    if ask:
        a.get_values(segs(a)[-1].t_end)
        queries(ctx, a, which, 0.001)
    which = ["values"] + list(which)
    qb = queries(ctx, b, which, t)
    a.refresh(new_state_list=b.states)
    same(ctx, "refreshing with other states equals simulating them", record(a), want)
    qa = queries(ctx, a, which, t)
    ctx.check("as many answers", len(qa) == len(qb))
    for x, y in zip(qa, qb):
        answers(ctx, "and gives the same answers", segs(a), t, x, y)
    ctx.check("states exchanged", len(a.states) == len(b.states))
    ctx.reach("done")


def edited(ctx, fw, what):
    """settings and targets of the states changed in place, then refreshed: as if the program had been like that"""
    mach = machine(ctx, fw, p_acc=1000)
    x, n = ctx.real("x", 30, 60), ctx.real("n", 5, 40)
    old = dict(a=50.0, f=3000, g=3000, p=800.0, j=8.0, w=100.0)
    new = dict(old)
    if what == "target":
        new["a"] = x
    elif what == "feed rate":
        new["f"] = new["g"] = n * 60
    elif what == "feed rate of one move":
        new["g"] = n * 60
    elif what == "acceleration":
        new["p"] = n * 20
    elif what == "jerk":
        new["j"] = n
    elif what == "dwell":
        new["w"] = n * 10

    between = ctx.choice("comment between the moves", [True, False])

    def text(k):
        return ("M204 P%s M205 X%s\nG1 X%s E1 F%s\n" + "%sG1 Y40 E2 F%%s\n%s" % ((";\n", "") if between else ("", ";\n")) + "G4 P%s\nG1 X0 Y0 E3\n") % tuple(ctx.lit(k[c]) for c in "pjafgw")

    a = simulate(ctx, text(old), mach, fname="a.gcode")
    if ctx.choice("asked", [True, False]):
        a.get_values(segs(a)[-1].t_end)
        queries(ctx, a, ["values", "extent", "max vel", "events"], 0.001)
    b = simulate(ctx, text(new), mach, fname="b.gcode")
    m = ctx.m.utils
    for s in a.states:
        if s.line_number is None:
            continue
        if what == "target" and s.line_number in (2, 3, 4, 5):
            q = v4(s.state_position)
            s.state_position = m.position(x, *q[1:])
        elif what == "feed rate" and s.line_number >= 2:
            s.state_p_settings.speed = new["f"] / 60
        elif what == "feed rate of one move" and s.line_number >= (4 if between else 3):
            s.state_p_settings.speed = new["g"] / 60
        elif what == "acceleration":
            s.state_p_settings.p_acc = new["p"]
        elif what == "jerk":
            s.state_p_settings.jerk = new["j"]
        elif what == "dwell" and s.pause is not None:
            s.pause = new["w"] / 1000
    a.refresh()
    same(ctx, "the trajectory of the edited states", record(a), record(b), 1e-6)
    for which in ("extent", "max vel", "events"):
        for u, w in zip(queries(ctx, a, [which], 0.001), queries(ctx, b, [which], 0.001)):
            ctx.close_vec(which + " of the edited states", u, w, 1e-6)
    ctx.reach("done")


def twice(ctx, fw, **k):
    """two simulations from one setup do not influence each other"""
    mach = machine(ctx, fw, p_acc=1000)
    s = make_setup(ctx, mach, (0, 0, 0, 0))
    g = ctx.write_text("p.gcode", "\n".join(build(ctx, fw, **k)) + "\n")
    h = ctx.write_text("q.gcode", "G91\nM83\nG20\nM204 P300\nM205 X3\nG1 X1 F100\nG92 X5\nG1 Y1\n")
    m = ctx.m.gcode_interpreter
    a = m.simulation(gcode_path=g, initial_machine_setup=s)
    first = record(a)
    c = m.simulation(gcode_path=h, initial_machine_setup=s)
    s.set_property({"p_vel": 77.0, "p_acc": 55.0})
    s.set_initial_position((1.0, 2.0, 3.0, 4.0))
    same(ctx, "another simulation leaves the first one as it is", record(a), first)
    s.set_property({"p_vel": mach["p_vel"], "p_acc": mach["p_acc"]})
    s.set_initial_position((0, 0, 0, 0))
    b = m.simulation(gcode_path=g, initial_machine_setup=s)
    same(ctx, "the same program gives the same trajectory", record(b), first)
    c.refresh()
    a.refresh()
    same(ctx, "refreshing reproduces the trajectory", record(a), first)
    ctx.reach("done")


def rewritten(ctx, fw, first, second, presets=False):
    """a file that is written anew is simulated anew"""
    mach = machine(ctx, fw, p_acc=1000)
    if presets:
        make_setup(ctx, machine(ctx, fw, p_acc=500, jerk=3, p_vel=5.0))
    for i in range(2):
        a = simulate(ctx, "\n".join(build(ctx, fw, **first)) + "\n", mach, fname="a.gcode")
    lines = "\n".join(build(ctx, fw, **second)) + "\n"
    b = simulate(ctx, lines, mach, fname="b.gcode")
    c = simulate(ctx, lines, mach, fname="a.gcode")
    same(ctx, "the file as it is now", record(c), record(b))
    for x, y in zip(states_of(c), states_of(b)):
        ctx.close_vec("its states", x, y, 1e-9)
    ctx.check("its lines", [s.line_number for s in c.states] == [s.line_number for s in b.states])
    s = c.initial_machine_setup
    ctx.check("the presets as they are now", s["p_acc"] == 1000 and s["jerk"] == mach["jerk"] and s["p_vel"] == mach["p_vel"])
    ctx.reach("done")


def append(ctx, fw, head, stop, tail):
    """moves appended after a full stop leave everything before as it was"""
    mach = machine(ctx, fw, p_acc=1000)
    lines = build(ctx, fw, **head) + [stop]
    more = []
    for i, (letter, val) in enumerate(tail):
        v = ctx.real(f"q{i}", *val) if isinstance(val, tuple) else val
        more.append(letter + ctx.lit(v) + f" F{(i + 1) * 1200}" if letter.startswith("G") else letter)
    a = simulate(ctx, "\n".join(lines) + "\n", mach, fname="a.gcode")
    b = simulate(ctx, "\n".join(lines + more) + "\n", mach, fname="b.gcode")
    ra, rb = [x for blk in record(a) for x in blk], [x for blk in record(b) for x in blk]
    ctx.check("nothing lost", len(rb) >= len(ra))
    for x, y in zip(ra, rb):
        ctx.close_vec("everything before the stop is unchanged", y, x, 1e-9)
    ctx.check("states before are unchanged", len(b.states) == len(a.states) + len(more))
    ctx.reach("done")


P3 = dict(dirs=["+x", "724", "E"], lens=[20.0, 25.0, None], feeds=[50, 80, 10], extr=[1.0, 2.0, 0])
P2 = dict(dirs=["+x", "+y"], lens=[None, 10.0], feeds=[50, 20], extr=[0.5, 0])
PD = dict(dirs=["34", "E", "-34"], lens=[10.0, 1.0, None], feeds=[40, 10, 60], extr=[1.0, 0, 0.5], extra={1: ["G4 P300"]})
PS = dict(dirs=["34", "-34"], lens=[10.0, 8.0], feeds=[40, 60], extr=[1.0, 0.5], extra={0: ["G4 P{p}"], 1: ["G4 P{p}", "M117 hi", "G4 S{p}"]})
P1 = dict(dirs=["122"], lens=[None], feeds=[30], extr=[1.0])


def cases(tier):
    q = tier == "quick"
    b = 40 if q else 400
    out = []
    B = "one symbolic length, any query time; other numbers fixed"

    def add(title, fn, reach=("done",), **p):
        out.append(Case(title, fn, p, budget=b, bounds=B, must_reach=list(reach), witness=2))

    Q = ["values", "end", "extent", "width", "max vel", "values inch", "summary"]
    F2, FD = (P2, PD) if not q else (dict(P2, lens=[20.0, 10.0]), dict(PD, lens=[10.0, 1.0, 8.0]))
    fws = ["marlin_jd", "klipper", "marlin_jerk", "MKA", None]
    for i, fw in enumerate(fws):
        add(f"refresh {fw} corner", refresh, fw=fw, which=Q[: 3 + i], **[F2, P3, FD, P2, P3][i])
        add(f"refresh {fw} dwell", refresh, fw=fw, which=["values", "end"], times=2, **[PD, F2, P3, PD, P1][i])
        add(f"refresh {fw} any pauses", refresh, fw=fw, which=["values", "end"], **PS)
        add(f"exchange {fw} any pauses", exchange, fw=fw, first=dict(P1, lens=[9.0]), second=PS, ask=True)
    M24 = dict(dirs=MANY, lens=[20.0 + i for i in range(24)], feeds=MANY_F)
    M14 = dict(dirs=MANY[:14], lens=[20.0 + i for i in range(14)], feeds=MANY_F[:14], extr=[0.5 if d not in "ER" else 0 for d in MANY[:14]])
    M8 = dict(dirs=MANY[:8], lens=[20.0 + i for i in range(8)], feeds=MANY_F[:8], extra={4: ["G4 P{p}"], 6: ["G4 S1"]})
    for fw in ("marlin_jerk", None):
        add(f"refresh {fw} 14 moves", refresh, fw=fw, which=["end", "extent", "max vel"], times=2, **M14, extra={4: ["G4 P{p}"], 9: ["G4 S1"]})
        add(f"refresh {fw} 8 moves", refresh, fw=fw, which=["values"], times=3, **M8)
        add(f"exchange {fw} 8 moves for one", exchange, fw=fw, first=dict(P1, lens=[30.0]), second=M8, ask=True)
        add(f"append to 24 moves {fw}", append, fw=fw, head=M24, stop="G4 P500", tail=[("G1 X", (-50, -5)), ("G1 Y", 30.0), ("G4 P10", 0), ("G1 E", 9.0)])
    add("refresh with the own state list", refresh, fw="marlin_jd", which=["values"], given=True, **PD)
    add("all queries", refresh, fw="klipper", which=Q, **P1)
    for fw in fws:
        add(f"exchange {fw} short for long", exchange, fw=fw, first=dict(P3, lens=[20.0, 25.0, 2.0]), second=P1, ask=True)
        add(f"exchange {fw} long for short", exchange, fw=fw, first=dict(P1, lens=[9.0]), second=PD, ask=True)
        add(f"two simulations {fw}", twice, fw=fw, **P2)
        for w in ("target", "feed rate", "feed rate of one move", "acceleration", "jerk", "dwell"):
            if fw in ("marlin_jd", "klipper") and w in ("target", "feed rate", "feed rate of one move"):
                continue
            add(f"{w} edited {fw}", edited, fw=fw, what=w)
    ALL = ["extent", "max vel", "width", "values inch", "end", "events", "submodel", "layers"]
    CUES = {1: [";L"], 2: [";L"]}
    for fw, d in zip(fws, (["+y", "+x"], ["-x", "-y"], ["34", "+x"], ["-34", "+y"], ["+x", "724"])):
        X2 = dict(dirs=["+x", "+y"], lens=[20.0, 10.0], feeds=[50, 20], extr=[0.5, 0.25], extra=CUES)
        Y2 = dict(dirs=d, lens=[15.0, 20.0], feeds=[50, 20], extr=[0.5, 0.25], extra=CUES)
        add(f"exchange {fw} for as many moves", exchange, fw=fw, first=X2, second=Y2, ask=True, which=ALL, cue="L")
        add(f"exchange {fw} for as many lines", exchange, fw=fw, first=X2, second=dict(X2, feeds=[50, 30], lens=[None if fw in ("marlin_jerk", "MKA", None) else 18.0, 12.0]), ask=True, which=ALL, cue="L")
        add(f"file written anew {fw}", rewritten, fw=fw, first=X2, second=Y2, presets=fw in ("klipper", None))
        add(f"file written anew, any length {fw}", rewritten, fw=fw, first=dict(P1, lens=[9.0]), second=dict(P2, extra={1: ["G4 P{p}"]}), presets=True)
    add("exchange without query", exchange, fw="marlin_jd", first=dict(P3, lens=[20.0, 25.0, 2.0]), second=P2 if not q else P1, ask=False)
    for fw in fws:
        for stop in ("G4 P500", "G4 S1"):
            if q and stop == "G4 S1" and fw not in ("marlin_jerk", "klipper"):
                continue
            add(f"append a move after {stop} {fw}", append, fw=fw, head=P2, stop=stop, tail=[("G1 X", (-50, -5))])
        add(f"append several {fw}", append, fw=fw, head=dict(P1, lens=[12.0]), stop="G4 P250", tail=[("G1 X", (-50, -5)), ("G1 Y", 30.0), ("G4 P10", 0), ("G1 E", 9.0)])
    return out
