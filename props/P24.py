import os

from symx import loader

from props.common import *

REQ = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "firmware"]
OPT = ["nozzle_diam", "filament_diam", "layer_cue"]
VALID = REQ + OPT + ["X", "Y", "Z", "E", "printer_name"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-1 "


def value(ctx, k, i=""):
    if k == "firmware":
        return "marlin_jd"
    if k == "layer_cue":
        return "LAYER_CHANGE"
    return ctx.real(k + i, F(1, 10), 1000)


def start(ctx, d, via="preset"):
    """simulation of a small program with the given preset; -> (simulation or None, error)"""
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    m = ctx.m.gcode_interpreter
    base = {k: v for k, v in d.items() if via != "property" or k not in ("jerk", "nozzle_diam")}
    y = ctx.write_yaml("presets.yaml", {"printer": base, "other": {k: 1.0 for k in REQ}})
    box = []

    def go():
        s = m.setup(presets_file=y)
        s.select_printer("printer")
        if via == "property":
            s.set_property({k: v for k, v in d.items() if k in ("jerk", "nozzle_diam")})
        box.append(m.simulation(gcode_path=g, initial_machine_setup=s))

    err = ctx.raises(go)
    return (box[0] if box else None), err


def subsets(ctx, opts, via):
    """every subset of the required parameters"""
    d = {}
    full = True
    for k in REQ:
        if ctx.bool("has " + k):
            d[k] = value(ctx, k)
        else:
            full = False
    for k in opts:
        d[k] = value(ctx, k)
    sim, err = start(ctx, d, via)
    verdict(ctx, d, full, sim, err)


def optional(ctx):
    d = {k: value(ctx, k) for k in REQ}
    for k in OPT:
        if ctx.bool("has " + k):
            d[k] = value(ctx, k)
    sim, err = start(ctx, d)
    verdict(ctx, d, True, sim, err)


def verdict(ctx, d, full, sim, err):
    if full:
        ctx.check("complete setup is accepted", err is None, repr(err))
        got = sim.initial_machine_setup
        for k, v in d.items():
            if isinstance(v, str):
                ctx.check("accepted unchanged", got.get(k) == v)
            else:
                ctx.eq("accepted unchanged", got.get(k), v, 1e-12)
        for k in got:
            ctx.check("nothing added", k in d or k in ("X", "Y", "Z", "E", "printer_name"))
        ctx.reach("accepted")
    else:
        ctx.check("setup lacking a required parameter is refused", err is not None)
        ctx.reach("refused")


def unknown(ctx, known, at):
    """one further parameter with any name: known names with one symbolic letter, or all letters symbolic"""
    name = known
    d = {k: value(ctx, k) for k in REQ + OPT[:2]}
    if name is None:
        n = at
        w = ctx.word("w", n, LETTERS if n < 3 else "vpelcacjrkXE_YZ")
    else:
        kind = ctx.choice("edit", ["replace", "insert", "delete"])
        if kind == "replace":
            w = ctx.cat(name[:at], ctx.char("c", LETTERS), name[at + 1:])
        elif kind == "insert":
            w = ctx.cat(name[:at], ctx.char("c", LETTERS), name[at:])
        else:
            w = name[:at] + name[at + 1:]
    for k in VALID:
        ctx.assume(w != k)
    d[ctx.opaque(w)] = ctx.real("u", -10, 10)
    first = ctx.bool("unknown one first")
    if first:
        d = dict(reversed(list(d.items())))
    sim, err = start(ctx, d)
    ctx.check("setup with an unknown parameter is refused", err is not None)
    ctx.reach("refused")


def unknown_like(ctx, like, at):
    """names a user might try, one letter symbolic"""
    w = ctx.cat(like[:at], ctx.char("c", LETTERS), like[at + 1:])
    for k in VALID:
        ctx.assume(w != k)
    how = ctx.choice("how", ["presets", "property"])
    m = ctx.m.gcode_interpreter
    d = {k: value(ctx, k) for k in REQ}
    u = ctx.choice("u", ["number", "text"])
    u = ctx.real("u", -10, 10) if u == "number" else "inch"
    if how == "presets":
        d[ctx.opaque(w)] = u
    y = ctx.write_yaml("presets.yaml", {"printer": d})
    g = ctx.write_lines("p.gcode", ["G1 X10 F600\n"])
    s = m.setup(presets_file=y, printer="printer")

    def go():
        if how == "property":
            s.set_property({ctx.opaque(w): u})
        m.simulation(gcode_path=g, initial_machine_setup=s)

    ctx.check("setup with an unknown parameter is refused", ctx.raises(go) is not None)
    ctx.reach("refused")


def unknown_property(ctx, how):
    """unknown names arriving through set_property or the initial position"""
    m = ctx.m.gcode_interpreter
    y = ctx.write_yaml("presets.yaml", {"printer": {k: value(ctx, k) for k in REQ}})
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    w = ctx.word("w", ctx.choice("n", [1, 2, 3]), "vpelcajXE_YZF")
    for k in VALID:
        ctx.assume(w != k)
    s = m.setup(presets_file=y, printer="printer")

    def go():
        if how == "property":
            s.set_property({ctx.opaque(w): ctx.real("u", -10, 10)})
        else:
            s.set_initial_position({"X": 1, "Y": 2, "Z": 3, "E": 4, ctx.opaque(w): 5})
        m.simulation(gcode_path=g, initial_machine_setup=s)

    ctx.check("setup with an unknown parameter is refused", ctx.raises(go) is not None)
    ctx.reach("refused")


def printers(ctx, how):
    """only a printer of the presets can be selected"""
    m = ctx.m.gcode_interpreter
    names = ["ab", "a_c", "X"]
    presets = {n: {k: value(ctx, k, n) for k in REQ} for n in names}
    first = dict(presets["ab"])
    y = ctx.write_yaml("presets.yaml", presets)
    n = ctx.choice("n", [0, 1, 2, 3, 4])
    w = ctx.word("w", n, "abc_XY")
    known = False
    for k in names:
        if w == k:
            known = True
    w = ctx.opaque(w)
    if how == "constructor":
        err = ctx.raises(lambda: m.setup(presets_file=y, printer=w))
    elif how == "select":
        s = m.setup(presets_file=y)
        err = ctx.raises(lambda: s.select_printer(w))
    else:
        s = m.setup(presets_file=y, printer="ab")
        err = ctx.raises(lambda: s.select_printer(w))
        d = s.get_dict()
        if not known:
            ctx.check("selection unchanged by a refused one", d["printer_name"] == "ab")
            ctx.eq("selection unchanged by a refused one", d["p_vel"], first["p_vel"], 1e-9)
    if known:
        ctx.check("printer of the presets is accepted", err is None, repr(err))
        ctx.reach("accepted")
    else:
        ctx.check("printer outside the presets is refused", err is not None)
        ctx.reach("refused")


def names(ctx, give_name, give_setup):
    """printer name and setup given to a simulation have to agree; at least one is needed"""
    m = ctx.m.gcode_interpreter
    y = ctx.write_yaml("presets.yaml", {n: {k: value(ctx, k, n) for k in REQ} for n in ("ab", "cd")})
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    kw, same = {}, True
    if give_setup:
        sel = ctx.choice("selected", ["ab", "cd"])
        kw["initial_machine_setup"] = m.setup(presets_file=y, printer=sel)
    if give_name:
        n = ctx.choice("n", [1, 2, 3])
        w = ctx.word("w", n, "abcd ")
        same = bool(w == sel) if give_setup else False
        kw["machine_name"] = ctx.opaque(w)
    err = ctx.raises(lambda: m.simulation(gcode_path=g, **kw))
    if give_setup and same:
        ctx.check("matching names are accepted", err is None, repr(err))
        ctx.reach("accepted")
    else:
        ctx.check("missing setup, unknown or conflicting printer name is refused", err is not None)
        ctx.reach("refused")


def no_printer(ctx, how):
    m = ctx.m.gcode_interpreter
    y = ctx.write_yaml("presets.yaml", {"ab": {k: value(ctx, k) for k in REQ}})
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    s = m.setup(presets_file=y)
    if how == "property":
        err = ctx.raises(lambda: s.set_property({"p_vel": ctx.real("v", 1, 10)}))
    else:
        err = ctx.raises(lambda: m.simulation(gcode_path=g, initial_machine_setup=s))
    ctx.check("nothing works without a selected printer", err is not None)
    ctx.reach("refused")


def positions(ctx):
    """initial positions are complete"""
    m = ctx.m.gcode_interpreter
    y = ctx.write_yaml("presets.yaml", {"ab": {k: value(ctx, k) for k in REQ}})
    s = m.setup(presets_file=y, printer="ab")
    old = tuple(ctx.real(f"o{a}", -10, 10) for a in "XYZE")
    s.set_initial_position(old)
    kind = ctx.choice("kind", ["tuple", "dict", "other"])
    ok = False
    new = {}
    if kind == "tuple":
        n = ctx.choice("n", [0, 1, 2, 3, 4, 5])
        arg = tuple(ctx.real(f"p{i}", -10, 10) for i in range(n))
        ok = n == 4
        new = dict(zip("XYZE", arg))
    elif kind == "dict":
        arg = {a: ctx.real("p" + a, -10, 10) for a in "XYZE" if ctx.bool("has " + a)}
        ok = len(arg) == 4
        new = dict(arg)
        extra = ctx.choice("extra", [None, "p_vel", "layer_cue", "x", "F"])
        if extra:
            arg[extra] = 1.0
            ok = False
    else:
        arg = ctx.choice("arg", [None, 3.0, "XYZE", "1,2,3,4", []])
    err = ctx.raises(lambda: s.set_initial_position(arg))
    d = s.get_dict()
    if ok:
        ctx.check("complete position is accepted", err is None, repr(err))
        ctx.reach("accepted")
    else:
        ctx.check("malformed initial position is refused", err is not None)
        new = dict(zip("XYZE", old))
        ctx.reach("refused")
    for a in "XYZE":
        ctx.eq("initial position in the setup", d[a], new[a], 1e-12)
    ctx.check("nothing but parameters and the position", set(d) == set(REQ) | set("XYZE") | {"printer_name"})


SHIPPED = ["data/default_printer_presets.yaml", "examples/data/printer_presets.yaml"]


def shipped(file):
    """names and values of the printers shipped with the package"""
    import yaml

    with open(os.path.join(loader.REPO, loader.PKG, file), encoding="utf-8") as f:
        return yaml.safe_load(f)


def shipped_printer(ctx, file, by):
    """every shipped printer is complete, can be selected by its name and simulates"""
    m = ctx.m.gcode_interpreter
    path = os.path.join(loader.REPO, loader.PKG, file)
    presets = shipped(file)
    ctx.check("printers are shipped", len(presets) > 0)
    name = ctx.choice("printer", sorted(presets))
    own = presets[name]
    x, f = ctx.real("x", 40, 200), 1800
    g = ctx.write_text("p.gcode", f"G1 X{ctx.lit(x)} E1 F{f}\n")
    if by == "name":
        err = ctx.raises(lambda: m.simulation(gcode_path=g, machine_name=name))
        ctx.check("shipped printer is accepted by its name", err is None, repr(err))
        sim = m.simulation(gcode_path=g, machine_name=name)
    elif by == "both":
        sim = m.simulation(gcode_path=g, machine_name=name, initial_machine_setup=m.setup(presets_file=path, printer=name))
    else:
        s = m.setup(presets_file=path)
        s.select_printer(name)
        sim = m.simulation(gcode_path=g, initial_machine_setup=s)
    d = sim.initial_machine_setup
    ctx.check("exactly the printer's parameters", set(d) == set(own) | set("XYZE") | {"printer_name"})
    ctx.check("printer name", d["printer_name"] == name)
    for k, v in own.items():
        ctx.check(f"value of {k}", d[k] == v and type(d[k]) is type(v))
    for a in "XYZE":
        ctx.eq("starts at zero", d[a], 0)
    last = sim.blocklist[-1].get_segments()[-1]
    ctx.eq("the move is made", last.pos_end.get_vec()[0], x, 1e-9)
    ctx.eq("from zero", sim.blocklist[0].get_segments()[0].pos_begin.get_vec()[0], 0, 1e-12)
    ctx.reach("accepted")


def systems(ctx):
    """unit systems outside the supported ones are refused"""
    m = ctx.m.gcode_interpreter
    y = ctx.write_yaml("presets.yaml", {"ab": {k: value(ctx, k) for k in REQ}})
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    s = m.setup(presets_file=y, printer="ab")
    w = ctx.word("w", ctx.choice("n", [2, 4]), "SInchm")
    known = False
    for k in ("SI", "SImm", "inch"):
        if w == k:
            known = k
    w = ctx.opaque(w) if not known else known
    err = ctx.raises(lambda: m.simulation(gcode_path=g, initial_machine_setup=s, output_unit_system=w))
    err2 = ctx.raises(lambda: s.set_initial_position((1, 2, 3, 4), input_unit_system=w))
    ctx.check("unit system of the results", (err is None) == bool(known), repr(err))
    ctx.check("unit system of the initial position", (err2 is None) == bool(known), repr(err2))
    ctx.reach("accepted" if known else "refused")


def cases(tier):
    b = 60 if tier == "quick" else 600
    out = []

    def add(name, fn, bounds, reach=("refused",), **p):
        out.append(Case(name, fn, p, budget=b, strings=True, bounds=bounds, must_reach=list(reach), witness=2))

    for via in ("preset", "property"):
        for o in ([], OPT):
            add(f"subsets of the required parameters, {len(o)} optional ones, by {via}", subsets, "all 256 subsets, any values",
                ("accepted", "refused"), opts=o, via=via)
    add("subsets of the optional parameters", optional, "all 8 subsets, any values", ("accepted",))
    for k in VALID:
        for i in range(len(k)):
            add(f"misspelt {k} at {i}", unknown, "one letter replaced, inserted or deleted", known=k, at=i)
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        add(f"name of {n} letters", unknown, "all names over the alphabet except the valid ones", known=None, at=n)
    for w in ("units", "speed", "name", "absolute_position", "nozzle_diameter", "filament_diameter", "acceleration", "jerk_x", "vx", "F", "fan",
              "p_jerk", "printer", "initial_position", "absolute_extrusion", "layer", "line_number", "max_velocity", "junction_deviation"):
        for i in range(0, len(w), 1 if tier != "quick" else 4):
            add(f"unknown {w}, letter {i}", unknown_like, "any letter at the place", like=w, at=i)
    for how in ("property", "position"):
        add(f"unknown name by {how}", unknown_property, "names of 1-3 letters", how=how)
    for how in ("constructor", "select", "reselect"):
        add(f"printer by {how}", printers, "names of 0-4 letters over abc_XY", ("accepted", "refused"), how=how)
    add("name and setup", names, "names of 1-3 letters", ("accepted", "refused"), give_name=True, give_setup=True)
    for by in ("name", "both", "setup"):
        add(f"shipped printers by {by}", shipped_printer, "all shipped printers, any target", ("accepted",), file=SHIPPED[0], by=by)
    add("printers shipped with the examples", shipped_printer, "all of them, any target", ("accepted",), file=SHIPPED[1], by="setup")
    add("setup only", names, "any values", ("accepted",), give_name=False, give_setup=True)
    add("name only, not in the default presets", names, "names of 1-3 letters", give_name=True, give_setup=False)
    add("neither name nor setup", names, "-", give_name=False, give_setup=False)
    for how in ("property", "simulation"):
        add(f"no printer selected, {how}", no_printer, "-", how=how)
    add("initial positions", positions, "tuples of 0-5 numbers, all subsets of axes, extra keys, other objects", ("accepted", "refused"))
    add("unit systems", systems, "names over SInchm of 2 and 4 letters", ("accepted", "refused"))
    return out
