from props.common import *

KEYS = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE"]
OPS = ["select b", "select missing", "set p_vel", "set cue", "position tuple", "position dict", "position inch", "read", "simulate",
       "write into the result", "second setup", "set X, position zero"]
MORE = ["select a", "set many", "change the argument", "position bad", "read"]


class Model:
    def __init__(self, presets, cue):
        self.presets = {n: dict(p) for n, p in presets.items()}
        self.sel, self.cue = "a", cue
        self.pos = dict.fromkeys("XYZE", 0)

    def dict(self):
        d = dict(self.presets[self.sel])
        d.update(self.pos)
        if self.cue is not None:
            d["layer_cue"] = self.cue
        d["printer_name"] = self.sel
        return d


def same(ctx, label, got, want):
    ctx.check(label + " (names)", set(got) == set(want), f"{sorted(map(str, got))} {sorted(map(str, want))}")
    for k in want:
        if k not in got:
            continue
        if isinstance(want[k], str) or isinstance(got[k], str):
            ctx.check(label, got[k] == want[k])
        else:
            ctx.eq(label, got[k], want[k], 1e-9)


def run(ctx, ops, cue, shared=False, extra_cue=False):
    m = ctx.m.gcode_interpreter

    def preset(n):
        d = {k: ctx.real(k + n, F(1, 10), 1000) for k in KEYS}
        d["firmware"] = {"a": "marlin_jd", "b": "klipper", "c": "MKA"}[n]
        if n == "b":
            d["nozzle_diam"] = 0.4
        if extra_cue and n == "b":
            d["layer_cue"] = "PRESET"
        return d

    presets = {n: preset(n) for n in "abc"}
    if shared:  # one definition used for two printers (YAML anchor)
        presets["b"] = presets["a"]
    y = ctx.write_yaml("presets.yaml", presets)
    g = ctx.write_lines("p.gcode", ["; nothing to do\n"])
    mod = Model(presets, cue)
    s = m.setup(presets_file=y, printer="a", layer_cue=cue)
    kept = []
    args = []
    for i, options in enumerate(ops):
        op = ctx.choice(f"op{i}", options)
        v = ctx.real(f"v{i}", F(1, 10), 500)
        if op.startswith("select "):
            n = op[-1]
            if op == "select missing":
                ctx.check("missing printer refused", ctx.raises(lambda: s.select_printer("zz")) is not None)
            else:
                s.select_printer(n)
                mod.sel = n
        elif op in ("set p_vel", "set cue", "set many"):
            d = {"set p_vel": {"p_vel": v}, "set cue": {"layer_cue": "LAYER"}, "set many": {"vX": v, "firmware": "MKA", "jerk": v + 1}}[op]
            s.set_property(d)
            mod.presets[mod.sel].update(d)
            args.append(d)
        elif op == "position tuple":
            s.set_initial_position((v, 1.0, 2.0, -v))
            mod.pos = {"X": v, "Y": 1.0, "Z": 2.0, "E": -v}
        elif op == "position dict":
            d = {"X": -v, "E": 0.5, "Z": 3.0, "Y": v}
            s.set_initial_position(d)
            mod.pos = dict(d)
            args.append(d)
        elif op == "set X, position zero":
            s.set_property({"X": v, "E": v + 1})
            mod.presets[mod.sel].update({"X": v, "E": v + 1})
            s.set_initial_position((0, 0, 0, 0) if len(kept) % 2 == 0 else {"X": 0.0, "Y": 0.0, "Z": 0.0, "E": 0.0})
            mod.pos = dict.fromkeys("XYZE", 0)
        elif op == "position inch":
            s.set_initial_position({"X": v, "Y": 2.0, "Z": 3.0, "E": 4.0}, input_unit_system="inch")
            mod.pos = {"X": v * 25.4, "Y": 2.0 * 25.4, "Z": 3.0 * 25.4, "E": 4.0 * 25.4}
        elif op == "position bad":
            ctx.check("incomplete position refused", ctx.raises(lambda: s.set_initial_position({"X": v})) is not None)
        elif op == "read":
            d = s.get_dict()
            same(ctx, "effective configuration", d, mod.dict())
            kept.append((d, mod.dict()))
        elif op == "simulate":
            sim = m.simulation(gcode_path=g, initial_machine_setup=s)
            same(ctx, "configuration of the simulation", sim.initial_machine_setup, mod.dict())
            kept.append((sim.initial_machine_setup, mod.dict()))
            p0 = sim.states[0]
            ctx.close_vec("initial position of the simulation", v4(p0.state_position), [mod.pos[a] for a in "XYZE"], 1e-9)
            ctx.eq("initial speed of the simulation", p0.state_p_settings.speed, mod.presets[mod.sel]["p_vel"], 1e-9)
        elif op == "write into the result":
            d = s.get_dict()
            d["p_vel"] = v
            d["X"] = v
            d["foo"] = 1
        elif op == "change the argument":
            for d in args:
                for k in list(d):
                    d[k] = 7.0
        elif op == "second setup":
            t = m.setup(presets_file=y, printer=mod.sel)
            same(ctx, "a new setup has the values of the file", t.get_dict(), dict(presets[mod.sel], X=0, Y=0, Z=0, E=0, printer_name=mod.sel))
            t.set_property({"p_vel": v, "jerk": v})
            t.set_initial_position((9.0, 9.0, 9.0, v))
            t.select_printer("c")
    same(ctx, "effective configuration", s.get_dict(), mod.dict())
    ctx.check("firmware of the selected printer", s.firmware == mod.presets[mod.sel]["firmware"])
    for n in "abc":
        s.select_printer(n)
        mod.sel = n
        ctx.check("firmware of the selected printer", s.firmware == mod.presets[n]["firmware"])
        same(ctx, "other printers keep their own values", s.get_dict(), mod.dict())
    for d, want in kept:
        same(ctx, "configurations obtained before stay as they were", d, want)
    ctx.reach("done")


def late_selection(ctx):
    """a setup without a printer behaves like one constructed with it"""
    m = ctx.m.gcode_interpreter
    presets = {n: dict({k: ctx.real(k + n, F(1, 10), 1000) for k in KEYS}, firmware="klipper") for n in "ab"}
    y = ctx.write_yaml("presets.yaml", presets)
    n = ctx.choice("n", ["a", "b"])
    cue = ctx.choice("cue", [None, "L"])
    s = m.setup(presets_file=y, layer_cue=cue)
    if ctx.bool("position first"):
        s.set_initial_position((1.0, 2.0, 3.0, 4.0))
        s.select_printer(n)
    else:
        s.select_printer(n)
        s.set_initial_position((1.0, 2.0, 3.0, 4.0))
    want = dict(presets[n], X=1.0, Y=2.0, Z=3.0, E=4.0, printer_name=n)
    if cue:
        want["layer_cue"] = cue
    same(ctx, "effective configuration", s.get_dict(), want)
    ctx.check("firmware of the selected printer", s.firmware == "klipper")
    t = m.setup(presets_file=y, printer=n)
    same(ctx, "two setups of one file are independent", t.get_dict(), dict(presets[n], X=0, Y=0, Z=0, E=0, printer_name=n))
    ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    out = []
    B = "every sequence of the operations, any values"
    b = 60 if q else 900
    for first in OPS:
        out.append(Case(f"{first}, then two operations", run, dict(ops=[[first], OPS, OPS + MORE[:3]], cue=None), budget=b, bounds=B,
                        must_reach=["done"], witness=2))
    for first in MORE + ["set p_vel", "position dict"]:
        out.append(Case(f"{first}, then two of the rest", run, dict(ops=[[first], OPS + MORE, OPS + MORE], cue="CUE"), budget=b, bounds=B,
                        must_reach=["done"], witness=2))
    out.append(Case("layer cue in the presets", run, dict(ops=[OPS, ["select b", "simulate", "set cue"], ["read", "simulate"]], cue=None,
                                                          extra_cue=True), budget=b, bounds=B, must_reach=["done"]))
    out.append(Case("layer cue in the presets and the setup", run, dict(ops=[OPS, ["select b", "simulate", "set cue"], ["read", "simulate"]],
                                                                        cue="CUE", extra_cue=True), budget=b, bounds=B, must_reach=["done"]))
    out.append(Case("two printers of one definition", run, dict(ops=[["set p_vel", "set cue", "set many"], ["read", "select b", "simulate"], OPS], cue=None,
                                                                shared=True), budget=b, bounds=B, must_reach=["done"]))
    for n in (3,) if q else (3, 4):
        for first in OPS:
            out.append(Case(f"{first}, then {n} operations", run, dict(ops=[[first], OPS + MORE[:3], OPS] + [OPS + MORE] * (n - 2), cue=None), budget=b, bounds=B,
                            must_reach=["done"], witness=2))
    out.append(Case("printer selected later", late_selection, budget=b, bounds="any values", must_reach=["done"]))
    return out
