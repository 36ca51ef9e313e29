"""The command line: argument vectors are structural choices, the program's and the presets' numbers are symbolic; the run is
compared with the library calls it stands for, and every file it makes is looked at."""
import contextlib
import locale
import os
import sys

from symx import loader

from props.common import *

CUE = "LAYER_CHANGE"


@contextlib.contextmanager
def environment(ctx, argv, answers, instead=None):
    """argument vector, answers at the prompt, a display; -> simulations made (of the file `instead`, if one is given)"""
    cli, gi = ctx.m.module("cli"), ctx.m.gcode_interpreter
    made, real = [], gi.simulation.__init__
    answers = list(answers)
    old = sys.argv, locale.setlocale, os.environ.get("DISPLAY"), sys.stderr

    def init(self, *a, **k):
        made.append(self)
        if instead:
            if a:
                self.asked, a = a[0], (instead,) + a[1:]
            else:
                self.asked, k["gcode_path"] = k["gcode_path"], instead
        return real(self, *a, **k)

    def ask(*a):
        if not answers:
            raise EOFError
        return answers.pop(0)

    gi.simulation.__init__ = init
    cli.input = ask
    sys.argv = ["pygcd"] + argv
    locale.setlocale = lambda *a: "C"
    os.environ["DISPLAY"] = ":0"
    try:
        with open(os.devnull, "w", encoding="utf-8", errors="replace") as sys.stderr:
            yield cli, made
    finally:
        gi.simulation.__init__ = real
        del cli.input
        sys.argv, locale.setlocale, d, sys.stderr = old
        os.environ.pop("DISPLAY")
        if d is not None:
            os.environ["DISPLAY"] = d


def call(ctx, argv, answers=(), instead=None):
    """-> (simulations made, exception, new files, arguments naming files given to the plotting library)"""
    before = ctx.files()
    n0 = len(loader.Recorder.log)
    with environment(ctx, argv, answers, instead) as (cli, made):
        e = ctx.raises(lambda: cli._main(), (SystemExit, Exception))
    paths = []
    for name, a, k in loader.Recorder.log[n0:]:
        for x in list(a) + list(k.values()):
            if isinstance(x, (str, os.PathLike)) and os.path.splitext(str(x))[1] in (".png", ".vtk", ".csv", ".yaml"):
                paths.append(os.path.normpath(os.path.join(ctx.in_folder(), str(x))))
    shows = [n for n, a, k in loader.Recorder.log[n0:] if n.endswith(".show")]
    return made, e, ctx.files() - before, paths, shows


def program(ctx, cue=True):
    a, b, f, g = ctx.real("a", 50, 200), ctx.real("b", 50, 200), 3000, ctx.real("g", 60, 3000)
    c = f";{CUE}\n;OTHER CUE\n" if cue else ""
    return f"G1 X{ctx.lit(a)} F{ctx.lit(f)}\n{c}G1 Y{ctx.lit(b)} E1 F{ctx.lit(g)}\n{c}G1 X0 E2\n"


def same_run(ctx, sim, ref):
    ctx.check("as many lines", len(sim.states) == len(ref.states))
    for p, q in zip(sim.states, ref.states):
        ctx.close_vec("target of each line", v4(p.state_position), v4(q.state_position))
        ctx.check("layer of each line", p.layer == q.layer)
    ss, rs = segs(sim), segs(ref)
    ctx.check("as many segments", len(ss) == len(rs))
    for s, r in zip(ss, rs):
        ctx.close_vec("trajectory", [s.t_begin, s.t_end] + v4(s.pos_end) + v4(s.vel_end), [r.t_begin, r.t_end] + v4(r.pos_end) + v4(r.vel_end))


def plot(ctx, where, style, presets, cue, out, answers=()):
    """files and options in all forms"""
    folder = ctx.in_folder()
    text = program(ctx)
    ctx.write_text("other.txt", "G1 X1\n")
    name = "part one.gcode" if where == "found" else "sub/part.v2.gcode"
    g = ctx.write_text(name, text)
    if where == "found":
        ctx.write_text("sub/hidden.gcode", "G1 X5 F100\n")
        ctx.write_text("part.gcode.bak", "G1 X5 F100\n")
    acc = ctx.real("acc", 500, 5000)
    mach = machine(ctx, "none", p_acc=acc)
    pf = ctx.write_yaml("mine.yaml", {"first": machine(ctx, "klipper", p_acc=3), "prn": mach, "anisoprint_a4": machine(ctx, "none", p_acc=acc)})
    argv = ["plot"]
    opt = (lambda s, l: s) if style == "short" else (lambda s, l: l)
    if where == "relative":
        argv += [opt("-g", "--gcode"), name]
    elif where == "absolute":
        argv += [opt("-g", "--gcode"), g]
    elif style == "bare":
        argv += ["-g"]
    if presets in ("named", "unnamed"):
        argv += [opt("-p", "--presets"), "mine.yaml"]
    if presets == "named":
        argv += [opt("-pn", "--printer_name"), "prn"]
    if presets == "default, named":
        argv += [opt("-pn", "--printer_name"), "prusa_mini"]
    if cue:
        argv += [opt("-lc", "--layer_cue"), cue]
    if out is not None:
        argv += [opt("-o", "--out_dir"), out]
    made, e, new, paths, shows = call(ctx, argv, answers)
    ctx.check("runs to the end", e is None, repr(e))
    ctx.check("one simulation", len(made) == 1)
    ctx.check("an interactive plot", len(shows) == 1)
    gi = ctx.m.gcode_interpreter
    shipped = os.path.join(loader.REPO, loader.PKG, "data", "default_printer_presets.yaml")
    st = gi.setup(presets_file=pf if presets in ("named", "unnamed") else shipped, layer_cue=cue,
                  printer={"named": "prn", "default, named": "prusa_mini"}.get(presets, "anisoprint_a4"))
    ref = gi.simulation(gcode_path=g, initial_machine_setup=st)
    same_run(ctx, made[0], ref)
    stem = os.path.basename(name)[:-len(".gcode")]
    saves = out is not None or (answers and answers[-1].lower().startswith("y"))
    if not saves:
        ctx.check("writes nothing", not new and not paths)
        ctx.reach("nothing saved")
        return
    d = os.path.normpath(os.path.join(folder, out if out is not None else f"output_{stem}"))
    ctx.check("writes only into the selected directory", all(f.startswith(d + os.sep) for f in list(new) + paths))
    want = {os.path.join(d, stem + "_summary.yaml")} | ({os.path.join(d, stem + "_layer_metrics.csv")} if cue else set())
    ctx.check("summary and layer metrics are saved", new == want)
    ctx.check("screenshot and mesh are saved", sorted(paths) == [os.path.join(d, stem + ".png"), os.path.join(d, stem + ".vtk")])
    saved(ctx, ref, os.path.join(d, stem + "_summary.yaml"), os.path.join(d, stem + "_layer_metrics.csv") if cue else None)
    ctx.reach("saved")


def example(ctx, which):
    """the examples: any program in the place of the shipped ones (which are not part of the checkout)"""
    folder = ctx.in_folder()
    g = ctx.write_text("in/" + which + ".gcode", program(ctx))
    ctx.write_text("other.gcode", "G1 X1 F60\n")
    made, e, new, paths, shows = call(ctx, ["run_example", which], instead=g)
    ctx.check("runs to the end", e is None, repr(e))
    ctx.check("one simulation", len(made) == 1)
    ctx.check("an interactive plot", len(shows) == 1)
    data = os.path.join(loader.REPO, loader.PKG, "examples", "data")
    ctx.check("of the shipped program", os.path.normpath(str(made[0].asked)) == os.path.join(data, which + ".gcode"))
    gi = ctx.m.gcode_interpreter
    if which == "brace":
        st = gi.setup(presets_file=os.path.join(loader.REPO, loader.PKG, "data", "default_printer_presets.yaml"), printer="anisoprint_a4")
    else:
        st = gi.setup(presets_file=os.path.join(data, "printer_presets.yaml"), printer="prusa_mini", layer_cue=CUE)
    ref = gi.simulation(gcode_path=g, initial_machine_setup=st)
    same_run(ctx, made[0], ref)
    if which == "brace":
        ctx.check("writes nothing", not new and not paths)
        ctx.reach("nothing saved")
        return
    d = os.path.join(folder, "output_benchy_example")
    ctx.check("writes only into its directory", all(f.startswith(d + os.sep) for f in list(new) + paths))
    events = os.path.join(d, "benchy_prusa_mini_event_series.csv")
    ctx.check("summary, layer metrics and events are saved",
              new == {os.path.join(d, "benchy_summary.yaml"), os.path.join(d, "benchy_layer_metrics.csv"), events})
    ctx.check("screenshot and mesh are saved", sorted(paths) == [os.path.join(d, "benchy.png"), os.path.join(d, "benchy.vtk")])
    saved(ctx, ref, os.path.join(d, "benchy_summary.yaml"), os.path.join(d, "benchy_layer_metrics.csv"))
    want = ctx.m.abaqus_file_generator.generate_abaqus_event_series(ref, filepath=os.path.join(folder, "ref.csv"), output_unit_system="SImm")
    rows = ctx.read_text(events).strip().split("\n")
    ctx.check("a row per event", len(rows) == len(want))
    for r, w in zip(rows, want):
        ctx.check("five numbers per event", r.count(",") == 4)
        for x, y in zip(r.split(","), w):
            ctx.eq("number of an event", ctx.num(x), y, 1e-6)
    ctx.reach("saved")


def nothing(ctx, argv):
    """nothing to do"""
    ctx.in_folder()
    ctx.write_text("a.gcode", program(ctx, False))
    made, e, new, paths, shows = call(ctx, argv, ["n"])
    ctx.check("ends properly", (e is None or isinstance(e, SystemExit)) and (not argv or e is not None), repr(e))
    ctx.check("without simulating", not made)
    ctx.check("without writing", not new and not paths)
    ctx.check("without plotting", not shows)
    ctx.reach("stopped")


def saved(ctx, ref, summary, metrics):
    y = ctx.read_yaml(summary)
    ctx.eq("summary of this simulation: end time", y["t_end"], segs(ref)[-1].t_end)
    ctx.eq("summary of this simulation: extent", y["y_max"], ref.extrusion_extent()[1][1])
    if metrics is None:
        return
    rows = ctx.read_text(metrics).strip().split("\n")[1:]
    lay, dur, trav, _ = ctx.m.tools.save_layer_metrics(ref, locale="C")
    ctx.check("a row per layer", len(rows) == len(lay))
    for r, n, t, x in zip(rows, lay, dur, trav):
        c = r.split(",")
        ctx.check("layer of a row", int(c[0]) == n)
        ctx.eq("layer time of a row", ctx.num(c[1]), t, 1e-6)
        ctx.eq("travel of a row", ctx.num(c[2]), x, 1e-6)


def refused(ctx, what, out):
    """stops without simulating, without asking on and without writing"""
    ctx.in_folder()
    text = program(ctx, False)
    argv = ["plot"]
    ctx.write_yaml("mine.yaml", {"prn": machine(ctx, "marlin_jd")})
    if what == "no file given, none there":
        ctx.write_text("sub/a.gcode", text)
        ctx.write_text("a.gcode.txt", text)
    elif what.startswith("no file given, several"):
        names = {"two": ("a0", "a1"), "three": ("a0", "a1", "a2"), "differing by case": ("part", "PART", "Part"), "one name in another": ("part", "part two"),
                 "versions": ("part", "part.v2", "part.gcode"), "hidden-looking": ("_part", "part~")}[what.split("several ")[1]]
        for n in names:
            ctx.write_text(n + ".gcode", text)
    elif what == "file missing":
        ctx.write_text("a.gcode", text)
        argv += ["-g", "b.gcode"]
    elif what == "file is a folder":
        ctx.write_text("sub/a.gcode", text)
        argv += ["-g", "sub"]
    elif what == "presets missing":
        ctx.write_text("a.gcode", text)
        argv += ["-g", "a.gcode", "-p", "other.yaml"]
    elif what == "presets is a folder":
        ctx.write_text("a.gcode", text)
        ctx.write_text("sub/a.yaml", "")
        argv += ["-g", "a.gcode", "-p", "sub"]
    elif what == "printer unknown":
        ctx.write_text("a.gcode", text)
        argv += ["-g", "a.gcode", "-p", "mine.yaml", "-pn", "nope"]
    elif what == "default printer not in the presets":
        ctx.write_text("a.gcode", text)
        argv += ["-g", "a.gcode", "-p", "mine.yaml"]
    made, e, new, paths, shows = call(ctx, argv + (["-o", "out"] if out else []), ["n"])
    ctx.check("stops", e is not None)
    ctx.check("without simulating", not made)
    ctx.check("without writing", not new and not paths)
    ctx.check("without plotting", not shows)
    ctx.reach("stopped")


def cases(tier):
    b = 60 if tier == "quick" else 300
    B = "a program with two layers, any targets and feed rates, any acceleration in the presets"
    out = []
    combos = [
        ("relative", "short", "named", CUE, "out", ()), ("absolute", "long", "named", None, "out/deep er", ()),
        ("found", "long", "default", None, "out", ()), ("found", "bare", "named", CUE, None, ("n",)),
        ("relative", "long", "default, named", "OTHER CUE", None, ("", "maybe", "nope", "not", "Yes")), ("absolute", "short", "unnamed", "NOT THERE", ".", ()),
        ("found", "short", "default", CUE, None, ("y",)), ("relative", "short", "default", None, None, ("x", "yet", "yesno", "y e s", "NO")),
    ]
    if tier != "quick":
        combos += [(w, s, p, c, o, a) for w in ("relative", "absolute", "found") for s in ("short", "long") for p in ("named", "unnamed", "default", "default, named")
                   for c in (None, CUE) for o, a in (("out", ()), (None, ("yes",)), (None, ("n",)))]
    for i, (w, s, p, c, o, a) in enumerate(combos):
        r = ["saved"] if o is not None or a[-1].lower().startswith("y") else ["nothing saved"]
        out.append(Case(f"{i}: file {w}, {s} options, presets {p}, cue {c}, output {o or a}", plot,
                        dict(where=w, style=s, presets=p, cue=c, out=o, answers=a), budget=b, bounds=B, must_reach=r))
    for a in ([], ["run_example", "cube"], ["run_example"], ["-v"], ["--version"], ["plot", "-h"], ["simulate"]):
        out.append(Case(f"nothing to do: {' '.join(a)}", nothing, dict(argv=a), budget=b, bounds="any program", must_reach=["stopped"]))
    for w in ("brace", "benchy"):
        out.append(Case(f"example {w}", example, dict(which=w), budget=b, bounds=B, must_reach=["nothing saved" if w == "brace" else "saved"]))
    for w in ("no file given, none there", "no file given, several two", "no file given, several three", "no file given, several differing by case",
              "no file given, several one name in another", "no file given, several versions", "no file given, several hidden-looking", "file missing", "file is a folder",
              "presets missing", "presets is a folder", "printer unknown", "default printer not in the presets"):
        for o in (True, False):
            out.append(Case(f"{w}{', output given' if o else ''}", refused, dict(what=w, out=o), budget=b, bounds="any program", must_reach=["stopped"]))
    return out
