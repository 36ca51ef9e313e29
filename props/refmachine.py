"""Independent reference interpreter for line histories: physical position plus the machine position of logical zero"""
import re

from props.common import *

AX = "XYZE"
CUE = "LAYER_CHANGE"


class Ref:
    def __init__(self, init, vel=35, acc=200, jerk=10, lim=(180, 180, 30, 33), cue=False):
        self.pos = dict(zip(AX, init))
        self.zero = dict.fromkeys(AX, 0)
        self.abs_xyz = self.abs_e = True
        self.unit = 1
        self.speed, self.acc, self.jerk = vel, acc, jerk
        self.lim = dict(zip(AX, lim))
        self.layer = 0 if cue else None
        self.pause, self.comment = None, None

    def new_line(self):
        self.pause = self.comment = None

    def move(self, **kw):
        for a in AX:
            if a in kw:
                v = kw[a] * self.unit
                if self.abs_e if a == "E" else self.abs_xyz:
                    self.pos[a] = self.zero[a] + v
                else:
                    self.pos[a] = self.pos[a] + v
        if "F" in kw:
            self.speed = kw["F"] * self.unit / 60

    def declare(self, **kw):
        for a, v in kw.items():
            self.zero[a] = self.pos[a] - v * self.unit


class Line:
    """one input line of a given kind, with symbolic numbers; text for the real code, effect on the reference"""

    def __init__(self, ctx, kind, i):
        self.ctx, self.kind, self.i = ctx, kind, i
        self.n = 0

    def num(self, lo=-100000, hi=100000):
        self.n += 1
        return self.ctx.real(f"n{self.i}_{self.n}", lo, hi)

    def cmd(self, name, letters, lo=-100000, hi=100000, sep=" ", order=None):
        kw = {}
        for c in letters:
            kw[c] = self.num(F(1, 100), 1000000) if c == "F" else self.num(lo, hi)
        txt = name + "".join(sep + c + self.ctx.lit(kw[c]) for c in (order or letters))
        return txt, kw


MOVES = ["G1 XYF", "G0 Z", "G1 E", "G1 XE", "G0 XYZEF", "G1 F", "G01 YE"]
MODES = ["G90", "G91", "M82", "M83", "G91M83"]
ZEROS = ["G92 E", "G92 XY", "G92 ZE", "G92 XYZE", "G92"]
UNITS = ["G20", "G21"]
SETS = ["M204 P", "M204 R", "M205 X", "M205 J", "M203 XYZE", "M203 Z"]
DWELLS = ["G4 P", "G4 S"]
TEXTS = ["empty", "comment", "cue", "cue tight", "no cue", "G1 X comment", "G1 X cue"]
MIXED = ["G90 G1 XY", "G91 G1 XE", "M83 G1 E", "G4 P M204 P", "G20 G1 X", "G1 X G4 P", "tight G1XYEF", "G1 XE G92 E", "G1 Y G92 XY"]
COMBOS = ["G21 + G1 XF", "G20 + G92 XY", "M204 P + M205 X + M203 Z", "G91 + M83 + G0 XYZEF", "M82 + G92 E", "G20 + G91 + G1 XE", "G90 + G21 + M82 + G1 YE + G4 S",
          "G91 + G92 XE", "G0 Z + M204 P", "M205 X + G1 XF", "G4 P + G92 ZE", "M203 XYZE + G4 S"]
ALLKINDS = MOVES + MODES + ZEROS + UNITS + SETS + DWELLS + TEXTS + MIXED + COMBOS


def line(ctx, ref, kind, i, more=False):
    """text of the line; applies its effect to the reference (more: of further commands on the line)"""
    if " + " in kind:
        return " ".join(line(ctx, ref, k, f"{i}{chr(97 + n)}", n > 0) for n, k in enumerate(kind.split(" + ")))
    L = Line(ctx, kind, i)
    if not more:
        ref.new_line()
    if kind == "G91M83":
        ref.abs_xyz = ref.abs_e = False
        return "G91 M83"
    if kind == "G92":
        return "G92"
    if kind in MODES or kind in UNITS:
        mode(ref, kind)
        return kind
    if re.fullmatch(r"G0?[01] [XYZEF]+", kind):
        name, letters = kind.split()
        t, kw = L.cmd(name, letters)
        ref.move(**kw)
        return t
    if re.fullmatch(r"G92 [XYZE]+", kind):
        name, letters = kind.split()
        t, kw = L.cmd(name, letters)
        ref.declare(**kw)
        return t
    if kind in SETS:
        name, letters = kind.split()
        t, kw = L.cmd(name, letters, lo=0 if kind == "M205 X" else F(1, 1000), hi=1000000)  # jerk 0 is legal
        apply_set(ref, name, kw)
        return t
    if kind in DWELLS:
        name, letters = kind.split()
        t, kw = L.cmd(name, letters, lo=0, hi=10000000)
        ref.pause = kw["P"] / 1000 if "P" in kw else kw["S"]
        return t
    if kind == "empty":
        return ""
    if kind == "comment":
        ref.comment = "some text G1 X5 M83"
        return ";  some text G1 X5 M83  "
    if kind == "no cue":
        ref.comment = CUE + " 1"
        return "; " + CUE + " 1"
    if kind in ("cue", "cue tight"):
        ref.comment = CUE
        if ref.layer is not None:
            ref.layer += 1
        return ("; " if kind == "cue" else ";") + CUE
    if kind == "G1 X comment":
        t, kw = L.cmd("G1", "X")
        ref.move(**kw)
        ref.comment = "Y7"
        return t + " ;Y7"
    if kind == "G1 X cue":
        t, kw = L.cmd("G1", "X")
        ref.move(**kw)
        ref.comment = CUE
        if ref.layer is not None:
            ref.layer += 1
        return t + " ;" + CUE
    if kind == "G90 G1 XY":
        mode(ref, "G90")
        t, kw = L.cmd("G1", "XY", order="YX")
        ref.move(**kw)
        return "G90 " + t
    if kind == "G91 G1 XE":
        mode(ref, "G91")
        t, kw = L.cmd("G1", "XE")
        ref.move(**kw)
        return "G91 " + t
    if kind == "M83 G1 E":
        mode(ref, "M83")
        t, kw = L.cmd("G1", "E")
        ref.move(**kw)
        return "M83 " + t
    if kind == "G20 G1 X":
        mode(ref, "G20")
        t, kw = L.cmd("G1", "XF")
        ref.move(**kw)
        return "G20 " + t
    if kind == "G4 P M204 P":
        t, kw = L.cmd("G4", "P", lo=0, hi=10000000)
        t2, kw2 = L.cmd("M204", "P", lo=F(1, 1000), hi=1000000)
        ref.pause = kw["P"] / 1000
        apply_set(ref, "M204", kw2)
        return t + " " + t2
    if kind == "G1 X G4 P":
        t, kw = L.cmd("G1", "X")
        t2, kw2 = L.cmd("G4", "P", lo=0, hi=10000000)
        ref.move(**kw)
        ref.pause = kw2["P"] / 1000
        return t + " " + t2
    if kind in ("G1 XE G92 E", "G1 Y G92 XY"):  # the origin is declared behind the move
        t, kw = L.cmd("G1", kind.split()[1])
        t2, kw2 = L.cmd("G92", kind.split()[3])
        ref.move(**kw)
        ref.declare(**kw2)
        return t + " " + t2
    if kind == "tight G1XYEF":
        t, kw = L.cmd("G1", "XYEF", sep="", order="FEYX")
        ref.move(**kw)
        return t
    raise ValueError(kind)


def mode(ref, kind):
    if kind in ("G90", "G91"):
        ref.abs_xyz = kind == "G90"
    elif kind in ("M82", "M83"):
        ref.abs_e = kind == "M82"
    else:
        ref.unit = 25.4 if kind == "G20" else 1


def apply_set(ref, name, kw):
    if name == "M204" and "P" in kw:
        ref.acc = kw["P"]
    elif name == "M205" and "X" in kw:
        ref.jerk = kw["X"]
    elif name == "M203":
        ref.lim.update(kw)


def snapshot(ref):
    return dict(pos=[ref.pos[a] for a in AX], speed=ref.speed, acc=ref.acc, jerk=ref.jerk,
                lim=[ref.lim[a] for a in AX], layer=ref.layer, pause=ref.pause, comment=ref.comment,
                units="inch" if ref.unit != 1 else "SImm")


def history(ctx, kinds_per_line, cue=False, init="sym", via="states", sym_machine=False):
    """runs the chosen lines through the real interpreter and the reference; -> (states, expected snapshots)"""
    ini = [ctx.real(f"i{a}", -500, 500) for a in AX] if init == "sym" else [0, 0, 0, 0]
    if sym_machine:
        mv = dict(vel=ctx.real("mvel", 1, 500), acc=ctx.real("macc", 1, 20000), jerk=ctx.real("mjerk", 0, 100),
                  lim=tuple(ctx.real(f"mv{a}", 1, 500) for a in AX))
    else:
        mv = dict(vel=35, acc=200, jerk=10, lim=(180, 180, 30, 33))
    ref = Ref(ini, cue=cue, **mv)
    want = [snapshot(ref)]
    lines = []
    for i, kinds in enumerate(kinds_per_line):
        kind = ctx.choice(f"k{i}", kinds) if isinstance(kinds, (list, tuple)) else kinds
        lines.append(line(ctx, ref, kind, i))
        want.append(snapshot(ref))
    text = "\n".join(lines) + "\n"
    mach = machine(ctx, "marlin_jd", p_vel=mv["vel"], p_acc=mv["acc"], jerk=mv["jerk"],
                   **{"v" + a: x for a, x in zip(AX, mv["lim"])})
    p = ctx.write_text("prog.gcode", text)
    if via == "states":
        d = dict(mach)
        d.update(dict(zip(AX, ini)))
        d["printer_name"] = "printer"
        if cue:
            d["layer_cue"] = CUE
        sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
    else:
        s = make_setup(ctx, mach, tuple(ini), CUE if cue else None)
        sts = ctx.m.gcode_interpreter.simulation(gcode_path=p, initial_machine_setup=s).states
    return sts, want


def check_positions(ctx, sts, want, what="target position follows the modes"):
    ctx.check("one state per line and the initial one", len(sts) == len(want))
    for i, (s, w) in enumerate(zip(sts, want)):
        ctx.close_vec(what, v4(s.state_position), w["pos"], 1e-6)
    ctx.observe("last", v4(sts[-1].state_position)[0])
    ctx.reach("done")


def split_first(name, fn, kinds, k, rest=None, budget=60, bounds="", groups=None, **params):
    """cases over all sequences of k lines, split over the kind of the first line for parallelism"""
    rest = rest or kinds
    out = []
    for first in (groups or kinds):
        out.append(Case(f"{name} {k} lines, first {first if isinstance(first, str) else '/'.join(first)}", fn,
                        dict(kinds=[first if isinstance(first, (list, tuple)) else [first]] + [rest] * (k - 1), **params),
                        budget=budget, bounds=f"every sequence of {k} lines out of {rest}, first {first}; any numbers"
                        + (": " + bounds if bounds else ""), must_reach=["done"], witness=2))
    return out


def program(order, n, kinds):
    """a long fixed mix of lines: every kind in turn, in an order that depends on `order`"""
    import random

    r, out = random.Random(order), []
    while len(out) < n:
        k = list(kinds)
        r.shuffle(k)
        out += k
    return out[:n]


def long_cases(fn, kinds, q, sizes=(60, 130, 60, 130, 300, 60, 1100, 130), **params):
    """single long programs: their structure is fixed, every number is symbolic"""
    sizes = sizes if q else sizes * 4
    return [Case(f"{n} lines in order {o}", fn, dict(kinds=program(o, n, kinds), **params), budget=200 if q else 600,
                 bounds=f"one program of {n} lines with every kind of line in a fixed pseudo-random order; any numbers", must_reach=["done"], witness=1)
            for o, n in enumerate(sizes, 1)]
