"""Lines whose characters are symbolic, with their meaning"""
from props.refmachine import *

LETTERS = {"G0": "XYZEF", "G1": "XYZEF", "M203": "XYZE", "M204": "PRST", "M205": "EJSXYZ", "G4": "PS", "G92": "XYZE"}
MODE_CMDS = ["G90", "G91", "M82", "M83", "G20", "G21"]
RANGE = {"G4": (0, 100000), "M203": (F(1, 10), 5000), "M204": (F(1, 10), 50000), "M205": (0, 5000)}


def digits(ctx, name, n):
    """n symbolic decimal digits -> (text, value)"""
    parts, val = [], 0
    for i in range(n):
        c = ctx.char(f"{name}{i}", "0123456789")
        parts.append(c)
        val = val * 10 + ctx.digit(c)
    return ctx.cat(*parts), val


def number(ctx, name, form):
    """form like '-dd.d': d is a symbolic digit -> (text, value)"""
    sign, rest = (form[0], form[1:]) if form[0] in "+-" else ("", form)
    a, _, b = rest.partition(".")
    ta, va = digits(ctx, name + "a", len(a))
    tb, vb = digits(ctx, name + "b", len(b))
    v = va + vb * (F(1, 10 ** len(b)) if ctx.symbolic else 1 / 10 ** len(b)) if b else va
    if sign == "-":
        v = -v
    return ctx.cat(sign, ta, "." if "." in rest else "", tb), v


def zeros(cmd, k):
    return cmd[0] + "0" * k + cmd[1:]


def apply(ref, cmd, kw):
    """effect of a decoded command on the reference"""
    if cmd in MODE_CMDS:
        mode(ref, cmd)
    elif cmd in ("G0", "G1"):
        ref.move(**kw)
    elif cmd == "G92":
        ref.declare(**kw)
    elif cmd == "G4":
        if "P" in kw:
            ref.pause = kw["P"] / 1000
        if "S" in kw:
            ref.pause = kw["S"]
    else:
        apply_set(ref, cmd, kw)


class Builder:
    """collects lines and the states expected behind them"""

    def __init__(self, ctx, cue=False):
        self.ctx = ctx
        self.init = [ctx.real(f"i{a}", -500, 500) for a in AX]
        self.ref = Ref(self.init, cue=cue)
        self.cue = cue
        self.want = [snapshot(self.ref)]
        self.lines = []
        self.todo = []
        self.n = 0
        self.eol = "\n"

    def val(self, lo, hi):
        self.n += 1
        return self.ctx.real(f"v{self.n}", lo, hi)

    def end(self, *parts, effects=(), comment=None):
        """line made of the parts; effects: (command, [(letter, value)])"""
        self.lines.append(self.ctx.cat(*parts, self.eol))
        self.todo.append((list(effects), comment))

    def run(self):
        """-> (states, expected)"""
        ctx = self.ctx
        p = ctx.write_lines("prog.gcode", self.lines)
        d = dict(machine(ctx, "marlin_jd"))
        d.update(dict(zip(AX, self.init)))
        d["printer_name"] = "printer"
        if self.cue:
            d["layer_cue"] = CUE
        sts = ctx.m.state_generator.generate_states(filepath=p, initial_machine_setup=d)
        for eff, comment in self.todo:
            self.ref.new_line()
            self.ref.comment = comment
            for cmd, pairs in eff:
                kw = {}
                for letter, v in pairs:
                    for c in LETTERS[cmd]:
                        if letter == c:
                            kw[c] = v
                            break
                apply(self.ref, cmd, kw)
            self.want.append(snapshot(self.ref))
        return sts, self.want

    def compare(self):
        ctx = self.ctx
        sts, want = self.run()
        ctx.check("one state per line and the initial one", len(sts) == len(want))
        for i, (s, w) in enumerate(zip(sts, want)):
            p = s.state_p_settings
            ctx.close_vec("axis words are decoded", v4(s.state_position), w["pos"], 1e-6)
            ctx.eq("feed rate is decoded", p.speed, w["speed"], 1e-7, 1e-9)
            ctx.eq("acceleration is decoded", p.p_acc, w["acc"], 1e-7)
            ctx.eq("jerk is decoded", p.jerk, w["jerk"], 1e-7)
            ctx.close_vec("axis limits are decoded", [p.vX, p.vY, p.vZ, p.vE], w["lim"], 1e-7)
            if i:
                ctx.check("line number", s.line_number == i)
                if w["pause"] is None:
                    ctx.check("no dwell", s.pause is None)
                else:
                    ctx.check("dwell is decoded", s.pause is not None)
                    if s.pause is not None:
                        ctx.eq("dwell duration is decoded", s.pause, w["pause"], 1e-7, 1e-9)
                ctx.check("comment of the line", s.comment == w["comment"])
                ctx.check("layer of the line", s.layer == w["layer"])
        ctx.reach("done")
        return sts

    def probe(self):
        """absolute move behind the line under test: shows the modes and the origin in force"""
        v = [1.5, -2.25, 3.0, 4.5]
        self.end("G1 X1.5 Y-2.25 Z3 E4.5", effects=[("G1", list(zip(AX, v)))])


def word(ctx, b, cmd, n, gap, tag, k=0, lo=None, hi=None):
    """command with n distinct symbolic letters -> (text parts, effect)"""
    letters = LETTERS.get(cmd, "")
    ls = [ctx.char(f"l{tag}{i}", letters) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ls[i] != ls[j])
    r = RANGE.get(cmd, (-1000, 1000))
    parts, pairs = [zeros(cmd, k)], []
    for l in ls:
        v = b.val(*r)
        parts += [gap(), l, gap(), ctx.lit(v)]
        pairs.append((l, v))
    return parts, (cmd, pairs)
