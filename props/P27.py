from props.lines import *

UNSUP = {"G2": "G", "G3": "G", "G10": "G", "G11": "G", "G28": "G", "G29": "G"}
PARAMS = "ABCDEFHIJKLOPQRSTUVWXYZ"


def names(ctx, letter, ds):
    """the unsupported command written as letter and digits, or None"""
    txt = ctx.cat(letter, *ds)
    for u in UNSUP:
        if len(u) <= len(ds) + 1 and txt == u[0] + "0" * (len(ds) + 1 - len(u)) + u[1:]:
            return u
    return None


class L:
    def __init__(self, ctx, kind, i, nd, sub=False, small=False):
        self.small = small
        self.found = []
        self.ctx, self.i = ctx, i
        w, found = self.word(nd, "a", sub)
        if kind == "word":
            self.text = ctx.cat(w, self.params(1))
            self.hit(found)
        elif kind == "bare":
            self.text = ctx.cat(ctx.choice(f"lead{i}", ["", " "]), w)
            self.hit(found)
        elif kind == "comment":
            self.text = ctx.cat("G1 X1 ;", ctx.choice(f"lead{i}", ["", " "]), w, " X1")
        elif kind == "behind":
            self.text = ctx.cat("G1 X", ctx.lit(ctx.real(f"x{i}", -10, 10)), ctx.choice(f"sep{i}", ["", " "]), w, self.params(1))
            self.hit(found)
        elif kind == "before":
            self.text = ctx.cat(w, self.params(1), " M204 P500")
            self.hit(found)
        elif kind == "two":
            w2, f2 = self.word(nd, "b")
            self.text = ctx.cat(w, self.params(1), " ", w2)
            self.hit(found)
            self.hit(f2)
        elif kind == "and comment":
            w2, f2 = self.word(nd, "b")
            self.text = ctx.cat(w, " ;", w2)
            self.hit(found)
        elif kind == "and empty comment":
            self.text = ctx.cat(w, ctx.choice(f"sep{i}", ["", " "]), ";", ctx.choice(f"tail{i}", ["", " "]))
            self.hit(found)
        elif kind == "numbered":
            self.text = ctx.cat("N", ctx.char(f"n{i}", "0123456789"), "1 ", w, "*1", ctx.char(f"k{i}", "0123456789"))
            self.hit(found)

    def word(self, nd, tag, sub=False):
        ctx = self.ctx
        letter = "G" if self.small else ctx.char(f"w{tag}{self.i}", "GM")
        dom = lambda j: ("23" if nd == 1 else "0189" if j == nd - 1 else "012") if self.small else "0123456789"  # noqa: E731
        ds = [ctx.char(f"d{tag}{self.i}{j}", dom(j)) for j in range(nd)]
        if sub and ctx.bool(f"sub{self.i}"):  # another command: only the complete number counts
            return ctx.cat(letter, *ds, ".1"), None
        return ctx.cat(letter, *ds), (letter, ds)

    def hit(self, found):
        if found is not None:
            self.found.append(found)

    def params(self, n):
        ctx = self.ctx
        if not n or not ctx.bool(f"par{self.i}"):
            return ""
        return ctx.cat(" ", ctx.char(f"p{self.i}", PARAMS), ctx.lit(ctx.real(f"v{self.i}", -100, 100)))


def report(ctx, kinds, nds, sub=False, small=False):
    ls = [L(ctx, k, i, n, sub and i == 0, small) for i, (k, n) in enumerate(zip(kinds, nds))]
    p = ctx.write_lines("p.gcode", [ctx.cat(l.text, "\n" if i + 1 < len(ls) or ctx.bool("line break at the end") else "") for i, l in enumerate(ls)])
    sg = ctx.m.state_generator
    got = sg.check_for_unsupported_commands(sg.read_gcode_to_dict_list(p))
    want = {}
    for l in ls:
        on = set()
        for letter, ds in l.found:
            u = names(ctx, letter, ds)
            if u:
                on.add(u)
        for u in on:
            want[u] = want.get(u, 0) + 1
    ctx.check("exactly the unsupported commands that occur are reported", set(got) == set(want), f"{got} {want}")
    for u in want:
        if u in got:
            ctx.check("number of lines with the command", got[u] == want[u], f"{u}: {got[u]} {want[u]}")
    ctx.reach("reported" if want else "nothing to report")


WORDS = ["G2 X1", "G3", "G28", "G10", "G11 S1", "G29", "G02 I1", "G028", "G280", "G12", "G20", "M28", "M10", "G1 X1 G28", "; G28", "G28 ; G29", "G1 X1", "T0", "", "G28.1",
         "G10 G11", "N5 G28 *7", "G2X1Y2", "g", "M117 text", "G92 E0 G10"]
HITS = {0: "G2", 1: "G3", 2: "G28", 3: "G10", 4: "G11", 5: "G29", 6: "G2", 7: "G28", 13: "G28", 15: "G28", 20: "G10 G11", 21: "G28", 22: "G2", 25: "G10"}


def many(ctx, n, step):
    """counts over long programs, with a symbolic command in between"""
    idx = [(i * step + i // len(WORDS)) % len(WORDS) for i in range(n)]
    lines = [WORDS[i] for i in idx]
    lines[n // 2] = ctx.cat("G", ctx.char("d0", "123"), ctx.char("d1", "0189"))
    want = {}
    for k, i in enumerate(idx):
        for u in HITS.get(i, "").split() if k != n // 2 else []:
            want[u] = want.get(u, 0) + 1
    p = ctx.write_lines("p.gcode", [ctx.cat(l, "\n") for l in lines])
    sg = ctx.m.state_generator
    got = sg.check_for_unsupported_commands(sg.read_gcode_to_dict_list(p))
    for u in ("G10", "G11", "G28", "G29"):
        if lines[n // 2] == u:
            want[u] = want.get(u, 0) + 1
    ctx.check("exactly the unsupported commands that occur are reported", set(got) == set(want), f"{got} {want}")
    for u in want:
        ctx.check("number of lines with the command", got.get(u) == want[u], f"{u}: {got.get(u)} {want[u]}")
    ctx.reach("reported")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(kinds, nds, **k):
        out.append(Case(" / ".join(f"{a} {n}" for a, n in zip(kinds, nds)) + (" with subcodes" if "sub" in k else ""), report, dict(kinds=kinds, nds=nds, **k), budget=60 if q else 900,
                        strings=True, bounds=("letter G, digits near the known commands, " if k.get("small") else "letters G and M, every digit, ") + "any parameter letter and number",
                        must_reach=(["nothing to report"] if not k.get("small") else []) + (["reported"] if kinds[0] != "comment" or len(kinds) > 1 else []), witness=2))

    for k in ("word", "bare", "comment", "behind", "before", "two", "and comment", "and empty comment", "numbered"):
        for n in (1, 2, 3):
            if q and k == "two" and n > 2:
                continue
            add([k], [n], **({"sub": True} if k in ("word", "bare") else {}))
    for ks, ns in [(["bare", "bare"], [2, 2]), (["bare", "bare", "bare"], [1, 1, 1]), (["bare", "comment", "bare"], [1, 1, 1]),
                   (["bare", "two"], [2, 1]), (["behind", "bare"], [2, 2]), (["bare", "bare"], [3, 2]), (["numbered", "bare"], [2, 1]),
                   (["bare"] * 4, [1, 1, 1, 1])]:
        add(ks, ns, small=q or len(ks) > 2)
    for n, step in ((30, 1), (120, 7), (700, 11)):
        out.append(Case(f"{n} lines", many, dict(n=n, step=step), budget=60 if q else 300, strings=True, bounds=f"fixed program of {n} lines with one symbolic command", must_reach=["reported"], witness=2))
    return out
