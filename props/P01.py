from props.lines import *


def gaps(ctx, styles):
    n = [0]
    if styles == "free":
        def gap():
            n[0] += 1
            return ctx.choice(f"gap{n[0]}", ["", " "])
    else:
        st = ctx.choice("style", styles)

        def gap():
            n[0] += 1
            return st[(n[0] - 1) % len(st)]
    return gap


STYLES = [("", ""), (" ", ""), (" ", " "), ("", " "), ("  ", ""), (" ", "   ", "", ""), ("\t", ""), ("\t", "\t")]


def single(ctx, cmd, n, styles, follow=("", " "), nz=(0,)):
    """one command with n distinct parameters in any order"""
    b = Builder(ctx)
    parts, eff = word(ctx, b, cmd, n, gaps(ctx, styles), "a", ctx.choice("zeros", list(nz)))
    lead = ctx.choice("lead", ["", " "])
    tail = ctx.choice("tail", list(follow))
    if cmd == "G4":
        ls = [l for l, _ in eff[1]]
    b.end(lead, *parts, tail, effects=[eff])
    b.probe()
    b.compare()


def numbers(ctx, cmd, forms, letters, gap=" "):
    """every digit of the number is symbolic"""
    b = Builder(ctx)
    form = ctx.choice("form", forms)
    t, v = number(ctx, "n", form)
    l = ctx.char("l", letters)
    inner = ctx.choice("inner", ["", " "])
    b.end(cmd, gap, l, inner, t, ctx.choice("tail", ["", " "]), effects=[(cmd, [(l, v)])])
    b.probe()
    b.compare()


def pair(ctx, first, seconds, n=1):
    """two commands on one line keep their own parameters"""
    second = ctx.choice("second", seconds)
    b = Builder(ctx)
    st = ctx.choice("sep", ["", " "])
    k = ctx.choice("zeros", [0, 1])
    p1, e1 = word(ctx, b, first, n if first in LETTERS else 0, lambda: st, "a", k)
    p2, e2 = word(ctx, b, second, n if second in LETTERS else 0, lambda: st, "b")
    b.end(*p1, st, *p2, ctx.choice("tail", ["", " "]), effects=[e1, e2])
    b.probe()
    b.compare()


def three(ctx, cmds):
    b = Builder(ctx)
    parts, effs = [], []
    st = ctx.choice("sep", ["", " "])
    for i, c in enumerate(cmds):
        p, e = word(ctx, b, c, 1 if c in LETTERS else 0, lambda: st, "abc"[i])
        parts += p + [st]
        effs.append(e)
    b.end(*parts, effects=effs)
    b.probe()
    b.compare()


def both_moves(ctx, first, second, n):
    """G0 and G1 on one line, without common parameters"""
    b = Builder(ctx)
    st = ctx.choice("sep", ["", " "])
    p1, e1 = word(ctx, b, first, n, lambda: st, "a")
    p2, e2 = word(ctx, b, second, 1, lambda: st, "b")
    for l, _ in e1[1]:
        ctx.assume(l != e2[1][0][0])
    b.end(*p1, st, *p2, effects=[e1, e2])
    b.probe()
    b.compare()


def wide(ctx, cmds, blank, eol):
    """long lines: wide blanks in every gap, other line ends"""
    b = Builder(ctx)
    b.eol = eol
    b.end("G1" + blank + "X2 Y3", effects=[("G1", [("X", 2), ("Y", 3)])])
    parts, effs = [blank], []
    for i, c in enumerate(cmds):
        p, e = word(ctx, b, c, 2 if c in ("G1", "M203") else 1 if c in LETTERS else 0, lambda: blank, "abcde"[i])
        parts += p + [blank]
        effs.append(e)
    text = "G1 X5 M204 P1 " * 12
    b.end(*parts, ";" + blank, text, effects=effs, comment=text.strip())
    b.probe()
    b.end("", comment=None)
    b.probe()
    b.compare()


def commented(ctx, cmd, n=1):
    """a comment directly behind the parameters"""
    b = Builder(ctx)
    parts, eff = word(ctx, b, cmd, n, lambda: " ", "a")
    c = ctx.char("c", " XG1;")
    b.end(*parts, ctx.choice("sep", ["", " "]), ";", "k", c, "k", effects=[eff], comment=ctx.cat("k", c, "k"))
    b.probe()
    b.compare()


def cases(tier):
    q = tier == "quick"
    out = []
    B = "any order of the parameters, any numbers, spaces in any gap"

    def add(name, fn, bounds=B, budget=60, **p):
        out.append(Case(name, fn, p, budget=budget if q else 900, strings=True, bounds=bounds, must_reach=["done"], witness=2))

    for cmd, ls in LETTERS.items():
        for n in range(0, len(ls) + 1):
            if cmd == "G4" and n > 1:
                continue
            if n > 3 and q:
                continue
            if n > 4 and cmd == "M205":
                continue
            sty = "free" if n <= 1 or (n == 2 and not q) else STYLES
            if n == 3 and q:
                sty = STYLES[:3]
            if n > 3:
                sty = STYLES[:2]
            add(f"{cmd} with {n} parameters", single, cmd=cmd, n=n, styles=sty, nz=(0, 1, 2) if n <= 1 else (0,),
                follow=("", " ") if n <= 2 else ("",))
    if q:
        add("G1 with all parameters", single, cmd="G1", n=5, styles=[(" ", "")], follow=("",))
    for m in MODE_CMDS:
        add(f"{m} alone", single, cmd=m, n=0, styles=STYLES[:1], nz=(0, 1, 2))
    forms = ["d", "dd", "-d", "+d", "d.d", ".d", "-.d", "d.", "-dd.dd", "ddd", "d.ddd"]
    if not q:
        forms += ["dddd.dddd", "-d.ddddd", "+dd.", "ddddd"]
    for cmd in ("G1", "M203", "M204", "M205", "G4", "G92", "G0"):
        f = [x for x in forms if cmd in ("G0", "G1", "G92") or x[0] != "-"]
        add(f"digits of {cmd}", numbers, "number formats " + " ".join(f) + ", every digit", cmd=cmd, forms=f,
            letters=LETTERS[cmd] if cmd not in ("M204", "M205") else {"M204": "PS", "M205": "XJ"}[cmd])
    par = ["M203", "M204", "M205", "G4"]
    for mv in ("G0", "G1"):
        add(f"{mv} before another command", pair, first=mv, seconds=par)
        for c in par:
            add(f"{c} before {mv}", pair, first=c, seconds=[mv])
    for c in par:
        add(f"{c} before another setting", pair, first=c, seconds=[x for x in par if x != c])
    for m in MODE_CMDS:
        add(f"{m} before another command", pair, first=m, seconds=["G0", "G1"] + par)
    add("G4 with G92", pair, first="G4", seconds=["G92"])
    add("G92 with M204", pair, first="G92", seconds=["M204", "M205", "M203", "G4"])
    for t in (["G90", "M83", "G1"], ["M204", "M205", "G1"], ["G91", "M204", "G0"], ["G1", "M203", "G4"]):
        add("three commands " + " ".join(t), three, cmds=t)
    for t in (["G90", "M83", "G1"], ["M204", "M205", "G0"], ["G4"], ["M203", "G92"]):
        for blank in (" ", " " * 300, "\t" * 40):
            for eol in ("\n", "\r\n"):
                add(f"{' '.join(t)} with blanks of {len(blank)}, line end {eol!r}", wide, "any order and numbers", cmds=t, blank=blank, eol=eol)
    for cmd in LETTERS:
        add(f"{cmd} and a comment", commented, cmd=cmd)
    for cmd in MODE_CMDS + ["G92"]:
        add(f"{cmd} without parameters and a comment", commented, cmd=cmd, n=0)
    for a, c in (("G0", "G1"), ("G1", "G0")):
        for n in ((1,) if q else (1, 2)):
            add(f"{n} parameters of {a} and one of {c}", both_moves, first=a, second=c, n=n)
    return out
