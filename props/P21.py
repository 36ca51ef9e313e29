from props.plan import *


def build(ctx, fw, words, lens, cue, feeds, ext=0, dmin=F(1, 100)):
    """words: directions, 'E'/'R' extrusion only, 'p' dwell, 'cue', 'same' (cue on the line of the next move),
    'comment' (a different comment), 'cue?' (cue or not: decided per path)
    -> text, list of motions (layer, travel, kind)"""
    p = [0, 0, 0, 0]
    lines, motions = [], []
    layer = 0
    pend = ""
    k = 0
    first = True
    for i, w in enumerate(words):
        if w == "cue?":
            w = ctx.choice(f"cue{i}", ["cue", "comment"])
        if w == "cue2?":
            w = ctx.choice(f"cue{i}", ["cue", "two"])
        if w in ("cue", "two"):
            for _ in range(1 if w == "cue" else 2):
                lines.append(("; " if i % 2 else ";") + cue)
                layer += 1
        elif w == "comment":
            lines.append("; nothing " + cue)
        elif w == "same":
            pend = " ;" + cue
        elif w == "p":
            lines.append("G4 P" + ctx.lit(ctx.real(f"w{i}", F(1, 100), 20) * 1000) + pend)
            layer += bool(pend)
            pend = ""
            motions.append((layer, 0))
        else:
            length = lens[k] if lens[k] is not None else ctx.real(f"d{i}", dmin, 300)
            v = feeds[k] if feeds[k] is None or not isinstance(feeds[k], str) else ctx.real(f"v{i}", 1, 200)
            k += 1
            kw = {}
            if w in ("E", "R"):
                p = [p[0], p[1], p[2], p[3] + (length if w == "E" else -length)]
                kw["E"] = p[3]
            else:
                p = add(p, DIRS[w], length, ext * length if k % 2 else 0)
                kw = {c: p[a] for a, c in enumerate("XYZ") if DIRS[w][a] != 0}
                if ext:
                    kw["E"] = p[3]
            if v is not None:
                kw["F"] = v * 60
            lines.append(move(ctx, **kw) + pend)
            layer += bool(pend)
            pend = ""
            motions.append((layer, length if w not in ("E", "R") else 0))
    return lines, motions


def metrics(ctx, fw, words, lens, feeds=None, cue="LAYER", csv=False, delim=";", ext=0, dmin=F(1, 100)):
    feeds = feeds or [50.0] + [None] * 20
    lens = list(lens) + [None] * 60
    lines, motions = build(ctx, fw, words, lens, cue, feeds, ext, dmin)
    sim = simulate(ctx, "\n".join(lines) + "\n", machine(ctx, fw, p_acc=1000), layer_cue=cue)
    path = ctx.path("out/m.csv") if csv else None
    r = ctx.m.tools.save_layer_metrics(sim, filepath=path, locale="C", delimiter=delim)
    blocks = list(sim.blocklist)
    ctx.check("one motion per move or dwell", len(blocks) == len(motions), f"{len(blocks)} {len(motions)}")
    begin = [b.get_segments()[0].t_begin for b in blocks]
    t_end = blocks[-1].get_segments()[-1].t_end
    groups = []
    for (layer, d), t in zip(motions, begin):
        if groups and groups[-1][0] == layer:
            groups[-1][2] += d
        else:
            groups.append([layer, t, d])
    want = []
    for i, (layer, t, d) in enumerate(groups):
        te = groups[i + 1][1] if i + 1 < len(groups) else t_end
        want.append((layer, te - t, d))
    rows = [list(x) for x in zip(*r)]
    ctx.check("four columns of equal length", len(r) == 4 and len({len(c) for c in r}) == 1)
    # rows of layers without motion are the empty beginning of the print
    got = [x for x in rows if x[0] in [w[0] for w in want]]
    for x in rows:
        if x not in got:
            ctx.eq("empty row has no time", x[1], 0, 1e-9)
            ctx.eq("empty row has no travel", x[2], 0, 1e-9)
    ctx.check("every layer with motion once and in order", [x[0] for x in got] == [w[0] for w in want],
              f"{[x[0] for x in rows]} expected {[w[0] for w in want]}")
    for x, w in zip(got, want):
        ctx.eq("duration of a layer", x[1], w[1], 1e-6)
        ctx.eq("travel of a layer", x[2], w[2], 1e-6)
        ctx.eq("average speed is travel per time", x[3] * x[1], x[2], 1e-6)
    ctx.eq("durations add up to the total time", sum(x[1] for x in rows), t_end, 1e-6)
    ctx.eq("travels add up to the total travel", sum(x[2] for x in rows), sum(d for _, d in motions), 1e-6)
    ctx.reach(f"{len(got)} layers")
    if csv:
        text = [t for t in ctx.read_text(path).split("\n") if t.strip()]
        ctx.check("csv: header and one line per row", len(text) == len(rows) + 1)
        for t, x in zip(text[1:], rows):
            cells = t.split(delim)
            ctx.check("csv: four cells", len(cells) == 4)
            for c, v in zip(cells, x):
                if isinstance(v, str):
                    ctx.check("csv repeats the returned text", c.strip() == v)
                else:
                    ctx.eq("csv repeats the returned number", ctx.num(c), v, 1e-6)
        ctx.reach("csv")


def no_cue(ctx):
    a = ctx.real("a", 1, 100)
    sim = run(ctx, None, ["; LAYER", "G1 X" + ctx.lit(a) + " F600", ";LAYER", "G1 Y5"])
    ctx.check("nothing without a layer cue", ctx.m.tools.save_layer_metrics(sim, filepath=ctx.path("x.csv"), locale="C") is None)
    ctx.check("no file without a layer cue", ctx.read_text(ctx.path("x.csv")) is None)


def cases(tier):
    q = tier == "quick"
    b = 45 if q else 400
    M = [
        ("cue in any gap", dict(fw=None, words=["cue?", "+x", "cue?", "34", "cue?", "+y", "cue?", "-x"], lens=[20.0, None, 20.0, None]), 4),
        ("cue in any gap, marlin", dict(fw="marlin_jd", words=["cue?", "+x", "cue?", "+x", "cue?", "+x"], lens=[20.0, None, 20.0]), 3),
        ("symbolic feed rates", dict(fw=None, words=["cue", "+x", "cue", "34"], lens=[None, 300.0], feeds=["sym", "sym"]), 2),
        ("several layers in one gap", dict(fw="marlin_jerk", words=["+x", "cue2?", "+y", "cue2?", "-x"], lens=[30.0, None, 30.0]), 3),
        ("cue on the line of a move", dict(fw="klipper", words=["+x", "same", "724", "34", "same", "34"], lens=[30.0, None, 30.0, 5.0]), 3),
        ("extruding moves of any length", dict(fw=None, words=["cue?", "+x", "34", "cue?", "+y", "-x"], lens=[None, 20.0, None, 20.0], feeds=[10.0, 20.0, 10.0, 20.0],
                                               ext=F(1, 20), dmin=F(1, 10000)), 2),
        ("dwells in layers", dict(fw=None, words=["p", "cue?", "+x", "cue?", "p", "+y", "cue?", "p"], lens=[30.0, None]), 4),
        ("dwell carries the cue", dict(fw=None, words=["+x", "same", "p", "+x", "cue", "+y"], lens=[30.0, None, 10.0]), 3),
        ("extrusion only in layers", dict(fw="marlin_jerk", words=["cue", "E", "cue?", "+x", "cue?", "R", "+y"], lens=[None, 30.0, None, 30.0],
                                         feeds=[10.0, 50.0, 10.0, 50.0]), 3),
        ("cue behind the last move", dict(fw=None, words=["cue", "+x", "cue", "+y", "cue"], lens=[None, 30.0]), 2),
        ("no cue in the program", dict(fw="MKA", words=["+x", "34", "comment"], lens=[30.0, None]), 1),
        ("cue before everything", dict(fw="marlin_jd", words=["cue", "cue", "+x", "p"], lens=[None]), 1),
        ("24 moves in 12 layers", dict(fw=None, words=[w for i, m in enumerate(MANY) for w in ((["cue"] if i % 2 == 0 else ["comment"] if i % 3 else ["p"]) + [m])],
                                       lens=[20.0 + i if i != 11 else None for i in range(24)], feeds=MANY_F, csv=True), 12),
        ("60 layers", dict(fw=None, words=["cue", "+x", "cue", "+y", "cue", "-x"] * 20, lens=[20.0] * 30 + [None] + [20.0] * 29, feeds=[50.0, 40.0, 30.0] * 20), 60),
        ("file", dict(fw=None, words=["cue?", "+x", "cue", "34", "cue?", "p"], lens=[None, 20.0], csv=True), 3),
        ("file with other delimiter", dict(fw=None, words=["cue", "+x", "cue", "34"], lens=[20.0, None], csv=True, delim=","), 2),
    ]
    out = []
    for n, k, top in M:
        out.append(Case(n, metrics, k, budget=b, bounds=f"{k['words']}: any lengths in [0.01,300] where not fixed, any dwell times; "
                        "'cue?' = with or without a cue", must_reach=[f"{top} layers"] + (["csv"] if k.get("csv") else [])))
    out.append(Case("cue text is data", metrics, dict(fw=None, words=["cue", "+x", "cue?", "34"], lens=[20.0, None], cue="Z change (1)"), budget=b,
                    bounds="cue text with punctuation"))
    out.append(Case("no layer cue given", no_cue, budget=b, bounds="any move"))
    return out
