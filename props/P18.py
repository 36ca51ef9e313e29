from props.plan import *


def layout_text(ctx, layout, dwells, tag=""):
    """layout: words 'm:<dir>[:feed]', 'p' / 's' dwell in ms / s, 'mp:<dir>' move and dwell on one line, 'ps' P and S"""
    p = [0, 0, 0, 0]
    lines, groups = [], []
    k = 0

    def run_to(q):
        if groups and groups[-1][0] == "run":
            groups[-1] = ("run", list(q))
        else:
            groups.append(("run", list(q)))

    def rest(w, q):
        if groups and groups[-1][0] == "dwell":
            groups[-1] = ("dwell", groups[-1][1] + w, list(q))
        else:
            groups.append(("dwell", w, list(q)))

    for i, word in enumerate(layout):
        parts = word.split(":")
        if parts[0] in ("m", "mp"):
            d = DIRS[parts[1]]
            length = dwells["lens"][i]
            q = add(p, d, length, 0)
            kw = {c: q[a] for a, c in enumerate("XYZ") if d[a] != 0}
            if len(parts) > 2:
                kw["F"] = float(parts[2]) * 60
            t = move(ctx, **kw)
            p = q
            run_to(p)
            if parts[0] == "mp":
                w = dwells["w"][k]
                k += 1
                t += " G4 P" + ctx.lit(w * 1000)
                rest(w, p)
            lines.append(t)
        elif parts[0] == "e":
            p = [p[0], p[1], p[2], p[3] + dwells["lens"][i]]
            lines.append(move(ctx, E=p[3]))
            run_to(p)
        elif parts[0] in ("p", "s"):
            w = dwells["w"][k]
            k += 1
            lines.append("G4 P" + ctx.lit(w * 1000) if parts[0] == "p" else "G4 S" + ctx.lit(w))
            rest(w, p)
        else:
            lines.append(word)
    return lines, groups


def inputs(ctx, layout, lens, wname="w", wmax=20000):
    n = sum(w.split(":")[0] in ("p", "s", "mp") for w in layout)
    L = []
    for i, w in enumerate(layout):
        if w.split(":")[0] in ("m", "mp", "e"):
            fix = lens[i] if lens is not None else None
            L.append(fix if fix is not None else ctx.real(f"d{i}", F(1, 100), 200))
        else:
            L.append(None)
    return dict(lens=L, w=[ctx.real(f"{wname}{i}", 0, wmax) for i in range(n)])


def is_rest(s):
    return all(bool(x == 0) for x in v4(s.vel_begin) + v4(s.vel_end))


def check_groups(ctx, sim, groups):
    ss = segs(sim)
    got = []
    for s in ss:
        k = "dwell" if is_rest(s) else "run"
        if got and got[-1][0] == k:
            got[-1][1].append(s)
        else:
            got.append((k, [s]))
    ctx.check("moves and dwells in the programmed order", [g[0] for g in got] == [g[0] for g in groups],
              f"{[g[0] for g in got]} expected {[g[0] for g in groups]}")
    if [g[0] for g in got] != [g[0] for g in groups]:
        return
    ctx.eq("time starts at zero", ss[0].t_begin, 0, 1e-9)
    for (k, sl), g in zip(got, groups):
        if k == "dwell":
            ctx.eq("holds for exactly the dwell time", sum(s.t_end - s.t_begin for s in sl), g[1], 1e-6)
            for s in sl:
                ctx.close_vec("keeps position and extrusion", v4(s.pos_begin) + v4(s.pos_end), g[2] + g[2], 1e-6)
        else:
            ctx.close_vec("moves start from rest", v4(sl[0].vel_begin), [0] * 4, 1e-6)
            ctx.close_vec("arrives at its target", v4(sl[-1].pos_end), g[1], 1e-6)
    for i, (k, sl) in enumerate(got):
        if k == "run" and i + 1 < len(got):
            ctx.close_vec("comes to rest before the dwell", v4(sl[-1].vel_end), [0] * 4, 1e-6)
    for a, b in zip(ss, ss[1:]):
        ctx.eq("no gap in time", a.t_end, b.t_begin, 1e-7)
    ctx.reach("dwelled")


def query(ctx, fw, layout, lens):
    """position and velocity reported inside the dwell"""
    inp = inputs(ctx, layout, lens, wmax=100)
    lines, groups = layout_text(ctx, layout, inp)
    sim = run(ctx, fw, lines)
    ss = [s for s in segs(sim) if is_rest(s)]
    ctx.check("dwells are simulated", len(ss) == len(inp["w"]))
    t = ctx.real("t", 0, 300)
    want = [g for g in groups if g[0] == "dwell"]
    for i, s in enumerate(ss):
        if t > s.t_begin and t < s.t_end:
            vel, pos = sim.get_values(t)
            ctx.close_vec("stands still inside the dwell", vel, [0] * 4, 1e-9)
            ctx.close_vec("position held inside the dwell", pos, v4(s.pos_begin), 1e-9)
            ctx.reach("inside")
            return


def delay(ctx, fw, layout, lens, change):
    """a longer dwell delays everything behind it and nothing else"""
    a = inputs(ctx, layout, lens)
    b = dict(a, w=list(a["w"]))
    b["w"][change] = ctx.real("other", 0, 20000)
    d = b["w"][change] - a["w"][change]
    l1, _ = layout_text(ctx, layout, a)
    l2, _ = layout_text(ctx, layout, b)
    s1, s2 = segs(run(ctx, fw, l1)), segs(run(ctx, fw, l2, ))
    ctx.check("same number of segments", len(s1) == len(s2))
    if len(s1) != len(s2):
        return
    seen = 0
    off = 0
    for x, y in zip(s1, s2):
        ctx.close_vec("same positions", v4(x.pos_begin) + v4(x.pos_end), v4(y.pos_begin) + v4(y.pos_end), 1e-6)
        ctx.close_vec("same velocities", v4(x.vel_begin) + v4(x.vel_end), v4(y.vel_begin) + v4(y.vel_end), 1e-6)
        ctx.eq("begin delayed by the earlier dwells only", y.t_begin - x.t_begin, off, 1e-6)
        if is_rest(x):
            if seen == change:
                off = d
            seen += 1
        ctx.eq("end delayed by the dwells so far", y.t_end - x.t_end, off, 1e-6)
    ctx.reach("dwelled")


def cases(tier):
    q = tier == "quick"
    b = 40 if q else 500
    H = [
        ("between collinear moves", "marlin_jd", ["m:+x:100", "p", "m:+x:60"], None),
        ("between collinear moves in seconds", "klipper", ["m:34:100", "s", "m:34"], None),
        ("first, then two moves", "marlin_jerk", ["p", "m:+x:80", "m:+x"], None),
        ("first, consecutive", "MKA", ["s", "p", "m:-y:80"], None),
        ("consecutive in the middle", "marlin_jd", ["m:122:50", "p", "s", "; text", "p", "m:122"], None),
        ("at the end", "marlin_jerk", ["m:+x:100", "m:+x:100", "p"], None),
        ("at the end, consecutive", None, ["m:+z:10", "p", "p"], None),
        ("on the line of a move", "marlin_jd", ["m:+x:100", "mp:+x", "m:+x"], [30.0, None, 30.0]),
        ("on the line of the first move", "klipper", ["mp:34:100", "m:34"], None),
        ("on the line of the last move", "MKA", ["m:34:100", "mp:34"], None),
        ("after extrusion only", "marlin_jerk", ["m:+x:100", "e", "p", "m:+x"], [30.0, None, None, None]),
        ("around a short move", "marlin_jd", ["p", "m:+y:200", "p"], None),
        ("only dwells", "marlin_jd", ["p", "s"], None),
        ("two corners", "marlin_jd", ["m:+x:100", "p", "m:724", "p", "m:+x"], [30.0, None, None, None, 5.0]),
        ("long run before", "marlin_jd", ["m:+x:100", "m:+x", "m:+x", "p"], [1.0, 0.5, None, None]),
    ]
    out = []
    W = ["m:+x:100", "p", "m:34:60", "; a", "m:-x", "s", "p", "e", "m:122:40", "G91", "G90", "p", "m:-z", "mp:+y:80", "s", "m:-y"]
    for n, fw in ((3, "marlin_jerk"), (6, None)):
        H.append((f"in {16 * n} lines", fw, W * n, [20.0 if w[:2] in ("m:", "mp") else 2.0 for w in W * n]))
    for name, fw, lay, lens in H:
        out.append(Case(f"dwell {name}", hold_mixed, dict(fw=fw, layout=lay, lens=lens), budget=b,
                        bounds=f"{lay}, firmware {fw}: any dwell times in [0,20000] s, lengths in [0.01,200] mm where not fixed",
                        must_reach=["dwelled"]))
    out.append(Case("any settings", hold_sym, dict(fw="marlin_jerk", layout=["m:+x:100", "p", "m:+x"]), budget=b,
                    bounds="any acceleration and jerk, one long first move"))
    out.append(Case("query inside", query, dict(fw="marlin_jd", layout=["m:+x:100", "p", "m:-x", "s", "m:+y"], lens=[20.0, None, 20.0, None, 20.0]),
                    budget=b, bounds="any query time, any dwell times", must_reach=["inside"]))
    D = [("middle", "marlin_jd", ["m:+x:100", "p", "m:+x", "s", "m:+y"], [20.0, None, 5.0, None, 20.0], 0),
         ("second", "marlin_jerk", ["m:+x:100", "p", "m:+x", "s", "m:+y"], [20.0, None, 5.0, None, 20.0], 1),
         ("first", "klipper", ["p", "m:34:100", "m:34"], [None, 20.0, 0.5], 0),
         ("same line", "MKA", ["m:34:100", "mp:34", "m:34"], [20.0, 1.0, 20.0], 0)]
    for name, fw, lay, lens, ch in D:
        out.append(Case(f"delay {name}", delay, dict(fw=fw, layout=lay, lens=lens, change=ch), budget=b,
                        bounds=f"{lay}, any two dwell times", must_reach=["dwelled"]))
    return out


def hold_mixed(ctx, fw, layout, lens):
    inp = inputs(ctx, layout, lens)
    lines, groups = layout_text(ctx, layout, inp)
    sim = run(ctx, fw, lines)
    check_groups(ctx, sim, groups)
    ctx.observe("t_end", segs(sim)[-1].t_end)


def hold_sym(ctx, fw, layout):
    inp = dict(lens=[500.0, None, ctx.real("d", F(1, 100), 200)], w=[ctx.real("w0", 0, 20000)])
    lines, groups = layout_text(ctx, layout, inp)
    sim = run(ctx, fw, lines, acc=ctx.real("acc", 50, 5000), jerk=ctx.real("jerk", 0, 50))
    check_groups(ctx, sim, groups)
