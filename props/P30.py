"""The plotting back ends are recorders: what the plots hand to matplotlib / pyvista is compared with the trajectory."""
from symx import loader

from props.P12 import expected, near
from props.plan import *

IDX = {"x": 0, "y": 1, "z": 2, "e": 3}


def log():
    return loader.Recorder.log


def plotted(entries):
    """(times, values, keywords, axes) of each .plot call"""
    out = []
    for name, a, k in entries:
        if name.endswith(".plot"):
            out.append((list(k.get("x", a[0] if a else ())), list(k.get("y", a[1] if len(a) > 1 else ())), k, name[:-5]))
    return out


def any_of(ctx, label, got, allowed, tol=1e-6):
    if len(allowed) == 1:
        ctx.close_vec(label, got, allowed[0], tol)
        return
    r = False
    for o in allowed:
        r2 = near(ctx, got, o, tol)
        r = True if r is True or r2 is True else r2 if r is False else r if r2 is False else r | r2
    ctx.check(label, r)


def vel_plot(ctx, fw, axis, steps, blocks=True, segments=False, jv=False, **k):
    lines, pts, vs = program(ctx, fw, k.pop("dirs"), **k)
    sim = run(ctx, fw, lines)
    ss = segs(sim)
    end = ss[-1].t_end
    n0 = len(log())
    sim.plot_vel(axis=axis, show=False, time_steps=steps, show_planner_blocks=blocks, show_segments=segments, show_jv=jv)
    new = log()[n0:]
    curves = plotted(new)
    if steps == "constrained":
        want_t = [0] + [s.t_end for s in ss]
    else:
        want_t = [i * end / steps for i in range(steps)]
    vels = [c for c in curves if c[2].get("label") in IDX]
    absv = [c for c in curves if c[2].get("label") == "abs"]
    poss = [c for c in curves if c[2].get("label") is None]
    ctx.check("one velocity curve per axis", [c[2]["label"] for c in vels] == list(axis))
    ctx.check("one position curve per axis", len(poss) == len(axis))
    ctx.check("one absolute velocity curve", len(absv) == 1)
    ctx.check("velocities and positions on axes of their own", not {c[3] for c in poss} & {c[3] for c in vels + absv})
    for c in curves:
        ctx.check("a value for each instant", len(c[0]) == len(want_t) and len(c[1]) == len(want_t))
        ctx.close_vec("instants", c[0], want_t, 1e-9)
    for i, t in enumerate(want_t):
        pos, ok = expected(ctx, ss, t)
        for a, c in zip(axis, poss):
            ctx.eq("plotted position is the trajectory's", c[1][i], pos[IDX[a]], tol=1e-6)
        if vels:
            any_of(ctx, "plotted velocity is the trajectory's", [c[1][i] for c in vels],
                   [[o[IDX[a]] for a in axis] for o in ok])
        g = absv[0][1][i]
        ctx.le("absolute velocity is not negative", -g, 0, tol=1e-9)
        any_of(ctx, "plotted absolute velocity is the length of the velocity", [g * g],
               [[o[0] * o[0] + o[1] * o[1] + o[2] * o[2]] for o in ok], 1e-5)
    sc = [(kw.get("x", a[0] if a else None), kw.get("y", a[1] if len(a) > 1 else None)) for name, a, kw in new if name.endswith(".scatter")]
    if jv:
        ctx.check("markers of the junction speed and its components for every block", len(sc) == len(sim.blocklist) * (1 + len(axis)))
        for i, blk in enumerate(sim.blocklist):
            mine = sc[i * (1 + len(axis)):(i + 1) * (1 + len(axis))]
            g = blk.get_segments()[-1]
            for x, y in mine:
                ctx.eq("junction markers at the end of the block", x, g.t_end, 1e-9)
            w = v4(g.vel_end) if jv == "reached" else list(blk.JD)
            if blk.state_B.pause is not None:
                w = [0, 0, 0, 0]  # stops
            ctx.le("junction speed is not negative", -mine[0][1], 0, 1e-9)
            ctx.eq("marker of the junction speed", mine[0][1] * mine[0][1], w[0] * w[0] + w[1] * w[1] + w[2] * w[2], 1e-5)
            for a, (x, y) in zip(axis, mine[1:]):
                ctx.eq("marker of the component of the junction speed", y, w[IDX[a]], 1e-6)
    else:
        ctx.check("no junction markers unless asked for", not sc)
    vl = [kw.get("x", a[0] if a else None) for name, a, kw in new if name.endswith(".axvline")]
    want = []
    for b in sim.blocklist:
        if blocks:
            want.append(b.get_segments()[-1].t_end)
        if segments:
            want += [s.t_end for s in b.get_segments()]
    ctx.check("number of marked instants", len(vl) == len(want))
    ctx.close_vec("blocks and segments marked at their ends", vl, want, 1e-9)
    ctx.reach("done")


def runs(ss, only):
    """maximal runs of consecutive (extruding) segments: [(points, speeds)]"""
    out, cur = [], None
    for s in ss:
        a, b = v4(s.pos_begin), v4(s.pos_end)
        take = True if not only else bool(b[3] > a[3])
        if take:
            if cur is None:
                cur = ([a[:3]], [v4(s.vel_begin)[:3]])
                out.append(cur)
            cur[0].append(b[:3])
            cur[1].append(v4(s.vel_end)[:3])
        else:
            cur = None
    return out


def mesh_plot(ctx, fw, only, reuse=False, files=False, **k):
    lines, pts, vs = program(ctx, fw, k.pop("dirs"), **k)
    sim = run(ctx, fw, lines)
    ss = segs(sim)
    n0 = len(log())
    mesh = sim.plot_3d(extrusion_only=only, **(dict(vtk_path="o.vtk", screenshot_path="o.png") if files else {}))
    new = log()[n0:]
    want = runs(ss, only)
    lf = [a[0] if a else kw.get("points") for name, a, kw in new if name.endswith(".lines_from_points")]
    vals = [a for name, a, kw in new if name.endswith("[]=")]
    ctx.check("one polyline per run of consecutive extruding segments", len(lf) == len(want))
    ctx.check("one velocity array per polyline", len(vals) == len(want))
    ctx.check("each polyline is part of the mesh", len([1 for n, a, kw in new if n.endswith("MultiBlock()#1.append") or n.endswith(".append")]) == len(want))
    for pl, vv, (p, v) in zip(lf, vals, want):
        pl = [list(r) for r in pl]
        ctx.check("points of a polyline", len(pl) == len(p))
        for g, w in zip(pl, p):
            ctx.close_vec("polyline joins the segments' ends", g, w, 1e-6)
        ctx.check("velocity array is called velocity", vv[-2] == "velocity")
        got = list(vv[-1])
        ctx.check("a speed for each point", len(got) == len(p))
        for g, w in zip(got, v):
            ctx.le("speeds are not negative", -g, 0, tol=1e-9)
            ctx.eq("speed at the point", g * g, sum(x * x for x in w), tol=1e-5)
    shown = [a for n, a, kw in new if n.endswith(".add_mesh")]
    ctx.check("the mesh is what is plotted", len(shown) == 1 and shown[0][0] is mesh)
    if files:
        sv = [(a, kw) for n, a, kw in new if n.endswith(".save")]
        ctx.check("the vtk file goes where it should", len(sv) == 1 and "o.vtk" in [str(x) for x in list(sv[0][0]) + list(sv[0][1].values())])
    if reuse:
        n1 = len(log())
        again = sim.plot_3d(mesh=mesh)
        new = log()[n1:]
        ctx.check("a given mesh is plotted as it is", again is mesh and not [1 for n, a, kw in new if n.endswith(".lines_from_points")])
        shown = [a for n, a, kw in new if n.endswith(".add_mesh")]
        ctx.check("the given mesh is what is plotted", len(shown) == 1 and shown[0][0] is mesh)
    ctx.check("plotting leaves the trajectory alone", all(a is b for a, b in zip(ss, segs(sim))))
    ctx.observe("runs", len(want))
    ctx.reach(f"{min(len(want), 3)} runs")
    ctx.reach("plotted")


def plane_plot(ctx, fw, colvar, points=False, show=False, save=True, res=1000, **k):
    """the two-dimensional plot: what is drawn is the trajectory seen from above, coloured by its speed"""
    lines, pts, vs = program(ctx, fw, k.pop("dirs"), **k)
    sim = run(ctx, fw, lines)
    ss = segs(sim)
    n0 = len(log())
    kw = dict(filepath="o 2d.png") if save else dict(filepath=False)
    sim.plot_2d_position(colvar=colvar, show_points=points, show=show, colvar_spatial_resolution=res, **kw)
    new = log()[n0:]
    verts = [v4(ss[0].pos_begin)[:2]] + [v4(s.pos_end)[:2] for s in ss]
    sq = [sum(x * x for x in v4(v)[:3]) for v in [ss[0].vel_begin] + [s.vel_end for s in ss]]
    lc = [(a, kw) for n, a, kw in new if n.endswith("LineCollection")]
    curves = plotted(new)
    if colvar == "Velocity":
        ctx.check("one coloured line", len(lc) == 1 and not curves)
        pairs = [[list(q) for q in pr] for pr in lc[0][0][0]]
        col = [list(a[0]) for n, a, kw in new if n.endswith(".set_array")]
        ctx.check("one colour array", len(col) == 1)
        col = col[0]
        ctx.check("a colour for every piece", len(pairs) <= len(col) <= len(pairs) + 1)
        for a, b in zip(pairs, pairs[1:]):
            ctx.close_vec("the line is not interrupted", a[1], b[0], 1e-9)
        chain = [pairs[0][0]] + [pr[1] for pr in pairs]
        ctx.close_vec("begins where the trajectory begins", chain[0], verts[0], 1e-9)
        ctx.close_vec("ends where the trajectory ends", chain[-1], verts[-1], 1e-9)
        # vertices of the trajectory in the line, in order; everything between two of them lies on their segment
        i = 0
        for n, (q, c) in enumerate(zip(verts, sq)):
            j = i
            while j < len(chain) and not bool(near(ctx, chain[j] + [col[j] * col[j] if j < len(col) else c], q + [c], 1e-6)):
                j += 1
            ctx.check("every vertex is drawn, coloured by its speed", j < len(chain))
            if j >= len(chain):
                return
            if n:
                p0, q0 = verts[n - 1], q
                d = [b - a for a, b in zip(p0, q0)]
                for x in chain[i:j]:
                    r = [b - a for a, b in zip(p0, x)]
                    ctx.eq("the line follows the segment", r[0] * d[1] - r[1] * d[0], 0, 1e-4)
                    f = r[0] * d[0] + r[1] * d[1]
                    ctx.le("the line follows the segment", -f, 0, 1e-4)
                    ctx.le("the line follows the segment", f, d[0] * d[0] + d[1] * d[1], 1e-4)
            i = j
        for c in col:
            ctx.le("speeds are not negative", -c, 0, tol=1e-9)
        ctx.check("the line is drawn", len([1 for n, a, kw in new if n.endswith(".add_collection")]) == 1)
    else:
        ctx.check("one plain line", len(curves) == 1 and not lc)
        ctx.check("one point per vertex", len(curves[0][0]) == len(curves[0][1]) == len(verts))
        for x, y, q in zip(curves[0][0], curves[0][1], verts):
            ctx.close_vec("the line joins the ends of the segments", [x, y], q, 1e-9)
    sc = [(n, a, kw) for n, a, kw in new if n.endswith(".scatter")]
    ctx.check("no points unless asked for", len(sc) == (len(sim.blocklist) if points else 0))
    for (n, a, kw), b in zip(sc, sim.blocklist):
        ctx.close_vec("points at the targets of the moves", list(a[:2]), v4(b.get_segments()[-1].pos_end)[:2], 1e-9)
        ctx.check("points are drawn into axes", not n.endswith("figure().scatter"))
    sv = [str(kw.get("fname", a[0] if a else None)) for n, a, kw in new if n.endswith(".savefig")]
    ctx.check("saved where told", sv == (["o 2d.png"] if save else []))
    ctx.check("shown if told", len([1 for n, a, kw in new if n.endswith(".show")]) == (1 if show else 0))
    ctx.check("plotting leaves the trajectory alone", all(a is b for a, b in zip(ss, segs(sim))))
    ctx.reach("done")


X2 = dict(dirs=["+x", "+y"], lens=[20.0, None], feeds=[50, 20], extr=[0.5, 0])
MIX = dict(dirs=["+x", "724", "E", "34", "-34"], lens=[20.0, 24.0, 2.0, 8.0, None], feeds=[50, 80, 10, 60, 40], extr=[1.0, 0, 0, 2.0, 0])
TRA = dict(dirs=["+x", "724", "+x"], lens=[8.0, 24.0, None], feeds=[50, 80, 40], extr=[0, 1.0, 0.5])
RET = dict(dirs=["+x", "R", "+y", "E", "+x"], lens=[10.0, 2.0, None, 2.0, 12.0], feeds=[50, 20, 120, 20, 50], extr=[1.0, 0, 0, 0, 1.0])
DWE = dict(dirs=["34", "34", "+z"], lens=[10.0, 6.0, None], feeds=[50, 50, 20], extr=[1.0, 1.0, 0], extra={0: ["G4 P100"], 1: ["G4 P300"], 3: ["G4 S1"]})
SYME = dict(dirs=["+x", "+x", "+y"], lens=[10.0, 20.0, 15.0], feeds=[50, 80, 30], extr=["e0", "e1", 1.0])
ALLT = dict(dirs=["34", "R"], lens=[None, 1.0], feeds=[30, 10], extr=[0, 0])


def sym_extr(ctx, **k):
    k["extr"] = [ctx.real(x, -5, 5) if isinstance(x, str) else x for x in k["extr"]]
    return mesh_plot(ctx, **k)


def cases(tier):
    q = tier == "quick"
    b = 40 if q else 400
    out = []
    B = "one symbolic move length (or extrusion amounts), other numbers fixed"

    def add(name, fn, reach, **p):
        out.append(Case(name, fn, p, budget=b, bounds=B, must_reach=list(reach), witness=2))

    def cheap(fw, k):
        """junction speeds that depend on a symbolic length are left to the other firmwares in the quick tier: here the
        symbolic move starts from rest"""
        if q and fw in ("marlin_jd", "klipper", "MKA") and None in k["lens"]:
            n = len(k["dirs"]) - 1
            k = dict(k, lens=[x or 12.0 for x in k["lens"][:n]] + [None], extra={**k.get("extra", {}), n: ["G4 P20"]})
        return k

    fws = ["marlin_jd", "klipper", "marlin_jerk", "MKA", None]
    A = ("x", "y", "z", "e")
    for i, fw in enumerate(fws):
        add(f"velocity plot at segment ends {fw}", vel_plot, ["done"], fw=fw, axis=A, steps="constrained", segments=i % 2 == 0,
            blocks=i % 3 != 2, **cheap(fw, [X2, DWE, RET, MIX, X2][i]))
        add(f"velocity plot at even steps {fw}", vel_plot, ["done"], fw=fw, axis=[A, ("e",), ("z", "x"), A, ("y",)][i],
            steps=[5, 7, 4, 6, 1][i], **cheap(fw, [dict(DWE, lens=[10.0, 6.0, 5.0]) if q else DWE, dict(MIX, lens=[20.0, 25.0, 2.0, 8.0, 8.0]) if q else MIX, X2, TRA, X2][i]))
    LONG = dict(dirs=["+z", "122", "-212", "E", "724"], lens=[200.0, 300.0, 300.0, 20.0, 250.0], feeds=[20, 60, 50, 5, 60], extr=[0, 1.0, 2.0, 0, 0])
    for i, fw in enumerate(fws):
        add(f"junction speeds {fw}", vel_plot, ["done"], fw=fw, axis=[A, ("z",), (), ("e", "x"), A][i], steps="constrained", jv="planned" if fw == "marlin_jerk" else "reached", **LONG)
    M24 = dict(dirs=MANY, lens=[20.0 + i for i in range(23)] + [None], feeds=MANY_F, extr=[(0 if i % 5 == 2 else 0.5) if d not in "ER" else 0 for i, d in enumerate(MANY)])
    add("velocity plot of 24 moves", vel_plot, ["done"], fw=None, axis=A, steps="constrained", segments=True, blocks=True, extra={5: ["G4 P100"]}, **M24)
    add("velocity plot of 24 moves at even steps", vel_plot, ["done"], fw=None, axis=A, steps=150, **dict(M24, lens=[20.0] * 24))
    add("mesh of 24 moves, extruding", mesh_plot, ["plotted"], fw=None, only=True, **M24)
    add("mesh of 24 moves", mesh_plot, ["1 runs"], fw="marlin_jerk", only=False, **M24)
    add("plane of 24 moves", plane_plot, ["done"], fw=None, colvar="Velocity", show=True, save=True, points=True, **dict(M24, lens=[20.0 + i % 7 for i in range(24)]))
    add("junction speeds, dwells", vel_plot, ["done"], fw="marlin_jd", axis=A, steps="constrained", jv="planned", extra={0: ["G4 P20"], 2: ["G4 S1"]}, **dict(LONG, lens=[None] + LONG["lens"][1:]))
    add("junction speeds, any length", vel_plot, ["done"], fw="marlin_jerk", axis=A, steps="constrained", jv="planned", **X2)
    add("velocity plot without axis", vel_plot, ["done"], fw="marlin_jd", axis=(), steps="constrained", **cheap("marlin_jd", X2))
    for i, fw in enumerate(fws):
        for nm, kk, r in (("travels and primes", MIX, "2 runs"), ("travel first", TRA, "1 runs"), ("retraction", RET, "2 runs"),
                          ("dwells", DWE, "2 runs"), ("nothing extruded", ALLT, "0 runs")):
            if q and (len(nm) + i) % 2:
                continue
            add(f"mesh of extruding segments, {nm} {fw}", mesh_plot, [r] if r == "0 runs" else ["plotted"], fw=fw, only=True, files=i == 0, **cheap(fw, kk))
        add(f"mesh of all segments {fw}", mesh_plot, ["1 runs"], fw=fw, only=False, reuse=i < 2, **cheap(fw, [MIX, TRA, RET, DWE, ALLT][i]))
    XY = dict(dirs=["34", "+x", "-34"], lens=[20.0, 15.0, None], feeds=[50, 80, 30])
    for i, fw in enumerate(fws):
        add(f"plane, coloured {fw}", plane_plot, ["done"], fw=fw, colvar="Velocity", show=i % 2 == 0, save=i != 3, points=i % 2 == 1, **cheap(fw, [XY, X2, RET, DWE, XY][i]))
        add(f"plane, plain {fw}", plane_plot, ["done"], fw=fw, colvar="Acceleration", show=i % 2 == 1, save=i != 2, points=i % 2 == 0, **cheap(fw, [DWE, XY, MIX, RET, X2][i]))
    add("plane, fine colours", plane_plot, ["done"], fw="marlin_jerk", colvar="Velocity", res=1.5, dirs=["34", "+y"], lens=[7.0, 5.0], feeds=[40, 20])
    add("mesh, any extrusion amounts", sym_extr, ["1 runs"], fw="marlin_jd", only=True, **SYME)
    add("mesh, any extrusion amounts klipper", sym_extr, ["1 runs"], fw="klipper", only=True, reuse=True, **dict(SYME, extr=["e0", 0, "e1"]))
    return out
