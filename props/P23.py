from props.plan import *

M = F(1, 1000)
# directions nearly parallel to a face: 2n/(1+n^2), (n^2-1)/(1+n^2)
N = 10001
GRAZE = {"graze": (F(N * N - 1, N * N + 1), F(0), F(-2 * N, N * N + 1)), "-graze": (F(0), F(1 - N * N, N * N + 1), F(2 * N, N * N + 1))}


def crossings(ctx, pts, lo, hi):
    """(move, parameter, entering) for every face that a move passes through, away from edges and end points by M"""
    out = []
    for i, (a, b) in enumerate(zip(pts, pts[1:])):
        for k in range(3):
            if isinstance(b[k] - a[k], (int, float, F)) and b[k] == a[k]:
                continue
            for c, outward in ((hi[k], 1), (lo[k], -1)):
                da, db = a[k] - c, b[k] - c
                ctx.assume(abs(da) >= M)
                ctx.assume(abs(db) >= M)
                if not ((da > 0) != (db > 0)):
                    continue
                f = da / (a[k] - b[k])
                inside = True
                for j in range(3):
                    if j == k:
                        continue
                    x = a[j] + f * (b[j] - a[j])
                    ctx.assume(abs(x - lo[j]) >= M)
                    ctx.assume(abs(x - hi[j]) >= M)
                    if x < lo[j] or x > hi[j]:
                        inside = False
                        break
                if inside:
                    out.append([i, f, (db > 0) != (outward > 0), k, c])
    # in the order of travel
    res = []
    for x in out:
        p = len(res)
        while p > 0 and res[p - 1][0] == x[0] and res[p - 1][1] > x[1]:
            p -= 1
        res.insert(p, x)
    return res


def box(ctx, spec):
    o, s = [], []
    for k in range(3):
        a, b = spec[k]
        o.append(ctx.real(f"o{k}", a[0], a[1]) if isinstance(a, tuple) else a)
        s.append(ctx.real(f"s{k}", b[0], b[1]) if isinstance(b, tuple) else b)
    return o, s


def submodel(ctx, fw, dirs, lens, spec, feeds=None, extr=None, extra=None, initial=None, kw=None, file=False, rounding=None):
    feeds = feeds or [50.0] + [None] * 10
    L = [ctx.real(f"d{i}", F(1, 10), 200) if x is None else x for i, x in enumerate(list(lens) * (len(dirs) // max(len(lens), 1)))]
    ini = None
    if initial is not None:
        ini = tuple(ctx.real(f"i{k}", -100, 100) if x == "sym" else x for k, x in zip("XYZE", initial))
    dirs = [GRAZE.get(d, d) for d in dirs]
    lines, pts, vs = program(ctx, fw, dirs, lens=L, feeds=feeds, extr=extr, extra=extra, initial=ini)
    o, s = box(ctx, spec)
    lo = [x - y / 2 for x, y in zip(o, s)]
    hi = [x + y / 2 for x, y in zip(o, s)]
    want = crossings(ctx, pts, lo, hi)
    ctx.reach(f"{len(want)} crossings")
    sim = run(ctx, fw, lines, initial=ini)
    path = ctx.path("sub.yaml") if file else None
    if rounding:
        ctx.rounding(**rounding)
    r = ctx.m.tools.write_submodel_times(sim, o, s[0], s[1], s[2], filename=path, **(kw or {}))
    ctx.rounding()
    t_end = segs(sim)[-1].t_end
    for key, want_in in (("time_in", True), ("time_out", False)):
        got = list(r[key])
        exp = [w for w in want if bool(w[2]) == want_in]
        ctx.check(f"{key}: every crossing once", len(got) == len(exp), f"{len(got)} expected {len(exp)}")
        for a, b in zip(got, got[1:]):
            ctx.le(f"{key}: in order", a, b, 1e-9)
        for t, w in zip(got, exp):
            ctx.le(f"{key}: within the print", -t, 0, 1e-9)
            ctx.le(f"{key}: within the print", t, t_end, 1e-6)
            _, pos = sim.get_values(t, "SImm")
            a, b = pts[w[0]], pts[w[0] + 1]
            ctx.close_vec(f"{key}: on the face at that time", list(pos[:3]), [x + w[1] * (y - x) for x, y in zip(a[:3], b[:3])], 1e-5)
    ctx.eq("number of filaments", r["n_filaments"], len(r["time_in"]), 0)
    ctx.eq("process time", r["time_process"], t_end, 1e-9)
    for k, v in (kw or {}).items():
        ctx.check("additional information is kept", r.get(k) == v)
    if file:
        y = ctx.read_yaml(path)
        ctx.check("file has the same entries", set(y) == set(r))
        for key in ("time_in", "time_out"):
            ctx.check("file has the same lists", len(y[key]) == len(r[key]))
            ctx.close_vec("file repeats the times", y[key], r[key], 1e-9)
        ctx.eq("file repeats the process time", y["time_process"], r["time_process"], 1e-9)


def ends_on_face(ctx, fw, d, lens, feed, spec_k):
    """a move that ends on (or, by rounding, next to) a face never aborts the analysis and its time lies within the print"""
    lines, pts, vs = program(ctx, fw, [d], lens=lens, feeds=[feed])
    sim = run(ctx, fw, lines)
    o, s = [0.0, 0.0, 0.0], [1000.0, 1000.0, 1000.0]
    o[spec_k] = pts[1][spec_k] + 5
    s[spec_k] = 10
    ctx.rounding(norm=F(1, 10 ** 15))
    r = ctx.m.tools.write_submodel_times(sim, o, s[0], s[1], s[2], filename=None)
    ctx.rounding()
    t_end = segs(sim)[-1].t_end
    for t in list(r["time_in"]) + list(r["time_out"]):
        ctx.le("within the print", -t, 0, 1e-9)
        ctx.le("within the print", t, t_end, 1e-9)
    ctx.reach("done")


def cases(tier):
    q = tier == "quick"
    b = 50 if q else 500
    R = (-40, 120)
    C = [
        ("straight through one axis", dict(fw=None, dirs=["+x"], lens=[100.0], spec=[(R, (1, 60)), (0.0, 10.0), (0.0, 10.0)]), "2 crossings"),
        ("every face along x", dict(fw=None, dirs=["-x"], lens=[None], spec=[(-50.0, 20.0), ((-9, 9), 6.0), (1.0, (1, 9))]), "2 crossings"),
        ("along y", dict(fw="klipper", dirs=["+y"], lens=[100.0], spec=[(0.0, 10.0), (R, (1, 60)), ((-9, 9), 10.0)]), "2 crossings"),
        ("along z", dict(fw=None, dirs=["-z"], lens=[80.0], feeds=[10.0], spec=[(0.0, 10.0), (2.0, 10.0), ((-90, 20), (1, 60))]), "2 crossings"),
        ("oblique", dict(fw=None, dirs=["34"], lens=[100.0], spec=[((0, 60), 20.0), ((0, 80), 30.0), (0.0, 5.0)]), "2 crossings"),
        ("oblique in space", dict(fw=None, dirs=["122"], lens=[90.0], spec=[((0, 30), 9.0), ((0, 60), 12.0), (30.0, 15.0)]), "2 crossings"),
        ("oblique backwards", dict(fw=None, dirs=["-212"], lens=[90.0], spec=[((-60, 0), 12.0), (15.0, 14.0), ((0, 60), 15.0)]), "2 crossings"),
        ("there and back", dict(fw="marlin_jd", dirs=["+x", "+y", "-x"], lens=[100.0, 3.0, 100.0], spec=[(R, (1, 60)), (1.0, 20.0), (0.0, 10.0)]), "4 crossings"),
        ("starts inside", dict(fw=None, dirs=["34", "-34"], lens=[60.0, 30.0], spec=[(0.0, (2, 40)), (0.0, (2, 40)), (0.0, 4.0)]), "1 crossings"),
        ("turns inside", dict(fw="marlin_jd", dirs=["34", "43"], lens=[50.0, 50.0], spec=[((10, 60), 25.0), (40.0, 25.0), (0.0, 4.0)]), "2 crossings"),
        ("any length", dict(fw=None, dirs=["+x", "+y"], lens=[None, None], spec=[(60.0, 30.0), (20.0, 60.0), (0.0, 4.0)]), "2 crossings"),
        ("ten passes", dict(fw=None, dirs=["+x", "+y", "-x", "+y"] * 5, lens=[60.0, 1.0] * 10, feeds=[50.0] + [None] * 19,
                            spec=[((10, 50), 6.0), (20.0, 60.0), (0.0, 4.0)]), "20 crossings"),
        ("ten passes upwards", dict(fw="marlin_jerk", dirs=["34", "+z", "-x", "-y", "+z"] * 5, lens=[50.0, 1.0, 30.0, 40.0, 1.0], feeds=[50.0, 10.0, 60.0, None, 10.0] * 5,
                                    spec=[((8, 22), 10.0), (20.0, 12.0), (5.0, (1, 8))]), None),
        ("short moves", dict(fw="marlin_jd", dirs=["+x"] * 4, lens=[0.5, 0.4, 0.3, 0.2], feeds=[50.0, None, None, None],
                             spec=[((0, 2), (F(1, 10), 1)), (0.0, 2.0), (0.0, 2.0)]), "2 crossings"),
        ("with retraction and dwell", dict(fw="marlin_jerk", dirs=["+x", "R", "+x", "E", "-x"], lens=[30.0, 2.0, 30.0, 2.0, 60.0], feeds=[50.0, 5.0, 50.0, 5.0, 80.0],
                                          extr=[0.5, 0, 0, 0, 0], extra={2: ["G4 P500"]}, spec=[((0, 60), (1, 40)), (0.0, 4.0), (0.0, 4.0)]), "4 crossings"),
        ("starts elsewhere", dict(fw=None, dirs=["34"], lens=[50.0], initial=["sym", 0.0, "sym", 0.0], spec=[(20.0, 30.0), (20.0, 25.0), (0.0, 20.0)]), "2 crossings"),
        ("grazing", dict(fw=None, dirs=["graze"], lens=[50.0], spec=[(25.0, 100.0), (0.0, 10.0), ((0, 1), 1.0)]), "1 crossings"),
        ("grazing upwards", dict(fw=None, dirs=["-graze"], lens=[50.0], spec=[(0.0, 10.0), (-25.0, 100.0), ((-1, 0), 1.0)]), "1 crossings"),
        ("misses the box", dict(fw="MKA", dirs=["34", "+x"], lens=[50.0, 20.0], spec=[(0.0, 5.0), ((-200, -20), (1, 20)), (0.0, 5.0)]), "0 crossings"),
        ("dwells only", dict(fw=None, dirs=[], lens=[], extra={0: ["G4 S3"]}, spec=[(R, (1, 60)), (0.0, 5.0), (0.0, 5.0)]), "0 crossings"),
        ("file and information", dict(fw=None, dirs=["+x"], lens=[100.0], spec=[(R, 20.0), (0.0, 10.0), (0.0, 10.0)], file=True,
                                      kw=dict(note="text", number=3)), "2 crossings"),
        ("speeds", dict(fw="marlin_jd", dirs=["+x", "+x"], lens=[20.0, 20.0], feeds=[30.0, 90.0], spec=[((0, 40), (1, 30)), (0.0, 2.0), (0.0, 2.0)]), "2 crossings"),
    ]
    if not q:
        C += [("oblique, everything", dict(fw=None, dirs=["122"], lens=[None], spec=[((-60, 60), (1, 40)), ((-60, 60), (1, 40)), ((-60, 60), (1, 40))]), "2 crossings"),
              ("zigzag", dict(fw="klipper", dirs=["+x", "+y", "-x", "+y", "+x"], lens=[50.0, 2.0, 50.0, 2.0, 50.0],
                              spec=[((0, 50), (1, 60)), ((0, 6), (1, 8)), (0.0, 4.0)]), "6 crossings"),
              ("any feed", dict(fw=None, dirs=["+x"], lens=[100.0], feeds=["sym"], spec=[(R, (1, 60)), (0.0, 10.0), (0.0, 10.0)]), "2 crossings")]
    out = []
    for n, k, reach in C:
        if k.get("feeds") == ["sym"]:
            k = dict(k, feeds="sym")
        out.append(Case(n, submodel, k, budget=b, must_reach=[reach] if reach else [], jitter=50,
                        bounds=f"{k['dirs']} lengths {k['lens']} (None: [0.1,200]), box centre and size {k['spec']} (pairs: any value in the "
                               "range); crossings at least 0.001 mm away from edges and from the ends of moves"))
    E = F(1, 10 ** 15)
    for n, k, reach in [
            ("rounded quotients, straight", dict(fw=None, dirs=["+x"], lens=[100.0], spec=[(R, (1, 60)), (0.0, 10.0), (0.0, 10.0)]), "2 crossings"),
            ("rounded quotients, oblique", dict(fw=None, dirs=["34"], lens=[100.0], spec=[((0, 60), 20.0), ((0, 80), 30.0), (0.0, 5.0)]), "2 crossings")]:
        out.append(Case(n, submodel, dict(k, rounding=dict(div=E)), budget=b, must_reach=[reach], jitter=400, soft=True,
                        bounds=f"as the case without rounding, every quotient of symbolic values off by up to 1e-15 relative"))
    for d, lens, kk in (("+x", [None], 0), ("34", [None], 1), ("-z", [None], 2)):
        out.append(Case(f"move {d} ends on a face", ends_on_face, dict(fw=None, d=d, lens=lens, feed=20.0, spec_k=kk), budget=b,
                        must_reach=["done"], jitter=400, soft=True,
                        bounds="one move of any length in [0.001,500] ending on the face of the box; vector norms off by up to 1e-15 relative"))
    return out
