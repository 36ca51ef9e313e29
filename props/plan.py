"""Harnesses around the planner: one block between arbitrary entry and exit speeds (inductive step), and short
programs through the complete simulation.  The asserted facts are selected by property."""
from props.common import *


class PrevBlock:
    """stands for everything that happened before: only its last segment is visible to the next block"""

    def __init__(self, seg):
        self.segments = [seg]
        self.next_block = None
        self.prev_block = None

    def get_segments(self):
        return self.segments

    def timeshift(self, delta_t):
        self.segments[0].move_segment_time(delta_t)

    def self_correction(self, *a, **k):
        return False


def settings(ctx, acc, jerk, speed):
    return ctx.m.state.state.p_settings(p_acc=acc, jerk=jerk, vX=180, vY=180, vZ=30, vE=33, speed=speed)


def states(ctx, points, sets):
    m = ctx.m
    out = []
    for p, s in zip(points, sets):
        st = m.state.state(state_position=m.utils.position(*p), state_p_settings=s)
        st.line_number = len(out)
        if out:
            st.prev_state = out[-1]
            out[-1].next_state = st
        out.append(st)
    return out


def add(p, d, length, e):
    return [p[0] + d[0] * length, p[1] + d[1] * length, p[2] + d[2] * length, p[3] + e]


def one_block(ctx, d1, d2, entry, fw="marlin_jd", extr="mix", conc=(), next_move=True, origin=True, lo=F(1, 1000)):
    """a move along d1 with symbolic length/extrusion/feed rate/acceleration, entered with any speed, followed by a
    move along d2; the jerk setting is symbolic, so that the corner speed takes any value up to the feed rate"""
    m = ctx.m
    c = dict(conc)
    acc = c["acc"] if "acc" in c else ctx.real("acc", 10, 10000)
    v = c["v"] if "v" in c else ctx.real("v", F(1, 10), 500)
    jerk = c["jerk"] if "jerk" in c else ctx.real("jerk", 0, 100)
    length = c["len"] if "len" in c else 0 if extr == "only" else ctx.real("len", lo, 1000)
    e = {"none": lambda: 0, "mix": lambda: ctx.real("e", -50, 50),
         "only": lambda: ctx.real("e", F(1, 1000), 50) * ctx.choice("esign", [1, -1])}[extr]()
    p0 = [ctx.real(f"p{a}", -1000, 1000) for a in "xyze"] if origin else [0, 0, 0, 0]
    u = 0
    if entry == "any":
        u = ctx.real("u", 0, 600)
    elif entry == "target":
        u = v
    t0 = ctx.real("t0", 0, 1000) if origin else 0
    p1 = add(p0, d1, length, e)
    p2 = add(p1, d2, 1000, 0)
    sets = [settings(ctx, acc, jerk, v)] * 3
    s0, s1, s2 = states(ctx, [p0, p1, p2], sets)
    if not next_move:
        s1.next_state = None
    vel0 = m.utils.velocity(u, 0, 0, 0)
    if entry == "target":
        vel0 = m.utils.velocity(*[x * u for x in d1], 0)
    pos0 = m.utils.position(*p0)
    seg = m.utils.segment(t_begin=t0, t_end=t0, pos_begin=pos0, vel_begin=vel0, pos_end=pos0, vel_end=vel0)
    prev = PrevBlock(seg)
    b = m.planner_block.planner_block(state=s1, prev_block=prev, firmware=fw)
    ctx.reach("planned")
    return dict(block=b, p0=p0, p1=p1, length=length, e=e, u=u, v=v, acc=acc, t0=t0, eonly=extr == "only", dir=d1,
                jerk=jerk)


# ------------------------------------------------------------------ facts about one move
def line_facts(ctx, p0, p1, ss, tag="", tol=1e-6):
    """P07 for one move: ends, straightness, proportional extrusion, monotonic progress"""
    ctx.close_vec(tag + "starts at the previous target", v4(ss[0].pos_begin), p0, tol)
    ctx.close_vec(tag + "ends at the commanded target", v4(ss[-1].pos_end), p1, tol)
    D = [b - a for a, b in zip(p0, p1)]
    ref = sum(x * x for x in D[:3])
    if not (hasattr(ref, "num") and ref.num.is_zero()) and not (isinstance(ref, (int, float, F)) and ref == 0):
        k = 3
    else:
        k, ref = 4, D[3] * D[3]
    for i, s in enumerate(ss):
        if i:
            ctx.close_vec(f"{tag}contiguous", v4(s.pos_begin), v4(ss[i - 1].pos_end), tol)
        for nm, q in (("begin", s.pos_begin), ("end", s.pos_end)):
            q = v4(q)
            # q = p0 + f*D with 0<=f<=1
            f = sum(D[j] * (q[j] - p0[j]) for j in range(k) if k == 3 or j == 3) / ref
            ctx.le(f"{tag}progress not before the start", -f, 0, tol=1e-9)
            ctx.le(f"{tag}progress not beyond the target", f, 1, tol=1e-9)
            ctx.close_vec(f"{tag}on the straight line / extrusion proportional", q,
                          [a + f * x for a, x in zip(p0, D)], tol)
        for q in (s.vel_begin, s.vel_end):
            q = v4(q)
            along = sum(D[j] * q[j] for j in range(k) if k == 3 or j == 3)
            ctx.le(f"{tag}never moves backwards", -along, 0, tol=1e-9)
            g = along / ref
            ctx.close_vec(f"{tag}velocity along the line", q, [g * x for x in D], tol)


def speed_facts(ctx, ss, v, eonly, tag=""):
    for s in ss:
        for q in (s.vel_begin, s.vel_end):
            ctx.le(tag + "not above the commanded feed rate", speed(q, eonly), v, tol=0, rel=2e-5)


def shape_facts(ctx, ss, v, acc, eonly, tag=""):
    """P09: up, cruise, down with exactly the set acceleration; cruise only at the commanded feed rate"""
    stage = 0
    for s in ss:
        a, b = speed(s.vel_begin, eonly), speed(s.vel_end, eonly)
        dt = s.t_end - s.t_begin
        ctx.le(tag + "time runs forward", 0, dt, tol=1e-9)
        if a < b:
            ctx.check(tag + "no acceleration after cruising or braking", stage == 0)
            ctx.eq(tag + "ramp up at the set acceleration", b - a, acc * dt, tol=1e-6)
        elif a > b:
            stage = 2
            ctx.eq(tag + "ramp down at the set acceleration", a - b, acc * dt, tol=1e-6)
        else:
            if dt > 0:
                ctx.check(tag + "no cruising after braking", stage < 2)
                stage = max(stage, 1)
                ctx.eq(tag + "cruises at the commanded feed rate", a, v, tol=1e-6)


def no_idle(ctx, ss):
    pass


def program(ctx, fw, dirs, extr=None, conc=(), lens=None, final=None, feeds="sym", jerk=10, acc=None, dmin=F(1, 1000),
            units="SImm", initial=None, dwell_at=None, dwell=None, extra=None):
    """G-code text: one absolute move per direction with symbolic length (and feed rate)"""
    p = [0, 0, 0, 0] if initial is None else list(initial)
    pts, lines, vs = [list(p)], [], []
    last_v = None
    for i, d in enumerate(dirs):
        if extra and i in extra:
            lines += extra[i]
        v = None
        if feeds == "sym":
            v = ctx.real(f"v{i}", 1, 300)
        elif feeds == "first":
            v = ctx.real("v0", 1, 300) if i == 0 else None
        elif isinstance(feeds, (list, tuple)):
            v = ctx.real(f"v{i}", 1, 300) if feeds[i] == "sym" else feeds[i]
        length = lens[i] if lens is not None and lens[i] is not None else ctx.real(f"d{i}", dmin, 500)
        e = 0 if extr is None else extr[i]
        kw = {}
        if d == "E":
            kw["E"] = p[3] + length
            p = [p[0], p[1], p[2], p[3] + length]
        elif d == "R":
            kw["E"] = p[3] - length
            p = [p[0], p[1], p[2], p[3] - length]
        else:
            d = DIRS[d] if isinstance(d, str) else d
            q = add(p, d, length, e)
            for a, k in enumerate("XYZ"):
                if not (isinstance(d[a], (int, F)) and d[a] == 0):
                    kw[k] = q[a]
            if extr is not None and not (isinstance(e, (int, float)) and e == 0):
                kw["E"] = q[3]
            p = q
        if v is not None:
            kw["F"] = v * 60
            last_v = v
        vs.append(last_v)
        lines.append(move(ctx, **kw))
        pts.append(list(p))
    if extra and len(dirs) in extra:
        lines += extra[len(dirs)]
    return lines, pts, vs


def run(ctx, fw, lines, acc=None, jerk=10, initial=None, **k):
    mach = machine(ctx, fw, p_acc=acc if acc is not None else 1000, jerk=jerk)
    return simulate(ctx, "\n".join(lines) + "\n", mach, initial=initial, **k)


# ------------------------------------------------------------------ complete programs
def nseg_reach(ctx, sim):
    for b in sim.blocklist:
        ctx.reach(f"{len(b.get_segments())} segments")


def prog(ctx, facts, fw, dirs, acc=1000, jerk=10, feeds="sym", lens=None, extr=None, extra=None, initial=None, dmin=F(1, 1000)):
    """run a program and hand the trajectory to `facts`"""
    a = ctx.real("acc", 50, 5000) if acc == "sym" else acc
    j = ctx.real("jerk", 0, 50) if jerk == "sym" else jerk
    ini = tuple(ctx.real(f"i{k}", -500, 500) for k in "XYZE") if initial == "sym" else initial
    ex = [ctx.real(f"e{i}", -20, 20) if x == "sym" else x for i, x in enumerate(extr)] if extr else None
    lines, pts, vs = program(ctx, fw, dirs, feeds=feeds, lens=lens, extr=ex, extra=extra, initial=ini, dmin=dmin)
    sim = run(ctx, fw, lines, acc=a, jerk=j, initial=ini)
    nseg_reach(ctx, sim)
    facts(ctx, sim=sim, pts=pts, vs=vs, acc=a, dirs=dirs, fw=fw, jerk=j)
    ctx.observe("t_end", segs(sim)[-1].t_end)


def prog_case(facts, name, budget=30, fw="marlin_jd", dirs=(), reach=(), **k):
    nsym = [x for x in ("acc", "jerk") if k.get(x) == "sym"]
    b = (f"{len(dirs)} moves {list(dirs)}, firmware {fw}; symbolic: lengths in [{float(k.get('dmin', 0.001))},500] mm"
         + (", feed rates in [1,300] mm/s" if k.get("feeds", "sym") != "none" else "")
         + (", " + ", ".join(nsym) if nsym else "") + "; other parameters: "
         + ", ".join(f"{a}={v}" for a, v in k.items()))
    return Case(name, prog, dict(facts=facts, fw=fw, dirs=list(dirs), **k), budget=budget, bounds=b,
                must_reach=reach)


def step(ctx, facts, d1, d2, entry="any", fw="marlin_jd", extr="mix", conc=(), next_move=True, origin=True, lo=F(1, 1000)):
    r = one_block(ctx, DIRS[d1], DIRS[d2], entry, fw, extr, conc, next_move, origin, lo)
    ss = r["block"].get_segments()
    ctx.reach(f"{len(ss)} segments")
    facts(ctx, r, ss)
    ctx.observe("t_end", ss[-1].t_end)


def step_case(facts, d1="+x", d2="+x", entry="any", fw="marlin_jd", extr="mix", budget=30, reach=(), **k):
    b = (f"one move along {d1} then {d2}, firmware {fw}, extrusion {extr}, entry speed {entry}: all positions, "
         f"lengths [{float(k.get('lo', 0.001))},1000], speeds [0.1,500], entry speeds [0,600], accelerations [10,10000], jerk [0,100]")
    return Case(f"one move {d1}>{d2} {fw} {extr} entry {entry}" + (" last" if not k.get("next_move", True) else "") + (" tiny" if "lo" in k else ""),
                step, dict(facts=facts, d1=d1, d2=d2, entry=entry, fw=fw, extr=extr, **k), budget=budget, bounds=b,
                must_reach=reach)


STEP_QUICK = [dict(d1="34", d2="-34", fw="marlin_jd", extr="mix", reach=("1 segments", "2 segments", "3 segments")),
              dict(d1="+x", d2="724", fw="klipper", extr="none"),
              dict(d1="+x", d2="+x", fw="marlin_jerk", extr="only"),
              dict(d1="122", d2="+x", fw=None, extr="mix"),
              dict(d1="-z", d2="-z", fw="MKA", extr="none"),
              dict(d1="+x", d2="+x", fw="marlin_jd", extr="mix", next_move=False),
              dict(d1="-212", d2="-212", fw="marlin_jerk", extr="mix")]
STEP_THOROUGH = STEP_QUICK + [
    dict(d1=a, d2=b, fw=f, extr=x, budget=240) for f in FIRMWARES
    for a, b in (("+x", "724"), ("-y", "-y"), ("+z", "-z"), ("34", "+x"), ("5-12", "+y"))
    for x in ("mix", "only")]

PROG_QUICK = [
    dict(name="2 moves none", fw=None, dirs=["34", "-212"], acc="sym", extr=["sym", 0], reach=("2 segments", "3 segments")),
    dict(name="2 moves marlin_jd corner", fw="marlin_jd", dirs=["34", "-34"]),
    dict(name="2 moves marlin_jd straight", fw="marlin_jd", dirs=["34", "34"]),
    dict(name="4 moves marlin_jd straight one feed", fw="marlin_jd", dirs=["34", "34", "34", "34"],
         feeds=[100, None, None, None], budget=40, reach=("1 segments",)),
    dict(name="2 moves marlin_jerk straight", fw="marlin_jerk", dirs=["+x", "+x"]),
    dict(name="2 moves MKA straight", fw="MKA", dirs=["-x", "-x"]),
    dict(name="2 moves klipper corner", fw="klipper", dirs=["+x", "724"]),
    dict(name="move, prime, move marlin_jd", fw="marlin_jd", dirs=["+x", "E", "+x"], feeds=[100, None, 50]),
    dict(name="prime, move MKA", fw="MKA", dirs=["E", "+x"], feeds=[10, 50]),
    dict(name="prime, move klipper", fw="klipper", dirs=["E", "34"], feeds=[10, 50]),
    dict(name="prime, move, retract default", fw=None, dirs=["E", "34", "R"], feeds=[10, 50, 20], lens=[None, 30.0, None]),
    dict(name="move, prime, prime, move MKA", fw="MKA", dirs=["-x", "E", "E", "-x"], feeds=[100, 5, None, 50], lens=[20.0, None, 3.0, 30.0]),
    dict(name="retract, move, prime klipper", fw="klipper", dirs=["R", "724", "E"], feeds=[100, 50, 60], lens=[2.0, None, 3.0]),
    dict(name="move, retract, move marlin_jerk", fw="marlin_jerk", dirs=["+y", "R", "+y"], feeds=[100, 10, None]),
    dict(name="2 moves none with initial position", fw=None, dirs=["122", "R"], initial="sym", feeds=[20, 30]),
]
PROG_THOROUGH = [dict(p, budget=200) for p in PROG_QUICK] + [
    dict(name="2 moves marlin_jd corner all symbolic", fw="marlin_jd", dirs=["34", "-34"], acc="sym", jerk="sym", budget=600),
    dict(name="2 moves marlin_jerk all symbolic", fw="marlin_jerk", dirs=["+x", "+x"], acc="sym", jerk="sym", budget=600),
    dict(name="2 moves klipper all symbolic", fw="klipper", dirs=["34", "-34"], acc="sym", jerk="sym", budget=600),
    dict(name="2 moves MKA all symbolic", fw="MKA", dirs=["+y", "+y"], acc="sym", jerk="sym", budget=600),
    dict(name="3 moves marlin_jd corner", fw="marlin_jd", dirs=["+x", "724", "+x"], feeds=[100, None, None], budget=600),
    dict(name="3 moves marlin_jd symbolic feeds", fw="marlin_jd", dirs=["+x", "+x", "+x"], budget=900),
    dict(name="3 moves klipper one feed", fw="klipper", dirs=["+x", "724", "+x"], feeds=[100, None, None], budget=600),
    dict(name="3 moves MKA one feed", fw="MKA", dirs=["+x", "724", "+x"], feeds=[100, None, None], budget=600),
    dict(name="3 moves marlin_jerk one feed", fw="marlin_jerk", dirs=["+x", "724", "+x"], feeds=[100, None, None], budget=600),
    dict(name="5 moves marlin_jd straight one feed", fw="marlin_jd", dirs=["34"] * 5, feeds=[100] + [None] * 4, budget=600),
    dict(name="6 moves marlin_jd straight one feed", fw="marlin_jd", dirs=["34"] * 6, feeds=[100] + [None] * 5, budget=900),
    dict(name="5 moves marlin_jerk zigzag", fw="marlin_jerk", dirs=["+x", "+y", "+x", "+y", "+x"], feeds=[20] + [None] * 4, budget=600),
]

# long programs: many moves at once, so that corrections run over many blocks and errors could pile up
MANY = ["+x", "724", "34", "E", "34", "34", "-34", "R", "122", "122", "-y", "5-12", "E", "-212", "-z", "+z", "R", "-x", "-x", "+y", "E", "247", "43", "+x"]
MANY_F = [100, None, 60, 5, 80, None, None, 8, 100, 40, None, 30, 5, 90, 20, None, 8, 100, 50, None, 4, 100, 100, 70]
MANY_E = [0 if d in "ER" else 0.5 for d in MANY]
MANY_X = {9: ["G91", "G90", "; layer"], 15: ["M83", "M82"]}
LONG_PROGS = [dict(name=f"24 long moves {fw}", fw=fw, dirs=MANY, feeds=MANY_F, extr=MANY_E, dmin=20, extra=MANY_X, budget=100) for fw in ("marlin_jd", "marlin_jerk", None)]
LONG_PROGS += [dict(name=f"{n} long moves {fw} #{k}", fw=fw, dirs=MANY[k:k + n], feeds=[MANY_F[k] or 50] + MANY_F[k + 1:k + n], extr=MANY_E[k:k + n], dmin=20, budget=100)
               for fw, n in (("klipper", 6), ("MKA", 8)) for k in range(0, 18, n)]
LONG_PROGS += [dict(name=f"72 long moves {fw}", fw=fw, dirs=MANY * 3, feeds=MANY_F * 3, extr=MANY_E * 3, dmin=20, budget=100) for fw in ("marlin_jerk", None)]
LONG_PROGS += [
    dict(name="14 short moves, the last of any length", fw="marlin_jd", dirs=["34"] * 14, lens=[0.5] * 13 + [None], feeds=[100] + [None] * 13, budget=100),
    dict(name="20 short moves, one in between of any length", fw="marlin_jerk", dirs=["122"] * 20, lens=[0.5] * 12 + [None] + [0.5] * 7, feeds=[100] + [None] * 19, budget=100),
    dict(name="10 short moves, any last feed rate", fw="klipper", dirs=["34"] * 10, lens=[0.5] * 9 + [5.0], feeds=[100] + [None] * 8 + ["sym"], budget=100),
]


def plan_cases(tier, step_facts=None, prog_facts=None, short=True):
    out = []
    if step_facts is not None:
        out += [step_case(step_facts, **k) for k in (STEP_QUICK if tier == "quick" else STEP_THOROUGH)]
    if prog_facts is not None:
        out += [prog_case(prog_facts, **k) for k in (PROG_QUICK if tier == "quick" else PROG_THOROUGH) + [
            p for p in LONG_PROGS if short or "any l" not in p["name"] or "between" in p["name"]]]
    seen = {}
    for c in out:
        n = seen[c.name] = seen.get(c.name, 0) + 1
        if n > 1:
            c.name += f" #{n}"
    return out
