"""Explores all paths of the cases of a property, replays counterexamples, writes evidence."""
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction

from . import core, harness, loader
from .core import BudgetExceeded, Engine, Limits, PathAbort, Stats, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    def __init__(self, name, fn, params=None, budget=15.0, max_paths=100000, witness=4, jitter=0, must_reach=(),
                 bounds="", norm_eps=None, strings=False, limits=None, soft=False, float_roots=False):
        self.soft = soft
        self.float_roots = float_roots
        self.name, self.fn, self.params = name, fn, params or {}
        self.budget, self.max_paths, self.witness = budget, max_paths, witness
        self.jitter, self.must_reach, self.bounds = jitter, must_reach, bounds
        self.norm_eps = norm_eps
        self.strings = strings
        self.limits = limits or {}


_code_cache = {}


class FreshLoader(loader.SymLoader):
    """re-executes the (cached) compiled modules so that every path starts from pristine module state"""

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        import types

        rel = full.split(".")[1:]
        path = os.path.join(loader.REPO, loader.PKG, *rel)
        is_pkg = os.path.isdir(path)
        path = os.path.join(path, "__init__.py") if is_pkg else path + ".py"
        strings = "re" in self.shim
        code = _code_cache.get((path, strings))
        if code is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            import ast

            from . import symre

            code = compile(symre.transform(ast.parse(src), strings), path, "exec")
            _code_cache[(path, strings)] = code
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if is_pkg else full.rsplit(".", 1)[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[full] = m
        sys.modules[full] = m
        if len(rel) == 1 and not is_pkg:
            setattr(self.load(loader.ALIAS), rel[0], m)
        exec(code, m.__dict__)
        return m


def sym_modules(strings=False):
    re_mod = None
    from . import symre

    if strings:
        re_mod = symre.ReShim()
    ld = FreshLoader(re_mod)
    ld.builtins.update(symre.HELPERS)
    return ld.load_all()


def fresh_real():
    for k in [k for k in sys.modules if k == loader.PKG or k.startswith(loader.PKG + ".")]:
        del sys.modules[k]
    return loader.load_real()


_shared_real = None


def shared_real():
    global _shared_real
    if _shared_real is None:
        _shared_real = fresh_real()
    return _shared_real


def run_concrete(case, values, choices, fresh=False):
    """-> (status, failures, ctx)   status: ok / fail / crash / skip"""
    core.set_engine(None)
    tmp = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("TMPDIR", "/tmp"))
    mods = fresh_real() if fresh else shared_real()
    ctx = harness.ConCtx(mods, case.params, values, choices, tmp)
    loader.Recorder.log.clear()
    out = sys.stdout
    cwd = os.getcwd()
    import locale

    old_locale = locale.setlocale(locale.LC_ALL)
    try:
        sys.stdout = open(os.devnull, "w", encoding="utf-8", errors="replace")
        os.chdir(tmp)
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.fn(ctx, **case.params)
        st = "fail" if ctx.failures else "ok"
    except PathAbort:
        st = "fail" if ctx.failures else "skip"
    except RecursionError as ex:
        st = "crash"
        ctx.failures.append(("crash", repr(ex)[:300]))
    except Exception as ex:
        st = "crash"
        if _missing_name(ex):
            st = "skip"
            ctx.failures.append(("harness", repr(ex)[:300]))
            return st, ctx.failures, ctx
        ctx.failures.append(("crash", "".join(traceback.format_exception_only(ex)).strip()[:300]
                             + " @ " + _where(ex)))
    finally:
        locale.setlocale(locale.LC_ALL, old_locale)
        os.chdir(cwd)
        sys.stdout.close()
        sys.stdout = out
        shutil.rmtree(tmp, ignore_errors=True)
    return st, ctx.failures, ctx


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for fr in reversed(tb):
        if loader.PKG in fr.filename and "/verif/" not in fr.filename:
            return f"{os.path.basename(fr.filename)}:{fr.lineno} {fr.name}"
    return f"{tb[-1].filename}:{tb[-1].lineno}" if tb else ""


def _missing_name(ex):
    """the harness asked the package for a name it does not have (any more): says nothing about behaviour"""
    if not isinstance(ex, AttributeError):
        return isinstance(ex, ImportError)
    tb = traceback.extract_tb(ex.__traceback__)
    if not tb or not tb[-1].filename.startswith(VERIF + os.sep):
        return False
    o = getattr(ex, "obj", None)
    name = getattr(o, "__name__", "") if isinstance(o, type(os)) else (o if isinstance(o, type) else type(o)).__module__
    return str(name).split(".")[0] in (loader.PKG, loader.ALIAS)


def generic_models(e, rng, n):
    """models of the path condition: the solver's own, then ones with the inputs pinned to values of no special form as
    far as the path condition allows it"""
    r = e.get_model((), 1500)
    if r[0] != "sat":
        return []
    out = [r[1]]
    names = [k for k, v in r[1].items() if not isinstance(v, str) and not k.startswith("ch")]
    t_end = time.time() + 6
    for _ in range(n - 1):
        pins, last = [], None
        for k in rng.sample(names, min(len(names), 8)):
            if time.time() > t_end:
                break
            v = e.inputs[k]
            x = core.SymReal(core.Poly.var(v), core.ONE) if not isinstance(v, core.SymReal) else v
            t = Fraction(round(float(r[1][k]) * rng.choice([-1, 1, 1]) + rng.uniform(-40, 40) * rng.choice([0.01, 1, 1]), 4))
            c = e.normalize(core.tof(x == t))
            if c is False:
                continue
            m = e.get_model(pins + ([c] if c is not True else []), 500)
            if m[0] == "sat":
                pins, last = pins + ([c] if c is not True else []), m[1]
        if last is not None:
            out.append(last)
    return out


def robust_failure(case, values, choices, rng):
    """failures of the real code at these inputs that tiny changes of the inputs do not remove, or None"""
    vals = {k: (v if isinstance(v, str) else float(v)) for k, v in values.items()}
    st, fails, _ = run_concrete(case, vals, choices, fresh=True)
    if st not in ("fail", "crash") or fails[0][0].startswith("harness"):
        return None
    n = 0
    for _ in range(12):
        near = {k: (v if isinstance(v, str) or k.startswith("ch") else v * (1 + 1e-7 * rng.uniform(-1, 1))) for k, v in vals.items()}
        s2, f2, _ = run_concrete(case, near, choices)
        if s2 == "skip":
            continue
        if s2 == "ok":
            return None
        n += 1
        if n >= 3:
            break
    return fails


def replay(case, cand, rng):
    """try the candidate's models on the real code; -> (values, failures) or None"""
    for m in cand.models:
        vals = {k: (v if isinstance(v, str) else float(v)) for k, v in m.items()}
        st, fails, ctx = run_concrete(case, vals, cand.choices, fresh=True)
        if st in ("fail", "crash"):
            return vals, fails
    # boundary models: nearby inputs (the solver's point sits on an edge that rounding may flip)
    n = case.jitter or 60
    t_end = time.time() + (15 if case.jitter else 4)
    for i in range(n):
        if time.time() > t_end:
            break
        base = cand.models[i % len(cand.models)]
        vals = {}
        for k, v in base.items():
            if isinstance(v, str) or k.startswith("ch"):
                vals[k] = v
                continue
            f = float(v)
            s = 10.0 ** rng.uniform(-9, -0.5)
            mode = rng.random()
            if mode < 0.3:
                vals[k] = f
            elif mode < 0.8:
                vals[k] = f * (1 + s * rng.uniform(-1, 1))
            else:
                vals[k] = round(f * (1 + s * rng.uniform(-1, 1)), rng.choice([0, 1, 2, 3]))
        st, fails, ctx = run_concrete(case, vals, cand.choices)
        if st == "fail" or (st == "crash"):
            # confirm on a fresh import
            st2, fails2, _ = run_concrete(case, vals, cand.choices, fresh=True)
            if st2 in ("fail", "crash"):
                return vals, fails2
    return None


def _arm(at):
    """last resort: interrupts polynomial arithmetic that runs past its budget"""
    def h(*a):
        raise BudgetExceeded("time budget")

    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, max(at - time.time(), 0.5), 5)


def _disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


def explore(case, tier, seed, deadline, skip_replay=False):
    """decide one case; returns a result dict"""
    t0 = time.time()
    rng = random.Random(seed)
    stats = Stats()
    lim = Limits()
    lim.seed = seed
    quick = tier == "quick"
    lim.branch_ms = case.limits.get("branch_ms", 300 if quick else 1500)
    lim.check_ms = case.limits.get("check_ms", 3000 if quick else 15000)
    budget = case.budget
    lim.deadline = min(deadline, t0 + budget)
    work = [[]]
    res = dict(case=case.name, paths=0, complete=False, cut=[], aborted=0, candidates=0, violations=[],
               artefacts=[], inconclusive=[], reached=set(), labels=set(), decisions=0, witness_ok=0,
               witness_mismatch=0, witness_skip=0, samples=[], errors=[], mismatch_notes=[], probed=0)
    res["bounds"] = case.bounds
    pending_cands = []
    seen_labels = {}
    t_hard = min(deadline, t0 + budget)
    probes = 0
    while work:
        if time.time() > t_hard or res["paths"] >= case.max_paths:
            break
        # mix of depth first and random restarts gives breadth when the budget runs out
        prefix = work.pop() if rng.random() < 0.7 else work.pop(rng.randrange(len(work)))
        e = Engine(prefix, stats, lim)
        core.set_engine(e)
        e.float_roots = case.float_roots
        if case.norm_eps:
            e.norm_hook = core.rounding_hook(e, case.norm_eps)
        ctx = None
        done = False
        _arm(t_hard + 5)
        try:
            mods = sym_modules(case.strings)
            loader.Recorder.log.clear()
            ctx = harness.SymCtx(mods, case.params, e)
            case.fn(ctx, **case.params)
            done = True
        except PathAbort:
            res["aborted"] += 1
        except Unsupported as u:
            res["cut"].append(f"{u} @ {_where(u)}")
            if ctx is not None and probes < 6:
                probes += 1
                beyond(case, e, ctx, rng, res, f"path beyond the encoding ({u})", 3)
        except BudgetExceeded:
            res["cut"].append("time budget")
        except Exception as ex:
            if ctx is None:
                res["errors"].append("load: " + "".join(traceback.format_exception(ex))[-1500:])
                res["load_error"] = True
                break
            if _missing_name(ex):
                res["errors"].append(f"{case.name}: {ex!r}")
                res["cut"].append(f"harness: {ex!r}"[:200])
                break
            if isinstance(ex, TypeError) and any(t in str(ex) for t in ("Sym", "dtype('O')", "of type OArr")):
                res["cut"].append(f"{ex} @ {_where(ex)}")  # the stand-ins lack something, not the code
                if probes < 6:
                    probes += 1
                    beyond(case, e, ctx, rng, res, f"path beyond the encoding ({ex})", 3)
                work.extend(e.pending)
                core.set_engine(None)
                if res["violations"] and quick:
                    break
                continue
            where = _where(ex)
            label = f"no-exception ({type(ex).__name__} @ {where})"
            _arm(time.time() + 20)
            try:
                r = e.get_model((), lim.check_ms)
            except BaseException as ex2:  # noqa
                r = ("unknown", None)
            stats.obligations += 1
            if r[0] == "sat":
                stats.refuted += 1
                ctx.candidates.append(harness.Candidate(label, [r[1]], dict(ctx.choices),
                                                        f"{type(ex).__name__}: {str(ex)[:200]}"))
            elif r[0] == "unsat":
                res["aborted"] += 1
            else:
                res["inconclusive"].append(label)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        finally:
            _disarm()
        work.extend(e.pending)
        res["decisions"] += len(e.trace)
        if ctx is not None:
            res["reached"] |= ctx.reached
            res["labels"] |= ctx.labels
            res["inconclusive"] += ctx.inconclusive
            for c in ctx.candidates:
                res["candidates"] += 1
                k = seen_labels.setdefault(c.label, 0)
                seen_labels[c.label] = k + 1
                if k < 6:
                    pending_cands.append(c)
        if done:
            res["paths"] += 1
            n = res["paths"]
            if (n <= case.witness or (n % 25 == 0 and n <= 25 * case.witness)) and time.time() < t_hard + 5:
                _arm(time.time() + 10)
                try:
                    _witness(case, e, ctx, res, rng)
                except BudgetExceeded:
                    res["witness_skip"] += 1
                finally:
                    _disarm()
        core.set_engine(None)
        # replay as we go; stop early once a violation is confirmed
        while pending_cands and not res["violations"]:
            c = pending_cands.pop(0)
            r = replay(case, c, rng)
            if r is None:
                res["artefacts"].append(dict(label=c.label, detail=c.detail, choices=c.choices,
                                             model={k: str(float(v)) if not isinstance(v, str) else v
                                                    for k, v in c.models[-1].items()}))
            else:
                res["violations"].append(dict(case=case.name, label=c.label, detail=c.detail, choices=c.choices,
                                              values=r[0], failures=r[1][:5]))
        if len(res["violations"]) and quick:
            break
    res["complete"] = not work and not res["cut"]
    res["left"] = len(work)
    res["stats"] = stats.as_dict()
    res["wall"] = time.time() - t0
    for k in ("reached", "labels"):
        res[k] = sorted(res[k])
    return res


def beyond(case, e, ctx, rng, res, label, n):
    """the rest of the path cannot be encoded: run the real code on models of its path condition instead"""
    _arm(time.time() + 12)
    try:
        models = generic_models(e, rng, n)
    except BaseException:  # noqa
        models = []
    finally:
        _disarm()
    core.set_engine(None)
    for m in models:
        res["probed"] += 1
        fails = robust_failure(case, m, ctx.choices, rng)
        if fails:
            res["violations"].append(dict(case=case.name, label=label, detail="", choices=dict(ctx.choices), failures=fails[:5],
                                          values={k: (v if isinstance(v, str) else float(v)) for k, v in m.items()}))
            return


def _witness(case, e, ctx, res, rng):
    """solver witness of a finished path, executed on the real code: observed values must agree"""
    try:
        r = e.get_model((), 1500)
        if r[0] != "sat":
            res["witness_skip"] += 1
            return
        vals, full = r[1], r[2]
        obs = []
        for n, v in ctx.obs:
            if isinstance(v, core.SymReal):
                try:
                    v = float(v.num.evaluate(full) / v.den.evaluate(full))
                except ZeroDivisionError:
                    v = None
            obs.append((n, v))
    except BaseException as ex:  # noqa
        res["witness_skip"] += 1
        core.set_engine(None)
        return
    fv = {k: (v if isinstance(v, str) else float(v)) for k, v in vals.items()}
    st, fails, cc = run_concrete(case, fv, ctx.choices)
    if len(res["samples"]) < 3:
        res["samples"].append(dict(case=case.name, inputs={k: (v if isinstance(v, str) else round(v, 9)) for k, v in fv.items()},
                                   choices=ctx.choices, outcome=st))
    if st == "skip":
        res["witness_skip"] += 1
        return
    bad = st in ("crash",) or bool(fails)
    note = f"{fails[:2]}" if bad else ""
    if not bad:
        if len(cc.obs) != len(obs):
            bad, note = True, f"observations {len(obs)} vs {len(cc.obs)}"
        else:
            for (n1, a), (n2, b) in zip(obs, cc.obs):
                if n1 != n2 or not _close(a, b):
                    bad, note = True, f"{n1}: {a} vs {b}"
                    break
    if bad:
        res["witness_mismatch"] += 1
        if (fails or st == "crash") and not res["violations"]:
            real = robust_failure(case, fv, ctx.choices, rng)
            if real:
                res["violations"].append(dict(case=case.name, label="inputs of a path that the solver found to hold", detail="",
                                              choices=dict(ctx.choices), values=fv, failures=real[:5]))
        if len(res["mismatch_notes"]) < 5:
            res["mismatch_notes"].append(dict(note=note, values=fv, choices=ctx.choices))
    else:
        res["witness_ok"] += 1


def _close(a, b):
    if a is None:
        return True
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        try:
            b = float(b)
        except (TypeError, ValueError):
            return False
        return abs(a - b) <= 1e-6 + 1e-6 * abs(b)
    return str(a) == str(b)


# ------------------------------------------------------------------ per property driver
def _worker(case, tier, seed, deadline, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    cov = loader.Coverage()
    cov.start()
    sys.stdout = open(os.devnull, "w", encoding="utf-8", errors="replace")
    try:
        r = explore(case, tier, seed, deadline)
    except BaseException as ex:  # noqa
        r = dict(case=case.name, fatal="".join(traceback.format_exception(ex))[-2000:])
    r["functions"] = cov.functions()
    q.put(r)


def run_cases(cases, tier, seed, total_budget, procs=8):
    loader.install_stubs()
    import numpy  # noqa
    import sympy.polys.rings  # noqa
    import yaml  # noqa

    t0 = time.time()
    deadline = t0 + total_budget
    ctxm = mp.get_context("fork")
    results, running = [], []
    todo = list(cases)
    while todo or running:
        while todo and len(running) < procs:
            c = todo.pop(0)
            q = ctxm.SimpleQueue()
            p = ctxm.Process(target=_worker, args=(c, tier, seed, deadline, q))
            p.start()
            running.append((p, q, c, time.time()))
        time.sleep(0.01)
        for item in list(running):
            p, q, c, ts = item
            if not q.empty():
                results.append(q.get())
                p.join(5)
                running.remove(item)
            elif not p.is_alive():
                if not q.empty():
                    results.append(q.get())
                else:
                    results.append(dict(case=c.name, fatal=f"worker died ({p.exitcode})"))
                running.remove(item)
            elif time.time() > max(deadline, ts) + 60:
                p.kill()
                p.join()
                results.append(dict(case=c.name, fatal="worker overran its budget"))
                running.remove(item)
    order = {c.name: i for i, c in enumerate(cases)}
    results.sort(key=lambda r: order.get(r["case"], 0))
    return results, time.time() - t0
