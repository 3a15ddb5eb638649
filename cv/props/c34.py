"""C34: whatever is written down of an estimator comes back - a text with its settings, a pickle with everything"""
import json, os, tempfile
from cv.zoo import *
from cv.methods import *
from sklearn.base import clone

ID = "C34"
CASES = dict(quick=220, thorough=5000)
RULE = "For every estimator of the library, random pipelines (nested and flat), ensembles and adjustments with settings of every kind the constructors take (numbers, text, lists, tuples, dictionaries keyed by ages or periods, tables, arrays, nested estimators): the text form is valid JSON and read_json gives the same type, settings (values and types: tuple against list, integer against text keys) and step order, writing it again gives the same text, and fitting original and restored on the same data gives equal results; a pickle file of an unfitted or fitted estimator, and of a triangle carrying fitted patterns, read back in the same or in another process, exposes the same results, predicts the same on fresh data and refits the same; cloning keeps settings and no fitted attribute and leaves the original fitted; writing never changes the estimator."
REQUIRE = {"text_roundtrips": 60, "pickle_roundtrips": 60, "restored_fits": 40, "restored_predictions": 15, "pipelines": 30, "clones": 60, "other_process": 1, "settings_compared": 400}
BUDGET = {"quick": 200, "thorough": 2400}


def deep(v):
    """comparable form of a setting that keeps apart what equality would not"""
    if isinstance(v, cl.Triangle):
        return ("triangle", Snap(v).brief() if hasattr(Snap(v), "brief") else v.shape)
    if hasattr(v, "get_params"):
        return ("estimator", type(v).__name__, tuple((k, deep(x)) for k, x in sorted(v.get_params(deep=False).items())))
    if isinstance(v, pd.DataFrame):
        return ("frame", tuple(map(deep, v.columns)), tuple(map(deep, v.index)), tuple(tuple(deep(x) for x in v[c]) for c in v.columns))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, tuple(deep(x) for x in v.ravel().tolist()))
    if isinstance(v, dict):
        return ("dict", tuple((deep(k), deep(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(deep(x) for x in v))
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, (float, np.floating)):
        return ("number", "nan" if v != v else float(v))
    if isinstance(v, (int, np.integer)):
        return ("number", float(v))
    if isinstance(v, pd.Timestamp):
        return ("time", v)
    return (type(v).__name__, v)


def fitted(est):
    return sorted(k for k in vars(est) if k.endswith("_") and not k.startswith("_"))


# ---- settings beyond those of the zoo ---------------------------------------
def rich(rng, X, sw):
    """an estimator for X whose settings are of an unusual kind"""
    og, ages = X.development_grain, X.ddims.tolist()
    n = len(ages) - 1
    years = [str(o) for o in X.origin]
    r = int(rng.integers(12))
    if r == 0:
        return cl.Development(average=[pick(rng, "volume", "simple", "regression") for _ in range(n)], n_periods=[int(rng.integers(2, 6)) for _ in range(n)])
    if r == 1:
        return cl.Development(drop=[(years[int(rng.integers(0, max(1, len(years) // 2)))], ages[int(rng.integers(0, max(1, n // 2)))]) for _ in range(int(rng.integers(1, 3)))])
    if r == 2:
        return cl.Development(drop=(years[0], ages[0]), drop_high=[bool(rng.random() < .3) for _ in range(n)])
    if r == 3:
        cdf = np.cumprod(1 + rng.uniform(0, .4, len(ages)))[::-1]
        return cl.DevelopmentConstant(patterns={int(a): float(f) for a, f in zip(ages, cdf)}, style="cdf")
    if r == 4:
        return cl.DevelopmentConstant(patterns={int(a): float(f) for a, f in zip(ages, 1 + rng.uniform(0, .4, len(ages)))}, style="ldf")
    if r == 5:
        return cl.TailCurve(curve=pick(rng, "exponential", "inverse_power"), fit_period=(ages[0], None), attachment_age=ages[max(1, n - 1)])
    if r == 6:
        return cl.Trend(trends=[float(np.round(rng.uniform(-.03, .05), 3)) for _ in range(2)], dates=[(str(X.valuation_date.date()), str(mstart(mnum(X.valuation_date) - 24).date())), (str(mstart(mnum(X.valuation_date) - 24).date()), str(X.origin[0].to_timestamp().date()))])
    if r == 7:
        k = pick(rng, "frame", "stamps")
        h = rate_history(rng)
        if k == "stamps":
            h["date"] = pd.to_datetime(h["date"])
        return cl.ParallelogramOLF(h, change_col="change", date_col="date")
    if r == 8:
        return cl.VotingChainladder(estimators=[("a", cl.Chainladder()), ("b", cl.BornhuetterFerguson(apriori=float(np.round(rng.uniform(.5, 1.3), 3))))], weights=np.round(rng.uniform(.1, 1, (len(years), 2)), 3) if rng.random() < .5 else [[.25, .75]] * len(years))
    if r == 9:
        return cl.VotingChainladder(estimators=[("cc", cl.CapeCod(decay=.9)), ("dropped", "drop"), ("cl", cl.Chainladder())][::2], default_weighting=(1, 3))
    if r == 10:
        return cl.BornhuetterFerguson(apriori=np.float64(np.round(rng.uniform(.5, 1.3), 3)))
    return cl.Benktander(apriori=float(rng.uniform(.5, 1.3)), n_iters=np.int64(rng.integers(0, 5)))


def pipeline(rng, X, sw):
    steps = []
    if rng.random() < .3:
        steps.append(("olf", cl.ParallelogramOLF(rate_history(rng), change_col="change", date_col="date")) if rng.random() < .5 else ("trend", cl.Trend(.02)))
    r = rng.random()
    dev = development(rng) if r < .4 else cl.Development(drop=(str(X.origin[0]), X.ddims[0])) if r < .6 else cl.ClarkLDF() if r < .7 else cl.DevelopmentConstant(patterns={int(a): 1 + 5. / (a + 3) for a in X.ddims}, style="ldf")
    if r > .9:
        dev = cl.Pipeline([("one", cl.Development(n_periods=4)), ("two", cl.TailConstant(1.02))])
    steps.append((pick(rng, "dev", "zdev", "b"), dev))
    if r <= .9 and rng.random() < .6:
        steps.append((pick(rng, "tail", "a"), pick(rng, cl.TailCurve(), cl.TailConstant(1.07, decay=.6), cl.TailBondy())))
    m = rng.random()
    steps.append(("model", cl.Chainladder() if m < .3 else cl.CapeCod(trend=.03, decay=.9) if m < .6 else cl.Benktander(apriori=.8, n_iters=3) if m < .8 else cl.MackChainladder() if m < .9 else cl.VotingChainladder([("x", cl.Chainladder()), ("y", cl.BornhuetterFerguson(apriori=.7))], default_weighting=(1, 2))))
    return cl.Pipeline(steps)


def subject(ctx):
    """(estimator, data, exposure, name)"""
    r = ctx.rng
    k = r.random()
    if k < .45:
        name = list(ZOO)[(ctx.i // 3) % len(ZOO)]
        if ZOO[name].get("slow") and r.random() < .4:
            name = pick(r, "Development", "CapeCod", "TailCurve", "IncrementalAdditive")
        e, X, sw, s = build(r, name)
        return e, X, sw, name
    X, sw, s = data(r)
    if k < .75:
        e = rich(r, X, sw)
        if isinstance(e, (cl.Trend, cl.ParallelogramOLF)):
            X = X.iloc[:1]; sw = sw.iloc[:1]
        return e, X, sw, "rich " + type(e).__name__
    ctx.event("pipelines")
    return pipeline(r, X, sw), X, sw, "pipeline"


def run(e, X, sw):
    with_ = not isinstance(e, (cl.Trend, cl.ParallelogramOLF)) or True
    return fit(e, X, sw)


def predict(e, X, sw):
    if hasattr(e, "predict"):
        return e.predict(X, sample_weight=sw)
    return e.transform(X)


def order(e):
    return [(n, type(x).__name__, order(x)) for n, x in e.steps] if hasattr(e, "steps") else []


# ---- checks -------------------------------------------------------------------
def settings(ctx, key, e, r, note):
    if not ctx.check(type(r) is type(e), f"{key}:type", f"{note}: restored as {type(r).__name__}, was {type(e).__name__}"):
        return False
    ctx.check(order(r) == order(e), f"{key}:steps", f"{note}: step order {order(r)} instead of {order(e)}")
    a, b = e.get_params(deep=False), r.get_params(deep=False)
    ok = ctx.check(sorted(a) == sorted(b), f"{key}:names", f"{note}: settings {sorted(set(a) ^ set(b))}")
    for k in a:
        ctx.event("settings_compared")
        x, y = deep(a[k]), deep(b.get(k))
        ok = ctx.check(x == y, f"{key}:setting", f"{note}: {k} was {str(x)[:150]} and came back {str(y)[:150]}") and ok
    return ok


def outcome(e, X, sw):
    try:
        return results(fit(e, X, sw)), None
    except Exception as ex:
        return None, ex


def text(ctx, e, X, sw, name):
    before = deep(e)
    try:
        t = e.to_json()
    except TypeError as ex:
        if name in ("DevelopmentML",):
            raise Skip()  # foreign models have no text form
        return ctx.fail("text:write", f"{name}: {ex!r}")
    ctx.event("text_roundtrips")
    ctx.check(deep(e) == before, "text:changed", f"{name}: writing changed the estimator")
    json.loads(t)
    r = ctx.call("text:read", lambda: cl.read_json(t))
    if not settings(ctx, "text", e, r, name):
        return
    ctx.check(not any(fitted(x) for x in members(r)), "text:fitted", f"{name}: restored with fitted attributes")
    ctx.check(r.to_json() == t, "text:again", f"{name}: written again it differs")
    a, ex = outcome(clone(e), X, sw)
    b, ey = outcome(r, X, sw)
    if ex is not None or ey is not None:
        ctx.check(type(ex) is type(ey), "text:fit", f"{name}: original {ex!r} restored {ey!r}")
        raise Skip()
    ctx.event("restored_fits")
    same_results(ctx, "text:results", a, b, 0.0, name, 0.0)


def members(e):
    out = [e]
    for a in ("steps", "estimators"):
        for x in getattr(e, a, None) or []:
            if hasattr(x[1], "get_params"):
                out += members(x[1])
    return out


OTHER = """
import sys; sys.path.insert(0, {verif!r})
import cv.runner
from cv.props.c34 import *
import pickle
e = cl.read_pickle({p!r}); X, sw = cl.read_pickle({q!r})
out = results(e)
with open({o!r}, "wb") as f:
    pickle.dump((type(e).__name__, order(e), out), f)
"""


def pickled(ctx, e, X, sw, name, i):
    r = ctx.rng
    is_fit = r.random() < .75 or i % 20 == 0
    if is_fit:
        _, ex = outcome(e, X, sw)
        if ex is not None:
            raise Skip()
    a = results(e)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "e.pkl")
        ctx.call("pickle:write", lambda: e.to_pickle(p))
        b = results(e)
        same_results(ctx, "pickle:changed", a, b, 0.0, f"{name} writing", 0.0)
        q = ctx.call("pickle:read", lambda: cl.read_pickle(p))
        ctx.event("pickle_roundtrips")
        settings(ctx, "pickle", e, q, name)
        same_results(ctx, "pickle:results", a, results(q), 0.0, name, 0.0)
        for x, y in zip(members(e), members(q)):
            ctx.check(fitted(x) == fitted(y), "pickle:attributes", f"{name}: {type(x).__name__} attributes {set(fitted(x)) ^ set(fitted(y))}")
        if i % 20 == 0:
            import subprocess, sys, pickle
            x, o = os.path.join(d, "x.pkl"), os.path.join(d, "o.pkl")
            import dill
            with open(x, "wb") as f:
                dill.dump((X, sw), f)
            from cv import runner
            v = os.path.dirname(os.path.dirname(os.path.abspath(runner.__file__)))
            z = subprocess.run([sys.executable, "-W", "ignore", "-c", OTHER.format(verif=v, p=p, q=x, o=o)], capture_output=True, text=True, timeout=120, cwd=v)
            if ctx.check(z.returncode == 0, "pickle:process", f"{name}: reading in another process: {z.stderr[-300:]}"):
                with open(o, "rb") as f:
                    n, od, res = pickle.load(f)
                ctx.event("other_process")
                ctx.check(n == type(e).__name__ and od == order(e), "pickle:process", f"{name}: {n} {od}")
                same_results(ctx, "pickle:process", a, res, 0.0, name, 0.0)
    if is_fit:
        Y = X.copy()
        Y = Y * 1.07 if r.random() < .5 and not isinstance(e, cl.BerquistSherman) else Y
        try:
            u = results_of(predict(e, Y, sw))
        except Exception as ex:
            u = type(ex)
        try:
            v = results_of(predict(q, Y, sw))
        except Exception as ex:
            v = type(ex)
        if isinstance(u, type) or isinstance(v, type):
            ctx.check(u is v, "pickle:predict", f"{name}: predicting original {u} restored {v}")
        else:
            ctx.event("restored_predictions")
            same_results(ctx, "pickle:predict", u, v, 0.0, f"{name} predicting", 0.0)
    # both go on being usable
    s, ex = outcome(clone(e), X, sw)
    t, ey = outcome(q, X, sw)
    if ex is None and ey is None:
        ctx.event("restored_fits")
        same_results(ctx, "pickle:refit", s, t, 0.0, f"{name} fitted again", 0.0)
    else:
        ctx.check(type(ex) is type(ey), "pickle:refit", f"{name}: {ex!r} {ey!r}")


def results_of(t):
    out = results(t)
    if isinstance(t, cl.Triangle):
        out["self"] = freeze(t)
    return out


def cloned(ctx, e, X, sw, name):
    was_fit = outcome(e, X, sw)[1] is None
    a = results(e)
    before = [fitted(x) for x in members(e)]
    c = ctx.call("clone", lambda: clone(e))
    ctx.event("clones")
    settings(ctx, "clone", e, c, name)
    for x in members(c):
        ctx.check(not fitted(x), "clone:fitted", f"{name}: clone of a fitted {type(x).__name__} has {fitted(x)}")
        ctx.check(all(x is not y for y in members(e)), "clone:shared", f"{name}: clone shares {type(x).__name__}")
    ctx.check(not results(c), "clone:results", f"{name}: clone exposes {sorted(results(c))}")
    ctx.check([fitted(x) for x in members(e)] == before, "clone:original", f"{name}: original changed")
    if was_fit and ctx.rng.random() < .5:
        b, ex = outcome(c, X, sw)
        if ctx.check(ex is None, "clone:fit", f"{name}: clone does not fit: {ex!r}"):
            ctx.event("restored_fits")
            same_results(ctx, "clone:refit", a, b, 0.0, name, 0.0)
        same_results(ctx, "clone:original", a, results(e), 0.0, f"{name} after fitting the clone", 0.0)
    # changing a setting of the copy leaves the original
    ps = [k for k, v in c.get_params(deep=True).items() if isinstance(v, float) and not isinstance(v, bool)]
    if ps:
        k = pick(ctx.rng, *ps)
        old = deep(e.get_params(deep=True)[k])
        c.set_params(**{k: c.get_params(deep=True)[k] + 1.5})
        ctx.check(deep(e.get_params(deep=True)[k]) == old, "clone:setting", f"{name}: setting {k} of the clone changed the original")


def case(ctx, i):
    ctx.i = i
    e, X, sw, name = subject(ctx)
    what = ("text", "pickle", "clone")[i % 3]
    ctx.note(what=what, name=name)
    ctx.sig = [what, name, str(deep(e))[:400], X.shape]
    if what == "text":
        text(ctx, e, X, sw, name)
    elif what == "pickle":
        pickled(ctx, e, X, sw, name, i // 3)
    else:
        cloned(ctx, e, X, sw, name)
