"""Every estimator of the library with usable random settings and data, and a
uniform way of reading and comparing whatever a fitted estimator exposes."""
from cv.model import *
from sklearn.linear_model import LinearRegression
from sklearn.pipeline import Pipeline as SkPipeline

RESULTS = ["ldf_", "cdf_", "sigma_", "std_err_", "std_residuals_", "w_", "w_v2_", "tail_", "average_",
           "ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "expectation_", "apriori_", "detrended_apriori_",
           "full_std_err_", "total_process_risk_", "process_risk_", "parameter_risk_", "total_parameter_risk_", "mack_std_err_", "total_mack_std_err_", "summary_",
           "zeta_", "cum_zeta_", "incremental_", "y_fit_", "sigma_zeta_", "paid_to_prior_case_", "case_to_prior_case_", "paid_ldf_", "case_ldf_",
           "lambda_", "rho_", "rho_sigma_", "q_", "q_resid_", "residual_", "lambda_coef_", "ldf_", "munich_full_triangle_",
           "incremental_fits_", "omega_", "theta_", "elr_", "scale_", "norm_resid_", "triangle_ml_", "coef_",
           "a_", "b_", "disposal_rate_", "adjusted_triangle_", "trend_", "trendedl_", "olf_", "slope_", "intercept_", "earliest_ldf_",
           "hat_", "resampled_triangles_", "scale_", "design_matrix_"]


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


# ---- data ------------------------------------------------------------------
def data(rng, kind="plain", og=None, n_key=None, n_cols=None, n_o=None, n_levels=None, **kw):
    """(triangle, exposure vector, spec): complete positive triangles that suit the estimator"""
    og = og or int(rng.choice([12, 12, 12, 3, 6]))
    n_key = n_key or int(rng.choice([1, 1, 2, 3]))
    n_o = n_o or int(rng.integers(5, 9))
    kw = dict(dict(partial=False, late=False, max_cells=6000), **kw)
    if kind in ("munich", "case", "berq"):
        t, s = regular(rng, og=og, n_o=n_o, n_key=n_key, n_cols=1, n_levels=n_levels, **kw)
        c = t.columns[0]
        inc = t.rename("columns", ["inc"])
        a = dense(inc.set_backend("numpy").values)
        age = np.array(t.ddims, float)
        share = 1 - np.exp(-age / og * 0.6)
        noise = np.exp(rng.normal(0, .03, a.shape))
        cols = {"incurred": a, "paid": a * (share * noise).clip(0.05, .98)}
        if kind == "berq":
            rep = np.round(a / 40 * np.exp(rng.normal(0, .02, a.shape))) + 20
            cols["reported"] = np.maximum.accumulate(rep, -1)
            cols["closed"] = np.round(cols["reported"] * (share * noise).clip(.05, .95)) + 1
            cols["closed"] = np.maximum.accumulate(cols["closed"], -1)
        names = list(cols)
        x = inc.set_backend("numpy")
        x = cl.concat([x.rename("columns", [v]) for v in names], 1).set_backend("numpy")
        x.values = np.where(np.isnan(np.concatenate([a] * len(names), 1)), np.nan, np.concatenate([cols[v] for v in names], 1))
        return x, None, s
    t, s = regular(rng, og=og, n_o=n_o, n_key=n_key, n_cols=n_cols or int(rng.choice([1, 1, 2])), n_levels=n_levels, **kw)
    sw = t.latest_diagonal
    v = dense(sw.set_backend("numpy").values)
    sw = sw.set_backend("numpy")
    sw.values = np.round(np.nan_to_num(v.mean(2, keepdims=True)) * 1.5 * np.exp(rng.normal(0, .2, v.shape)), 2)
    return t, sw, s


# ---- estimators ------------------------------------------------------------
def development(rng):
    kw = dict(n_periods=pick(rng, -1, -1, 3, 4), average=pick(rng, "volume", "simple", "regression"), sigma_interpolation=pick(rng, "log-linear", "mack"))
    r = rng.random()
    if r < .2:
        kw.update(drop_high=pick(rng, 1, True), drop_low=pick(rng, None, 1))
    elif r < .3:
        kw.update(drop_above=4.0, drop_below=1.001)
    return cl.Development(**kw)


ZOO = dict(
    Development=dict(make=development, kind="dev"),
    DevelopmentConstant=dict(make=lambda rng: cl.DevelopmentConstant(patterns={a: round(1 + 3.0 / (a + 2), 4) for a in range(1, 400)}, style=pick(rng, "ldf")), kind="dev"),
    ClarkLDF=dict(make=lambda rng: cl.ClarkLDF(growth=pick(rng, "loglogistic", "weibull")), kind="dev"),
    IncrementalAdditive=dict(make=lambda rng: cl.IncrementalAdditive(average=pick(rng, "volume", "simple"), trend=pick(rng, 0.0, .03), future_trend=pick(rng, 0, .02), n_periods=pick(rng, -1, 3)), kind="dev", weight=True),
    MunichAdjustment=dict(make=lambda rng: cl.MunichAdjustment(paid_to_incurred=("paid", "incurred")), kind="dev", data="munich"),
    CaseOutstanding=dict(make=lambda rng: cl.CaseOutstanding(paid_to_incurred=("paid", "incurred"), paid_n_periods=pick(rng, -1, 3)), kind="dev", data="case"),
    TweedieGLM=dict(make=lambda rng: cl.TweedieGLM(design_matrix=pick(rng, "C(development) + C(origin)", "development + C(origin)", "development + origin")), kind="dev", slow=True, single=True),
    BarnettZehnwirth=dict(make=lambda rng: cl.BarnettZehnwirth(formula=pick(rng, "C(origin) + development", "C(development)", "development + origin")), kind="dev", slow=True, single=True),
    TailConstant=dict(make=lambda rng: cl.TailConstant(tail=pick(rng, 1.0, 1.05, 1.2), decay=pick(rng, .5, .7)), kind="tail"),
    TailCurve=dict(make=lambda rng: cl.TailCurve(curve=pick(rng, "exponential", "inverse_power"), extrap_periods=pick(rng, 100, 20)), kind="tail"),
    TailBondy=dict(make=lambda rng: cl.TailBondy(), kind="tail"),
    TailClark=dict(make=lambda rng: cl.TailClark(growth=pick(rng, "loglogistic", "weibull")), kind="tail", ogs=(12, 3)),
    Chainladder=dict(make=lambda rng: cl.Chainladder(), kind="method"),
    MackChainladder=dict(make=lambda rng: cl.MackChainladder(), kind="method"),
    ExpectedLoss=dict(make=lambda rng: cl.ExpectedLoss(apriori=pick(rng, .6, 1.1)), kind="method", weight=True),
    BornhuetterFerguson=dict(make=lambda rng: cl.BornhuetterFerguson(apriori=pick(rng, .7, 1.2)), kind="method", weight=True),
    Benktander=dict(make=lambda rng: cl.Benktander(apriori=.8, n_iters=pick(rng, 0, 1, 2, 5)), kind="method", weight=True),
    CapeCod=dict(make=lambda rng: cl.CapeCod(trend=pick(rng, 0, .04, -.02), decay=pick(rng, 1, .8, 0), n_iters=pick(rng, 1, 2)), kind="method", weight=True),
    BootstrapODPSample=dict(make=lambda rng: cl.BootstrapODPSample(n_sims=int(rng.integers(3, 9)), random_state=int(rng.integers(1000)), hat_adj=pick(rng, True, False)), kind="adj", single=True),
    BerquistSherman=dict(make=lambda rng: cl.BerquistSherman(paid_amount="paid", incurred_amount="incurred", reported_count="reported", closed_count="closed", trend=pick(rng, 0.0, .05)), kind="adj", data="berq"),
    ParallelogramOLF=dict(make=lambda rng: cl.ParallelogramOLF(rate_history(rng), change_col="change", date_col="date", vertical_line=pick(rng, True, False)), kind="adj", ogs=(12,)),
    Trend=dict(make=lambda rng: cl.Trend(trends=pick(rng, .05, [.02, .04], -.03), dates=None, axis=pick(rng, "origin", "valuation")), kind="adj"),
    VotingChainladder=dict(make=lambda rng: cl.VotingChainladder(estimators=[("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(apriori=.9)), ("cc", cl.CapeCod(trend=.02))], default_weighting=(1, 2, .5)), kind="method", weight=True),
    Pipeline=dict(make=lambda rng: cl.Pipeline([("dev", development(rng)), ("tail", cl.TailConstant(1.05)), ("model", cl.CapeCod(trend=.02))]), kind="pipe", weight=True),
    DevelopmentML=dict(make=lambda rng: cl.DevelopmentML(SkPipeline([("design", cl.utils.utility_functions.PatsyFormula("C(development) + C(origin)")), ("m", LinearRegression(fit_intercept=False))]), y_ml=None, fit_incrementals=True), kind="dev", slow=True, single=True),
)


def rate_history(rng, lo=1988, hi=2016):
    n = int(rng.integers(1, 5))
    d = sorted(pd.Timestamp(f"{int(rng.integers(lo, hi))}-{int(rng.integers(1, 13)):02d}-01") for _ in range(n))
    d = sorted(set(d))
    return pd.DataFrame({"date": [x.strftime("%m/%d/%Y") for x in d], "change": [round(float(rng.uniform(-.1, .15)), 3) for _ in d]})


def build(rng, name, **kw):
    """(estimator, X, sample_weight, spec) ready for est.fit(X, sample_weight=...)"""
    z = ZOO[name]
    est = z["make"](rng)
    if "ogs" in z:
        kw.setdefault("og", int(pick(rng, *z["ogs"])))
    if z.get("single"):
        kw.setdefault("n_key", 1); kw.setdefault("n_cols", 1)
    if name == "Trend" and isinstance(est.trends, list):
        kw.setdefault("n_key", 1)
    t, sw, s = data(rng, z.get("data", "plain"), **kw)
    if name == "Trend" and isinstance(est.trends, list):
        a, b, c = t.valuation_date, mend(s.o0 + s.og * (s.n_o // 2) - 1), mstart(s.o0)
        est.dates = [(str(a.date()), str(b.date())), (str(b.date()), str(c.date()))]
    if name == "DevelopmentML":
        est.y_ml = None
    return est, t, (sw if z.get("weight") else None), s


def fit(est, X, sw=None):
    return est.fit(X) if sw is None else est.fit(X, sample_weight=sw)


# ---- reading and comparing results ------------------------------------------
def freeze(v, depth=0):
    """deep, comparable copy of a value"""
    if isinstance(v, cl.Triangle):
        s = Snap(v)
        return ("tri", s.meta(), s.arr.copy())
    if isinstance(v, pd.DataFrame):
        return ("df", [str(x) for x in v.columns], [str(x) for x in v.index], v.to_numpy(dtype=object).copy())
    if isinstance(v, pd.Series):
        return ("ser", [str(x) for x in v.index], np.array(v.tolist(), dtype=object))
    if hasattr(v, "todense"):
        return ("arr", dense(v))
    if isinstance(v, np.ndarray):
        return ("arr", v.copy())
    if isinstance(v, dict):
        return ("dict", {str(k): freeze(x, depth + 1) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(x, depth + 1) for x in v])
    if hasattr(v, "get_params") and depth < 4:
        return ("est", type(v).__name__, {k: freeze(x, depth + 1) for k, x in v.get_params(deep=False).items()})
    if isinstance(v, (int, float, str, bool, type(None), np.number, np.bool_, pd.Timestamp, pd.Period)):
        return ("val", v)
    if callable(v):
        return ("fn", id(v))
    return ("obj", type(v).__name__)


def same(a, b, rtol=0.0, atol=0.0, path=""):
    """None when equal, otherwise a description of the first difference"""
    if a[0] != b[0]:
        return f"{path}: {a[0]} vs {b[0]}"
    k = a[0]
    if k == "tri":
        if a[1] != b[1]:
            return f"{path}: " + str([(m, x, b[1][m]) for m, x in a[1].items() if x != b[1][m]])[:300]
        x, y = np.nan_to_num(a[2], posinf=np.inf, neginf=-np.inf), np.nan_to_num(b[2], posinf=np.inf, neginf=-np.inf)
        sc = np.abs(x[np.isfinite(x)]).max(initial=0.0)
        return None if close(x, y, rtol, atol + rtol * 1e-3 * sc) else f"{path}: " + first_diff(x, y, rtol, atol)
    if k == "arr":
        if a[1].shape != b[1].shape:
            return f"{path}: shape {a[1].shape} {b[1].shape}"
        if a[1].dtype.kind in "fiub":
            x, y = np.nan_to_num(a[1].astype(float)), np.nan_to_num(b[1].astype(float))
            return None if close(x, y, rtol, atol + rtol * 1e-3 * np.abs(x).max(initial=0.0)) else f"{path}: " + first_diff(x, y, rtol, atol)
        return None if a[1].tolist() == b[1].tolist() else f"{path}: arrays differ"
    if k in ("df", "ser"):
        if a[1:-1] != b[1:-1]:
            return f"{path}: labels {a[1:-1]} {b[1:-1]}"[:300]
        x, y = a[-1].ravel(), b[-1].ravel()
        for u, v in zip(x, y):
            if isinstance(u, (int, float, np.number)) and isinstance(v, (int, float, np.number)):
                if not near(float(np.nan_to_num(u)), float(np.nan_to_num(v)), rtol, atol + (1e-12 if rtol else 0)):
                    return f"{path}: {u} vs {v}"
            elif not (u is v or u == v or (u != u and v != v)):
                return f"{path}: {u} vs {v}"
        return None
    if k == "dict":
        if set(a[1]) != set(b[1]):
            return f"{path}: keys {set(a[1]) ^ set(b[1])}"
        for x in a[1]:
            r = same(a[1][x], b[1][x], rtol, atol, f"{path}.{x}")
            if r:
                return r
        return None
    if k in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} {len(b[1])}"
        for n, (x, y) in enumerate(zip(a[1], b[1])):
            r = same(x, y, rtol, atol, f"{path}[{n}]")
            if r:
                return r
        return None
    if k == "est":
        if a[1] != b[1]:
            return f"{path}: {a[1]} {b[1]}"
        return same(("dict", a[2]), ("dict", b[2]), rtol, atol, path)
    if k == "val":
        u, v = a[1], b[1]
        if isinstance(u, (float, np.floating)) and isinstance(v, (float, int, np.number)):
            return None if near(float(u), float(v), rtol, atol) else f"{path}: {u} vs {v}"
        return None if u == v or u is v else f"{path}: {u!r} vs {v!r}"
    if k == "fn":
        return None if a[1] == b[1] else f"{path}: other function"
    return None


def results(est, skip=()):
    """everything a fitted estimator (or a prediction) exposes, frozen"""
    out = {}
    if hasattr(est, "named_steps"):
        for k, v in est.named_steps.items():
            for a, x in results(v, skip).items():
                out[f"{k}.{a}"] = x
        return out
    for a in RESULTS:
        if a in skip:
            continue
        try:
            v = getattr(est, a)
        except Exception as e:
            continue
        out[a] = freeze(v)
    return out


def same_results(ctx, key, a, b, rtol=1e-9, msg="", atol=1e-9):
    ok = True
    ctx.event("results_compared", len(a))
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            ok = ctx.check(False, f"{key}:{k}", f"{msg} {k} only in {'first' if k in a else 'second'}") and ok
            continue
        r = same(a[k], b[k], rtol, atol, k)
        ok = ctx.check(r is None, f"{key}:{k}", f"{msg} {r}") and ok
    return ok


def state(obj):
    """frozen full state of a triangle: cells, labels, settings and fitted patterns"""
    out = {"self": freeze(obj), "backend": ("val", obj.array_backend)}
    for k, v in vars(obj).items():
        if k in ("values", "iloc", "loc", "iat", "at", "virtual_columns", "kdims", "vdims", "odims", "ddims"):
            continue
        out[k] = freeze(v)
    out["virtual"] = ("list", [("val", c) for c in obj.virtual_columns.columns])
    return out


def same_state(ctx, key, a, b, msg=""):
    for k in sorted(set(a) | set(b)):
        if not ctx.check(k in a and k in b, key, f"{msg}: attribute {k} {'removed' if k in a else 'added'}"):
            return False
        r = same(a[k], b[k], 0.0, 0.0, k)
        if not ctx.check(r is None, key, f"{msg}: {r}"):
            return False
    return True
