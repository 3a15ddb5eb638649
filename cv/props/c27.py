from cv.methods import *
from sklearn.base import clone as sk_clone
ID = "C27"
CASES = dict(quick=230, thorough=7000)
RULE = "random complete triangles with every estimator of the library (after random developments and tails), fitted on the data, on the data times a constant from 1e-6 to 1e9, on the data with all dates moved by whole years, and on the data with its records in another order (split over several records); all outputs compared; distinct by table, estimator and transformation"
REQUIRE = {"rel:scale": 50, "rel:shift": 50, "rel:order": 40, "results_compared": 600, "estimators": 100}
BUDGET = {"quick": 200, "thorough": 800}
DEGREE = {a: 1 for a in ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "expectation_", "incremental_", "total_process_risk_", "process_risk_", "parameter_risk_", "total_parameter_risk_",
                         "mack_std_err_", "total_mack_std_err_", "triangle_ml_", "incremental_fits_", "adjusted_triangle_", "resampled_triangles_", "munich_full_triangle_")}
DEGREE.update({a: 0 for a in ("ldf_", "cdf_", "tail_", "std_err_", "std_residuals_", "w_", "w_v2_", "apriori_", "detrended_apriori_", "zeta_", "cum_zeta_", "paid_to_prior_case_", "case_to_prior_case_",
                              "paid_ldf_", "case_ldf_", "lambda_", "q_", "residual_", "omega_", "theta_", "elr_", "trend_", "olf_", "slope_", "disposal_rate_", "full_std_err_")})
NAMES = [n for n in ZOO if n not in ("VotingChainladder",)] + ["VotingChainladder"]


def table(t):
    """the records of a triangle"""
    s = Snap(t)
    rows = []
    for k, kd in enumerate(s.kdims):
        for o, od in enumerate(s.odims):
            for d, age in enumerate(s.ddims):
                x = s.arr[k, :, o, d]
                if np.isnan(x).all():
                    continue
                rows.append((list(kd), od, od + age - 1, [float(v) for v in x]))
    return s, rows


def construct(s, rows, shift=0, k=None):
    f = pd.DataFrame([list(map(str, a)) for a, *_ in rows], columns=s.key_labels)
    f["__o"] = [mstart(o + 12 * shift) for _, o, _, _ in rows]
    f["__v"] = [mend(v + 12 * shift) for _, _, v, _ in rows]
    for c, n in enumerate(s.vdims):
        f[n] = [x[c] if k is None else x[c] * k[c] for *_, x in rows]
    return cl.Triangle(f, origin="__o", development="__v", index=s.key_labels, columns=list(s.vdims), cumulative=s.cum)


def vector(sw, t, k=1.0, shift=0):
    """an exposure vector for the origins of t"""
    if sw is None:
        return None
    x = t.latest_diagonal.set_backend("numpy")
    x.values = dense(sw.set_backend("numpy").values)[:] * k
    return x


def run(est, first, t, sw):
    """fit clones of the preceding estimators and of the estimator"""
    out = {}
    x = t
    for n, e in enumerate(first):
        e = sk_clone(e)
        x = e.fit_transform(x)
        out.update({f"step{n}.{a}": v for a, v in results(e).items()})
    e = sk_clone(est)
    fit(e, x, sw)
    out.update(results(e))
    if hasattr(e, "elr_"):
        out["elr_"] = freeze(np.nan_to_num(dense(e.elr_.set_backend("numpy").values)) if isinstance(e.elr_, cl.Triangle) else np.asarray(e.elr_))
    return out


def case(ctx, i):
    rng = ctx.rng
    name = NAMES[i % len(NAMES)] if rng.random() < .9 else pick(rng, "MackChainladder", "CapeCod", "TailCurve", "Benktander")
    z = ZOO[name]
    if z.get("slow") and rng.random() < .4:
        raise Skip()
    est, t, sw, s = build(rng, name)
    if name == "TweedieGLM":
        est.set_params(alpha=0, max_iter=3000, tol=1e-9)
    first = []
    if z["kind"] in ("tail", "method", "pipe") and name != "Pipeline" and rng.random() < .8:
        first.append(development(rng))
        if z["kind"] == "method" and rng.random() < .5:
            first.append(pick(rng, cl.TailConstant(1.06, decay=.6), cl.TailCurve("exponential"), cl.TailBondy()))
    rel = pick(rng, "scale", "shift", "order") if "Clark" not in name else "shift"   # Clark's optimum is C31's concern
    ctx.note(spec=brief(s), est=str(est)[:100], first=str(first)[:150], rel=rel); ctx.sig = [brief(s), str(est), str(first), rel]
    S, rows = table(t)
    try:
        base = run(est, first, t, sw)
    except ValueError as e:
        if "not compatible with Mack" in str(e):
            raise Skip()
        raise
    ctx.event("estimators"); ctx.event("rel:" + rel)
    tol = 2e-3 if "Clark" in name else 1e-4 if name == "TweedieGLM" else 1e-7
    if rel == "scale":
        k = float(pick(rng, 1024., 2. ** -12, 3.7, .013, 1e6, 1e9, 1e-6)) if name != "TweedieGLM" else float(pick(rng, 8., .25, 3.7))
        ctx.note(k=k)
        col = [1.0 if c in ("reported", "closed") else k for c in t.columns]
        u = construct(S, rows, k=col)
        if not same_shape(S, Snap(u)):
            raise Skip()
        u = t * 1.0 if False else u
        other = run(est, first, u, vector(sw, u, k))
        deg = dict(DEGREE)
        avg = getattr(est, "average", None) or getattr(first[0] if first else None, "average", None)
        # all of the sigmas follow the residual variance of the factors
        power = {"volume": .5, "simple": 0, "regression": 1}.get(avg)
        if power is not None:
            deg["sigma_"] = power
        for a in sorted(base):
            b = a.split(".")[-1]
            if b not in deg or a not in other or (name == "BerquistSherman" and b == "adjusted_triangle_"):
                continue
            if b == "sigma_" and name not in ("Development", "MackChainladder"):
                continue
            d = deg[b] if not (name == "IncrementalAdditive" and b == "ldf_") else 0
            ctx.event("results_compared")
            r = same(times(base[a], k ** d), other[a], tol, 1e-6 if b == "std_residuals_" else 0.0, a)
            ctx.check(r is None, f"scale:{b}", lambda: f"{a} of {est} does not scale with amounts times {k}: {r}")
    elif rel == "shift":
        n = int(pick(rng, 1, -1, 3, 10, -7, 4))
        if name in ("ParallelogramOLF", "Trend"):
            n = int(pick(rng, 4, -4, 8))
        ctx.note(shift=n)
        u = construct(S, rows, shift=n)
        if not same_shape(S, Snap(u)):
            raise Skip()
        e2 = sk_clone(est)
        if name == "ParallelogramOLF":
            h = est.rate_history.copy()
            h["date"] = [(pd.to_datetime(x) + pd.DateOffset(years=n)).strftime("%m/%d/%Y") for x in h["date"]]
            e2.set_params(rate_history=h)
        if name == "Trend" and est.dates is not None:
            e2.set_params(dates=[tuple(str((pd.Timestamp(x) + pd.DateOffset(years=n)).date()) for x in y) for y in est.dates])
        other = run(e2, first, u, vector(sw, u))
        for a in sorted(set(base) | set(other)):
            ctx.event("results_compared")
            if not ctx.check(a in base and a in other, "shift:attributes", f"{a} only in one of the two fits"):
                continue
            r = same(*moved(base[a], other[a], n), tol, 1e-6 if "resid" in a else 0.0, a)
            ctx.check(r is None, f"shift:{a.split('.')[-1]}", lambda: f"{a} of {est} changes with all dates moved by {n} years: {r}")
    else:
        many = []
        for kd, o, v, x in rows:
            if rng.random() < .3:
                w = float(rng.random())
                many += [(kd, o, v, [y * w for y in x]), (kd, o, v, [y - y * w for y in x])]
            else:
                many.append((kd, o, v, x))
        many = [many[j] for j in rng.permutation(len(many))]
        u = construct(S, many)
        if not same_shape(S, Snap(u)):
            raise Skip()
        other = run(est, first, u, vector(sw, u))
        same_results(ctx, "order", base, other, tol, f"{est} on records in another order:", 1e-9)


def same_shape(S, U):
    """nothing but amounts and dates moved"""
    return S.kdims == U.kdims and S.vdims == U.vdims and S.ddims == U.ddims and S.arr.shape == U.arr.shape and (S.og, S.dg) == (U.og, U.dg)


def times(f, k):
    if f[0] == "tri":
        return ("tri", f[1], f[2] * k)
    if f[0] == "arr":
        return ("arr", f[1] * k) if f[1].dtype.kind in "fiu" else f
    if f[0] == "val" and isinstance(f[1], (int, float, np.number)) and not isinstance(f[1], bool):
        return ("val", float(f[1]) * k)
    if f[0] in ("df", "ser"):
        return f[:-1] + (np.array([x * k if isinstance(x, (int, float, np.number)) else x for x in f[-1].ravel()], dtype=object).reshape(f[-1].shape),)
    return f


def undated(f, n):
    """labels with the dates moved by n years"""
    if f[0] == "tri":
        return ("tri", shifted(f[1], n), f[2])
    if f[0] in ("df", "ser"):
        return ("arr", np.array([float(x) if isinstance(x, (int, float, np.number)) else 0.0 for x in f[-1].ravel()]))
    if f[0] == "dict":
        return ("dict", {a: undated(x, n) for a, x in f[1].items()})
    return f


def shifted(m, n):
    m = dict(m)
    m["odims"] = [o + 12 * n if isinstance(o, int) else o for o in m["odims"]]
    m["vdate"] = m["vdate"] if m["vdate"] == ULT else m["vdate"] + 12 * n
    return m


def moved(a, b, n):
    """b is a with its dates moved by n years: a frozen triangle with development dates carries them as months"""
    x, y = undated(a, n), undated(b, 0)
    if x[0] == "tri" and y[0] == "tri" and x[1]["ddims"] != y[1]["ddims"] and x[1]["ddims"]:
        x[1]["ddims"] = [d if d == ULT or isinstance(d, str) else d + 12 * n for d in x[1]["ddims"]]
    return x, y
