from cv.methods import *
from math import comb, erf, sqrt
from scipy.stats import norm, binom
ID = "C33"
CASES = dict(quick=180, thorough=9000)
RULE = "random complete square triangles (several segments and columns, grains, views, backends, tied link ratios and links at the median) tested for development and calendar-year correlation, in total and per year, at critical levels including the ends; every rank, count, expectation, variance, range and answer recomputed from the labelled link ratios by Mack's formulas; distinct by table and level"
REQUIRE = {"chk:T": 150, "chk:z-total": 150, "chk:z-year": 300, "ties": 20, "at median": 500, "rejected": 20, "accepted": 20, "segments": 30, "chk:Tk": 300}
BUDGET = {"quick": 200, "thorough": 800}


def ranks(x):
    """average ranks from 1"""
    return [sum(1 for v in x if v < u) + (1 + sum(1 for v in x if v == u)) / 2 for u in x]


def case(ctx, i):
    rng = ctx.rng
    og = int(pick(rng, 12, 12, 3, 6, 1))
    t, s = regular(rng, og=og, dg=og, n_o=int(rng.integers(5, 12)), n_key=int(pick(rng, 1, 1, 2, 3)), n_cols=int(pick(rng, 1, 1, 2)), partial=False, late=False, cumulative=bool(rng.random() < .8), max_cells=3000)
    S = Snap(t)
    K, C, O, D = S.arr.shape
    if O != D or O < 5:
        raise Skip()
    if rng.random() < .4:
        # amounts that repeat link ratios exactly
        a = np.nan_to_num(S.arr)
        f = rng.choice([1.25, 1.5, 2.0, 1.125], (K, C, O, D)); f[..., 0] = 2.0 ** rng.integers(3, 9, (K, C, O))
        a = np.where(np.isnan(S.arr if S.cum else S.arr), np.nan, f.cumprod(-1))
        t = t.incr_to_cum().set_backend("numpy"); t.values = np.where(np.isnan(dense(t.values)), np.nan, a)
        S = Snap(t)
        ctx.event("ties")
    if K > 1 or C > 1:
        ctx.event("segments")
    cum = S.arr if S.cum else np.where(np.isnan(S.arr), np.nan, np.nan_to_num(S.arr).cumsum(-1))
    if not (np.nan_to_num(cum, nan=1.0) > 0).all():
        raise Skip()
    x = t
    if rng.random() < .3:
        x = x.set_backend("sparse")
    p = float(pick(rng, .5, .1, .05, .3, .9, 0.0, 1.0, round(float(rng.random()), 3)))
    ctx.note(spec=brief(s), p=p, view=x.is_val_tri); ctx.sig = [brief(s), p]
    L = cum[..., 1:] / cum[..., :-1]
    seg = [tuple(map(str, k)) for k in S.kdims]
    if not S.cum:
        x = x.incr_to_cum()
    dev(ctx, x, S, L, p, seg)
    val(ctx, x, S, L, p, seg)
    if rng.random() < .2:
        for bad in (-.1, 1.5):
            for f in (lambda: x.development_correlation(bad), lambda: x.valuation_correlation(bad)):
                try:
                    f()
                    ok = False
                except ValueError:
                    ok = True
                ctx.check(ok, "level", f"a critical level of {bad} is accepted")


def rows(df):
    return [tuple(map(str, r if isinstance(r, tuple) else (r,))) for r in df.index]


def dev(ctx, x, S, L, p, seg):
    r = ctx.call("development_correlation", x.development_correlation, p_critical=p)
    I = len(S.ddims)
    var = 2 / ((I - 2) * (I - 3))
    q = norm.ppf(1 - p / 2) * np.sqrt(var)
    ctx.check(near(r.t_variance, var, 1e-12), "variance", lambda: f"variance {r.t_variance} for {var}")
    ctx.check(near(r.confidence_interval[0], -q, 1e-9, 1e-12) and near(r.confidence_interval[1], q, 1e-9, 1e-12), "range", lambda: f"range {r.confidence_interval} for +-{q}")
    if not ctx.check(rows(r.t_expectation) == seg and list(r.t_expectation.columns) == S.vdims, "labels", lambda: f"{r.t_expectation} for {seg} {S.vdims}"):
        return
    for k in range(len(seg)):
        for c in range(len(S.vdims)):
            T = []
            for n in range(2, I - 1):                      # column n against column n-1, first I-n origins
                m = I - n
                b, a = ranks(L[k, c, :m, n - 1]), ranks(L[k, c, :m, n - 2])
                T.append(1 - 6 * sum((u - v) ** 2 for u, v in zip(a, b)) / (m ** 3 - m))
            w = [I - n - 1 for n in range(2, I - 1)]
            t = sum(a * b for a, b in zip(w, T)) / sum(w)
            ctx.check(near(r.t_expectation.iloc[k, c], t, 1e-9, 1e-12), "T", lambda: f"{seg[k]} {S.vdims[c]}: correlation {r.t_expectation.iloc[k, c]} for {t} = mean of {T}")
            if min(abs(t - q), abs(t + q)) > 1e-9:
                ctx.check(bool(r.t_critical.iloc[k, c]) == (abs(t) > q), "answer", lambda: f"T {t} against {q}: critical {r.t_critical.iloc[k, c]}")
                if k == c == 0:
                    ctx.check(bool(r.reject) == (abs(t) > q), "answer", lambda: f"T {t} against {q}: reject {r.reject}")
                ctx.event("rejected" if abs(t) > q else "accepted")
            if k == c == 0:
                for j, n in enumerate(range(2, I - 1)):
                    ctx.check(near(float(r.corr.loc["T_k", n]), T[j], 1e-9, 1e-12) and float(r.corr.loc["I-k-1", n]) == w[j], "Tk", lambda: f"T_{n} {r.corr.loc['T_k', n]} weight {r.corr.loc['I-k-1', n]} for {T[j]} {w[j]}")


def val(ctx, x, S, L, p, seg):
    K, C, O, D = S.arr.shape
    dates = sorted({o + d - 1 for o in S.odims for d in S.ddims[1:] if o + d - 1 <= S.vdate})
    Z, E, V, N = (np.zeros((K, C, len(dates))) for _ in range(4))
    for k in range(K):
        for c in range(C):
            sm = {v: [0, 0] for v in dates}
            for d in range(D - 1):
                at = [o for o in range(O) if S.odims[o] + S.ddims[d + 1] - 1 <= S.vdate]
                col = sorted(L[k, c, o, d] for o in at)
                n = len(col)
                med = (col[(n - 1) // 2] + col[n // 2]) / 2
                lo, hi = col[(n - 1) // 2], col[n // 2]
                for o in at:
                    f = L[k, c, o, d]
                    v = S.odims[o] + S.ddims[d + 1] - 1
                    if (lo == hi and f == lo):
                        ctx.event("at median")
                    elif f <= lo:
                        sm[v][0] += 1
                    else:
                        sm[v][1] += 1
            for j, v in enumerate(dates):
                a, b = sm[v]
                n = a + b
                m = (n - 1) // 2
                cc = comb(n - 1, m) if n > 0 else 0
                e = n / 2 - cc * n / 2 ** n
                Z[k, c, j], N[k, c, j], E[k, c, j] = min(a, b), n, e
                V[k, c, j] = n * (n - 1) / 4 - cc * n * (n - 1) / 2 ** n + e - e * e
    r = ctx.call("valuation_correlation", x.valuation_correlation, p_critical=p, total=True)
    q = norm.ppf(1 - p / 2)
    if ctx.check(rows(r.z) == seg and list(r.z.columns) == S.vdims and rows(r.z_critical) == seg, "labels", lambda: f"{r.z} for {seg}"):
        for k in range(K):
            for c in range(C):
                z, e, v = Z[k, c].sum(), E[k, c].sum(), V[k, c].sum()
                ctx.check(near(r.z.iloc[k, c], z, 1e-12) and near(r.z_expectation.iloc[k, c], e, 1e-9) and near(r.z_variance.iloc[k, c], v, 1e-9, 1e-9), "z-total", lambda: f"{seg[k]} {S.vdims[c]}: z {r.z.iloc[k, c]} expected {r.z_expectation.iloc[k, c]} variance {r.z_variance.iloc[k, c]} for {z} {e} {v}")
                lo, hi = e - q * np.sqrt(v), e + q * np.sqrt(v)
                ctx.check(near(r.range[0][k, c], lo, 1e-8, 1e-9) and near(r.range[1][k, c], hi, 1e-8, 1e-9), "z-range", lambda: f"range {r.range[0][k, c]}, {r.range[1][k, c]} for {lo}, {hi}")
                if min(abs(z - lo), abs(z - hi)) > 1e-9:
                    bad = not lo <= z <= hi
                    ctx.check(bool(r.z_critical.iloc[k, c]) == bad, "answer", lambda: f"z {z} against {lo}..{hi}: critical {r.z_critical.iloc[k, c]}")
                    ctx.event("rejected" if bad else "accepted")
    r = ctx.call("valuation_correlation", x.valuation_correlation, p_critical=p, total=False)
    for nm, want in (("z", Z), ("z_expectation", E), ("z_variance", V), ("z_critical", None)):
        tri = getattr(r, nm)
        a = dense(tri.set_backend("numpy").values)
        got = [mnum(pd.Timestamp(str(d)) if not isinstance(d, pd.Timestamp) else d) for d in tri.valuation.unique()]
        if not ctx.check(a.shape == (K, C, 1, len(dates)) and list(map(str, tri.vdims)) == S.vdims and [tuple(map(str, b)) for b in tri.index.to_numpy().tolist()] == seg and got == dates, "year-labels", lambda: f"{nm} is {a.shape} {got} for {len(dates)} calendar periods {dates}"):
            return
        for k in range(K):
            for c in range(C):
                for j in range(len(dates)):
                    z, n = int(Z[k, c, j]), int(N[k, c, j])
                    if want is None:
                        pr = min(1, 2 * sum(comb(n, h) for h in range(z + 1)) / 2 ** n)
                        if abs(pr - p) > 1e-9:
                            ctx.check(bool(a[k, c, 0, j]) == (pr < p), "year-answer", lambda: f"{z} of {n} links small or large at {dates[j]}: probability {pr} against {p}, critical {a[k, c, 0, j]}")
                    else:
                        ctx.check(near(np.nan_to_num(a[k, c, 0, j]), want[k, c, j], 1e-9, 1e-12), "z-year", lambda: f"{seg[k]} {S.vdims[c]} {nm} at {mend(dates[j]).date()}: {a[k, c, 0, j]} for {want[k, c, j]} ({z} of {n})")
