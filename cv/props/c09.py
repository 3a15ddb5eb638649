from cv.model import *
ID = "C09"
CASES = dict(quick=420, thorough=9000)
RULE = "random programs of 3-10 public operations, and fits of every development, tail and reserving family, executed in lockstep on a dense and a sparse twin of the same random triangle, all labels, metadata and cells compared after every step; distinct by table shape and operation sequence"
REQUIRE = {"steps_compared": 800, "chk:step": 800, "chk:fit": 40, "chk:convert": 200}
ASSUMPTIONS = ["an operation both twins reject counts as agreement"]


def ops(rng, t):
    """one random operation as (name, function of a triangle)"""
    n = t.shape
    L = []
    add = lambda name, fn: L.append((name, fn))
    add("incr_to_cum", lambda x: x.incr_to_cum())
    add("cum_to_incr", lambda x: x.cum_to_incr())
    add("dev_to_val", lambda x: x.dev_to_val())
    add("val_to_dev", lambda x: x.val_to_dev())
    for g in ("OYDY", "OYDQ", "OSDS", "OQDQ"):
        add("grain" + g, lambda x, g=g: x.grain(g))
    a = [int(rng.integers(0, m)) for m in n]; b = [int(rng.integers(p + 1, m + 1)) for p, m in zip(a, n)]
    add("iloc", lambda x: x.iloc[a[0]:b[0], a[1]:b[1]])
    add("iloc_o", lambda x: x.iloc[..., a[2]:b[2], :])
    add("iloc_d", lambda x: x.iloc[..., a[3]:b[3]])
    perm = [int(v) for v in rng.permutation(n[0])]
    add("iloc_perm", lambda x: x.iloc[perm])
    cperm = [int(v) for v in rng.permutation(n[1])]
    add("columns", lambda x: x[[x.vdims[v] for v in cperm]])
    add("bool_o", lambda x: x[x.origin >= x.origin[min(a[2], x.shape[2] - 1)]])
    add("bool_d", lambda x: x[x.development <= x.development.iloc[min(b[3], x.shape[3]) - 1]])
    k = int(rng.integers(0, 6))
    add("asof", lambda x: x[x.valuation <= x.valuation_date - pd.DateOffset(months=3 * k)])
    add("before", lambda x: x[x.valuation < x.valuation_date])
    for f in ("sum", "mean", "max", "min", "median", "std", "var", "prod"):
        ax = int(rng.integers(0, 4))
        add(f"{f}{ax}", lambda x, f=f, ax=ax: getattr(x, f)(ax))
    add("cumsum", lambda x: x.cumsum(3))
    add("quantile", lambda x: x.quantile(0, q=.4))
    l = str(rng.choice(t.key_labels))
    add("groupby", lambda x: x.groupby(l).sum() if l in x.key_labels else x.copy())
    add("groupby_mean", lambda x: x.groupby(l).mean() if l in x.key_labels else x.copy())
    add("groupby_o", lambda x: x.groupby(x.origin.year, axis=2).sum() if x.shape[2] > 1 and x.origin_grain != "Y" else x.copy())
    c = round(float(rng.uniform(-2, 3)), 2)
    add("add_c", lambda x: x + c); add("mul_c", lambda x: x * c); add("rsub", lambda x: c - x)
    add("rdiv", lambda x: c / x); add("div_c", lambda x: x / 3.0); add("pow", lambda x: x ** 2); add("neg", lambda x: -x)
    add("add_self", lambda x: x + x.iloc[::-1]); add("sub_ld", lambda x: x - x.latest_diagonal); add("div_ld", lambda x: x / x.latest_diagonal)
    add("mul_sum", lambda x: x * (x / x.sum(0)))
    add("partial", lambda x: x + x.iloc[..., a[2]:b[2], a[3]:b[3]]); add("mul_o", lambda x: x * x.iloc[..., 0])
    add("latest", lambda x: x.latest_diagonal); add("link", lambda x: x.link_ratio if x.shape[3] > 1 else x.copy())
    tr = round(float(rng.uniform(-.1, .2)), 3)
    add("trend", lambda x: x.trend(tr)); add("trend_v", lambda x: x.trend(tr, axis="valuation"))
    add("abs", lambda x: abs(x)); add("round", lambda x: round(x, 0) + 0)
    add("minimum", lambda x: x.minimum(500.0)); add("maximum", lambda x: x.maximum(500.0))
    add("sqrt", lambda x: abs(x).sqrt()); add("exp", lambda x: (x / 1e6).exp()); add("log", lambda x: (abs(x) + 2).log())
    add("append", lambda x: x.append(x.rename("index", [f"z{i}" for i in range(len(x))])) if len(x.key_labels) == 1 else x.copy())
    add("concat_c", lambda x: cl.concat((x, (x * 2).rename("columns", [f"{v}_2" for v in x.columns])), 1))
    add("concat_o", lambda x: cl.concat((x.iloc[..., :1, :], x.iloc[..., 1:, :]), 2) if x.shape[2] > 1 else x.copy())
    add("drop", lambda x: x.drop(x.columns[0]) if x.shape[1] > 1 else x.copy())
    add("setcol", lambda x: _set(x)); add("virtual", lambda x: _virt(x))
    sh = int(rng.choice([-2, -1, 1, 2]))
    add("shift", lambda x: x.shift(sh)); add("shift_o", lambda x: x.shift(sh, axis=2))
    add("dropna", lambda x: x.dropna()); add("fillna", lambda x: x.fillna(1.5)); add("sort", lambda x: x.sort_index()); add("sort_c", lambda x: x.sort_axis(1))
    add("reindex", lambda x: x.reindex(columns=list(x.columns) + ["extra"], fill_value=2.0))
    add("nan_ld", lambda x: x[x.valuation == x.valuation_date])
    w = [int(v) for v in rng.integers(0, 100, 4)]
    add("iat", lambda x: _iat(x, w))
    add("lt", lambda x: x < 300.0)
    return L[int(rng.integers(len(L)))]


def _iat(x, w):
    x = x.copy()
    x.iat[tuple(v % m for v, m in zip(w, x.shape))] = 7.5
    return x


def _set(x):
    x = x.copy()
    x["new"] = x.iloc[:, 0] * 2
    x[x.columns[0]] = x["new"] + x.iloc[:, 0]
    return x


def _virt(x):
    x = x.copy()
    c = x.columns[0]
    x["virt"] = lambda y: y[c] * 3
    return x[[v for v in x.columns]]["virt"]


def run(fn, x):
    try:
        return fn(x), None
    except Exception as e:
        return None, e


def compare(ctx, key, a, b, msg, tol=1e-9, scale=0.0):
    if not isinstance(a, cl.Triangle) or not isinstance(b, cl.Triangle):
        if isinstance(a, cl.Triangle) != isinstance(b, cl.Triangle):
            return ctx.check(False, key, f"{msg}: {type(a)} {type(b)}")
        if a is None or b is None:
            return ctx.check(a is b, key, f"{msg}: {a} {b}")
        return ctx.check(near(np.nan_to_num(float(a)), np.nan_to_num(float(b)), tol, 1e-6), key, f"{msg}: {a} {b}")
    ctx.event("steps_compared")
    x, y = Snap(a), Snap(b)
    if not ctx.check(x.meta() == y.meta(), key, lambda: f"{msg}: metadata differ: " + str([(k, v, y.meta()[k]) for k, v in x.meta().items() if v != y.meta()[k]])[:300]):
        return False
    if not ctx.check(x.shape_ok() and y.shape_ok(), key, f"{msg}: shapes {x.arr.shape} {y.arr.shape}"):
        return False
    u, v = np.nan_to_num(x.arr), np.nan_to_num(y.arr)
    sc = max(np.abs(u[np.abs(u) < 1e30]).max(initial=1.0), scale)
    ctx.event("cells_compared", u.size)
    return ctx.check(close(u, v, tol, 1e-12 * sc), key, lambda: f"{msg}: " + first_diff(u, v, tol, 1e-12 * sc))


def case(ctx, i):
    rng = ctx.rng
    if rng.random() < .2:
        return fits(ctx, rng)
    with auto_sparse(False):
        s = gen_spec(rng, max_cells=600)
        t = s.triangle()
        d, sp = t.set_backend("numpy"), t.set_backend("sparse")
        ctx.note(spec=brief(s)); ctx.sig = [brief(s)]
        ctx.check(d.array_backend == "numpy" and sp.array_backend == "sparse" and sp.values.fill_value != 0, "convert")
        compare(ctx, "convert", d, sp, "conversion")
        compare(ctx, "convert", d, sp.set_backend("numpy").set_backend("sparse").set_backend("numpy"), "conversion and back")
        names, big = [], 1.0
        for _ in range(int(rng.integers(3, 11))):
            name, fn = ops(rng, d)
            if name in ("dropna", "round") and names:
                continue                       # decided by rounding noise of earlier steps
            if name in ("rdiv", "div_ld", "mul_sum", "link", "log", "quantile", "groupby_mean", "lt", "exp", "fillna", "sqrt") or name[:3] in ("mea", "med", "std", "var", "min", "max", "pro"):
                z = np.abs(np.nan_to_num(np.concatenate([dense(d.values), dense(sp.values)])))
                if (z[z > 0].min(initial=1e99) if name != "mul_sum" else np.abs(np.nan_to_num(dense(d.values)).sum(0)).min()) < 1e-5 * big:
                    continue                   # quotients of rounding noise
            names.append(name); ctx.note(ops=" ".join(names))
            (r1, e1), (r2, e2) = run(fn, d), run(fn, sp)
            ctx.event("op:" + name)
            if e1 is not None or e2 is not None:
                if e1 is not None and e2 is not None:
                    ctx.event("rejected_by_both")
                    continue
                if e2 is not None and name == "iat":
                    pass
                ctx.check(False, f"step:{name}:raise", f"{' '.join(names)}: dense {e1!r} sparse {e2!r}")
                return
            if isinstance(r1, cl.Triangle) and not np.isfinite(np.nan_to_num(dense(r1.values), nan=0., posinf=np.inf)).all():
                ctx.event("infinite"); continue
            big = max(big, np.abs(np.nan_to_num(dense(d.values))).max(initial=1.0))
            if not compare(ctx, "step:" + name, r1, r2, " ".join(names), scale=big):
                return
            if not isinstance(r1, cl.Triangle) or r1.shape == (1, 1, 1, 1) or name == "lt" or name[:3] in ("var", "std", "exp"):
                break
            ctx.check(r1.array_backend == "numpy", "backend_kept", f"{name}: {r1.array_backend}")
            d, sp = r1, r2.set_backend("sparse")
            if np.isnan(dense(d.values)).all():
                break
        ctx.sig += names


def fits(ctx, rng):
    t, s = regular(rng, og=int(rng.choice([12, 12, 6, 3])), n_key=int(rng.integers(1, 4)), n_o=int(rng.integers(5, 8)), partial=False, late=False, cumulative=True)
    dev = [lambda: cl.Development(), lambda: cl.Development(average="simple", n_periods=3), lambda: cl.Development(drop_high=1, drop_low=1), lambda: cl.Development(average="regression"), lambda: cl.DevelopmentConstant(patterns={int(x): 1.5 for x in t.ddims[:-1]}, style="ldf"), lambda: cl.ClarkLDF(), lambda: cl.Development(groupby=s.key_labels[:1])][int(rng.integers(7))]
    tail = [None, lambda: cl.TailConstant(1.05), lambda: cl.TailCurve(), lambda: cl.TailBondy()][int(rng.integers(4))]
    meth = [lambda: cl.Chainladder(), lambda: cl.MackChainladder(), lambda: cl.BornhuetterFerguson(apriori=.7), lambda: cl.Benktander(apriori=.8, n_iters=3), lambda: cl.CapeCod(trend=.03, decay=.9), lambda: cl.ExpectedLoss(apriori=.6)][int(rng.integers(6))]
    names = [dev().__class__.__name__, tail().__class__.__name__ if tail else "-", meth().__class__.__name__]
    ctx.note(spec=brief(s), fit=" ".join(names)); ctx.sig = ["fit", brief(s), names]

    def go(x):
        sw = x.latest_diagonal * 0 + 5000.0
        x = dev().fit_transform(x)
        if tail:
            x = tail().fit_transform(x)
        m = meth()
        try:
            m.fit(x, sample_weight=sw)
        except TypeError:
            m.fit(x)
        return m, x
    with auto_sparse(bool(rng.random() < .5)):
        a, b = run(go, t.set_backend("numpy")), run(go, t.set_backend("sparse"))
    if a[1] is not None or b[1] is not None:
        if a[1] is not None and b[1] is not None:
            raise Skip()
        ctx.check(False, "fit:raise", f"{names}: dense {a[1]!r} sparse {b[1]!r}")
        return
    for attr in ("ldf_", "cdf_", "sigma_", "std_err_"):
        if hasattr(a[0][1], attr):
            compare(ctx, "fit", getattr(a[0][1], attr), getattr(b[0][1], attr), f"{names} {attr}", 1e-7)
    for attr in ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "full_std_err_", "total_process_risk_", "mack_std_err_"):
        if hasattr(a[0][0], attr):
            compare(ctx, "fit", getattr(a[0][0], attr), getattr(b[0][0], attr), f"{names} {attr}", 1e-7)
