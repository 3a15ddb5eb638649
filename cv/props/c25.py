from cv.methods import *
ID = "C25"
CASES = dict(quick=300, thorough=12000)
RULE = "random triangles (all grains, holes, several segments and columns, cumulative or incremental, ages or valuations, either backend, complete, patterns excluded) trended along origin or valuation with random rates and start/end dates in several types, through Triangle.trend and the Trend estimator with adjoining intervals; every cell recomputed from its labels; distinct by table and settings"
REQUIRE = {"chk:cell": 3000, "chk:factor": 500, "chk:relation": 300, "interval": 60, "compound": 40}


def months_of(when, m):
    """whole months from a month number to a date"""
    return mnum(when) - m


def factor(rate, v, start, end):
    lo, hi = min(start, end), max(start, end)
    return (1 + rate) ** ((start - min(max(v, lo), hi)) / 12)


def case(ctx, i):
    rng = ctx.rng
    r = rng.random()
    if r < .25:
        s = gen_spec(rng, max_cells=900)
        t = s.triangle(rng)
    else:
        kw = mixed_grain(rng)
        t, s = regular(rng, **kw, cumulative=bool(rng.random() < .6), late=bool(rng.random() < .2), fiscal=bool(rng.random() < .2), max_cells=4000)
    with auto_sparse(bool(rng.random() < .7)):
        t = t.set_backend(pick(rng, "numpy", "numpy", "sparse"))
        view = pick(rng, "dev", "dev", "val", "diag")
        u = t if view == "dev" else t.dev_to_val() if view == "val" else t.latest_diagonal
        if min(u.shape) == 0:
            raise Skip()
        body(ctx, rng, u, s, view)


def date(rng, S, what):
    """(argument, month number) of a random start or end date"""
    if rng.random() < .45:
        return None, S.vdate if what == "start" else S.odims[0]
    m = int(rng.integers(S.odims[0] - 14, S.vdate + 14))
    d = pick(rng, mstart, mend)(m)
    return pick(rng, d, d.strftime("%Y-%m-%d"), d.strftime("%m/%d/%Y"), d.to_pydatetime()), m


def body(ctx, rng, u, s, view):
    S = Snap(u.set_backend("numpy"))
    axis = pick(rng, "origin", "origin", "valuation", "valuation", 2, -2)
    rate = pick(rng, .05, -.03, .1, 0.0, .25, 1e-4)
    (a, am), (b, bm) = date(rng, S, "start"), date(rng, S, "end")
    if a is not None or b is not None:
        ctx.event("interval")
    ctx.note(spec=brief(s), axis=axis, rate=rate, start=str(a), end=str(b), view=view, backend=u.array_backend)
    ctx.sig = [brief(s), axis, rate, str(a), str(b), view, u.array_backend]
    kw = {k: v for k, v in (("start", a), ("end", b)) if v is not None}
    before = state(u)
    x = ctx.call("trend", u.trend, rate, axis, **kw)
    same_state(ctx, "unchanged", before, state(u), "triangle after trending")
    X = Snap(x.set_backend("numpy"))
    ctx.check(X.meta() == S.meta() and x.array_backend == u.array_backend, "labels", f"{X.meta()} {x.array_backend}")
    if X.arr.shape != S.arr.shape:
        return
    og = MONTHS[u.origin_grain]
    n = 0
    f = np.ones(S.arr.shape[2:])
    for o, oo in enumerate(S.odims):
        for d in range(S.arr.shape[3]):
            v = oo + og - 1 if axis in ("origin", 2, -2) else S.val(oo, S.ddims[d])
            f[o, d] = factor(rate, v, am, bm)
    A = np.nan_to_num(S.arr)
    W = A * f[None, None]
    G = np.nan_to_num(X.arr)
    sc = np.abs(A).max(initial=1)
    ok = np.isclose(G, W, rtol=1e-9, atol=1e-12 * sc)
    ctx.event("chk:cell", int((A != 0).sum()))
    if not ok.all():
        k, c, o, d = map(int, np.argwhere(~ok)[0])
        ctx.fail("cell", f"{S.kdims[k]} {S.vdims[c]} origin {mstart(S.odims[o]).date()} position {d}: {A[k, c, o, d]} trended to {G[k, c, o, d]}, expected {W[k, c, o, d]}")
    # relations
    back = x.trend(1 / (1 + rate) - 1, axis, **kw)
    ctx.check(close(np.nan_to_num(Snap(back.set_backend("numpy")).arr), A, 1e-9, 1e-9 * sc), "relation", "detrending with the reciprocal rate does not restore the triangle")
    zero = u.trend(0.0, axis, **kw)
    ctx.check(close(np.nan_to_num(Snap(zero.set_backend("numpy")).arr), A, 1e-12, 0), "relation", "zero trend changes the triangle")
    if u.is_cumulative is not None and a is not None and b is not None and am != bm:
        m = int(rng.integers(min(am, bm), max(am, bm) + 1))
        mid = mend(m)
        two = u.trend(rate, axis, start=a, end=mid).trend(rate, axis, start=mid, end=b)
        ctx.check(close(np.nan_to_num(Snap(two.set_backend("numpy")).arr), W, 1e-9, 1e-9 * sc), "relation", f"two adjoining intervals meeting at {mid.date()} differ from one")
        ctx.event("compound")
    estimator(ctx, rng, u, S, og)


def estimator(ctx, rng, u, S, og):
    axis = pick(rng, "origin", "valuation")
    n = int(pick(rng, 1, 1, 2, 3))
    rates = [float(pick(rng, .04, -.05, .1, 0.0)) for _ in range(n)]
    lo, hi = S.odims[0] - 3, S.vdate + 3
    if n == 1 and rng.random() < .5:
        est, cuts = cl.Trend(pick(rng, rates[0], rates), axis=axis), [(S.vdate, S.odims[0])]
    else:
        c = sorted((int(x) for x in rng.integers(lo, hi, n + 1)), reverse=True)
        dates = [(mend(p).strftime("%Y-%m-%d"), mend(q).strftime("%Y-%m-%d")) for p, q in zip(c, c[1:])]
        cuts = list(zip(c, c[1:]))
        est = cl.Trend(rates, dates=dates if n > 1 else pick(rng, dates, dates[0]), axis=axis)
        if n > 1:
            ctx.event("compound")
    ctx.note(est=str(est), cuts=str(cuts))
    before = state(u)
    y = ctx.call("Trend", est.fit_transform, u)
    same_state(ctx, "unchanged", before, state(u), "triangle after the Trend estimator")
    Y = Snap(y.set_backend("numpy"))
    ctx.check(close(np.nan_to_num(Y.arr), np.nan_to_num(S.arr), 0, 0), "transform", "the estimator changed the amounts")
    T = Snap(est.trend_.set_backend("numpy"))
    ctx.check(T.kdims == S.kdims and T.vdims == S.vdims and T.odims == S.odims and T.ddims == S.ddims, "labels", f"trend factors {T.meta()}")
    if T.arr.shape != S.arr.shape:
        return
    ctx.check(same(freeze(y.trend_), freeze(est.trend_)) is None, "transform", "the transformed triangle carries other factors")
    for o, oo in enumerate(S.odims):
        for d in range(S.arr.shape[3]):
            v = oo + og - 1 if axis == "origin" else S.val(oo, S.ddims[d])
            w = np.prod([factor(r, v, p, q) for r, (p, q) in zip(rates, cuts)])
            for k, c in zip(*np.nonzero(np.nan_to_num(S.arr[:, :, o, d]))):
                g = T.arr[k, c, o, d]
                ctx.check(near(np.nan_to_num(g), w, 1e-9), "factor", lambda: f"origin {mstart(oo).date()} position {d}: trend factor {g}, expected {w}")
