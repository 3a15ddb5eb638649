from cv.methods import *
ID = "C23"
CASES = dict(quick=220, thorough=8000)
RULE = "random paid/incurred/reported/closed triangles (square, several segments, several grains, extra columns, either backend) with random trend and count estimators; every restated cell recomputed from labelled cells: detrended latest average case reserve, latest disposal rates, log-linear interpolation of payments; distinct by table and settings"
REQUIRE = {"chk:incurred": 2000, "chk:closed": 2000, "chk:paid": 2000, "chk:diagonal": 500, "extrapolated": 20, "interior": 500, "estimators": 20}


def build(rng):
    og = int(pick(rng, 12, 12, 12, 3, 6, 1))
    n_o = int(rng.integers(4, 9))
    n_key = int(pick(rng, 1, 1, 2, 3))
    t, s = regular(rng, og=og, dg=og, n_o=n_o, n_key=n_key, n_cols=1, cumulative=True, late=False, partial=False, max_cells=3000)
    t = t.set_backend("numpy")
    shape = t.shape
    if shape[2] < 4 or shape[3] < 3:
        raise Skip()
    K, _, O, D = shape
    g = lambda sd, *sh: np.exp(rng.normal(0, sd, sh))
    age = np.arange(1, D + 1)
    rep = np.round(200 * g(.4, K, O, 1) * (1 - np.exp(-age * .9)) * g(.02, K, O, D)) + 30
    rep = np.maximum.accumulate(rep, -1)
    speed = .35 + .25 * rng.random((K, O, 1))                        # settlement speed changes by origin
    closed = np.round(rep * (1 - np.exp(-age * speed)) * .95, 1) + np.arange(D) * 1.0 + 1
    closed = np.maximum.accumulate(closed, -1) + np.arange(D) * .5
    closed = np.minimum(closed, rep - .5)
    closed = np.maximum.accumulate(closed, -1) + np.arange(D) * 1e-3
    sev = 900 * g(.2, K, O, 1)
    paid = np.cumsum(np.diff(np.concatenate([np.zeros((K, O, 1)), closed], -1), axis=-1) * sev * (1 + .1 * age) * g(.1, K, O, D), -1)
    adequacy = np.exp(rng.normal(0, .2, (K, 1, O + D)))
    val = np.arange(O)[:, None] + np.arange(D)[None]
    case_ = (rep - closed) * sev * 1.5 * adequacy[:, 0][:, val]
    cols = {"paid": paid, "incurred": paid + case_, "reported": rep, "closed": closed}
    names = list(cols)
    if rng.random() < .5:
        names.append("extra"); cols["extra"] = paid * .1 + 3
    order = [names[k] for k in rng.permutation(len(names))]
    x = cl.concat([t.rename("columns", [v]) for v in order], 1).set_backend("numpy")
    obs = ~np.isnan(np.broadcast_to(t.nan_triangle, t.shape[2:]))
    x.values = np.where(obs, np.stack([cols[v] for v in order], 1), np.nan)
    if rng.random() < .3 and O > 5:                                  # recent origins only
        x = x[x.origin >= x.origin[2]]
        x = x[x.development <= x.development.iloc[len(x.origin) - 1]]
    return x, s


def case(ctx, i):
    rng = ctx.rng
    x, s = build(rng)
    S = Snap(x)
    trend = pick(rng, 0.0, .05, .1, -.03)
    mk = pick(rng, None, None, lambda: cl.Chainladder(), lambda: cl.Pipeline([("d", cl.Development(average="simple")), ("m", cl.Chainladder())]), lambda: cl.Pipeline([("t", cl.TailConstant(1.05)), ("m", cl.Chainladder())]))
    cnt = mk() if mk else None
    if mk:
        ctx.event("estimators")
    est = cl.BerquistSherman(paid_amount="paid", incurred_amount="incurred", reported_count="reported", closed_count="closed", trend=trend, reported_count_estimator=cnt)
    u = x.set_backend("sparse") if rng.random() < .25 else x
    ctx.note(spec=brief(s), shape=x.shape, trend=trend, cnt=str(cnt)[:60], backend=u.array_backend); ctx.sig = [brief(s), x.shape, trend, str(cnt)[:40], u.array_backend]
    before = state(u)
    with auto_sparse(bool(rng.random() < .7)):
        r = ctx.call("fit", lambda: est.fit_transform(u))
        same_state(ctx, "unchanged", before, state(u), "triangle after the adjustment")
        if cnt is not None:
            ctx.check(not hasattr(cnt, "ultimate_") and not any(hasattr(v, "ultimate_") for _, v in getattr(cnt, "steps", [])), "unchanged", "the supplied count estimator was fitted")
        R, A = Snap(r.set_backend("numpy")), Snap(est.adjusted_triangle_.set_backend("numpy"))
        ult = Snap(pick_ult(mk, x[["reported"]]).set_backend("numpy"))
    ctx.check(R.meta() == S.meta(), "labels", f"{[(k, v, R.meta()[k]) for k, v in S.meta().items() if R.meta()[k] != v]}")
    ctx.check(A.odims == S.odims and A.ddims == S.ddims and A.kdims == S.kdims and A.vdims == S.vdims, "labels", f"adjusted triangle {A.meta()}")
    if R.meta() != S.meta():
        return
    ctx.check(np.array_equal(R.arr, A.arr, equal_nan=True), "adjusted", "transform differs from adjusted_triangle_")
    dr = Snap(est.disposal_rate_.set_backend("numpy"))
    c_ = {n: S.vdims.index(n) for n in S.vdims}
    la = ages_of(S)
    for k in range(len(S.kdims)):
        P, I, N, C = (np.nan_to_num(S.arr[k, c_[n]]) for n in ("paid", "incurred", "reported", "closed"))
        X = {n: np.nan_to_num(R.arr[k, c_[n]]) for n in c_}
        for n in c_:
            if n in ("reported", "extra"):
                ctx.check(np.array_equal(R.arr[k, c_[n]], S.arr[k, c_[n]], equal_nan=True), "untouched", f"column {n} changed")
        U = np.nan_to_num(ult.arr[k, 0, :, 0])
        last = {}                                                    # age -> origin on the latest diagonal
        for o, a in enumerate(la):
            if a in S.ddims:
                last[a] = o
        for o, oo in enumerate(S.odims):
            for d, a in enumerate(S.ddims):
                if a > la[o] or a not in last:
                    if a > la[o]:
                        ctx.check(all(np.isnan(R.arr[k, :, o, d])), "future", f"amounts at the unobserved origin {oo} age {a}")
                    continue
                L = last[a]
                if L == o:
                    for n in c_:
                        ctx.check(near(X[n][o, d], np.nan_to_num(S.arr[k, c_[n], o, d]), 1e-9, 1e-6), "diagonal", lambda: f"{n} latest amount of origin {oo}: {X[n][o, d]}, expected {S.arr[k, c_[n], o, d]}")
                    continue
                years = (S.vdate - (oo + a - 1)) / 12
                avg = (I[L, d] - P[L, d]) / (N[L, d] - C[L, d])
                want = avg / (1 + trend) ** years * (N[o, d] - C[o, d]) + P[o, d]
                ctx.check(near(X["incurred"][o, d], want, 1e-9, 1e-6), "incurred", lambda: f"{S.kdims[k]} origin {oo} age {a}: restated incurred {X['incurred'][o, d]}, expected {want}")
                ctx.check(near(np.nan_to_num(dr.arr[k, 0, o, d]), C[o, d] / U[o], 1e-9), "disposal", lambda: f"disposal rate {dr.arr[k, 0, o, d]}, expected {C[o, d] / U[o]}")
                cc = C[L, d] / U[L] * U[o]
                ctx.check(near(X["closed"][o, d], cc, 1e-9, 1e-6), "closed", lambda: f"{S.kdims[k]} origin {oo} age {a}: restated closed {X['closed'][o, d]}, expected {cc}")
                n = sum(1 for b in S.ddims if b <= la[o])
                if n < 2:
                    continue
                xs, ys = C[o, :n], P[o, :n]
                j = int(np.clip((xs < cc).sum() - 1, 0, n - 2))
                ctx.event("interior" if xs[0] <= cc <= xs[-1] else "extrapolated")
                b = (np.log(ys[j + 1]) - np.log(ys[j])) / (xs[j + 1] - xs[j])
                p = ys[j] * np.exp(b * (cc - xs[j]))
                ctx.check(near(X["paid"][o, d], p, 1e-7, 1e-6), "paid", lambda: f"{S.kdims[k]} origin {oo} age {a}: restated paid {X['paid'][o, d]}, expected {p} (closed {cc} in {xs})")


def pick_ult(mk, rep):
    e = (mk or cl.Chainladder)()
    e.fit(rep)
    return e.named_steps["m"].ultimate_ if hasattr(e, "named_steps") else e.ultimate_
