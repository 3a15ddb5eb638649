from cv.methods import *
from scipy.optimize import least_squares
ID = "C19"
CASES = dict(quick=420, thorough=15000)
RULE = "random triangles (all grain pairs, several segments) developed with random settings, then constant, curve and Bondy tails with random attachment ages, decays, fit periods, thresholds and projection periods; every factor, cumulative factor, tail statistic and label recomputed; distinct by table, pattern and tail settings"
REQUIRE = {"chk:untouched": 300, "chk:product": 300, "chk:constant": 90, "chk:curve": 90, "chk:bondy": 60, "chk:sigma": 80, "chk:transform": 200, "est:TailConstant": 60, "est:TailCurve": 60, "est:TailBondy": 40}


def ols(x, y, w):
    x, y, w = (np.asarray(v, float) for v in (x, y, w))
    s = w.sum()
    mx, my = (w * x).sum() / s, (w * y).sum() / s
    b = (w * (x - mx) * (y - my)).sum() / (w * (x - mx) ** 2).sum()
    return b, my - b * mx


def case(ctx, i):
    rng = ctx.rng
    kw = mixed_grain(rng, n_key=int(pick(rng, 1, 1, 2, 3)))
    t, s = regular(rng, **kw, cumulative=bool(rng.random() < .85), late=False, max_cells=6000)
    if t.shape[3] < 4 or t.shape[2] < 4 or s.steps * s.dg % s.og:
        raise Skip()
    with auto_sparse(bool(rng.random() < .8)):
        r = rng.random()
        if r < .15:
            ages = [int(a) for a in t.ddims]
            X = cl.DevelopmentConstant(patterns={a: round(1.0005 + 2.0 * float(rng.random()) / (n + 1) ** 2, 5) for n, a in enumerate(ages)}, style="ldf").fit_transform(t)
        elif r < .92:
            X = cl.Development(average=pick(rng, "volume", "simple", "regression"), n_periods=pick(rng, -1, -1, 4)).fit_transform(t)
        else:
            X = t
        if rng.random() < .2:
            X = X.set_backend("sparse")
        base = X if "ldf_" in X else cl.Development().fit_transform(X)
        L = dense(base.ldf_.values)
        if not (np.isfinite(L).all() and (L > 0).all()):
            raise Skip()
        ages = [int(a) for a in t.ddims]
        pp = pick(rng, 12, 12, 12, 24)
        name = pick(rng, "TailConstant", "TailCurve", "TailCurve", "TailBondy")
        att = int(pick(rng, *ages[:-1])) if rng.random() < .45 else None
        kw = {}
        if name == "TailConstant":
            kw = dict(tail=pick(rng, 1.0, round(float(rng.uniform(1.001, 1.5)), 4)), decay=pick(rng, .3, .5, .8))
        elif name == "TailCurve":
            kw = dict(curve=pick(rng, "exponential", "inverse_power"), extrap_periods=int(pick(rng, 100, 100, 30, 60, 5, 1)))
            if rng.random() < .3:
                a, b = sorted(int(x) for x in rng.choice(ages[:-1] + [ages[-1]], 2, replace=False))
                kw["fit_period"] = pick(rng, (a, None), (a, b), (None, b))
                if rng.random() < .3:
                    kw["fit_period"] = [int(x) for x in rng.random(len(ages) - 1) < .7]
            if rng.random() < .3:
                kw["reg_threshold"] = pick(rng, (1.01, None), (1.005, 3.0), (1.0, 2.0))
        else:
            e = pick(rng, None, *ages[:-1])
            kw = dict(earliest_age=e)
            if att and (e is None or att < e):
                att = None
        est = getattr(cl, name)(attachment_age=att, projection_period=pp, **kw)
        ctx.note(spec=brief(s), est=str(est), backend=X.array_backend, pattern="ldf_" in X); ctx.sig = [brief(s), str(est), X.array_backend]
        usable = name != "TailCurve" or curve_ok(est, L, ages, s.dg)
        if not usable:
            raise Skip()
        if name == "TailBondy" and (L[..., 0, ages.index(est.earliest_age) if est.earliest_age else len(ages) - 2:] <= 1.00001).any():
            raise Skip()
        ctx.call("fit", est.fit, X)
        ctx.event("est:" + name)
        judge(ctx, est, name, base, X, L, ages, s)


def curve_ok(est, L, ages, g):
    for row in L.reshape(-1, L.shape[-1]):
        w = weights(est, row, ages, g)
        if w.sum() < 2:
            return False
    return True


def weights(est, row, ages, g):
    n = len(row)
    if isinstance(est.fit_period, list):
        w = np.array(est.fit_period, float)
    else:
        a, b = est.fit_period
        w = np.array([1.0 if (a is None or k * g + g >= a) and (b is None or k * g + g < b) else 0.0 for k in range(n)])
    lo, hi = est.reg_threshold
    lo = max(lo or 1, 1)
    return np.array([0 if row[k] <= lo or (hi is not None and row[k] > hi) else w[k] for k in range(n)], float)


def judge(ctx, est, name, base, X, L, ages, s):
    J = len(ages) - 1
    g, per = s.dg, 12 // s.dg
    ave = est.projection_period // 12 * per
    T = Snap(est.ldf_)
    F = T.arr
    ctx.check(list(est.ldf_.ddims) == ages + [ages[-1] + g * (k + 1) for k in range(ave)], "product", lambda: f"ages of the pattern {list(est.ldf_.ddims)}, of the data {ages}, projecting {ave}")
    ctx.must(F.shape == L.shape[:3] + (J + 1 + ave,), "product", f"pattern of shape {F.shape} for {L.shape} and {ave} extra ages")
    if not np.isfinite(np.prod(F, -1)).all():
        ctx.event("diverging"); raise Skip()
    cdf = dense(est.cdf_.values)
    ctx.check(close(cdf, np.cumprod(F[..., ::-1], -1)[..., ::-1], 1e-10), "product", lambda: "cumulative factors are not products: " + first_diff(cdf, np.cumprod(F[..., ::-1], -1)[..., ::-1]))
    att = est.attachment_age
    if name == "TailBondy":
        k0 = sum(a <= (att or ages[-2]) for a in ages)
    else:
        k0 = ages.index(min(a for a in ages if a >= att)) if att else J
    ctx.check(close(F[..., :k0], L[..., :k0], 0, 0), "untouched", lambda: f"factors before position {k0} changed: " + first_diff(F[..., :k0], L[..., :k0]))
    for k in range(F.shape[0]):
        for c in range(F.shape[1]):
            f, l = F[k, c, 0], L[k, c, 0]
            if name == "TailConstant":
                constant(ctx, est, f[k0:])
            elif name == "TailCurve":
                curve(ctx, est, f, l, ages, g, k0)
            else:
                bondy(ctx, est, f, l, ages, k0, est.b_.iloc[k, c], ave)
    tail = np.prod(F[..., J:], -1, keepdims=True)
    tl = est.tail_
    tv = np.asarray(tl.values if isinstance(tl, pd.DataFrame) else dense(tl.values), float)
    ctx.check(close(np.sort(tv.ravel()), np.sort(tail.ravel()), 1e-9) or (tv.size != tail.size and close(np.unique(tv), np.unique(tail), 1e-9)), "product", lambda: f"tail_ {tv.ravel()} is not {tail.ravel()}")
    if hasattr(base, "sigma_") and getattr(est, "sigma_", None) is not None:
        stats(ctx, est, base, tail, F, J)
    t2 = est.transform(X)
    for nm in ("ldf_", "cdf_", "sigma_", "std_err_"):
        if getattr(est, nm, None) is None:
            continue
        r = same(freeze(getattr(t2, nm)), freeze(getattr(est, nm)))
        ctx.check(r is None, "transform", lambda: f"transformed triangle has another {nm}: {r}")
    same_triangle(ctx, "transform", t2.set_backend("numpy"), X.set_backend("numpy"))
    u = cl.Chainladder().fit(t2).ultimate_.set_backend("numpy")
    S, U, P = Snap(X.set_backend("numpy").incr_to_cum()), Snap(u), Pat(est.ldf_)
    la = ages_of(S)
    for k in range(len(S.kdims)):
        for c in range(len(S.vdims)):
            for o in range(len(S.odims)):
                ld = np.nan_to_num(S.arr[k, c, o, S.ddims.index(la[o])])
                w = ld * np.prod(F[k, c, 0, S.ddims.index(la[o]):])
                ctx.check(near(np.nan_to_num(U.arr[k, c, o, 0]), w, 1e-9, 1e-6), "product", lambda: f"ultimate {U.arr[k, c, o, 0]} is not latest {ld} times all later factors ({w})")


def constant(ctx, est, f):
    ctx.check(near(np.prod(f), est.tail, 1e-9), "constant", lambda: f"factors {f} multiply to {np.prod(f)}, tail {est.tail}")
    if est.tail == 1:
        ctx.check((f == 1).all(), "constant", f"a tail of one gives factors {f}")
        return
    h = f[:-1] - 1
    ctx.check((h >= 0).all() and h[0] > 0 and f[-1] > 1 - 1e-6, "constant", lambda: f"factors {f} of a tail {est.tail}")
    if len(h) > 1:
        q = (h[1:] / h[:-1])[h[1:] > 1e-8]
        ctx.check(close(q, np.full(len(q), est.decay), 1e-5), "constant", lambda: f"factors {f} do not decay at {est.decay}")
        # first factor: log of the tail is the second order series of the decaying factors
        d = est.decay
        a, b = 1 / (1 - d * d), 1 / (1 - d)
        ctx.check(near(a * h[0] ** 2 + b * h[0], np.log(est.tail), 1e-6), "constant", lambda: f"first factor {f[0]} of tail {est.tail}")


def curve(ctx, est, f, l, ages, g, k0):
    w = weights(est, l, ages, g)
    x = np.arange(1, len(l) + 1.0)
    on = w > 0
    xx = x if est.curve == "exponential" else np.log(x)
    b, a = ols(xx[on], np.log(l[on] - 1), w[on])
    n = len(l) + est.extrap_periods
    k = np.arange(1, n + 1.0)
    with np.errstate(over="ignore"):
        c = 1 + np.exp(b * (k if est.curve == "exponential" else np.log(k)) + a)
        c = np.concatenate((c, np.ones(max(len(f) - len(c), 0))))
        want = np.concatenate((c[:len(f) - 1], [np.prod(c[len(f) - 1:])]))[k0:]
    got = f[k0:]
    tol = 1e-7 * (1 + np.abs(np.log(np.maximum(want, 1e-300))))
    ctx.check(bool(np.all((got == want) | (np.abs(got - want) <= tol * np.abs(want)) | ~np.isfinite(want))), "curve", lambda: f"{est.curve} tail from position {k0}: {got[:4]} .. {got[-1]}, regression gives {want[:4]} .. {want[-1]}")


def bondy(ctx, est, f, l, ages, k0, b, ave):
    j = ages.index(est.earliest_age) if est.earliest_age else len(ages) - 2
    y = np.log(l[j:])
    m = np.arange(len(y))
    if len(y) > 1:
        r = min((least_squares(lambda v: y - v[1] * v[0] ** m, [q, y[0]]) for q in (.5, .3, .8)), key=lambda r: r.cost)
        sse = lambda b, e: ((y - e * b ** m) ** 2).sum()
        own = min(r.cost * 2, sse(*r.x))
        lib = min(((y - e * b ** m) ** 2).sum() for e in [(y * b ** m).sum() / ((b ** m) ** 2).sum()])
        ctx.check(lib <= own * (1 + 1e-3) + 1e-6 * (y ** 2).sum() + 1e-12, "bondy", lambda: f"Bondy exponent {b} leaves error {lib} on {y}, {r.x} leaves {own}")
    else:
        ctx.check(near(b, .5, 1e-6), "bondy", f"exponent {b} from a single factor")
    if not 0 < b < 1:
        ctx.event("bondy_no_decay"); return
    n = len(ages) - j - 1 + ave
    seq = l[j] ** (b ** np.arange(n))
    want = np.concatenate((seq, [seq[-1] ** (b / (1 - b))]))[k0 - j:]
    ctx.check(close(f[k0:], want, 1e-9), "bondy", lambda: f"factors {f[k0:]} from position {k0}, generalised Bondy gives {want}")
    tot = np.prod(f[k0:])
    ctx.check(near(tot, l[j] ** (b ** (k0 - j) / (1 - b)), 1e-8), "bondy", lambda: f"tail from position {k0} is {tot}")


def stats(ctx, est, base, tail, F, J):
    """variability attached to the tail continues the fitted decay at the age where the pattern reaches the tail"""
    L = dense(base.ldf_.values)
    for nm in ("sigma_", "std_err_"):
        B, T = dense(getattr(base, nm).values), dense(getattr(est, nm).values)
        ctx.must(T.shape[-1] == J + 1, "sigma", f"{nm} has {T.shape[-1]} ages for {J} links")
        ctx.check(close(np.nan_to_num(T[..., :J]), np.nan_to_num(B[..., :J]), 0, 0), "sigma", lambda: f"fitted {nm} changed by the tail")
        for k in range(T.shape[0]):
            for c in range(T.shape[1]):
                if np.all(tail == 1):
                    ctx.check(np.nan_to_num(T[k, c, 0, J]) == 0, "sigma", f"{nm} {T[k, c, 0, J]} for no tail"); continue
                l, b, tl = L[k, c, 0], B[k, c, 0], tail[k, c, 0, 0]
                on = l > 1
                ok = np.isfinite(np.log(np.where(b > 0, b, np.nan)))
                if on.sum() < 2 or ok.sum() < 2 or not (b > 0).all() or tl <= 1 + 1e-9:
                    continue
                x = np.arange(1, J + 1.0)
                s1, i1 = ols(x[on], np.log(l[on] - 1), np.ones(on.sum()))
                s2, i2 = ols(x[ok], np.log(b[ok]), np.ones(ok.sum()))
                e = s2 * (np.log(tl - 1) - i1) / s1 + i2
                if abs(e) > 50 or abs(s1) < 1e-3:
                    continue
                ctx.check(near(T[k, c, 0, J], np.exp(e), 1e-6, 1e-12), "sigma", lambda: f"tail {nm} {T[k, c, 0, J]}, extrapolated {np.exp(e)}")
                ctx.check(T[k, c, 0, J] > 0, "sigma", f"tail {nm} {T[k, c, 0, J]}")
