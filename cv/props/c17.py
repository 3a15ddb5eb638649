from cv.methods import *
ID = "C17"
CASES = dict(quick=330, thorough=12000)
RULE = "random triangles (mixed grains, partial periods, several segments, holes on the latest diagonal, cumulative or incremental, both storages) with random patterns and tails and exposure tables given in other row and column orders, with one column, one origin or one row; every expectation and ultimate recomputed by label from the recursion, limits and reproducibility of sampled aprioris checked; distinct by table, exposure layout and method"
REQUIRE = {"chk:recursion": 300, "chk:expectation": 300, "chk:limit": 30, "chk:random": 30, "layout:permuted": 20, "layout:one_column": 10, "predictions": 40}


def layout(rng, sw, t):
    """the same exposure in another layout, and a function giving its amount by label"""
    a = {}
    s = Snap(sw)
    r = rng.random()
    name = "plain"
    if r < .35 and (len(sw) > 1 or sw.shape[1] > 1):
        name = "permuted"
        if len(sw) > 1:
            sw = cl.concat([sw.iloc[int(i)] for i in rng.permutation(len(sw))], 0) if rng.random() < .5 else sw.sort_index().iloc[::-1]
        if sw.shape[1] > 1:
            sw = sw[[str(c) for c in rng.permutation(list(sw.columns))]]
    elif r < .5:
        sw = sw.iloc[:, 0].rename("columns", ["exposure"]); name = "one_column"
    elif r < .6:
        sw = sw.iloc[0]; name = "one_row"
        if rng.random() < .5:
            sw = sw.sum("index") if len(sw) > 1 else sw
    elif r < .7 and sw.shape[2] > 1 and len(sw) * sw.shape[1] > 1:
        sw = sw.mean("origin") if rng.random() < .5 else sw.sum("origin"); name = "one_origin"
    if rng.random() < .2:
        sw = sw.set_backend("sparse")
    s = Snap(sw)
    for k in range(len(s.kdims)):
        for c in range(len(s.vdims)):
            for o in range(len(s.odims)):
                a[s.kdims[k], s.vdims[c], s.odims[o]] = np.nan_to_num(s.arr[k, c, o, 0])

    def at(k, c, o):
        return a[k if len(s.kdims) > 1 else s.kdims[0], c if len(s.vdims) > 1 else s.vdims[0], o if len(s.odims) > 1 else s.odims[0]]
    return sw, at, name


def case(ctx, i):
    rng = ctx.rng
    kw = mixed_grain(rng)
    cum = bool(rng.random() < .8)
    t, s = regular(rng, **kw, cumulative=cum, late=False, max_cells=9000)
    if t.shape[3] < 3 or t.shape[2] < 3:
        raise Skip()
    with auto_sparse(bool(rng.random() < .8)):
        u = patterned(rng, t)
        sw, at, name = layout(rng, exposure(rng, t), t)
        holes = bool(rng.random() < .2 and cum and len(t) * t.shape[1] > 1 and name != "one_row")
        if holes:          # a segment without a latest amount for some origins
            v = u.values if u.array_backend == "numpy" else None
            if v is not None:
                nv = np.array(u.valuation).reshape(u.shape[2:], order="F") == np.datetime64(u.valuation_date)
                k, c, o = (int(rng.integers(n)) for n in u.shape[:3])
                if k + c:
                    v[k, c, o][nv[o]] = np.nan
                    ctx.event("missing_latest")
        if rng.random() < .25:
            u = u.set_backend("sparse")
        n = pick(rng, "EL", "BF", 0, 1, 2, 3, 7)
        ap = round(float(rng.uniform(.4, 1.4)), 3)
        rnd = bool(rng.random() < .15 and u.array_backend == "numpy" and name != "one_row")
        x = dict(apriori_sigma=.1, random_state=int(rng.integers(1000))) if rnd else {}
        est = cl.ExpectedLoss(ap, **x) if n == "EL" else cl.BornhuetterFerguson(ap, **x) if n == "BF" else cl.Benktander(ap, n, **x)
        k = 0 if n == "EL" else 1 if n == "BF" else n
        ctx.note(spec=brief(s), est=str(est), tail=u.shape[3], backend=u.array_backend, layout=name); ctx.sig = [brief(s), str(est), name, u.array_backend]
        ctx.call("fit", est.fit, u, sample_weight=sw)
        ctx.event("layout:" + name)
        if not np.isfinite(np.log(np.abs(Pat(est.ldf_).cdf))).all():
            raise Skip()
        mult = None
        if rnd:
            mult = sampled(ctx, rng, est, u, sw, at, n)
        agree(ctx, est, est.X_, k, ap, at, mult)
        if rng.random() < .3:
            p = ctx.call("predict", est.predict, t if not holes else u, sample_weight=sw)
            ctx.event("predictions")
            agree(ctx, p, p, k, ap, at, mult, est)
        if not rnd and not holes:
            limits(ctx, rng, u, sw, at, ap, est, k)


def agree(ctx, est, X, n, ap, at, mult=None, fitted=None):
    S = Snap(X.set_backend("numpy").incr_to_cum().val_to_dev())
    P = Pat((fitted or est).ldf_)
    U, E = Snap(est.ultimate_), Snap(est.expectation_)
    la = ages_of(S)
    ctx.check(sorted(U.kdims) == sorted(S.kdims) and sorted(U.vdims) == sorted(S.vdims) and U.odims == S.odims and U.vdate == ULT and U.arr.shape[3] == 1, "recursion", f"labels of the ultimate {U.meta()} for {S.meta()}")
    sc = np.nanmax(np.abs(S.arr))
    for a, k in enumerate(E.kdims):
        for b, c in enumerate(E.vdims):
            for d, o in enumerate(E.odims):
                w = at(k if len(S.kdims) == len(E.kdims) else S.kdims[0], c, o) * (ap if mult is None else mult[k])
                ctx.check(near(np.nan_to_num(E.arr[a, b, d, 0]), w, 1e-9, 1e-9 * sc), "expectation", lambda: f"{k} {c} {o}: expectation {E.arr[a, b, d, 0]}, expected {w}")
    for k, kk in enumerate(S.kdims):
        for c, cc in enumerate(S.vdims):
            for o, oo in enumerate(S.odims):
                if la[o] not in S.ddims:
                    continue
                ld = np.nan_to_num(S.arr[k, c, o, S.ddims.index(la[o])])
                p = 1 - 1 / P.at(k, c, la[o])
                e = at(kk, cc, oo) * (ap if mult is None else mult[kk])
                x = e
                for _ in range(n):
                    x = ld + p * x
                y = np.nan_to_num(U.arr[U.kdims.index(kk), U.vdims.index(cc), o, 0])
                ctx.check(near(y, x, 1e-8, 1e-8 * sc), "recursion", lambda: f"{kk} {cc} origin {oo}: ultimate {y} after {n} rounds, expected {x} (latest {ld}, unreported share {p}, expectation {e})")


def sampled(ctx, rng, est, u, sw, at, n):
    """one random multiplier per index member, the same on every run"""
    from sklearn.base import clone
    E = Snap(est.expectation_)
    m = {}
    for a, k in enumerate(E.kdims):
        r = [E.arr[a, b, d, 0] / at(k, c, o) for b, c in enumerate(E.vdims) for d, o in enumerate(E.odims) if at(k, c, o)]
        ctx.check(np.ptp(r) < 1e-9, "random", f"{k}: several sampled aprioris {r}")
        m[k] = r[0]
    ctx.check(E.kdims == Snap(u).kdims, "random", "labels")
    np.random.seed(int(rng.integers(99)))
    e2 = clone(est).fit(u, sample_weight=sw)
    ctx.check(same(freeze(e2.ultimate_), freeze(est.ultimate_)) is None and same(freeze(e2.expectation_), freeze(est.expectation_)) is None, "random", "another run with the same seed differs")
    d = np.random.RandomState(est.random_state).normal(est.apriori, .1, len(u))
    ctx.check(close(np.array([m[k] for k in E.kdims]), d, 1e-9), "random", lambda: f"sampled aprioris {m} are not the seeded draws {d}")
    e3 = clone(est).set_params(random_state=est.random_state + 1).fit(u, sample_weight=sw)
    ctx.check(same(freeze(e3.expectation_), freeze(est.expectation_), 1e-9) is not None, "random", "another seed gives the same aprioris")
    if len(m) > 1:
        ctx.check(len({round(v, 9) for v in m.values()}) == len(m), "random", f"members share a draw: {m}")
    return m


def limits(ctx, rng, u, sw, at, ap, est, k):
    same_e = lambda a, b, tol, msg: same_triangle(ctx, "limit", a.ultimate_.set_backend("numpy"), b.ultimate_.set_backend("numpy"), tol, 1e-6, nan_zero=True)
    if k == 0 and rng.random() < .5:
        same_e(est, cl.ExpectedLoss(ap).fit(u, sample_weight=sw), 1e-9, "zero rounds")
    if k == 1 and rng.random() < .5:
        same_e(est, cl.BornhuetterFerguson(ap).fit(u, sample_weight=sw), 1e-9, "one round")
    if rng.random() < .3:
        P = Pat(est.ldf_)
        q = 1 - 1 / P.cdf
        if (q > -1e-12).all() and (P.cdf >= 1).all() and q.max() < .97:
            many = cl.Benktander(ap, 900).fit(u, sample_weight=sw)
            same_e(many, cl.Chainladder().fit(u), 1e-6, "many rounds")
    # linear in the apriori
    if rng.random() < .3:
        S = Snap(est.X_.set_backend("numpy").incr_to_cum().val_to_dev())
        e2 = type(est)(**dict(est.get_params(), apriori=2 * ap)).fit(u, sample_weight=sw)
        A, B = Snap(e2.ultimate_), Snap(est.ultimate_)
        la, P = ages_of(S), Pat(est.ldf_)
        for a, kk in enumerate(A.kdims):
            for b, c in enumerate(A.vdims):
                for o, oo in enumerate(A.odims):
                    if la[o] in S.ddims:
                        w = (1 - 1 / P.at(S.kdims.index(kk), S.vdims.index(c), la[o])) ** k * ap * at(kk, c, oo)
                        d = np.nan_to_num(A.arr[a, b, o, 0]) - np.nan_to_num(B.arr[a, b, o, 0])
                        ctx.check(near(d, w, 1e-7, 1e-6 * abs(at(kk, c, oo))), "limit", lambda: f"{kk} {c} {oo}: doubling the apriori adds {d}, expected {w}")
