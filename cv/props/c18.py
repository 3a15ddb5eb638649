from cv.methods import *
ID = "C18"
CASES = dict(quick=260, thorough=9000)
RULE = "random triangles (mixed grains, partial periods, several segments, cumulative or incremental, holes) with random patterns, exposures in several layouts, trend, decay, on-level factors and grouping; apriori, detrended apriori, expectation and ultimate of every origin recomputed by plain loops over labels; distinct by table, settings and layout"
REQUIRE = {"chk:apriori": 300, "chk:detrended": 300, "chk:ultimate": 300, "with_trend": 30, "with_olf": 20, "grouped": 20, "predictions": 30, "chk:limit": 20}


def factor(t, rate, start=None, end=None):
    """trend factor of each origin by hand, from the origin's end to the start date, inside the interval"""
    v = mnum(start if start is not None else t.valuation_date)
    e = mnum(end if end is not None else t.origin[0].to_timestamp())
    lo, hi = min(v, e), max(v, e)
    return [(1 + rate) ** ((v - min(max(mnum(o) + MONTHS[t.origin_grain] - 1, lo), hi)) / 12) for o in t.odims]


def case(ctx, i):
    rng = ctx.rng
    grouped = rng.random() < .3
    kw = mixed_grain(rng)
    if grouped:
        kw.update(n_key=int(pick(rng, 2, 3, 4)), n_levels=2)
    cum = bool(rng.random() < .8)
    t, s = regular(rng, **kw, cumulative=cum, late=False, max_cells=9000)
    if t.shape[3] < 3 or t.shape[2] < 3:
        raise Skip()
    with auto_sparse(bool(rng.random() < .8)):
        sw = exposure(rng, t)
        u = t
        trend = pick(rng, 0, 0, .05, -.03, .1)
        est = cl.CapeCod(trend=trend, decay=pick(rng, 1, 1, .75, .4, 0), n_iters=pick(rng, 1, 1, 0, 2))
        tf = factor(t, trend)
        if trend:
            ctx.event("with_trend")
        grp = None
        if grouped:
            grp = pick(rng, s.key_labels[0], s.key_labels[-1], [s.key_labels[0]], list(s.key_labels))
            est.groupby = grp; ctx.event("grouped")
        olf = [1.0] * t.shape[2]; wolf = olf
        r = rng.random()
        if r < .25 and s.og in (12, 3) and s.o0 % 12 == 0:
            y = 1970 + s.o0 // 12
            f = lambda: cl.ParallelogramOLF(rate_history(rng, y - 1, y + s.n_o), change_col="change", date_col="date", vertical_line=pick(rng, True, False))
            if rng.random() < .6:
                sw = f().fit_transform(sw); wolf = dense(sw.olf_.values)[0, 0, :, 0]; ctx.event("with_olf")
            if rng.random() < .4:
                u = f().fit_transform(u); olf = dense(u.olf_.values)[0, 0, :, 0]; ctx.event("with_olf")
        elif r < .4:
            tr = pick(rng, .04, -.02); est.trend = 0
            u = cl.Trend(tr).fit_transform(u); tf = factor(t, tr); ctx.event("with_trend")
        tp = patterned(rng, t)
        if "ldf_" in tp:
            for k in ("olf_", "trend_"):
                if hasattr(u, k):
                    setattr(tp, k, getattr(u, k)); tp._set_slicers()
            u = tp
        name = "plain"
        if rng.random() < .3:
            from cv.props.c17 import layout
            sw, at, name = layout(rng, sw, t)
            if name in ("one_origin", "one_row") or hasattr(sw, "olf_") and name == "one_column":
                raise Skip()
        else:
            W = Snap(sw)
            at = lambda k, c, o: np.nan_to_num(W.arr[W.kdims.index(k), W.vdims.index(c), W.odims.index(o), 0])
        if rng.random() < .25:
            u = u.set_backend("sparse")
        ctx.note(spec=brief(s), est=str(est), tail=u.shape[3], backend=u.array_backend, layout=name, olf=str(olf)[:60]); ctx.sig = [brief(s), str(est), name, u.array_backend]
        ctx.call("fit", est.fit, u, sample_weight=sw)
        ctx.event("layout:" + name)
        if not np.isfinite(np.log(np.abs(Pat(est.ldf_).cdf))).all():
            raise Skip()
        agree(ctx, est, est.X_, est, at, tf, olf, wolf, grp)
        if rng.random() < .3 and not (hasattr(u, "olf_") or hasattr(u, "trend_")):
            p = ctx.call("predict", est.predict, t, sample_weight=sw)
            ctx.event("predictions")
            agree(ctx, p, p, est, at, tf, olf, wolf, grp)
        limits(ctx, est, u)


def agree(ctx, res, X, est, at, tf, olf, wolf, grp):
    S = Snap(X.set_backend("numpy").incr_to_cum().val_to_dev())
    P = Pat(est.ldf_)
    la = ages_of(S)
    A, D, E, U = Snap(res.apriori_), Snap(res.detrended_apriori_), Snap(res.expectation_), Snap(res.ultimate_)
    lab = [grp] if isinstance(grp, str) else grp
    for Z in (A, D, E, U):      # a single column may carry the name of the exposure
        if len(S.vdims) == 1:
            Z.vdims = S.vdims
    gk = (lambda k: k) if grp is None else (lambda k: tuple(k[S.key_labels.index(g)] for g in lab))
    groups = {}
    for k in S.kdims:
        groups.setdefault(gk(k), []).append(k)
    if any(a not in S.ddims for a in la):
        return
    ctx.check(sorted(A.kdims) == sorted(groups) and A.odims == S.odims and sorted(A.vdims) == sorted(S.vdims), "apriori", f"labels of the apriori {A.meta()}")
    sc = np.nanmax(np.abs(S.arr))
    n = len(S.odims)
    for c, cc in enumerate(S.vdims):
        want = {}
        for g, ks in groups.items():
            ld = [sum(np.nan_to_num(S.arr[S.kdims.index(k), c, o, S.ddims.index(la[o])]) for k in ks) for o in range(n)]
            re = [sum(at(k, cc, S.odims[o]) / P.at(S.kdims.index(k), c, la[o]) for k in ks) for o in range(n)]
            tu = [ld[o] * tf[o] * olf[o] / wolf[o] for o in range(n)]          # trended amount
            for o in range(n):
                w = [est.decay ** abs(o - j) for j in range(n)]
                ap = sum(w[j] * tu[j] for j in range(n)) / sum(w[j] * re[j] for j in range(n))
                want[g, o] = ap, ap / tf[o] / olf[o] * wolf[o]
                if g in A.kdims and cc in A.vdims:
                    x = A.arr[A.kdims.index(g), A.vdims.index(cc), o, 0]
                    ctx.check(near(np.nan_to_num(x), ap, 1e-8, 1e-9), "apriori", lambda: f"{g} {cc} origin {S.odims[o]}: apriori {x}, expected {ap}")
                    y = D.arr[D.kdims.index(g), D.vdims.index(cc), o, 0]
                    ctx.check(near(np.nan_to_num(y), want[g, o][1], 1e-8, 1e-9), "detrended", lambda: f"{g} {cc} origin {S.odims[o]}: detrended apriori {y}, expected {want[g, o][1]}")
        for k, kk in enumerate(S.kdims):
            for o, oo in enumerate(S.odims):
                e = at(kk, cc, oo) * want[gk(kk), o][1]
                if kk in E.kdims and cc in E.vdims:
                    x = np.nan_to_num(E.arr[E.kdims.index(kk), E.vdims.index(cc), o, 0])
                    ctx.check(near(x, e, 1e-8, 1e-8 * sc), "expectation", lambda: f"{kk} {cc} origin {oo}: expectation {x}, expected {e}")
                else:
                    ctx.check(False, "expectation", f"{kk} {cc} missing from the expectation {E.kdims} {E.vdims}")
                v = e
                l = np.nan_to_num(S.arr[k, c, o, S.ddims.index(la[o])])
                q = 1 - 1 / P.at(k, c, la[o])
                for _ in range(est.n_iters):
                    v = l + q * v
                if kk in U.kdims and cc in U.vdims:
                    y = np.nan_to_num(U.arr[U.kdims.index(kk), U.vdims.index(cc), o, 0])
                    ctx.check(near(y, v, 1e-8, 1e-8 * sc), "ultimate", lambda: f"{kk} {cc} origin {oo}: ultimate {y}, expected {v}")
                else:
                    ctx.check(False, "ultimate", f"{kk} {cc} missing from the ultimate")


def limits(ctx, est, u):
    a, d = Snap(est.apriori_).arr, Snap(est.detrended_apriori_).arr
    if est.decay == 1:
        ctx.check(np.allclose(np.nanmax(a, 2), np.nanmin(a, 2), rtol=1e-9), "limit", f"decay one gives different aprioris {a[0, 0, :, 0]}")
    if est.decay == 0 and est.n_iters == 1 and est.groupby is None:
        w = cl.Chainladder().fit(u.copy())
        x, y = Snap(est.ultimate_.sort_index()), Snap(w.ultimate_.sort_index())
        if x.vdims == y.vdims:
            ctx.check(close(np.nan_to_num(x.arr), np.nan_to_num(y.arr), 1e-7, 1e-6), "limit", lambda: "decay zero differs from chain ladder: " + first_diff(x.arr, y.arr, 1e-7))
