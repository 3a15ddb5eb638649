from cv.methods import *
ID = "C28"
CASES = dict(quick=150, thorough=6000)
RULE = "random paid/incurred triangles (several segments, one or two paid/incurred pairs in any column order, grains, whole or partly observed) under random developments; ratios, variances, residuals, correlations, completed triangles, individual factors and ultimates recomputed from the cells by the definitions of Quarg and Mack; distinct by table and settings"
REQUIRE = {"chk:lambda": 200, "chk:q": 500, "chk:rho": 500, "chk:full": 2000, "chk:ult": 200, "pairs:2": 8, "segments": 30}
BUDGET = {"quick": 200, "thorough": 800}


def interpolate(sig, how):
    """sigma where it cannot be estimated"""
    y = np.array(sig, float)
    ok = ~np.isnan(y)
    if how == "log-linear":
        x = np.arange(1, len(y) + 1.)
        b, a = np.polyfit(x[ok], np.log(y[ok]), 1)
        y[~ok] = np.exp(a + b * x[~ok])
    else:
        for j in range(len(y)):
            if np.isnan(y[j]):
                y[j] = np.sqrt(min(y[j - 1] ** 4 / y[j - 2] ** 2, min(y[j - 2] ** 2, y[j - 1] ** 2)))
    return y


def case(ctx, i):
    rng = ctx.rng
    og = int(pick(rng, 12, 12, 3, 6, 1))
    pairs = int(rng.random() < .3) + 1
    n_key = int(pick(rng, 1, 1, 2, 3)); n_o = int(rng.integers(5, 10))
    t, _, s = data(rng, "munich", og=og, n_key=n_key, n_o=n_o)
    a = dense(t.values)
    a[:, 1] = a[:, 0] * .93 * (1 - np.exp(-(np.array(t.ddims, float) / og) * .6)) * np.exp(rng.normal(0, .06, a[:, 0].shape))
    t.values = a
    if pairs == 2:
        a = dense(t.values)
        f = np.exp(rng.normal(0, .05, a[:, :1].shape))
        t2 = cl.concat([t.rename("columns", ["incurred", "paid"]), t.rename("columns", ["inc2", "paid2"])], 1)
        x = np.concatenate([a, a * f * .4], 1)
        x[:, 2] = x[:, 2] * np.exp(rng.normal(0, .05, x[:, 2].shape))
        t2.values = x
        t = t2
    names = [("paid", "incurred"), ("paid2", "inc2")][:pairs]
    cols = list(t.columns)
    cols = [cols[j] for j in rng.permutation(len(cols))]
    t = t[cols]
    dev = development(rng) if rng.random() < .5 else None
    if dev is not None:
        dev.set_params(drop_high=None, drop_low=None, drop_above=np.inf, drop_below=0.0)
    x = t.set_backend("sparse") if rng.random() < .15 else t
    x = dev.fit_transform(x) if dev is not None else x
    est = cl.MunichAdjustment(paid_to_incurred=names[0] if pairs == 1 and rng.random() < .5 else names)
    ctx.note(spec=brief(s), cols=cols, dev=str(dev)[:90], shape=str(t.shape)); ctx.sig = [brief(s), cols, str(dev), t.shape]
    ctx.event(f"pairs:{pairs}")
    if len(t) > 1:
        ctx.event("segments")
    ctx.call("fit", est.fit, x)
    y = ctx.call("transform", est.transform, x)
    base = (x if dev is not None else cl.Development().fit_transform(t)).copy()
    how = (dev or cl.Development()).sigma_interpolation
    B, SG = dense(base.ldf_.set_backend("numpy").values), dense(base.sigma_.set_backend("numpy").values)
    A = dense(t.set_backend("numpy").values)
    V = A.shape[3]
    wv = getattr(base, "w_", None)
    wv = None if wv is None else np.broadcast_to(np.nan_to_num(dense(wv)), (A.shape[0], A.shape[1], A.shape[2] if dense(wv).shape[2] == A.shape[2] else dense(wv).shape[2], V - 1))
    full = np.asarray(est.munich_full_triangle_)
    lam = est.lambda_
    lam = np.asarray(est.lambda_coef_)
    ult = Snap(cl.Chainladder().fit(y).ultimate_.set_backend("numpy"))
    ldf = Snap(est.ldf_.set_backend("numpy"))
    for k in range(A.shape[0]):
        for n, (pc, ic) in enumerate(names):
            p, q = cols.index(pc), cols.index(ic)
            P, I = A[k, p], A[k, q]
            fp, fi, sp_, si = B[k, p, 0], B[k, q, 0], SG[k, p, 0], SG[k, q, 0]
            ok = ~np.isnan(P) & ~np.isnan(I)
            qv = np.array([I[ok[:, d], d].sum() / P[ok[:, d], d].sum() for d in range(V)])     # incurred to paid
            pv = 1 / qv
            rp = np.array([np.sqrt((P[m, d] * (I[m, d] / P[m, d] - qv[d]) ** 2).sum() / (m.sum() - 1)) if (m := ok[:, d]).sum() > 1 else np.nan for d in range(V)])
            ri = np.array([np.sqrt((I[m, d] * (P[m, d] / I[m, d] - pv[d]) ** 2).sum() / (m.sum() - 1)) if (m := ok[:, d]).sum() > 1 else np.nan for d in range(V)])
            rp, ri = interpolate(rp, how), interpolate(ri, how)
            for d in range(V):
                ctx.check(near(np.asarray(est.q_f_)[0, k, n, 0, d], qv[d], 1e-9) and near(np.asarray(est.q_f_)[1, k, n, 0, d], pv[d], 1e-9), "q", lambda: f"segment {k} {pc}: incurred to paid at age {t.ddims[d]} {np.asarray(est.q_f_)[0, k, n, 0, d]}, average of the cells {qv[d]}")
                ctx.check(near(np.asarray(est.rho_sigma_)[0, k, n, 0, d], rp[d], 1e-6) and near(np.asarray(est.rho_sigma_)[1, k, n, 0, d], ri[d], 1e-6), "rho", lambda: f"segment {k} {pc}: rho at age {t.ddims[d]} {np.asarray(est.rho_sigma_)[:, k, n, 0, d]}, by definition {rp[d]}, {ri[d]}")
            num, den = np.zeros(2), np.zeros(2)
            for d in range(V - 1):
                rows = [o for o in range(len(P)) if ok[o, d] and ok[o, d + 1] and (wv is None or o >= wv.shape[2] or wv[k, p, o, d] != 0)]
                if len(rows) < 2:
                    continue
                for o in rows:
                    res = ((P[o, d + 1] / P[o, d] - fp[d]) / sp_[d] * np.sqrt(P[o, d]), (I[o, d + 1] / I[o, d] - fi[d]) / si[d] * np.sqrt(I[o, d]))
                    rq = ((I[o, d] / P[o, d] - qv[d]) / rp[d] * np.sqrt(P[o, d]), (P[o, d] / I[o, d] - pv[d]) / ri[d] * np.sqrt(I[o, d]))
                    for j in (0, 1):
                        num[j] += res[j] * rq[j]; den[j] += rq[j] ** 2
            L = num / den
            if not np.isfinite(L).all():
                continue
            for j in (0, 1):
                ctx.check(near(lam.reshape(2, A.shape[0], pairs)[j, k, n], L[j], 1e-5, 1e-7), "lambda", lambda: f"segment {k} {(pc, ic)[j]}: correlation {lam.reshape(2, A.shape[0], pairs)[j, k, n]}, by definition {L[j]}")
            L = lam.reshape(2, A.shape[0], pairs)[:, k, n]
            for o in range(len(P)):
                a, b = P[o, 0], I[o, 0]
                for d in range(V):
                    if d:
                        na = a * (fp[d - 1] + L[0] * sp_[d - 1] / rp[d - 1] * (b / a - qv[d - 1]))
                        nb = b * (fi[d - 1] + L[1] * si[d - 1] / ri[d - 1] * (a / b - pv[d - 1]))
                        a, b = (P[o, d], I[o, d]) if ok[o, d] else (na, nb)
                    ctx.check(near(full[0, k, n, o, d], a, 1e-6) and near(full[1, k, n, o, d], b, 1e-6), "full", lambda: f"segment {k} {pc} origin {o} age {t.ddims[d]}: completed {full[:, k, n, o, d]}, recursion {a}, {b}")
                for c, v in ((p, a), (q, b)):
                    ctx.check(near(ult.arr[k, c, o, 0], v, 1e-6), "ult", lambda: f"segment {k} {cols[c]} origin {o}: ultimate {ult.arr[k, c, o, 0]}, completed triangle ends at {v}")
                    rowf = full[0 if c == p else 1, k, n, o]
                    ctx.check(close(ldf.arr[k, c, o, :V - 1], rowf[1:] / rowf[:-1], 1e-7, 0), "ldf", lambda: f"segment {k} {cols[c]} origin {o}: factors {ldf.arr[k, c, o, :V - 1]} are not those of the completed triangle {rowf[1:] / rowf[:-1]}")
    for nm, arr in (("q_", np.asarray(est.q_f_)), ("rho_", np.asarray(est.rho_sigma_)), ("lambda_", None)):
        o = getattr(est, nm)
        if nm == "lambda_":
            continue
        g = dense(o.values)
        for n, (pc, ic) in enumerate(names):
            for j, c in enumerate((pc, ic)):
                ctx.check(close(g[:, list(o.columns).index(c), 0], arr[j, :, n, 0], 0, 0), "labels", lambda: f"{nm} of {c} is not the value fitted for it")
