from cv.methods import *
ID = "C16"
CASES = dict(quick=260, thorough=9000)
RULE = "random complete triangles (mixed grains, several segments, tails, averages, exclusions) fitted by Mack's method; Mack's recursion is run by hand on the fitted factors, sigmas, standard errors and completed triangle of every origin; distinct by table and settings"
REQUIRE = {"chk:process": 1000, "chk:parameter": 1000, "chk:total": 200, "chk:combine": 500, "chk:summary": 300, "chk:std_err": 1000, "tail": 60}


def case(ctx, i):
    rng = ctx.rng
    kw = mixed_grain(rng, partial=False)
    t, s = regular(rng, **kw, late=False, max_cells=9000)
    if t.shape[3] < 4 or t.shape[2] < 4:
        raise Skip()
    D = t.shape[3]
    dk = dict(average=pick(rng, "volume", "simple", "regression") if rng.random() < .7 else [pick(rng, "volume", "simple", "regression") for _ in range(D - 1)], sigma_interpolation=pick(rng, "log-linear", "mack"))
    r = rng.random()
    if r < .2:
        dk["n_periods"] = int(rng.integers(3, 6))
    elif r < .35:
        dk["drop"] = [(str(t.origin[int(rng.integers(2))]), t.ddims[0].item())]
    elif r < .5:
        dk["drop_high"] = True; dk["preserve"] = 2
    with auto_sparse(bool(rng.random() < .8)):
        u = cl.Development(**dk).fit_transform(t)
        tail = pick(rng, None, None, cl.TailConstant(round(float(rng.uniform(1, 1.2)), 3)), cl.TailCurve(), cl.TailConstant(1.1, attachment_age=int(t.ddims[-2])), cl.TailCurve("inverse_power", extrap_periods=20))
        if tail is not None:
            try:
                u = tail.fit_transform(u)
            except Exception:
                raise Skip()
            ctx.event("tail")
        sp_ = rng.random() < .2
        if sp_:
            u = u.set_backend("sparse")
        ctx.note(spec=brief(s), dev=str(dk), tail=str(tail), backend=u.array_backend); ctx.sig = [brief(s), str(dk), str(tail)]
        if not all(np.isfinite(np.nan_to_num(dense(x.values), nan=np.inf)).all() for x in (u.ldf_, u.sigma_, u.std_err_)) and tail is not None:
            raise Skip()
        m = ctx.call("fit", cl.MackChainladder().fit, u)
        if max(np.nanmax(np.abs(dense(x.values))) for x in (m.X_.ldf_, m.X_.sigma_)) > 1e7:
            raise Skip()       # diverging tail regression
        recursion(ctx, m, m.X_, t)
        if rng.random() < .3:
            p = ctx.call("predict", m.predict, t)
            ctx.event("predicted")
            for a in ("process_risk_", "parameter_risk_", "mack_std_err_", "total_parameter_risk_", "total_process_risk_", "full_std_err_"):
                same_triangle(ctx, "predict", getattr(p, a).set_backend("numpy"), getattr(m, a).set_backend("numpy"), 1e-7, 1e-6)
            ctx.check(close(p.total_mack_std_err_.values.astype(float), m.total_mack_std_err_.values.astype(float), 1e-7, 1e-6), "predict", "total error of the prediction")


def recursion(ctx, m, X, t):
    S = Snap(X.set_backend("numpy"))
    P = Pat(m.ldf_)
    F = np.nan_to_num(Snap(m.full_triangle_).arr)
    sg, se = Snap(X.sigma_).arr, Snap(X.std_err_).arr
    D = len(S.ddims)
    ave = [EXP[a] if isinstance(a, str) else a for a in X.average_]
    ave = ave + [ave[-1]] * (D - len(ave))
    PR, PA, MS = Snap(m.process_risk_), Snap(m.parameter_risk_), Snap(m.mack_std_err_)
    TP, TR = Snap(m.total_parameter_risk_), Snap(m.total_process_risk_)
    FE = Snap(m.full_std_err_)
    la = ages_of(S)
    for a, nm in ((PR, "process"), (PA, "parameter"), (MS, "combine")):
        ctx.check(a.odims == S.odims and a.kdims == S.kdims and a.vdims == S.vdims and a.ddims == S.ddims + [9999], nm, f"labels {a.ddims} {a.odims}")
    tm = m.total_mack_std_err_
    su = Snap(m.summary_)
    ctx.check(su.ddims == ["Latest", "IBNR", "Ultimate", "Mack Std Err"] and su.odims == S.odims, "summary", f"{su.ddims}")
    ult, ld = Snap(m.ultimate_).arr, Snap(X.latest_diagonal.set_backend("numpy")).arr
    w_ = np.nan_to_num(dense(X.w_), nan=1.0)
    for k in range(len(S.kdims)):
        for c in range(len(S.vdims)):
            f = [P.ldf(k, c, a) for a in S.ddims[:-1]] + [P.at(k, c, S.ddims[-1])]
            row = lambda a: a[k if a.shape[0] > 1 else 0, c if a.shape[1] > 1 else 0, 0]
            s_, e_ = np.nan_to_num(row(sg)), np.nan_to_num(row(se))
            if len(s_) != D or len(e_) != D:
                ctx.check(False, "process", f"{len(s_)} sigmas and {len(e_)} standard errors for {D} ages"); return
            scale = np.abs(F[k, c]).max()
            tot_par, tot_proc = [0.0], []
            for o in range(len(S.odims)):
                pr = pa = 0.0
                for j in range(D):
                    x = F[k, c, o, j]
                    if S.ddims[j] >= la[o]:
                        std = s_[j] / np.sqrt(x ** (2 - ave[j])) if x > 0 else 0.0
                        if x < 0:
                            std = np.nan
                        pr = np.sqrt((f[j] * pr) ** 2 + (x * std) ** 2)
                        pa = np.sqrt((f[j] * pa) ** 2 + (x * e_[j]) ** 2)
                    else:
                        pr = pa = 0.0
                        std = s_[j] / np.sqrt(x ** (2 - ave[j])) if x > 0 else 0.0
                        w2 = w_[k if w_.shape[0] > 1 else 0, c if w_.shape[1] > 1 else 0]
                        if j < w2.shape[-1]:
                            std = std * w2[o, j]
                    if not np.isfinite(std):
                        continue
                    ctx.check(near(np.nan_to_num(FE.arr[k, c, o, j]), std, 1e-7, 1e-10), "std_err", lambda: f"origin {o} age {S.ddims[j]}: standard deviation of the factor {FE.arr[k, c, o, j]} expected {std}")
                    ctx.check(near(np.nan_to_num(PR.arr[k, c, o, j + 1]), pr, 1e-6, 1e-7 * scale), "process", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o} age {S.ddims[j]}: process risk {PR.arr[k, c, o, j + 1]} expected {pr}")
                    ctx.check(near(np.nan_to_num(PA.arr[k, c, o, j + 1]), pa, 1e-6, 1e-7 * scale), "parameter", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o} age {S.ddims[j]}: parameter risk {PA.arr[k, c, o, j + 1]} expected {pa}")
                    q = np.sqrt(np.nan_to_num(PR.arr[k, c, o, j + 1]) ** 2 + np.nan_to_num(PA.arr[k, c, o, j + 1]) ** 2)
                    ctx.check(near(np.nan_to_num(MS.arr[k, c, o, j + 1]), q, 1e-8, 1e-9 * scale) and np.nan_to_num(MS.arr[k, c, o, j + 1]) >= 0, "combine", lambda: f"origin {o}: error {MS.arr[k, c, o, j + 1]} expected {q}")
                tot_proc.append(pr)
                for n, v in enumerate((ld[k, c, o, 0], np.nan_to_num(ult[k, c, o, 0]) - ld[k, c, o, 0], ult[k, c, o, 0], np.sqrt(pr ** 2 + pa ** 2))):
                    ctx.check(near(np.nan_to_num(su.arr[k, c, o, n]), np.nan_to_num(v), 1e-6, 1e-7 * scale), "summary", lambda: f"origin {o} {su.ddims[n]}: {su.arr[k, c, o, n]} expected {v}")
            if (F[k, c] < 0).any():
                continue
            tp = 0.0
            for j in range(D):
                b = sum(F[k, c, o, j] for o in range(len(S.odims)) if S.ddims[j] >= la[o])
                tp = np.sqrt((f[j] * tp) ** 2 + (b * e_[j]) ** 2)
                ctx.check(near(np.nan_to_num(TP.arr[k, c, 0, j + 1]), tp, 1e-6, 1e-7 * scale), "total", lambda: f"{S.kdims[k]} {S.vdims[c]} age {S.ddims[j]}: total parameter risk {TP.arr[k, c, 0, j + 1]} expected {tp}")
            pp = np.sqrt(sum(x ** 2 for x in tot_proc))
            ctx.check(near(np.nan_to_num(TR.arr[k, c, 0, -1]), pp, 1e-6, 1e-7 * scale), "total", lambda: f"total process risk {TR.arr[k, c, 0, -1]} expected {pp}")
            g = float(tm.iloc[k][S.vdims[c]])
            ctx.check(near(g, np.sqrt(tp ** 2 + pp ** 2), 1e-6, 1e-7 * scale), "total", lambda: f"total error {g} expected {np.sqrt(tp ** 2 + pp ** 2)}")


EXP = {"volume": 1, "simple": 2, "regression": 0}
