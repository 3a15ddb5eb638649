from cv.methods import *
from cv.props import c15, c16, c17, c18
ID = "C21"
CASES = dict(quick=260, thorough=9000)
RULE = "methods and pipelines fitted on one triangle and applied to another (same, earlier valuation, later valuation, fewer origins, a new origin, other amounts, some or one of the segments, segments under a pattern fitted on their total or group, other storage and view); ultimates recomputed from the new latest amounts and the trained factors at the new ages, the trained estimator and development transformers checked unchanged; distinct by method, tables and change"
REQUIRE = {"chk:cl": 60, "chk:recursion": 60, "chk:carried": 100, "chk:unchanged": 150, "to:same": 15, "to:earlier": 15, "to:later": 15, "to:total": 10, "to:subset": 10, "to:origins": 10, "to:neworigin": 10}


def other(rng, t, kind):
    """(training triangle, triangle to predict, pattern row for a key)"""
    vals = sorted({v for v in t.valuation if v <= t.valuation_date})
    if kind in ("earlier", "later"):
        n = int(rng.integers(1, max(2, len(vals) // 3)))
        early = t[t.valuation <= vals[-1 - n]]
        if early.shape[2] < 3 or early.shape[3] < 4:
            raise Skip()
        return (t, early) if kind == "earlier" else (early, t)
    if kind == "origins":
        a = sorted(int(x) for x in rng.choice(t.shape[2], 2, replace=False))
        return t, t[t.origin >= t.origin[a[0]]] if rng.random() < .5 else t.iloc[:, :, a[0]:a[1] + 1]
    if kind == "neworigin":
        return t.iloc[:, :, :-1], t
    if kind == "amounts":
        return t, t * round(float(rng.uniform(.5, 3)), 2)
    if kind == "subset":
        k = sorted(int(x) for x in rng.choice(len(t), int(rng.integers(1, len(t))), replace=False)) if len(t) > 1 else [0]
        return t, t.iloc[k]
    if kind == "total":
        return t.sum(0), t
    if kind == "group":
        return t.groupby([t.key_labels[0]]).sum(), t
    return t, t


def case(ctx, i):
    rng = ctx.rng
    kind = pick(rng, "same", "same", "earlier", "later", "origins", "neworigin", "amounts", "subset", "total", "group")
    kw = mixed_grain(rng)
    if kind in ("subset", "total", "group"):
        kw.update(n_key=int(rng.integers(2, 5)), n_levels=2 if kind == "group" else int(rng.integers(1, 3)))
    kw["n_o"] += 1
    t, s = regular(rng, **kw, cumulative=bool(rng.random() < .8), late=False, max_cells=9000)
    if t.shape[3] < 4 or t.shape[2] < 4:
        raise Skip()
    name = pick(rng, "Chainladder", "Chainladder", "Benktander", "BornhuetterFerguson", "ExpectedLoss", "CapeCod", "MackChainladder", "Pipeline")
    with auto_sparse(bool(rng.random() < .8)):
        train, new = other(rng, t, kind)
        if train.shape[2] < 3 or train.shape[3] < 4:
            raise Skip()
        u = patterned(rng, train)
        if name == "Pipeline":
            pre = [("dev", development(rng)), ("tail", cl.TailConstant(1.07))]
            u = train
        trs = exposure(rng, train)
        nws = exposure(rng, new)
        ap = round(float(rng.uniform(.5, 1.3)), 3)
        n = int(pick(rng, 0, 1, 2, 4))
        est = {"Chainladder": lambda: cl.Chainladder(), "MackChainladder": lambda: cl.MackChainladder(), "Benktander": lambda: cl.Benktander(ap, n), "BornhuetterFerguson": lambda: cl.BornhuetterFerguson(ap),
               "ExpectedLoss": lambda: cl.ExpectedLoss(ap), "CapeCod": lambda: cl.CapeCod(decay=pick(rng, 1, .7), trend=pick(rng, 0, .03)), "Pipeline": lambda: cl.Pipeline(pre + [("m", cl.Chainladder())])}[name]()
        if rng.random() < .2:
            u = u.set_backend("sparse")
        nb = new.set_backend("sparse") if rng.random() < .2 else new
        if rng.random() < .15:
            nb = nb.dev_to_val(); ctx.event("as_valuation")
        w = name not in ("Chainladder", "MackChainladder", "Pipeline")
        ctx.note(spec=brief(s), est=str(est)[:120], change=kind, tail=u.shape[3], backend=(u.array_backend, nb.array_backend), pattern="ldf_" in u, view=nb.is_val_tri); ctx.sig = [brief(s), str(est), kind]
        if name == "MackChainladder" and (kind == "group" or s.steps * s.dg % s.og or train.development_grain != train.origin_grain):
            raise Skip()
        try:
            fit(est, u, trs if w else None)
        except ValueError as e:
            if "not compatible with Mack" in str(e):
                raise Skip()
            raise
        m = est.named_steps.m if name == "Pipeline" else est
        if not np.isfinite(np.log(np.abs(Pat(m.ldf_).cdf))).all():
            raise Skip()
        before, bx = results(est), state(nb)
        if name == "MackChainladder" and max(new.ddims) > max(train.ddims):
            ctx.event("beyond_sigma"); raise Skip()       # no fitted variance at those ages
        if max(new.ddims) > max(m.ldf_.ddims):
            try:
                est.predict(nb, **(dict(sample_weight=nws) if w else {})); ok = True
            except Exception as e:
                ok = False
            ctx.event("age_beyond")
            ctx.check(not ok, "refuses", f"ages to {max(new.ddims)} predicted with a pattern up to {max(m.ldf_.ddims)}")
            return
        p = ctx.call("predict", est.predict, nb, **(dict(sample_weight=nws) if w else {}))
        ctx.event("to:" + kind)
        same_results(ctx, "unchanged", before, results(est), 0.0, f"{name}.predict changed the fit", 0.0)
        same_state(ctx, "unchanged", bx, state(nb), f"{name}.predict changed its input")
        judge(ctx, name, m, p, new, nws, kind, ap, {"ExpectedLoss": 0, "BornhuetterFerguson": 1}.get(name, n))
        if kind == "same":
            for a in ("ultimate_", "ibnr_") + (("mack_std_err_", "process_risk_", "parameter_risk_", "total_mack_std_err_") if name == "MackChainladder" else ()):
                x, y = freeze(getattr(p, a)), freeze(getattr(m, a))
                if not w or same(freeze(trs.set_backend("numpy")), freeze(nws)) is None:
                    r = same(x, y, 1e-7, 1e-6) if u.array_backend == nb.array_backend else None
                    ctx.check(r is None, "same", lambda: f"predicting the training triangle gives another {a}: {r}")
        if w and rng.random() < .4 and kind == "same":
            q = est.predict(nb, sample_weight=trs)
            same_triangle(ctx, "same", q.ultimate_.set_backend("numpy"), est.ultimate_.set_backend("numpy"), 1e-8, 1e-6)
        if kind not in ("subset", "group", "later", "neworigin") and rng.random() < .6:
            ctx.event("completed")
            c15.agree(ctx, p, p, name.replace("Pipeline", "Chainladder"), m)
        if name == "MackChainladder":
            errors(ctx, p, m, new)
        carried(ctx, rng, train, new)


def judge(ctx, name, m, p, new, nws, kind, ap, n):
    S = Snap(new.set_backend("numpy").incr_to_cum().val_to_dev())
    P = Pat(m.ldf_)
    ps = P.s
    U = Snap(p.ultimate_)
    la = ages_of(S)
    one = len(S.kdims) == 1
    ctx.check((one or sorted(U.kdims) == sorted(S.kdims)) and U.odims == S.odims and U.vdims == S.vdims and U.vdate == ULT, "labels", lambda: f"labels of the prediction {U.meta()}, of the data {S.meta()}")
    W = Snap(nws)
    sc = np.nanmax(np.abs(S.arr))

    def prow(kk):
        if len(ps.kdims) == 1:
            return 0
        lab = [S.key_labels.index(x) for x in ps.key_labels]
        return ps.kdims.index(tuple(kk[x] for x in lab))
    cape = {}
    for k, kk in enumerate(S.kdims):
        ku = 0 if one else U.kdims.index(kk)
        for c, cc in enumerate(S.vdims):
            C = P.cdf[prow(kk), c if P.cdf.shape[1] > 1 else 0, 0]
            at = lambda a: C[P.ages.index(a)] if a in P.ages else 1.0 if a > P.ages[-1] else None
            if name == "CapeCod":
                lds = [np.nan_to_num(S.arr[k, c, o, S.ddims.index(la[o])]) if la[o] in S.ddims else None for o in range(len(S.odims))]
                if any(x is None for x in lds):
                    continue
                tf = c18.factor(new, m.trend)
                re = [np.nan_to_num(W.arr[W.kdims.index(kk), W.vdims.index(cc), o, 0]) / at(la[o]) for o in range(len(lds))]
                D = lambda o: sum(m.decay ** abs(o - j) * lds[j] * tf[j] for j in range(len(lds))) / sum(m.decay ** abs(o - j) * re[j] for j in range(len(lds))) / tf[o]
            for o, oo in enumerate(S.odims):
                if la[o] not in S.ddims:
                    continue
                ld = np.nan_to_num(S.arr[k, c, o, S.ddims.index(la[o])])
                f = at(la[o])
                y = np.nan_to_num(U.arr[ku, c, o, 0])
                if name in ("Chainladder", "MackChainladder", "Pipeline"):
                    ctx.check(near(y, ld * f, 1e-8, 1e-8 * sc), "cl", lambda: f"{kk} {cc} origin {oo}: predicted ultimate {y} is not {ld} x {f}")
                    continue
                e = np.nan_to_num(W.arr[W.kdims.index(kk), W.vdims.index(cc), o, 0]) * (D(o) if name == "CapeCod" else ap)
                for _ in range(1 if name == "CapeCod" else n):
                    e = ld + (1 - 1 / f) * e
                ctx.check(near(y, e, 1e-8, 1e-8 * sc), "recursion", lambda: f"{kk} {cc} origin {oo}: predicted ultimate {y}, expected {e} (latest {ld}, factor {f})")


def carried(ctx, rng, train, new):
    """development and tail transformers take their fitted pattern along"""
    d = development(rng).fit(train)
    tr = [d]
    if rng.random() < .5:
        tr.append(cl.TailConstant(1.1).fit(d.transform(train)))
    x = new
    for e in tr:
        x = e.transform(x)
    for a in ("ldf_", "cdf_", "sigma_", "std_err_"):
        r = same(freeze(getattr(x, a)), freeze(getattr(tr[-1], a)))
        ctx.check(r is None, "carried", lambda: f"transforming another triangle changed {a}: {r}")
    same_triangle(ctx, "carried", x, new)


def errors(ctx, p, m, new):
    """Mack's recursion on the completed new triangle with the trained sigmas and standard errors"""
    S, P = Snap(new.set_backend("numpy").incr_to_cum().val_to_dev()), Pat(m.ldf_)
    F = Snap(p.full_triangle_)
    sg, se = Snap(m.X_.sigma_), Snap(m.X_.std_err_)
    PR, PA = Snap(p.process_risk_), Snap(p.parameter_risk_)
    ages = [a for a in F.ddims if a != 9999 and a in P.ages][:sg.arr.shape[-1]]
    la = ages_of(S)
    ave = [c16.EXP[a] if isinstance(a, str) else a for a in m.X_.average_]
    ave = ave + [ave[-1]] * (len(ages) - len(ave))
    sc = np.nanmax(np.abs(F.arr))
    for k, kk in enumerate(F.kdims):
        pk = P.s.kdims.index(kk) if len(P.s.kdims) > 1 else 0
        sk = sg.kdims.index(kk) if len(sg.kdims) > 1 else 0
        for c in range(len(F.vdims)):
            g = lambda a, i: np.nan_to_num(a[i, c if a.shape[1] > 1 else 0, 0])
            C = P.cdf[pk, c if P.cdf.shape[1] > 1 else 0, 0]
            s_, e_ = g(sg.arr, sk), g(se.arr, sk)
            for o in range(len(F.odims)):
                pr = pa = 0.0
                for j, a in enumerate(ages):
                    x = np.nan_to_num(F.arr[k, c, o, F.ddims.index(a)])
                    if a < la[o]:
                        continue
                    if x <= 0:
                        pr = np.nan; break
                    last = j == len(ages) - 1
                    f = C[P.ages.index(a)] / (1 if last else C[P.ages.index(ages[j + 1])])
                    pr = np.sqrt((f * pr) ** 2 + (s_[j] * x ** (ave[j] / 2)) ** 2)
                    pa = np.sqrt((f * pa) ** 2 + (x * e_[j]) ** 2)
                if not np.isfinite(pr):
                    continue
                ctx.check(near(np.nan_to_num(PR.arr[k, c, o, -1]), pr, 1e-6, 1e-7 * sc), "errors", lambda: f"{kk} origin {F.odims[o]}: predicted process risk {PR.arr[k, c, o, -1]}, expected {pr}")
                ctx.check(near(np.nan_to_num(PA.arr[k, c, o, -1]), pa, 1e-6, 1e-7 * sc), "errors", lambda: f"{kk} origin {F.odims[o]}: predicted parameter risk {PA.arr[k, c, o, -1]}, expected {pa}")
