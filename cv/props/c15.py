from cv.methods import *
ID = "C15"
CASES = dict(quick=260, thorough=9000)
RULE = "random complete triangles (mixed grains, partial periods, several segments, cumulative or incremental) with random fitted patterns and tails run through every reserving method; IBNR, completed and expected triangles recomputed cell by cell from latest amounts, ultimates and the fitted factors; distinct by table, pattern and method"
REQUIRE = {"chk:ibnr": 200, "chk:known": 200, "chk:runoff": 200, "chk:expected": 150, "chk:cl": 60, "incremental": 20, "predictions": 50, "parts": 30}


def case(ctx, i):
    rng = ctx.rng
    name = pick(rng, "Chainladder", "Chainladder", "MackChainladder", "ExpectedLoss", "BornhuetterFerguson", "Benktander", "CapeCod")
    kw = mixed_grain(rng)
    cum = bool(rng.random() < .8)
    t, s = regular(rng, **kw, cumulative=cum, late=False, max_cells=9000)
    if t.shape[3] < 3 or t.shape[2] < 3:
        raise Skip()
    if not cum:
        ctx.event("incremental")
    with auto_sparse(bool(rng.random() < .8)):
        u = patterned(rng, t)
        if rng.random() < .25:
            u = u.set_backend("sparse")
        sw = exposure(rng, t) if ZOO[name].get("weight") else None
        if name == "CapeCod":
            est = cl.CapeCod(trend=pick(rng, 0, .03), decay=pick(rng, 1, .8))
        else:
            est = ZOO[name]["make"](rng)
        ctx.note(spec=brief(s), est=str(est)[:80], tail=u.shape[3], backend=u.array_backend); ctx.sig = [brief(s), name, str(est)]
        if name == "MackChainladder" and s.steps * s.dg % s.og:
            raise Skip()
        try:
            fit(est, u, sw)
        except ValueError as e:
            if "not compatible with Mack" in str(e):
                raise Skip()
            raise
        ctx.event("calls")
        if not np.isfinite(np.log(np.abs(Pat(est.ldf_).cdf))).all():
            raise Skip()       # the tail regression has no finite answer
        agree(ctx, est, est.X_, name)
        if u.shape[0] * u.shape[1] > 1 and rng.random() < .5:
            part(ctx, rng, est, u, sw)
        if rng.random() < .4 and name != "MackChainladder":
            p = ctx.call("predict", est.predict, t, **({} if sw is None else dict(sample_weight=sw)))
            ctx.event("predictions")
            agree(ctx, p, p, name, est)
            same_triangle(ctx, "predict", p.ultimate_.set_backend("numpy"), est.ultimate_.set_backend("numpy"), 1e-8, 1e-6)


def part(ctx, rng, est, u, sw):
    """estimates for part of the segments and columns of a fitted triangle are that part of the estimates"""
    K, C = u.shape[:2]
    ks = sorted(int(x) for x in rng.permutation(K)[: int(rng.integers(1, K + 1))]) if rng.random() < .7 else list(range(K))
    cs = sorted(int(x) for x in rng.permutation(C)[: int(rng.integers(1, C + 1))]) if rng.random() < .5 else list(range(C))
    if sw is not None and sw.shape[:2] != (K, C):
        cs = list(range(C))
        if sw.shape[0] != K:
            ks = list(range(K))
    how = pick(rng, "iloc", "loc", "iloc")

    def cut(x):
        x = x.iloc[ks] if len(ks) < K else x
        if len(cs) < C:
            x = x.iloc[:, cs] if how == "iloc" else x[[x.columns[c] for c in cs]]
        return x
    if len(ks) == K and len(cs) == C:
        return
    ctx.event("parts"); ctx.note(part=f"{ks} {cs}")
    x = cut(u)
    if hasattr(u, "ldf_"):
        same_triangle(ctx, "part", x.ldf_.set_backend("numpy"), cut(u.ldf_).set_backend("numpy"), 0, 0)
    e = type(est)(**est.get_params())
    ctx.call("fit part", fit, e, x, None if sw is None else cut(sw))
    for a in ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_"):
        same_triangle(ctx, "part", getattr(e, a).set_backend("numpy"), cut(getattr(est, a)).set_backend("numpy"), 1e-9, 1e-6)


def agree(ctx, est, X, name, fitted=None):
    src = X.set_backend("numpy").incr_to_cum().val_to_dev()
    S = Snap(src)
    P = Pat((fitted or est).ldf_)
    U = Snap(est.ultimate_)
    I = Snap(est.ibnr_)
    F = Snap(est.full_triangle_.incr_to_cum())
    la = ages_of(S)
    ctx.check(U.kdims == S.kdims and U.vdims == S.vdims and U.odims == S.odims and U.vdate == ULT and U.arr.shape[3] == 1, "ibnr", f"labels of the ultimate {U.meta()} for {S.meta()}")
    ctx.check(I.kdims == S.kdims and I.vdims == S.vdims and I.odims == S.odims, "ibnr", "labels of the ibnr")
    want = sorted(set(S.ddims) | {a + (P.ages[1] - P.ages[0] if len(P.ages) > 1 else 1) for a in P.ages[:-1]})
    ctx.check(F.ddims[-1] == 9999 and F.ddims[:-1] == want, "known", f"ages of the completed triangle {F.ddims}, expected {want}")
    ctx.check(F.kdims == S.kdims and F.vdims == S.vdims and F.odims == S.odims and F.cum, "known", "labels of the completed triangle")
    scale = np.nanmax(np.abs(S.arr))
    tol = 1e-8 * scale
    for k in range(len(S.kdims)):
        for c in range(len(S.vdims)):
            for o in range(len(S.odims)):
                row = S.arr[k, c, o]
                if la[o] not in S.ddims or np.isnan(row[S.ddims.index(la[o])]):
                    continue
                ld = row[S.ddims.index(la[o])]
                ult = np.nan_to_num(U.arr[k, c, o, 0])
                ctx.check(near(np.nan_to_num(I.arr[k, c, o, 0]), ult - ld, 1e-8, tol), "ibnr", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o}: ibnr {I.arr[k, c, o, 0]} is not {ult} - {ld}")
                if name in ("Chainladder", "MackChainladder"):
                    ctx.check(near(ult, ld * P.at(k, c, la[o]), 1e-8, tol), "cl", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o}: ultimate {ult} is not {ld} x {P.at(k, c, la[o])}")
                tot = P.at(k, c, la[o]) - 1
                for d, x in zip(F.ddims, np.nan_to_num(F.arr[k, c, o])):
                    if d <= la[o]:
                        w = np.nan_to_num(row[S.ddims.index(d)])
                        ctx.check(near(x, w, 1e-9, 1e-9 * scale), "known", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o} age {d}: completed triangle {x}, observed {w}")
                        continue
                    if d == 9999:
                        ctx.check(near(x, ult, 1e-8, tol), "runoff", lambda: f"origin {o}: completed triangle ends at {x}, ultimate {ult}")
                        continue
                    if abs(tot) < 1e-7:
                        continue
                    e = (P.at(k, c, la[o]) / P.at(k, c, d) - 1) / tot
                    w = ld + e * (ult - ld)
                    ctx.check(near(x, w, 1e-7, tol * (1 + min(1 / abs(tot), 1e6) * 1e-3)), "runoff", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o} age {d}: completed triangle {x}, expected {w}")
    if not hasattr(est, "X_"):
        return
    fx = est.full_expectation_
    E = Snap(fx)
    ctx.check(E.ddims == P.ages + [9999], "expected", f"ages of the expected triangle {E.ddims}")
    a = E.arr if est.X_.is_cumulative else np.cumsum(np.nan_to_num(E.arr), -1)
    for k in range(len(S.kdims)):
        for c in range(len(S.vdims)):
            for o in range(len(S.odims)):
                ult = np.nan_to_num(U.arr[k, c, o, 0])
                for n, d in enumerate(P.ages):
                    ctx.check(near(np.nan_to_num(a[k, c, o, n]), ult / P.at(k, c, d), 1e-8, tol), "expected", lambda: f"{S.kdims[k]} {S.vdims[c]} origin {o} age {d}: expected triangle {a[k, c, o, n]} vs {ult / P.at(k, c, d)}")
                ctx.check(near(np.nan_to_num(a[k, c, o, -1]), ult, 1e-8, tol), "expected", lambda: f"origin {o}: expected triangle ends at {a[k, c, o, -1]}, ultimate {ult}")
