"""C38: a supplied pattern is applied as supplied"""
from cv.zoo import *
from cv.methods import *

ID = "C38"
CASES = dict(quick=280, thorough=7000)
RULE = "Random triangles (grains, segments, columns, cumulative and incremental, age and valuation view, dense and sparse, cut to later origins, earlier valuations or with missing cells) get random patterns: dictionaries with ages in any order and beyond the triangle, link or cumulative style, functions of the segment with different ages listed per segment, and grouped segments. The fitted factors equal the supplied ones at every age but the last (quotients of successive cumulative ones), for every segment and column; cumulative factors equal the supplied ones or the running products; a tail keeps them; chain ladder ultimates are latest amount times the factor of the origin's age, the Bornhuetter-Ferguson and expected ones follow from the same factor, also when predicting another triangle and inside pipelines; the supplied dictionary and the triangle are unchanged and fitting other data with the same estimator gives the same factors."
REQUIRE = {"patterns": 150, "factors": 1500, "ultimates": 1000, "callables": 25, "short": 25, "cdf_style": 60, "tails": 30, "predicted": 20, "grouped": 8}
BUDGET = {"quick": 200, "thorough": 2400}


def shape(ctx, t, s):
    """variations of the triangle a pattern is applied to"""
    r = ctx.rng
    kind = pick(r, "whole", "whole", "later", "earlier", "holes", "one")
    if kind == "later" and t.shape[2] > 2:
        k = int(r.integers(1, t.shape[2] - 1))
        t = t[t.origin >= t.origin[k]]
        ctx.event("short")
    elif kind == "one":
        t = t[t.origin >= t.origin[t.shape[2] - 1]] if r.random() < .5 else t[t.origin == t.origin[t.shape[2] // 2]]
        ctx.event("short")
    elif kind == "earlier" and t.shape[3] > 3:
        t = t[t.development <= t.development.iloc[t.shape[3] - 2]]
    elif kind == "holes":
        t = t.set_backend("numpy").copy()
        a = t.values
        for _ in range(int(r.integers(1, 4))):
            a[int(r.integers(a.shape[0])), :, int(r.integers(a.shape[2])), int(r.integers(a.shape[3] - 1))] = np.nan
        t.values = a
    return kind, t


def supplied(rng, ages, style):
    """age -> factor with ages shuffled and some beyond those of the triangle"""
    step = ages[1] - ages[0] if len(ages) > 1 else 12
    extra = [ages[-1] + step * (k + 1) for k in range(int(rng.integers(0, 3)))]
    a = ages + extra
    f = [round(1 + 1.5 * float(rng.random()) / (n + 1) ** 1.5 - (.04 if rng.random() < .15 else 0), 5) for n in range(len(a))]
    if style == "cdf":
        f[-1] = 1.0
        f = np.round(np.cumprod(f[::-1])[::-1], 6).tolist()
        if rng.random() < .6:
            k = len(ages) - 1
            f = [x / f[k] for x in f]  # fully developed at the last age
    order = rng.permutation(len(a))
    return {int(a[k]): float(f[k]) for k in order}


def case(ctx, i):
    r = ctx.rng
    t, s = regular(r, max_cells=2500, **mixed_grain(r, partial=False, late=False))
    kind, t = shape(ctx, t, s)
    if t.shape[3] < 2:
        raise Skip()
    ages = [int(a) for a in t.ddims]
    if r.random() < .2 and kind != "holes":
        t = t.cum_to_incr()
    if r.random() < .2:
        t = t.set_backend("sparse")
    view = r.random() < .15 and kind == "whole"
    base = t
    if view:
        t = t.dev_to_val()
    style = pick(r, "ldf", "cdf")
    c = base.incr_to_cum().val_to_dev().set_backend("numpy")
    S = Snap(c)
    A = np.nan_to_num(S.arr)
    keys = [tuple(k) for k in S.kdims]
    per = r.random() < .35
    by = None
    if per:
        ctx.event("callables")
        table = {}
        for k in keys:
            p = supplied(r, ages, style)
            if r.random() < .3 and style == "ldf":
                drop = [a for a in p if a != ages[0] and r.random() < .3]
                p = {a: f for a, f in p.items() if a not in drop}
            table[k] = p
        every = set().union(*table.values())
        if not set(ages[:-1]) <= every:
            k = keys[0]
            table[k] = {**table[k], **{a: 1.25 for a in ages if a not in table[k]}}
        labels = list(c.key_labels)
        pattern = lambda row: table[tuple(row[x] for x in labels)]
        kw = dict(patterns=pattern, callable_axis=1, style=style)
        get = lambda k, a: table[keys[k]].get(a, 1.0)
    else:
        one = supplied(r, ages, style)
        kept = dict(one)
        kw = dict(patterns=one, style=style)
        get = lambda k, a: one[a]
        if len(keys) > 1 and r.random() < .2:
            by = c.key_labels[0]
            kw["groupby"] = by
            ctx.event("grouped")
    if style == "cdf":
        ctx.event("cdf_style")
    ctx.note(kind=kind, spec=brief(s), style=style, per=per, by=by, view=view, ages=ages); ctx.sig = [brief(s), kind, style, per, by, t.shape]
    before = state(t)
    est = cl.DevelopmentConstant(**kw)
    est = ctx.call("fit", est.fit, t)
    ctx.event("patterns")
    same_state(ctx, "unchanged", before, state(t), "the triangle after fitting")
    if not per:
        ctx.check(one == kept and list(one) == list(kept), "unchanged:pattern", "the supplied dictionary changed")

    # ---- the fitted factors ---------------------------------------------------
    L, C = Snap(est.ldf_), Snap(est.cdf_)
    n = len(ages) - 1
    if not ctx.check(list(map(int, L.ddims)) == ages[:-1], "ages", f"pattern at {L.ddims} for ages {ages}"):
        return
    n_seg = len(keys) if by is None else len(set(k[0] for k in keys))
    if not ctx.check(L.arr.shape[:2] in ((n_seg, A.shape[1]), (1, 1), (n_seg, 1), (1, A.shape[1])) and (not per or L.arr.shape[0] == n_seg), "segments", f"pattern of shape {L.arr.shape} for {n_seg} segments"):
        return
    if style == "cdf":
        link = lambda k, j: get(k, ages[j]) / get(k, ages[j + 1]) if j < n - 1 else get(k, ages[j])
        cum = lambda k, j: get(k, ages[j])
    else:
        link = lambda k, j: get(k, ages[j])
        cum = lambda k, j: float(np.prod([get(k, ages[q]) for q in range(j, n)]))
    for k in range(L.arr.shape[0]):
        for col in range(L.arr.shape[1]):
            for j in range(n):
                ctx.event("factors")
                x, y = L.arr[k, col, 0, j], link(k, j)
                ctx.check(near(np.nan_to_num(x), y, 1e-9, 0), "link", lambda: f"{kind}: factor of segment {k} at age {ages[j]} is {x}, supplied {y}")
                x, y = C.arr[k, col, 0, j], cum(k, j)
                ctx.check(near(np.nan_to_num(x), y, 1e-9, 0), "cumulative", lambda: f"{kind}: cumulative factor of segment {k} at age {ages[j]} is {x}, supplied {y}")

    # ---- what follows uses them ---------------------------------------------------
    X = ctx.call("transform", est.transform, t)
    r0 = same(freeze(est.ldf_), freeze(X.ldf_), 1e-12)
    ctx.check(r0 is None, "transform", f"the transformed triangle carries other factors: {r0}")
    tail = None
    if r.random() < .4:
        tail = round(float(r.uniform(1.01, 1.3)), 4)
        X = ctx.call("tail", cl.TailConstant(tail, decay=pick(r, .5, .8)).fit_transform, X)
        ctx.event("tails")
        P = Pat(X.ldf_)
        for k in range(P.f.shape[0]):
            for j in range(n):
                x, y = P.f[k, 0, 0, j], link(k, j)
                ctx.check(near(np.nan_to_num(x), y, 1e-9, 0), "tail:link", lambda: f"{kind}: with a tail the factor of segment {k} at age {ages[j]} is {x}, supplied {y}")
    cdf_at = lambda k, a: (cum(k, ages.index(a)) if a in ages[:-1] else 1.0) * (tail or 1.0)
    lat_age = [S.vdate - o + 1 for o in S.odims]
    if view or by is not None:
        lat_age = lat_age  # the same ages
    method = pick(r, "Chainladder", "Chainladder", "BornhuetterFerguson", "ExpectedLoss", "pipeline", "predict")
    if kind == "earlier" and method in ("BornhuetterFerguson", "ExpectedLoss"):
        method = "Chainladder"
    w = exposure(r, c)
    W = np.nan_to_num(Snap(w).arr)[..., -1]
    lat = np.array([[[A[k, q, o, ages.index(min(a, ages[-1]))] if min(a, ages[-1]) in ages else np.nan for o, a in enumerate(lat_age)] for q in range(A.shape[1])] for k in range(A.shape[0])])
    if method == "BornhuetterFerguson":
        m = ctx.call(method, cl.BornhuetterFerguson(apriori=.7).fit, X, sample_weight=w)
    elif method == "ExpectedLoss":
        m = ctx.call(method, cl.ExpectedLoss(apriori=.7).fit, X, sample_weight=w)
    elif method == "pipeline":
        steps = [("dev", cl.DevelopmentConstant(**kw))] + ([("tail", cl.TailConstant(tail))] if tail else []) + [("cl", cl.Chainladder())]
        m = ctx.call(method, cl.Pipeline(steps).fit, t).named_steps["cl"]
    else:
        m = ctx.call(method, cl.Chainladder().fit, X)
    U = Snap(m.ultimate_)
    if method == "predict":
        ctx.event("predicted")
        Y = base.incr_to_cum().val_to_dev() * 1.25
        p = ctx.call("predict", m.predict, Y)
        U, lat = Snap(p.ultimate_), lat * 1.25
    odims = list(U.odims)
    for o, (start, a) in enumerate(zip(S.odims, lat_age)):
        if a > ages[-1]:
            continue  # origins that left the diagonal are not projected
        if start not in odims:
            if np.any(np.nan_to_num(lat[:, :, o])):
                ctx.check(False, "origins", f"{kind}: origin {start} has no ultimate")
            continue
        for k in range(A.shape[0]):
            f = cdf_at(k, min(a, ages[-1]))
            for q in range(A.shape[1]):
                x = np.nan_to_num(U.arr[k, q, odims.index(start), -1])
                l = lat[k, q, o]
                if not np.isfinite(l):
                    continue
                if l == 0 and kind == "holes":
                    continue
                if method == "BornhuetterFerguson":
                    y = l + W[k, q, o] * .7 * (1 - 1 / f)
                elif method == "ExpectedLoss":
                    y = W[k, q, o] * .7
                else:
                    y = l * f
                ctx.event("ultimates")
                ctx.check(near(x, y, 1e-8, 1e-9 * max(1.0, abs(y))), f"ultimate:{method}", lambda: f"{kind}: {method} ultimate of segment {k} at age {a} is {x}, latest {l} times {f} gives {y}")
    # ---- the estimator again on other data ---------------------------------------
    if not per and r.random() < .4:
        Y = base * 2 if by is None else base
        e2 = ctx.call("fit", est.fit, Y)
        r2 = same(("arr", L.arr), ("arr", Snap(e2.ldf_).arr), 1e-12)
        ctx.check(r2 is None, "refit", f"{kind}: the same estimator on other amounts gives {r2}")
