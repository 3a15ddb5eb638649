from cv.methods import *
import datetime as dt
ID = "C24"
CASES = dict(quick=260, thorough=9000)
RULE = "random triangles at every origin grain (calendar and fiscal years, months offset, several segments, either backend) with random rate histories (before, inside and after the window, month starts and mid-month dates, same-day changes, per-segment histories) on the monthly and daily approximation, vertical and parallelogram; factors recomputed by integrating the piecewise-constant written level over each origin period, plus order, zero-change and outside-change relations; distinct by table and history"
REQUIRE = {"chk:factor": 600, "exact": 200, "bounded": 50, "daily": 30, "grouped": 20, "chk:relation": 100, "vertical": 50}


def level(changes, lo, hi):
    """piecewise constant written level as (breakpoints, levels) with changes dated in [lo, hi]"""
    ch = sorted((d, c) for d, c in changes if lo <= d <= hi)
    pts, lv, cur = [-1e9], [1.0], 1.0
    for d, c in ch:
        cur *= 1 + c
        pts.append(d); lv.append(cur)
    return pts, lv, cur


def cumulative(pts, lv, t):
    """integral of the level up to t, from the first finite breakpoint"""
    out, base = 0.0, -1e5
    for n, (p, v) in enumerate(zip(pts, lv)):
        a, b = max(p, base), (pts[n + 1] if n + 1 < len(pts) else 1e9)
        if t <= a:
            break
        out += v * (min(t, b) - a)
    return out


def earned(pts, lv, a, b, vertical, term=12.0, steps=None):
    """average level earned between a and b"""
    if vertical:
        return (cumulative(pts, lv, b) - cumulative(pts, lv, a)) / (b - a)
    # exact: the integrand is piecewise linear between breakpoints and their shifts by the term
    knots = sorted({a, b} | {x for p in pts[1:] for x in (p, p + term) if a < x < b})
    f = lambda t: (cumulative(pts, lv, t) - cumulative(pts, lv, t - term)) / term
    return sum((f(x) + f(y)) / 2 * (y - x) for x, y in zip(knots, knots[1:])) / (b - a)


def months(d):
    """date as months, month start exact"""
    return d.year * 12 + d.month - 1 + (d.day - 1) / pd.Period(d, "M").days_in_month


def history(rng, y0, y1, mid):
    n = int(rng.integers(1, 6))
    out = []
    for _ in range(n):
        d = dt.date(int(rng.integers(y0, y1 + 1)), int(rng.integers(1, 13)), int(rng.integers(1, 29)) if mid else 1)
        out.append((d, round(float(rng.uniform(-.15, .2)), 3)))
        if rng.random() < .15:
            out.append((d, round(float(rng.uniform(-.05, .1)), 3)))
    return out


def frame(rng, h, style, extra=None):
    f = {"us": "%m/%d/%Y", "iso": "%Y-%m-%d"}.get(style)
    df = pd.DataFrame({"d": [pd.Timestamp(a) if f is None else a.strftime(f) for a, _ in h], "c": [b for _, b in h]})
    if extra:
        for k, v in extra.items():
            df[k] = v
    return df


def case(ctx, i):
    rng = ctx.rng
    og = int(pick(rng, 12, 12, 12, 6, 3, 1))
    grouped = rng.random() < .25
    kw = dict(fiscal=True) if rng.random() < .25 else {}
    n_o = int(rng.integers(3, 7)) * (1 if og == 12 else 2)
    t, s = regular(rng, og=og, dg=og, n_o=n_o, n_key=int(pick(rng, 2, 3)) if grouped else int(pick(rng, 1, 1, 2)), n_levels=int(pick(rng, 1, 2, 3)) if grouped else None, n_cols=int(pick(rng, 1, 2)), late=False, partial=False, max_cells=4000, **kw)
    S = Snap(t)
    lo, hi = S.odims[0], S.odims[-1] + og                   # months, window [lo, hi)
    y0, y1 = mstart(lo).year - 2, mstart(hi).year + 1
    grain = pick(rng, "M", "M", "D")
    vertical = bool(rng.random() < .5)
    mid = bool(rng.random() < (.35 if grain == "M" else .8))
    hist = {}
    keys = S.kdims
    if grouped:
        labs = [l for l in s.key_labels if rng.random() < .6] or [s.key_labels[0]]
        labs = [l for l in S.key_labels if l in labs]
        gk = lambda k: tuple(k[S.key_labels.index(l)] for l in labs)
        for g in sorted({gk(k) for k in keys}):
            hist[g] = history(rng, y0, y1, mid)
        rate = pd.concat([frame(rng, h, "iso", dict(zip(labs, g))) for g, h in hist.items()])
        rate = rate.iloc[rng.permutation(len(rate))]
        ctx.event("grouped")
    else:
        labs, gk = [], lambda k: ()
        hist[()] = history(rng, y0, y1, mid)
        rate = frame(rng, hist[()], pick(rng, "us", "iso", "ts"))
    u = t.set_backend("sparse") if rng.random() < .2 else t.set_backend("numpy")
    if rng.random() < .15:
        u = u.dev_to_val()
    ctx.note(spec=brief(s), grain=grain, vertical=vertical, hist=str(hist)[:400], labs=labs); ctx.sig = [brief(s), grain, vertical, str(hist)]
    mk = lambda r: cl.ParallelogramOLF(r, change_col="c", date_col="d", approximation_grain=grain, vertical_line=vertical)
    est = mk(rate)
    before, r0 = state(u), rate.copy()
    x = ctx.call("fit", est.fit_transform, u)
    same_state(ctx, "unchanged", before, state(u), "triangle after on-levelling")
    ctx.check(rate.equals(r0), "unchanged", "the rate history was changed")
    same_cells(ctx, "amounts", Snap(x).cells(), Snap(u).cells(), 0, 0, "amounts after on-levelling")
    O = Snap(x.olf_.set_backend("numpy"))
    if vertical:
        ctx.event("vertical")
    if grain == "D":
        ctx.event("daily")
    want_keys = sorted({gk(k) for k in keys}) if grouped else sorted(keys)
    ctx.check(sorted(O.kdims) == want_keys and O.odims == S.odims and O.arr.shape[3] == 1, "labels", f"factors have keys {O.kdims} origins {O.odims}, expected {want_keys} {S.odims}")
    for k, kk in enumerate(O.kdims):
        h = hist.get(kk if grouped else (), [])
        inside = [(d, c) for d, c in h if d <= mend(hi - 1).date()]
        total = np.prod([1 + abs(c) for _, c in h]) - 1
        if mid and grain == "M":
            A = level([(d.year * 12 + d.month - 1, c) for d, c in inside], -1e9, 1e9)
            spread = True
        else:
            A = level([(months(d), c) for d, c in inside], -1e9, 1e9)
            spread = False
        for o, oo in enumerate(O.odims):
            a, b = (oo, oo + og)
            e = A[2] / earned(A[0], A[1], mnum_(a), mnum_(b), vertical)
            for c in range(O.arr.shape[1]):
                v = O.arr[k, c, o, 0]
                if grain == "M" and not mid:
                    tol = 1e-9; ctx.event("exact")
                elif grain == "M":
                    tol = total * 1.05 / og * (1 if vertical else min(1, og / 12)) + 1e-9; ctx.event("bounded")
                else:
                    # daily steps and calendar months of unequal length
                    tol = total * (3.0 / (30.4 * og) if vertical else 4.0 / 365) + 1e-9; ctx.event("bounded")
                ctx.check(abs(v - e) <= tol * max(1, e), "factor", lambda: f"segment {kk} origin {mstart(oo).date()}: on-level factor {v}, expected {e} within {tol:.2g} ({h})")
    # relations
    ctx_rel(ctx, rng, mk, rate, u, x, hist, lo, hi, labs, s, og, grain)


def mnum_(m):
    """origin start in the same month count as months()"""
    d = mstart(m)
    return d.year * 12 + d.month - 1


def ctx_rel(ctx, rng, mk, rate, u, x, hist, lo, hi, labs, s, og, grain):
    base = Snap(x.olf_.set_backend("numpy"))
    def same_factors(r, what):
        y = ctx.call("fit", mk(r).fit, u)
        z = Snap(y.olf_.set_backend("numpy"))
        ctx.check(z.kdims == base.kdims and close(z.arr, base.arr, 1e-12, 1e-12), "relation", lambda: f"{what} changes the factors: {first_diff(z.arr, base.arr)}")
    same_factors(rate.iloc[::-1], "another row order")
    row = rate.iloc[[0]].copy()
    for d, c, what in ((mstart(lo + (hi - lo) // 2), 0.0, "a zero change"), (mstart(lo - 40), .1, "a change long before the window"), (mstart(hi + int(rng.integers(0, 20))), .1, "a change after the window")):
        if rng.random() < .5:
            a = row.copy(); a["c"] = c
            a["d"] = d if not isinstance(rate["d"].iloc[0], str) else d.strftime("%m/%d/%Y" if "/" in rate["d"].iloc[0] else "%Y-%m-%d")
            if not labs:
                a = a.assign(**{})
            same_factors(pd.concat([rate, a]), what)
    for k in range(base.arr.shape[0]):
        h = hist[base.kdims[k]] if labs else hist[()]
        last = max([d for d, _ in h if d <= mend(hi - 1).date()], default=None)
        for o, oo in enumerate(base.odims):
            if last is None or mstart(oo - 13).date() > last:
                ctx.check(np.allclose(base.arr[k, :, o], 1.0, atol=1e-9), "relation", f"origin {mstart(oo).date()} starts after every change was earned but has factor {base.arr[k, 0, o, 0]}")
