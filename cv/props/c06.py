from cv.model import *
ID = "C06"
CASES = dict(quick=480, thorough=12000)
RULE = "random claim tables of every grain, cut at random as-of dates (successively, in both views and backends) and compared with the table of records known at that date; latest diagonals and link ratios recomputed cell by cell; distinct by table shape and dates"
REQUIRE = {"chk:as_of": 150, "chk:diagonal": 150, "chk:link": 150, "chk:rebuilt": 50}


def diagonal(ctx, t, o, key="diagonal"):
    """the latest diagonal against the cells of the snapshot"""
    exp = {k: x for k, x in o.cells().items() if k[3] == o.vdate}
    pos = [o.val(a, b) for a in o.odims for b in o.ddims]
    if o.vdate not in pos:
        return
    ld = ctx.call("latest_diagonal", lambda: t.latest_diagonal)
    if not isinstance(ld, cl.Triangle):
        ctx.check(near(np.nan_to_num(float(ld)), sum(exp.values()), 1e-9, 1e-9), key, f"{ld} {exp}")
        return
    g = Snap(ld)
    ctx.check(g.shape_ok() and len(g.ddims) == 1, key + ":shape", f"{g.arr.shape} {g.ddims}")
    # addressed by valuation date
    gc = {(k, c, w, o.vdate): x for (k, c, w, v), x in g.cells().items()}
    same_cells(ctx, key, gc, exp, msg="latest diagonal")
    ctx.check({g.val(w, d) for w in g.odims for d in g.ddims} == {o.vdate}, key + ":valuation", f"{g.ddims} {o.vdate}")
    ctx.check(g.vdate == o.vdate and g.vdims == o.vdims and g.kdims == o.kdims, key + ":labels")
    ctx.check(set(g.odims) <= set(o.odims) and g.odims == sorted(g.odims), key + ":origin")


def links(ctx, t, o):
    if o.is_val or not o.cum or len(o.ddims) < 2:
        return
    exp = {}
    a = o.arr
    for i, k in enumerate(o.kdims):
        for j, c in enumerate(o.vdims):
            for p, w in enumerate(o.odims):
                for q in range(len(o.ddims) - 1):
                    x, y = a[i, j, p, q], a[i, j, p, q + 1]
                    if np.isnan(x) or np.isnan(y) or x == 0 or y == 0 or o.val(w, o.ddims[q + 1]) > o.vdate:
                        continue
                    exp[(k, c, w, o.ddims[q])] = y / x
    if not any(o.val(w, o.ddims[1]) <= o.vdate for w in o.odims):
        return
    lr = ctx.call("link_ratio", lambda: t.link_ratio)
    g = Snap(lr)
    ctx.check(g.shape_ok(), "link:shape")
    got = {(k, c, w, d): x for (k, c, w, d), x in g.cells(by="dev").items()}
    same_cells(ctx, "link", got, exp, 1e-9, 1e-12, "link ratios")
    ctx.check(g.pattern and not g.cum, "link:meta")
    ctx.check(set(g.odims) <= set(o.odims) and set(g.ddims) <= set(o.ddims[:-1]) and g.ddims == sorted(g.ddims), "link:axes", f"{g.ddims}")


def case(ctx, i):
    rng = ctx.rng
    s = gen_spec(rng)
    t = s.triangle()
    backend = str(rng.choice(["numpy", "sparse"]))
    view = bool(rng.random() < .25)
    ctx.note(spec=brief(s), backend=backend, view=view)
    ctx.sig = [brief(s), backend, view]
    with auto_sparse(bool(rng.random() < .5)):
        t = t.set_backend(backend)
        if view:
            t = t.dev_to_val()
        base = Snap(t)
        diagonal(ctx, t, base)
        links(ctx, t, base)
        cur = t
        dates = sorted({int(rng.choice(base.odims[:1] + [c[3] for c in base.cells()])) + int(rng.choice([0, 0, 0, 1, -1])) for _ in range(2)}, reverse=True)
        for d in dates:
            o = Snap(cur)
            known = {k: x for k, x in o.cells().items() if k[3] <= d}
            pos = [o.val(a, b) for a in o.odims for b in o.ddims if o.val(a, b) <= d]
            if not pos or o.arr.shape[3] < 2 or not known:
                break
            ctx.sig.append(d); ctx.note(asof=str(mstart(d).date()))
            style = int(rng.integers(0, 3))
            ts = mstart(d + 1) - pd.Timedelta(1, "ns")
            key = [lambda: cur.valuation <= ts, lambda: cur.valuation < mstart(d + 1), lambda: cur.valuation <= ts.strftime("%Y-%m-%d 23:59:59.999999999")][style]()
            cut = ctx.call("as_of", cur.__getitem__, key)
            g = Snap(cut)
            ctx.check(g.shape_ok(), "as_of:shape")
            same_cells(ctx, "as_of", g.cells(), known, msg=f"as of {mstart(d).date()}")
            ctx.check(g.vdate == min(max(pos), o.vdate), "as_of:valuation_date", f"{g.vdate} {max(pos)}")
            for m in ("kdims", "vdims", "key_labels", "cum", "pattern", "og", "dg", "is_val"):
                ctx.check(getattr(g, m) == getattr(o, m), "as_of:" + m)
            diagonal(ctx, cut, g, "diagonal")
            links(ctx, cut, g)
            # the triangle the records known at that date would give
            if rng.random() < .5:
                sub = Spec(); sub.__dict__.update(s.__dict__)
                sub.cells = {k: x for k, x in s.cells.items() if k[3] <= d}
                if _ok(sub, s):
                    r = Snap(ctx.call("build", sub.triangle))
                    ctx.check(r.vdate == max(k[3] for k in sub.cells), "rebuilt:valuation_date")
                    if r.vdate == g.vdate:
                        same_cells(ctx, "rebuilt", g.cells(), r.cells())
                        shared = [x for x in r.odims if x in g.odims]
                        first = o.ddims[0] - 1 if not view else 0
                        ctx.check({x for x in r.odims if x + first <= g.vdate} <= set(g.odims), "rebuilt:origin", f"{r.odims} {g.odims}")
                        if not view:
                            ctx.check(set(r.ddims) <= set(g.ddims), "rebuilt:development", f"{r.ddims} {g.ddims}")
            # cumulative amounts as of a date are the cumulated increments known then
            if not base.cum and rng.random() < .4 and not view:
                a1 = Snap(ctx.call("incr_to_cum", cut.incr_to_cum))
                full = t.incr_to_cum()
                a2 = Snap(ctx.call("as_of", full.__getitem__, full.valuation <= ts))
                same_cells(ctx, "as_of", a1.cells(), a2.cells(), 1e-8, 1e-5, "cumulated as of")
            cur = cut
        ctx.check(Snap(t).fingerprint() == base.fingerprint(), "input_changed")


def _ok(sub, s):
    return (sub.well_formed() and {k[0] for k in sub.cells} == {k[0] for k in s.cells} and {k[1] for k in sub.cells} == {k[1] for k in s.cells})
