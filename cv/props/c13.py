from cv.devo import *
ID = "C13"
CASES = dict(quick=420, thorough=14000)
RULE = "random triangles (mixed grains, holes, negatives, several segments, both views) fitted under random combinations of every selection setting, per age and overall; each factor is recomputed by loops over the labelled links; distinct by table and settings"
REQUIRE = {"chk:ldf": 300, "chk:cdf": 150, "set:n_periods": 40, "set:drop": 30, "set:drop_high": 30, "set:drop_low": 30, "set:drop_above": 20, "set:drop_below": 20, "set:drop_valuation": 20, "set:groupby": 20, "set:fillna": 20, "links_used": 3000}


def case(ctx, i):
    rng = ctx.rng
    with auto_sparse(bool(rng.random() < .7)):
        run(ctx, rng)


def run(ctx, rng):
    fill = float(pick(rng, 1.0, 1.0, .9, .75))
    s = gen_spec(rng, fill=fill, positive=bool(rng.random() < .8), max_cells=900, n_o=int(rng.integers(4, 10)), late=False)
    t = s.triangle()
    if t.shape[3] < 4 or t.shape[2] < 3:
        raise Skip()
    base = cumulative(t)
    if rng.random() < .2 and fill == 1.0 and s.og == s.dg:
        t = t.dev_to_val(); ctx.event("val_view")
    st = Settings(rng, base)
    if rng.random() < .25:
        st.drop_valuation(rng, base)
    group = None
    if rng.random() < .2 and len(base.key_labels) > 0:
        g = base.key_labels[int(rng.integers(len(base.key_labels)))]
        group = g if rng.random() < .6 else [g]
        if rng.random() < .3:
            m = {v: str(n % 2) for n, v in enumerate(base.index[g].unique())}
            group = lambda x, m=m, g=g: x[g].map(m) if hasattr(x, "map") and not isinstance(x, pd.Index) else 0
            group = g
        st.kw["groupby"] = group
    fl = None
    if rng.random() < .12 and fill < 1:
        fl = round(float(rng.uniform(1, 50)), 2); st.kw["fillna"] = fl
    if any(n >= base.shape[2] - 1 for n in st.n) and s.og != s.dg:
        raise Skip()
    for k in st.kw:
        ctx.event("set:" + k)
    if rng.random() < .3:
        t = t.set_backend("sparse")
    ctx.note(spec=brief(s), settings=str({k: v for k, v in st.kw.items()}), view="val" if t.is_val_tri else "dev"); ctx.sig = [brief(s), str(st.kw)]
    try:
        est = cl.Development(**st.kw).fit(t)
    except Exception as e:
        if "entire triangle has been dropped" in str(e):
            raise Skip()
        raise
    ctx.event("calls")
    src = base
    if group is not None:
        src = base.groupby(group).sum()
    S = Snap(src)
    a = S.arr.copy()
    if fl is not None:
        obs = np.array([[o + d - 1 <= S.vdate for d in S.ddims] for o in S.odims])
        a = np.where((np.isnan(a) | (a == 0)) & obs, fl, a)
    L = Snap(est.ldf_)
    ctx.check(L.pattern and not L.cum and L.arr.shape[3] == len(S.ddims) - 1, "ldf", "pattern flags or length")
    ctx.check(L.kdims == S.kdims and L.vdims == S.vdims, "ldf", f"labels {L.kdims} {S.kdims}")
    C = Snap(est.cdf_)
    for k in range(a.shape[0]):
        for c in range(a.shape[1]):
            sel = selected(a[k, c], S, st, st.n)
            fs = []
            for j, links in enumerate(sel):
                ctx.event("links_used", len(links))
                f = regress(links, st.average[j])[0]
                fs.append(f)
                if f is None or not np.isfinite(f):
                    ctx.event("no_links"); fs[-1] = None
                    continue
                den = sum(x for _, x, _ in links)
                tol = 1e-7 if abs(den) > 1e-3 * sum(abs(x) for _, x, _ in links) else 1e-3
                ctx.check(near(L.arr[k, c, 0, j], f, tol, 1e-9) or (f == 0 and np.isnan(L.arr[k, c, 0, j])), "ldf", lambda: f"{S.kdims[k]} {S.vdims[c]} age {S.ddims[j]}: factor {L.arr[k, c, 0, j]} expected {f} from links {[(str(o), round(x, 2), round(y, 2)) for o, x, y in links]}")
            if all(f is not None for f in fs):
                run = 1.0
                for j in range(len(fs) - 1, -1, -1):
                    run *= L.arr[k, c, 0, j]
                    ctx.check(near(C.arr[k, c, 0, j], run, 1e-9, 1e-12), "cdf", lambda: f"cumulative factor at {S.ddims[j]}: {C.arr[k, c, 0, j]} expected {run}")
    lab = list(est.ldf_.development)
    ctx.check(lab == [f"{x}-{y}" for x, y in zip(S.ddims[:-1], S.ddims[1:])], "ldf", f"age labels {lab}")
    # the transformed triangle carries the same factors on unchanged amounts
    u = ctx.call("transform", est.transform, t)
    same_triangle(ctx, "transform", Snap(u), Snap(t))
    same_triangle(ctx, "transform", u.ldf_, est.ldf_)
    ctx.check(est.w_.shape[-2:] == (len(S.odims), len(S.ddims) - 1), "ldf", "shape of the weights")
    for k in range(a.shape[0]):
        for c in range(a.shape[1]):
            sel = selected(a[k, c], S, st, st.n)
            w = np.broadcast_to(np.nan_to_num(dense(est.w_)), a.shape[:3] + (a.shape[3] - 1,))[k, c]
            lk = ~np.isnan(a[k, c, :, :-1]) & ~np.isnan(a[k, c, :, 1:]) & (a[k, c, :, :-1] != 0) & (a[k, c, :, 1:] != 0)
            got = {(int(i), int(j)) for i, j in np.argwhere((w > 0) & lk)}
            want = {(l[0], j) for j, x in enumerate(sel) for l in x}
            ctx.check(got == want, "weights", lambda: f"links used {sorted(got - want)[:4]} dropped {sorted(want - got)[:4]}")
