from cv.model import *
ID = "C08"
CASES = dict(quick=480, thorough=12000)
RULE = "random triangles (all grains, gaps, 1-3 index levels, both backends and views) aggregated along every axis with every statistic and grouped by labels, label lists, arbitrary arrays and functions; compared with numpy over the observed cells; distinct by table shape, statistic and grouping"
REQUIRE = {"chk:agg": 300, "chk:group": 150, "chk:partition": 80}
FUN = dict(sum=np.nansum, mean=np.nanmean, median=np.nanmedian, max=np.nanmax, min=np.nanmin, prod=np.nanprod, var=np.nanvar, std=np.nanstd)
AX = [("index", 0, -4), ("columns", 1, -3), ("origin", 2, -2), ("development", 3, -1)]


def ref(name, arr, axis, q=None):
    """statistic over the observed cells; NaN where none is observed"""
    none = np.isnan(arr).all(axis=axis, keepdims=True)
    if name == "quantile":
        r = np.nanquantile(arr, q, axis=axis, keepdims=True)
    else:
        r = FUN[name](arr, axis=axis, keepdims=True)
    return np.where(none, np.nan, r), none


def compare(ctx, key, name, got, exp, none):
    g = dense(got)
    if not ctx.check(g.shape == exp.shape, key, f"{name} shape {g.shape} expected {exp.shape}"):
        return
    ctx.event("cells_compared", g.size)
    g, e = np.nan_to_num(g), np.nan_to_num(exp)
    if name == "prod":     # the empty product is one
        g = np.where(none, 0, g)
    if name in ("var", "std"):
        scale = np.nanmax(np.abs(e), initial=1.0)
        ok = close(g, e, 1e-7, 1e-7 * scale)
    else:
        ok = close(g, e, 1e-9, 1e-7)
    ctx.check(ok, key, lambda: f"{name}: " + first_diff(g, e, 1e-9, 1e-7))


def case(ctx, i):
    rng = ctx.rng
    with auto_sparse(bool(rng.random() < .5)):
        s = gen_spec(rng, n_key=int(rng.choice([1, 2, 3, 5, 8])), max_cells=900)
        backend = str(rng.choice(["numpy", "sparse"]))
        t = s.triangle()
        if rng.random() < .2:
            t = t.dev_to_val()
        t = t.set_backend(backend)
        o = Snap(t)
        ctx.note(spec=brief(s), backend=backend, view=o.is_val); ctx.sig = [brief(s), backend, o.is_val]
        arr = np.where(o.arr == 0, np.nan, o.arr)
        (aggregate if rng.random() < .5 else group)(ctx, rng, t, o, arr, backend)
        ctx.check(Snap(t).fingerprint() == o.fingerprint(), "input_changed")


def aggregate(ctx, rng, t, o, arr, backend):
    n = arr.shape
    for _ in range(4):
        name = str(rng.choice(["sum", "sum"] + list(FUN) + ["quantile", "cumsum", "default"]))
        a = int(rng.integers(4))
        ax = AX[a][int(rng.integers(3))]
        ctx.sig.append((name, str(ax)))
        if name == "default":
            # the first axis with more than one label
            first = next((j for j in range(4) if n[j] > 1), 0)
            r = ctx.call("sum", t.sum)
            e, none = ref("sum", arr, first)
            got = r.values if isinstance(r, cl.Triangle) else np.array(r).reshape(1, 1, 1, 1)
            compare(ctx, "agg:default", "sum", got, e, none)
            continue
        if name == "cumsum":
            r = ctx.call("cumsum", t.cumsum, ax)
            known = np.array([[o.val(w, d) <= o.vdate for d in o.ddims] for w in o.odims])
            e = np.cumsum(np.nan_to_num(arr), axis=a) * known
            compare(ctx, "agg:cumsum", name, r.values, e, None)
            ctx.check(Snap(r).meta() == o.meta(), "agg:cumsum:labels")
            continue
        q = round(float(rng.random()), 2)
        r = ctx.call(name, getattr(t, name), ax, **({"q": q} if name == "quantile" else {}))
        e, none = ref(name, arr, a, q)
        if not isinstance(r, cl.Triangle):
            ctx.check(e.size == 1, "agg:" + name, "scalar result")
            compare(ctx, "agg:" + name, name, np.array(float(r)).reshape(e.shape), e, none)
            continue
        compare(ctx, "agg:" + name, name, r.values, e, none)
        g = Snap(r)
        lab = [g.kdims, g.vdims, g.odims, g.ddims]
        old = [o.kdims, o.vdims, o.odims, o.ddims]
        for j in range(4):
            if j != a:
                ctx.check(lab[j] == old[j], "agg:labels", f"{name} axis {a} changed labels of axis {j}")
            else:
                ctx.check(len(lab[j]) == 1, "agg:labels", f"axis {j}: {lab[j]}")
                if n[j] == 1:
                    ctx.check(lab[j] == old[j], "agg:labels", f"axis of length one relabelled {lab[j]} {old[j]}")
        if a == 2:
            ctx.check(lab[2] == old[2][:1], "agg:labels", "origin label")
        if a == 3 and n[3] > 1:
            ctx.check(g.is_val and lab[3] == [o.vdate], "agg:labels", f"development label {lab[3]} {o.vdate}")
        ctx.check((g.og, g.dg, g.cum, g.pattern, g.vdate, g.key_labels) == (o.og, o.dg, o.cum, o.pattern, o.vdate, o.key_labels), "agg:meta")


def group(ctx, rng, t, o, arr, backend):
    n = arr.shape
    for _ in range(3):
        kind = str(rng.choice(["label", "labels", "array", "array", "func", "columns", "origin", "development"]))
        names = [str(rng.choice(["sum", "sum", "mean", "max", "min", "median", "std", "var", "prod", "quantile"]))]
        q = round(float(rng.random()), 2)
        ctx.sig.append((kind, names[0])); ctx.note(kind=kind, stat=names[0])
        lv = o.key_labels
        a = 0
        if kind == "label":
            l = lv[int(rng.integers(len(lv)))]
            by = l
            lab = [k[lv.index(l)] for k in o.kdims]
            want_labels, want = [l], lambda g: (g,)
        elif kind == "labels":
            ls = [str(x) for x in rng.permutation(lv)[:int(rng.integers(1, len(lv) + 1))]]
            by = ls
            lab = [tuple(k[lv.index(l)] for l in ls) for k in o.kdims]
            want_labels, want = ls, lambda g: g
        elif kind == "array":
            lab = [str(x) for x in rng.choice(["g1", "g2", "g3"], n[0])]
            by = np.array(lab, dtype=object) if rng.random() < .5 else list(lab)
            if isinstance(by, list) and (len(by) == 1 or set(by) & set(lv)):
                by = np.array(by, dtype=object)
            want_labels, want = None, lambda g: (g,)
        elif kind == "func":
            by = lambda j: j % 2
            lab = [j % 2 for j in range(n[0])]
            want_labels, want = None, lambda g: (g,)
        elif kind == "columns":
            a = 1
            lab = [str(x) for x in rng.choice(["a", "b"], n[1])]
            by = list(lab)
        elif kind == "origin":
            a = 2
            if o.og != "Y" and n[2] > 1:
                by = [mstart(x).year for x in o.odims]
            else:
                y0 = mstart(o.odims[0]).year
                by = [y0 + (j // 2) for j in range(n[2])]
            lab = list(by)
        else:
            a = 3
            lab = sorted(int(x) for x in rng.integers(0, 3, n[3]))
            by = list(lab)
        groups = sorted(set(lab))
        for name in names:
            gb = ctx.call("groupby", t.groupby, by, axis=a)
            r = ctx.call("group_" + name, getattr(gb, name), **({"q": q} if name == "quantile" else {}))
            g = Snap(r)
            parts = [ref(name, np.take(arr, [j for j, x in enumerate(lab) if x == k], axis=a), a, q) for k in groups]
            e = np.concatenate([p[0] for p in parts], axis=a)
            none = np.concatenate([p[1] for p in parts], axis=a)
            # order of the groups: by their own labels
            if a == 0:
                if want_labels is not None:
                    ctx.check(g.key_labels == want_labels, "group:key_labels", f"{g.key_labels} {want_labels}")
                gl = [k for k in g.kdims]
                wl = [want(k) for k in groups]
                if not ctx.check(sorted(gl, key=str) == sorted(wl, key=str), "group:labels", f"{gl} {wl}"):
                    continue
                e = e[[wl.index(x) for x in gl]]; none = none[[wl.index(x) for x in gl]]
            elif a == 1:
                if not ctx.check(sorted(g.vdims) == groups, "group:labels", f"{g.vdims} {groups}"):
                    continue
                e = e[:, [groups.index(x) for x in g.vdims]]; none = none[:, [groups.index(x) for x in g.vdims]]
            elif a == 2:
                ctx.check([mstart(x).year for x in g.odims] == groups, "group:labels", f"{g.odims} {groups}")
            compare(ctx, "group:" + name, name, r.values, e, none)
            if a < 3:
                same = [g.kdims == o.kdims, g.vdims == o.vdims, g.odims == o.odims, g.ddims == o.ddims]
                ctx.check(all(x for j, x in enumerate(same) if j != a), "group:other_labels")
        tot = ctx.call("group_sum", t.groupby(by, axis=a).sum)
        ctx.check(close(np.nan_to_num(dense(tot.values)).sum(a), np.nan_to_num(arr).sum(a), 1e-9, 1e-6), "partition", kind)
        if a == 0:
            cs = Snap(ctx.call("group_cumsum", t.groupby(by).cumsum))
            known = np.array([[o.val(w, d) <= o.vdate for d in o.ddims] for w in o.odims])
            e = np.zeros(arr.shape)
            for k in groups:
                p = [j for j, x in enumerate(lab) if x == k]
                e[p] = np.cumsum(np.nan_to_num(arr[p]), 0) * known
            ctx.check(cs.kdims == o.kdims and close(np.nan_to_num(cs.arr), e, 1e-9, 1e-6), "group:cumsum")
            if len(o.vdims) > 1:
                c = o.vdims[int(rng.integers(n[1]))]
                r = Snap(ctx.call("group_getitem", lambda: t.groupby(by)[c].sum()))
                full = Snap(t.groupby(by).sum())
                ctx.check(r.vdims == [c] and close(np.nan_to_num(r.arr[:, 0]), np.nan_to_num(full.arr[:, full.vdims.index(c)])), "group:column")
