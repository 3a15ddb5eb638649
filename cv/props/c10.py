from cv.model import *
import os, shutil, tempfile
ID = "C10"
CASES = dict(quick=160, thorough=4000)
RULE = "random triangles (dense or sparse, cumulative or incremental, both views, latest diagonals, label look-alikes, computed columns, fitted patterns) exported as table, text and pickle and read back; distinct by table shape, view and label kind"
REQUIRE = {"chk:json": 100, "chk:table": 100, "chk:pickle": 60, "chk:frame2d": 60, "chk:fitted": 40, "rows_checked": 2000}

LABELS = [["01", "02", "10", "003"], ["2001", "2002", "1999", "2010"], ["1e5", "2e5", "7", "-1"], ["true", "false", "null", "nan "], ["2001-01-01", "1999-12-31", "x", "y"],
          ['a"b', "c,d", "ü\\", " e "], [3, 1, 2, 10], [1.5, 2.25, -3.0, 0.1]]


def relabel(rng, t):
    """replace the first index level with labels that are easy to misread"""
    if len(t.key_labels) == 0 or len(t) > 4:
        return t, "plain"
    j = int(rng.integers(len(LABELS)))
    x = t.copy()
    idx = x.index.copy()
    idx[idx.columns[0]] = pd.Series([LABELS[j][v] for v in rng.permutation(len(t))], index=idx.index)
    x.index = idx
    return x, f"labels{j}"


def table_cells(df, keys, columns):
    df = df.reset_index()
    out, dup, n = {}, 0, 0
    for r in df.to_dict("records"):
        k = tuple(r[x] for x in keys)
        for c in columns:
            v = r[c]
            if v != v or v == 0:
                continue
            o = r["origin"]
            o = mnum(o.to_timestamp() if isinstance(o, pd.Period) else o)
            val = r["valuation"]
            key = (k, c, o, ULT if val.year >= 2261 else mnum(val))
            dup += key in out
            out[key] = float(v); n += 1
    return out, dup, n


def case(ctx, i):
    rng = ctx.rng
    if rng.random() < .12:
        return fitted(ctx, rng)
    with auto_sparse(bool(rng.random() < .7)):
        s = gen_spec(rng, max_cells=500)
        t = s.triangle()
        t, lab = relabel(rng, t)
        r = rng.random()
        view = "dev"
        if r < .25:
            t = t.dev_to_val(); view = "val"
        elif r < .35 and latest(t) is not None:
            t = latest(t); view = "latest"
        elif r < .5:
            t = t.cum_to_incr() if t.is_cumulative else t.incr_to_cum(); view = "conv"
        if rng.random() < .4:
            t = t.set_backend("sparse")
        if rng.random() < .25:                  # empty outer periods and members
            z = t.copy()
            j, m = int(rng.integers(4)), 0
            arr = dense(z.values); w = [slice(None)] * 4; w[j] = int(rng.choice([0, -1])); arr[tuple(w)] = np.nan
            if np.nan_to_num(arr).any() and j != 1:
                z = z.set_backend("numpy"); z.values = arr
                t = z; view += f"-empty{j}"
        virt = rng.random() < .2 and t.shape[1] > 1 and view != "latest"
        if virt:
            a, b = t.columns[:2]
            t["share"] = lambda x: x[a] / x[b]
            t["diff"] = lambda x: x["share"] * 2 - x[a]
        ctx.note(spec=brief(s), view=view, labels=lab, virtual=bool(virt)); ctx.sig = [brief(s), view, lab, bool(virt)]
        before = Snap(t)
        full = t
        if virt:
            full = cl.concat([t[c] for c in t.columns], 1)
        want = {k: v for k, v in Snap(full).cells().items() if np.isfinite(v)}
        infinite = len(want) != len(Snap(full).cells())
        # ---- table
        for dt in (True, False):
            df = t.to_frame(keepdims=True, implicit_axis=True, origin_as_datetime=dt)
            if not ctx.check(list(df.columns) == ["origin", "development", "valuation"] + list(t.columns), "table", f"columns {list(df.columns)}"):
                return
            got, dup, n = table_cells(df, t.key_labels, t.columns)
            ctx.event("rows_checked", len(df))
            ctx.check(dup == 0, "table", f"{dup} cells listed twice")
            got = {k: v for k, v in got.items() if np.isfinite(v)}
            same_cells(ctx, "table", got, want, 1e-9, 1e-9, f"table(origin_as_datetime={dt})")
            ages = [int(x) for x in df["development"]]
            exp = [mnum(v) - mnum(o.to_timestamp() if isinstance(o, pd.Period) else o) + 1 for o, v in zip(df["origin"], df["valuation"])]
            ctx.check(ages == exp, "table", lambda: f"development {ages[:6]} expected {exp[:6]}")
        df = t.to_frame(keepdims=True)
        ctx.check(list(df.columns)[:2] == ["origin", "valuation" if t.is_val_tri else "development"], "table", str(list(df.columns)))
        # rebuilding from the table
        df = t.to_frame(keepdims=True, implicit_axis=True).reset_index()
        obs = [k for k in before.cells()]
        if not virt and 'empty' not in view and len({k[2] for k in obs}) > 1 and len({k[3] for k in obs}) > 1:
            r2 = cl.Triangle(df, origin="origin", development="valuation", columns=list(t.columns), index=t.key_labels, cumulative=t.is_cumulative)
            same_cells(ctx, "rebuild", Snap(r2).cells(), want, 1e-9, 1e-9, "rebuilt from its table")
        # ---- two-dimensional frames
        frames(ctx, rng, t if not virt else full)
        # ---- text
        if not infinite:
            r = cl.read_json(t.to_json())
            same_triangle(ctx, "json", full.sort_index(), r, 1e-9, 1e-9)
            ctx.check(Snap(r).is_val == before.is_val, "json", "view lost")
            r3 = cl.read_json(r.to_json())
            same_triangle(ctx, "json", r3, r, 1e-9, 1e-9)
        # ---- pickle
        d = tempfile.mkdtemp(prefix="cv10_")
        try:
            p = os.path.join(d, "t.pkl")
            t.to_pickle(p)
            q = cl.read_pickle(p)
        finally:
            shutil.rmtree(d)
        ctx.check(Snap(q).fingerprint() == before.fingerprint() and Snap(q).backend == before.backend, "pickle", "pickle differs")
        ctx.check(set(vars(q)) == set(vars(t)), "pickle", "attributes differ")
        if virt:
            ctx.check(close(np.nan_to_num(dense(q["diff"].values)), np.nan_to_num(dense(t["diff"].values))), "pickle", "computed column differs")
        ctx.check(Snap(t).fingerprint() == before.fingerprint(), "unchanged", "export changed the triangle")


def om(v):
    """month number of an origin label of a frame"""
    if isinstance(v, str):                      # semi-annual periods print as 2001H2
        y, h = v.split("H") if "H" in v else (v[:4], None)
        return None if h is None else (int(y) - 1970) * 12 + 6 * (int(h) - 1)
    return mnum(v.to_timestamp() if isinstance(v, pd.Period) else v)


def frames(ctx, rng, t):
    s = Snap(t)
    k, c = int(rng.integers(t.shape[0])), int(rng.integers(t.shape[1]))
    x = t.iloc[k, c]
    odt = bool(rng.random() < .5)
    f = x.to_frame(origin_as_datetime=odt)
    a = np.nan_to_num(s.arr[k, c])
    ctx.check(f.shape == a.shape and close(np.nan_to_num(f.values.astype(float)), a, 1e-12, 0), "frame2d", lambda: "origin x development frame: " + first_diff(np.nan_to_num(f.values.astype(float)), a))
    lab = [om(v) for v in f.index]
    ctx.check((lab == s.odims or s.og == "S" and not odt) and isinstance(f.index, pd.DatetimeIndex) == odt, "frame2d", f"origin labels {lab[:4]} {type(f.index)}")
    if not s.is_val:
        ctx.check([int(v) for v in f.columns] == s.ddims, "frame2d", f"ages {list(f.columns)[:4]}")
    # other two-axis frames
    o, d = int(rng.integers(t.shape[2])), int(rng.integers(t.shape[3]))
    for y, arr, rows, cols in (
            (t.iloc[:, :, o, d], s.arr[:, :, o, d], s.kdims, s.vdims),
            (t.iloc[:, c, :, d], s.arr[:, c, :, d], s.kdims, s.odims),
            (t.iloc[:, c, o, :], s.arr[:, c, o, :], s.kdims, s.ddims),
            (t.iloc[k, :, :, d], s.arr[k, :, :, d], s.vdims, s.odims),
            (t.iloc[k, :, o, :], s.arr[k, :, o, :], s.vdims, s.ddims)):
        if y.shape[:2] == (1, 1) or sorted(y.shape)[1] != 1 or sorted(y.shape)[2] == 1:
            continue
        g = y.to_frame()
        if not isinstance(g, pd.DataFrame):
            ctx.check(False, "frame2d", f"{type(g)} for {y.shape}")
            continue
        ctx.check(close(g.values.astype(float), np.nan_to_num(arr), 1e-12, 0), "frame2d", lambda: f"{y.shape} " + first_diff(g.values, np.nan_to_num(arr)))
        idx = [v if isinstance(v, tuple) else (v,) for v in g.index] if rows is s.kdims else list(g.index)
        ctx.check(idx == list(rows), "frame2d", f"row labels {idx[:4]} {rows[:4]}")
        if cols is s.vdims:
            ctx.check(list(g.columns) == list(cols), "frame2d", f"column labels {list(g.columns)}")
        elif cols is s.odims:
            ctx.check([om(v) for v in g.columns] == list(cols), "frame2d", f"column labels {list(g.columns)[:4]}")
        elif not s.is_val:
            ctx.check([int(v) for v in g.columns] == list(cols), "frame2d", f"column labels {list(g.columns)[:4]}")


def fitted(ctx, rng):
    og = int(rng.choice([12, 12, 3]))
    t, s = regular(rng, og=og, dg=int(rng.choice([og, 3])), n_o=int(rng.integers(4, 8)), n_key=int(rng.integers(1, 4)), n_cols=int(rng.integers(1, 3)))
    t, lab = relabel(rng, t)
    ctx.note(spec=brief(s), fitted=lab); ctx.sig = ["fitted", brief(s), lab]
    est = cl.Development(average=str(rng.choice(["simple", "volume"]))).fit(t)
    x = est.transform(t)
    if rng.random() < .6:
        x = [cl.TailCurve(), cl.TailConstant(1.07), cl.TailBondy()][int(rng.integers(3))].fit_transform(x)
    d = tempfile.mkdtemp(prefix="cv10_")
    try:
        x.to_pickle(os.path.join(d, "x"))
        backs = [("pickle", cl.read_pickle(os.path.join(d, "x")), x)]
    finally:
        shutil.rmtree(d)
    backs.append(("json", cl.read_json(x.to_json()), x.sort_index()))
    for nm, r, o in backs:
        same_triangle(ctx, "fitted", o, r)
        for a in ("ldf_", "cdf_", "sigma_", "std_err_"):
            if not ctx.check(hasattr(r, a), "fitted", f"{a} lost in {nm}"):
                continue
            u, v = getattr(x, a), getattr(r, a)
            if nm == "json":
                u = u.sort_index()
            same_triangle(ctx, "fitted", u, v)
        u, v = cl.Chainladder().fit(o).ultimate_, cl.Chainladder().fit(r).ultimate_
        same_triangle(ctx, "fitted", u.sort_index(), v.sort_index())
    m = cl.Chainladder().fit(x)
    for a in ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_"):
        y = getattr(m, a)
        if not np.nan_to_num(dense(y.values)).any():
            continue
        r = cl.read_json(y.to_json())
        same_triangle(ctx, "fitted", y.sort_index(), r, 1e-9, 1e-6)
