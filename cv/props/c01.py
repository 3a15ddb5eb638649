from cv.model import *
ID = "C01"
CASES = dict(quick=480, thorough=14000)
RULE = "random claim tables (grain, fiscal start, index levels, columns, gaps, duplicates, record order, date encodings); non-trivial when cells were compared with record sums; distinct by table shape"
REQUIRE = {"cells_compared": 1000, "op:Triangle": 50}


def styles(s):
    st = ["date", "date", "datemid", "str", "fmt", "split"]
    vm = {v % 12 for v in s.vals}
    if not (vm & {0, 3, 6, 9}):
        st.append("int")
    if s.og == 12 and s.dg == 12 and s.o0 % 12 == 0 and s.vend % 12 == 11:
        st += ["year", "year"]
    if not (vm & {0, 3, 6, 9}) or s.dg == 1:
        st.append("period")
    return st


def case(ctx, i):
    rng = ctx.rng
    s = gen_spec(rng, gap_origins=True)
    style = str(rng.choice(styles(s)))
    if style == "split" and {v % 12 for v in s.vals} & {0, 3, 6, 9} and s.dg > 1:
        style = "date"
    if style == "datemid" and s.og != 1:
        style = "date"
    if s.og in (12, 3) and s.o0 % 12 in (0, 3, 6, 9) and not (s.og == 12 and s.o0 % 12) and rng.random() < 0.15:
        style = "oend"
    df = s.table(rng)
    df, kw = s.encode(df, style)
    if rng.random() < 0.3:
        df = df[list(rng.permutation(df.columns))]
    if rng.random() < 0.3:
        df.index = rng.permutation(len(df)) + 5
    if style == "datemid" and rng.random() < .5:
        df["dev"] = [d - pd.Timedelta(days=int(rng.integers(0, 25))) for d in df["dev"]]
    before = df.copy(deep=True)
    ctx.note(spec=brief(s), style=style, rows=len(df))
    ctx.sig = [brief(s), style]
    idx = s.key_labels or None
    cols = s.columns if len(s.columns) > 1 or rng.random() < .5 else s.columns[0]
    if idx and len(idx) == 1 and rng.random() < .5:
        idx = idx[0]
    backend = [None, "numpy", "sparse"][int(rng.integers(0, 3))]
    with auto_sparse(not (backend == "sparse")):
        t = ctx.call("Triangle", cl.Triangle, df, columns=cols, index=idx, cumulative=s.cumulative, array_backend=backend, **kw)
        sn = Snap(t)
    ctx.check(df.equals(before), "input_mutated", "the input table was changed")
    ctx.check(sn.shape_ok(), "shape", f"{sn.arr.shape} vs labels")
    odims, ages, vend = expected_axes(s)
    if s.key_labels:
        ctx.check(sorted(sn.kdims) == sorted(s.members), "index_labels", f"{sn.kdims} vs {s.members}")
        ctx.check(sn.key_labels == s.key_labels, "key_labels")
    else:
        ctx.check(len(sn.kdims) == 1, "index_labels")
        sn.kdims = [()]
    ctx.check(sn.vdims == s.columns, "columns", f"{sn.vdims}")
    ctx.check(sn.odims == odims, "origin_axis", lambda: f"{[mstart(x).date() for x in sn.odims]} expected {[mstart(x).date() for x in odims]}")
    ctx.check(sn.ddims == ages, "development_axis", f"{sn.ddims} expected {ages}")
    ctx.check(sn.vdate == vend, "valuation_date", f"{mstart(sn.vdate)} vs {mstart(vend)}")
    ctx.check(sn.og == LETTER[s.og] and sn.dg == LETTER[s.dg], "grain", f"{sn.og}{sn.dg} vs {s.og}{s.dg}")
    ctx.check(t.is_cumulative is s.cumulative, "is_cumulative")
    same_cells(ctx, "cells", sn.cells(), s.cells, msg=style)
    ctx.check(not (sn.arr == 0).any(), "missing_is_not_zero", "cells without records are stored as zero")
    for j, c in enumerate(s.columns):
        tot = np.nansum([v for k, v in s.cells.items() if k[1] == c])
        ctx.check(near(float(np.nansum(sn.arr[:, j])), tot, 1e-9, 1e-5), "column_total")
    # record order does not matter
    df2 = df.iloc[rng.permutation(len(df))]
    t2 = ctx.call("Triangle", cl.Triangle, df2, columns=cols, index=idx, cumulative=s.cumulative, **kw)
    s2 = Snap(t2)
    if not s.key_labels:
        s2.kdims = [()]
    same_cells(ctx, "record_order", s2.cells(), sn.cells())
    # no development column: one valuation column holding row totals
    if rng.random() < 0.25:
        kw2 = dict(kw); kw2.pop("development"); kw2.pop("development_format", None)
        t3 = ctx.call("Triangle_vector", cl.Triangle, df, columns=cols, index=idx, cumulative=s.cumulative, **kw2)
        s3 = Snap(t3)
        if not s.key_labels:
            s3.kdims = [()]
        ctx.check(len(s3.ddims) == 1, "vector_shape")
        exp = {}
        for (k, c, o, v), x in s.cells.items():
            exp[(k, c, o)] = exp.get((k, c, o), 0) + x
        same_cells(ctx, "vector_cells", {k[:3]: v for k, v in s3.cells().items()}, exp)
    # records developed before their origin are dropped, others kept
    if rng.random() < 0.15 and style == "date":
        bad = df.iloc[:2].copy()
        bad["dev"] = bad["origin"] - pd.Timedelta(days=400)
        keep = df["dev"] >= df["origin"]
        both = pd.concat([df, bad])
        t4 = ctx.call("Triangle_badrec", cl.Triangle, both, columns=cols, index=idx, cumulative=s.cumulative, **kw)
        got = Snap(t4)
        if not s.key_labels:
            got.kdims = [()]
        if got.dg == LETTER[s.dg] and infer_grain([mnum(x) % 12 for x in both["dev"]]) == s.dg:
            same_cells(ctx, "bad_records", got.cells(), s.cells)
