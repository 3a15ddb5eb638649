from cv.model import *
ID = "C05"
CASES = dict(quick=640, thorough=16000)
RULE = "random triangles (all grains, gaps, 1-3 index levels, both backends and views) with random position, label, column, index-filter and origin/development/valuation selections and assignments, each compared with numpy selection on an independent copy of the cells; distinct by table shape and selection"
REQUIRE = {"chk:iloc": 150, "chk:loc": 100, "chk:bool": 100, "chk:column": 50, "chk:scalar": 50, "chk:assign": 60}


def pick(rng, n, fancy=True):
    """(key, positions) for one axis of length n"""
    kind = str(rng.choice(["all", "int", "neg", "slice", "step", "open", "rev", "list", "mask"] if fancy else ["all", "int", "neg", "slice", "step", "open", "rev", "arith"]))
    if kind == "all":
        return slice(None), list(range(n))
    if kind == "int":
        i = int(rng.integers(n)); return i, [i]
    if kind == "neg":
        i = int(rng.integers(n)); return i - n, [i]
    a = int(rng.integers(0, n)); b = int(rng.integers(a + 1, n + 1))
    if kind == "slice":
        return slice(a, b), list(range(a, b))
    if kind == "step":
        st = int(rng.integers(1, 4)); return slice(a, b, st), list(range(n))[slice(a, b, st)]
    if kind == "open":
        k = [slice(a, None), slice(None, b), slice(a - n, None), slice(None, None, int(rng.integers(1, 4)))][int(rng.integers(4))]
        return k, list(range(n))[k]
    if kind == "rev":
        k = [slice(None, None, -1), slice(b - 1, None, -1), slice(None, None, -2)][int(rng.integers(3))]
        return k, list(range(n))[k]
    if kind == "arith":
        st = int(rng.integers(1, 3)); pos = list(range(n))[a:b:st]; return pos, pos
    if kind == "list":
        pos = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        return pos, pos
    m = rng.random(n) < .5
    if not m.any():
        m[int(rng.integers(n))] = True
    pos = [int(x) for x in np.where(m)[0]]
    return pos, pos


def expect(ctx, key, got, o, ki, vi, oi, di, labels=True, meta=True):
    g = got if isinstance(got, Snap) else Snap(got)
    arr = o.arr[np.ix_(ki, vi, oi, di)]
    if not ctx.check(g.arr.shape == arr.shape, key, f"shape {g.arr.shape} expected {arr.shape}"):
        return
    ctx.event("cells_compared", arr.size)
    ctx.check(close(np.nan_to_num(g.arr), np.nan_to_num(arr)), key, lambda: "cells: " + first_diff(np.nan_to_num(g.arr), np.nan_to_num(arr)))
    if labels:
        ctx.check(g.kdims == [o.kdims[i] for i in ki], key + ":index", f"{g.kdims[:4]} {[o.kdims[i] for i in ki][:4]}")
        ctx.check(g.key_labels == o.key_labels, key + ":key_labels")
    ctx.check(g.vdims == [o.vdims[i] for i in vi], key + ":columns", f"{g.vdims}")
    ctx.check(g.odims == [o.odims[i] for i in oi], key + ":origin", f"{g.odims}")
    ctx.check(g.ddims == [o.ddims[i] for i in di], key + ":development", f"{g.ddims}")
    if meta:
        ctx.check((g.og, g.dg, g.cum, g.pattern, g.is_val) == (o.og, o.dg, o.cum, o.pattern, o.is_val), key + ":meta")
        seen = [o.val(x, y) for x in [o.odims[i] for i in oi] for y in [o.ddims[i] for i in di]]
        ctx.check(g.vdate <= o.vdate and (g.vdate == o.vdate or g.vdate >= min(max(seen), o.vdate)), key + ":valuation_date", f"{g.vdate} {o.vdate} {max(seen)}")


def setup(ctx, rng):
    s = gen_spec(rng, max_cells=900, n_key=int(rng.choice([1, 2, 3, 4, 7])))
    t = s.triangle()
    backend = str(rng.choice(["numpy", "sparse"]))
    t = t.set_backend(backend)
    view = rng.random() < .2
    if view:
        t = t.dev_to_val().set_backend(backend)
    ctx.note(spec=brief(s), backend=backend, view=view)
    return s, t, Snap(t), backend


def case(ctx, i):
    rng = ctx.rng
    with auto_sparse(bool(rng.random() < .5)):
        s, t, o, backend = setup(ctx, rng)
        mode = str(rng.choice(["iloc", "iloc", "loc", "loc", "bool", "bool", "column", "filter", "scalar", "assign", "assign"]))
        ctx.note(mode=mode)
        ctx.sig = [brief(s), backend, mode]
        globals()["m_" + mode](ctx, rng, s, t, o, backend)
        if mode != "assign":
            ctx.check(Snap(t).fingerprint() == o.fingerprint(), "input_changed", mode)


def full(o):
    return [list(range(n)) for n in o.arr.shape]


def m_iloc(ctx, rng, s, t, o, backend):
    for _ in range(4):
        n = o.arr.shape
        P = [pick(rng, n[0]), pick(rng, n[1]), pick(rng, n[2], False), pick(rng, n[3], False)]
        form = int(rng.integers(0, 5))
        ks = [p[0] for p in P]; pos = [p[1] for p in P]
        f = full(o)
        if form == 0:
            key, pos = tuple(ks), pos
        elif form == 1:
            key, pos = ks[0], [pos[0]] + f[1:]
        elif form == 2:
            key, pos = (ks[0], ks[1]), pos[:2] + f[2:]
        elif form == 3:
            key, pos = (..., ks[3]), f[:3] + [pos[3]]
        else:
            key, pos = (..., ks[2], ks[3]), f[:2] + pos[2:]
        ctx.note(key=repr(key)); ctx.sig.append(repr(key))
        got = ctx.call("iloc", t.iloc.__getitem__, key)
        expect(ctx, "iloc", got, o, *pos)


def m_scalar(ctx, rng, s, t, o, backend):
    n = o.arr.shape
    for _ in range(6):
        p = [int(rng.integers(x)) for x in n]
        q = tuple(x - n[j] if rng.random() < .2 else x for j, x in enumerate(p))
        g = ctx.call("iat", t.iat.__getitem__, q)
        e = o.arr[tuple(p)]
        ctx.check(near(np.nan_to_num(float(g)), np.nan_to_num(e)), "scalar:iat", f"{q}: {g} {e}")
        if len(o.key_labels) == 1 and not o.is_val and len(set(o.kdims)) == len(o.kdims):
            key = (o.kdims[p[0]][0], o.vdims[p[1]], t.origin[p[2]], t.development.iloc[p[3]])
            g = ctx.call("at", t.at.__getitem__, key)
            ctx.check(near(np.nan_to_num(float(g)), np.nan_to_num(e)), "scalar:at", f"{key}: {g} {e}")
    ctx.sig.append(repr(p))


def m_loc(ctx, rng, s, t, o, backend):
    f = full(o)
    for _ in range(4):
        # column / origin / development labels
        kind = str(rng.choice(["labels", "index", "index_list", "ellipsis"]))
        pos = [list(x) for x in f]
        ck, pos[1] = lab(rng, list(o.vdims), True)
        orig = list(t.origin)
        ok, pos[2] = lab(rng, orig, False)
        dev = list(t.development)
        dk, pos[3] = lab(rng, dev, False)
        if kind == "labels":
            key = (slice(None), ck, ok, dk)
            ix = True
        elif kind == "ellipsis":
            key = (..., dk); pos = f[:3] + [pos[3]]
        elif kind == "index":
            i = int(rng.integers(len(o.kdims)))
            lab_ = o.kdims[i]
            key = lab_[0] if len(lab_) == 1 else lab_
            pos = [[i]] + f[1:]
            if len(lab_) > 1:
                # a full tuple key addresses one member
                key = (lab_,) if rng.random() < .5 else (lab_, ck)
                pos = [[i], pos[1] if len(key) == 1 else pos[1], f[2], f[3]]
                if len(key) == 2:
                    pos[1] = [o.vdims.index(c) for c in (ck if isinstance(ck, list) else [ck])] if not isinstance(ck, slice) else slicepos(list(o.vdims), ck)
                else:
                    pos[1] = f[1]
        else:
            idx = [int(x) for x in rng.permutation(len(o.kdims))[:int(rng.integers(1, len(o.kdims) + 1))]]
            labs = [o.kdims[j] for j in idx]
            key = [x[0] for x in labs] if len(o.key_labels) == 1 else labs
            key = (key,)
            pos = [idx] + f[1:]
        ctx.note(key=repr(key)); ctx.sig.append(repr(key))
        got = ctx.call("loc", t.loc.__getitem__, key)
        g = Snap(got)
        # .loc drops a leading index level that has become constant: labels are
        # compared on the levels that remain
        if g.key_labels != o.key_labels:
            dropped = len(o.key_labels) - len(g.key_labels)
            ctx.check(dropped == 1 and len({o.kdims[j][0] for j in pos[0]}) == 1, "loc:key_labels", f"{g.key_labels} {o.key_labels}")
            ctx.check(g.kdims == [o.kdims[j][1:] for j in pos[0]], "loc:index", f"{g.kdims}")
            expect(ctx, "loc", g, o, *pos, labels=False)
        else:
            expect(ctx, "loc", g, o, *pos)
    # a first-level label selects every member below it
    if len(o.key_labels) > 1:
        a = o.kdims[int(rng.integers(len(o.kdims)))][0]
        idx = [j for j, k in enumerate(o.kdims) if k[0] == a]
        expect(ctx, "loc", ctx.call("loc", t.loc.__getitem__, a), o, idx, *f[1:], labels=False)


def slicepos(labels, sl):
    a = 0 if sl.start is None else labels.index(sl.start)
    b = len(labels) - 1 if sl.stop is None else labels.index(sl.stop)
    return list(range(a, b + 1))


def lab(rng, labels, fancy):
    n = len(labels)
    kind = str(rng.choice(["all", "one", "slice", "open"] + (["list"] if fancy else ["run"])))
    if kind == "all":
        return slice(None), list(range(n))
    i = int(rng.integers(n))
    if kind == "one":
        return labels[i], [i]
    j = int(rng.integers(i, n))
    if kind == "slice":
        return slice(labels[i], labels[j]), list(range(i, j + 1))
    if kind == "open":
        return (slice(labels[i], None), list(range(i, n))) if rng.random() < .5 else (slice(None, labels[j]), list(range(0, j + 1)))
    if kind == "run":
        return [labels[x] for x in range(i, j + 1)], list(range(i, j + 1))
    p = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    return [labels[x] for x in p], p


def m_bool(ctx, rng, s, t, o, backend):
    f = full(o)
    for _ in range(4):
        kind = str(rng.choice(["origin", "development", "valuation", "between", "val_eq", "origin_scatter", "dev_scatter"]))
        ctx.sig.append(kind); ctx.note(key=kind)
        if kind.startswith("origin"):
            if kind == "origin":
                m = int(rng.choice(o.odims)); op = str(rng.choice([">", ">=", "<", "<=", "=="]))
                key = cmp(t.origin, op, t.origin[o.odims.index(m)])
                pos = [j for j, x in enumerate(o.odims) if cmp(x, op, m)]
            else:
                mask = rng.random(len(o.odims)) < .6
                key = np.array(mask); pos = [int(x) for x in np.where(mask)[0]]
                if len(o.odims) == len(o.ddims) * len(o.odims):
                    continue
            if not pos:
                continue
            got = ctx.call("bool", t.__getitem__, key)
            expect(ctx, "bool:origin", got, o, f[0], f[1], pos, f[3])
        elif kind.startswith("dev"):
            if kind == "development":
                dv = list(t.development); d = dv[int(rng.integers(len(dv)))]
                op = str(rng.choice([">", ">=", "<", "<=", "=="]))
                key = cmp(t.development, op, d)
                pos = [j for j, x in enumerate(dv) if cmp(x, op, d)]
            else:
                mask = rng.random(len(o.ddims)) < .6
                key = pd.Series(mask, name="development"); pos = [int(x) for x in np.where(mask)[0]]
            if not pos:
                continue
            got = ctx.call("bool", t.__getitem__, key)
            expect(ctx, "bool:development", got, o, f[0], f[1], f[2], pos)
        else:
            if len(o.ddims) < 2:
                continue
            vals = sorted({o.val(a, b) for a in o.odims for b in o.ddims})
            w = int(rng.choice(vals)); w2 = int(rng.choice(vals))
            ts = lambda m: mstart(m + 1) - pd.Timedelta(1, "ns")
            v = t.valuation
            if kind == "valuation":
                op = str(rng.choice([">", ">=", "<", "<="]))
                key = cmp(v, op, ts(w)); keep = lambda x: cmp(x, op, w)
            elif kind == "between":
                lo, hi = sorted((w, w2))
                key = (v >= ts(lo)) & (v <= ts(hi)); keep = lambda x: lo <= x <= hi
            else:
                key = v == ts(w); keep = lambda x: x == w
            key = np.array(key)
            kept = {(a, b): keep(o.val(a, b)) for a in o.odims for b in o.ddims}
            if not any(kept.values()):
                continue
            rows = [p for p, a in enumerate(o.odims) if any(kept[a, b] for b in o.ddims)]
            cols = [p for p, b in enumerate(o.ddims) if any(kept[a, b] for a in o.odims)]
            if len(set(np.diff(rows))) > 1 or len(set(np.diff(cols))) > 1:
                # documented restriction: unevenly spaced periods are rejected
                try:
                    got = Snap(t[key])
                except ValueError:
                    ctx.event("uneven_selection_rejected")
                    continue
            else:
                got = Snap(ctx.call("bool", t.__getitem__, key))
            exp = {k: x for k, x in o.cells().items() if keep(k[3])}
            same_cells(ctx, "bool", got.cells(), exp, msg="valuation " + kind)
            ctx.check(got.odims == [a for a in o.odims if any(kept[a, b] for b in o.ddims)], "bool:origin", f"{got.odims}")
            ctx.check(got.ddims == [b for b in o.ddims if any(kept[a, b] for a in o.odims)], "bool:development", f"{got.ddims}")
            ctx.check(got.kdims == o.kdims and got.vdims == o.vdims and got.shape_ok(), "bool:labels")
            mx = max(o.val(a, b) for (a, b), z in kept.items() if z)
            ctx.check(got.vdate == min(mx, o.vdate), "bool:valuation_date", f"{got.vdate} {mx} {o.vdate}")


def cmp(a, op, b):
    return a > b if op == ">" else a >= b if op == ">=" else a < b if op == "<" else a <= b if op == "<=" else a == b


def m_column(ctx, rng, s, t, o, backend):
    f = full(o)
    n = len(o.vdims)
    for _ in range(3):
        p = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        key = [o.vdims[x] for x in p]
        if len(key) == 1 and rng.random() < .7:
            key = key[0]
        ctx.sig.append(repr(key)); ctx.note(key=repr(key))
        expect(ctx, "column", ctx.call("column", t.__getitem__, key), o, f[0], p, f[2], f[3])
    c = o.vdims[int(rng.integers(n))]
    if n > 1:
        d = ctx.call("drop", t.drop, c)
        expect(ctx, "column:drop", d, o, f[0], [j for j, x in enumerate(o.vdims) if x != c], f[2], f[3])


def m_filter(ctx, rng, s, t, o, backend):
    f = full(o)
    for _ in range(3):
        j = int(rng.integers(len(o.key_labels)))
        lv = o.key_labels[j]
        x = o.kdims[int(rng.integers(len(o.kdims)))][j]
        op = str(rng.choice(["==", "!=", "isin", ">="]))
        ser = t[lv]
        if op == "==":
            key = ser == x; pos = [a for a, k in enumerate(o.kdims) if k[j] == x]
        elif op == "!=":
            key = ser != x; pos = [a for a, k in enumerate(o.kdims) if k[j] != x]
        elif op == ">=":
            key = ser >= x; pos = [a for a, k in enumerate(o.kdims) if k[j] >= x]
        else:
            xs = {k[j] for k in o.kdims if rng.random() < .5} | {x}
            key = ser.isin(xs); pos = [a for a, k in enumerate(o.kdims) if k[j] in xs]
        if not pos:
            continue
        ctx.sig.append((lv, op, str(x))); ctx.note(key=f"{lv} {op} {x}")
        expect(ctx, "bool:index", ctx.call("filter", t.__getitem__, key), o, pos, *f[1:])
        expect(ctx, "bool:index", ctx.call("filter", lambda: t.loc[key]), o, pos, *f[1:], labels=False)


def m_assign(ctx, rng, s, t, o, backend):
    f = full(o)
    n = o.arr.shape
    twin = t.copy()                      # shares history with t, must not change
    part = t.iloc[..., :max(1, n[2] - 1), :]
    sp = Snap(part).fingerprint()
    st = Snap(twin).fingerprint()
    exp = np.nan_to_num(o.arr.copy())
    how = str(rng.choice(["iat", "at", "iloc", "loc", "col_new", "col_old", "col_expr", "iloc_tri"]))
    ctx.sig.append(how); ctx.note(key=how)
    vd = list(o.vdims)
    if how in ("iat", "at"):
        for _ in range(4):
            p = tuple(int(rng.integers(x)) for x in n)
            x = round(float(rng.normal(0, 1000)), 2)
            if how == "iat":
                ctx.call("set_iat", t.iat.__setitem__, p, x)
            else:
                if len(o.key_labels) != 1 or o.is_val:
                    raise Skip()
                ctx.call("set_at", t.at.__setitem__, (o.kdims[p[0]][0], o.vdims[p[1]], t.origin[p[2]], t.development.iloc[p[3]]), x)
            exp[p] = x
    elif how in ("iloc", "loc", "iloc_tri"):
        if backend == "sparse":
            try:
                t.iloc[0, 0, 0, 0] = 1.0
                ctx.check(False, "assign:sparse_rejected")
            except ValueError:
                pass
            raise Skip()
        P = [pick(rng, x, False) for x in n]
        P = [(slice(p[1][0], p[1][0] + 1), p[1][:1]) if isinstance(p[0], (int, list)) else p for p in P]
        if how == "loc":
            i, j = int(rng.integers(n[0])), int(rng.integers(n[1]))
            if len(o.key_labels) > 1 or o.is_val:
                raise Skip()
            a, b = sorted(int(x) for x in rng.integers(0, n[2], 2))
            c, d = sorted(int(x) for x in rng.integers(0, n[3], 2))
            x = round(float(rng.normal(0, 1000)), 2)
            ks = (slice(None), o.vdims[j], slice(t.origin[a], t.origin[b]), slice(t.development.iloc[c], t.development.iloc[d]))
            # label assignment addresses one cell block per column
            ctx.call("set_loc", t.loc.__setitem__, ks, x)
            exp[np.ix_(f[0], [j], range(a, b + 1), range(c, d + 1))] = x
            t_ok = True
        else:
            ks = tuple(p[0] for p in P)
            if how == "iloc":
                x = round(float(rng.normal(0, 1000)), 2)
                ctx.call("set_iloc", t.iloc.__setitem__, ks, x)
                exp[np.ix_(*[p[1] for p in P])] = x
            else:
                v = t.iloc[ks] * 2
                ctx.call("set_iloc", t.iloc.__setitem__, ks, v)
                exp[np.ix_(*[p[1] for p in P])] *= 2
    elif how == "col_new":
        x = t.iloc[:, 0] * 3
        ctx.call("set_column", t.__setitem__, "fresh", x)
        exp = np.concatenate((exp, exp[:, :1] * 3), 1); vd = vd + ["fresh"]
    elif how == "col_old":
        j = int(rng.integers(n[1])); k = int(rng.integers(n[1]))
        x = t.iloc[:, k] * -2
        fx = Snap(x).fingerprint()
        ctx.call("set_column", t.__setitem__, o.vdims[j], x)
        exp[:, j] = exp[:, k] * -2 if k != j else exp[:, j] * -2
        ctx.check(Snap(x).fingerprint() == fx, "assign:value_changed", "the assigned triangle was modified")
    else:
        j, k = int(rng.integers(n[1])), int(rng.integers(n[1]))
        ctx.call("set_column", t.__setitem__, "total", t[o.vdims[j]] + t[o.vdims[k]])
        exp = np.concatenate((exp, (exp[:, j] + exp[:, k])[:, None]), 1); vd = vd + ["total"]
    g = Snap(t)
    ctx.check(g.vdims == vd and g.kdims == o.kdims and g.odims == o.odims and g.ddims == o.ddims and g.shape_ok(), "assign:labels", f"{g.vdims}")
    ctx.event("cells_compared", exp.size)
    ctx.check(close(np.nan_to_num(g.arr), exp), "assign", lambda: how + " " + first_diff(np.nan_to_num(g.arr), exp))
    ctx.check(Snap(twin).fingerprint() == st, "assign:copy_changed", how)
    ctx.check(Snap(part).fingerprint() == sp, "assign:slice_changed", how)
