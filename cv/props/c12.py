from cv.zoo import *
ID = "C12"
CASES = dict(quick=500, thorough=16000)
RULE = "random tables cut into pieces along a random axis (contiguous or shuffled), pieces relabelled, column-shuffled, thinned, rescaled, re-stored and joined in random order; every labelled cell of every piece is looked up in the result and vice versa; distinct by table, axis and piece layout"
REQUIRE = {"chk:cells": 250, "chk:labels": 250, "chk:append": 30, "chk:usable": 200, "axis0": 40, "axis1": 40, "axis2": 30, "axis3": 30, "columns_differ": 30, "mixed_storage": 30}


def lab(t):
    """labelled cells of a triangle, zeros and missing dropped"""
    s = Snap(t)
    for j, c in enumerate(s.vdims):
        if c in t.virtual_columns.columns:
            s.arr[:, j] = dense(t[c].values)[:, 0]
    out = {}
    for i, j, p, q in np.argwhere(~np.isnan(s.arr) & (s.arr != 0)):
        k = tuple(sorted(zip(s.key_labels, s.kdims[i])))
        out.setdefault((k, s.vdims[j], s.odims[p], s.ddims[q]), []).append(s.arr[i, j, p, q])
    return out


def pieces(rng, t, axis):
    n = t.shape[axis]
    if axis < 2:
        o = rng.permutation(n)
        cuts = sorted(set(int(x) for x in rng.integers(1, n, int(rng.integers(1, 3))))) if n > 1 else []
        parts = [p for p in np.split(o, cuts) if len(p)]
        return [t.iloc[[int(x) for x in p]] if axis == 0 else t.iloc[:, [int(x) for x in p]] for p in parts]
    cuts = sorted(set(int(x) for x in rng.integers(1, n, int(rng.integers(1, 4))))) if n > 1 else []
    b = [0] + cuts + [n]
    sl = [slice(x, y) for x, y in zip(b[:-1], b[1:])]
    return [t.iloc[..., x, :] if axis == 2 else t.iloc[..., x] for x in sl]


def case(ctx, i):
    rng = ctx.rng
    with auto_sparse(bool(rng.random() < .6)):
        r = rng.random()
        if r < .12:
            mismatched(ctx, rng)
        else:
            join(ctx, rng)


def join(ctx, rng):
    s = gen_spec(rng, max_cells=700)
    t = s.triangle()
    if rng.random() < .3:
        t = t.dev_to_val()
    axis = int(rng.integers(4))
    virt = axis != 1 and rng.random() < .25 and t.shape[1] > 1
    if virt:
        c0, c1 = t.columns[:2]
        t["virtual"] = lambda x: x[c0] - 0.5 * x[c1]
        ctx.event("virtual")
    ps = pieces(rng, t, axis)
    if axis < 2 and rng.random() < .4:     # add relabelled copies
        q = ps[0] * 2.0 + 1
        q = q.rename("columns", [f"{c} x" for c in q.columns]) if axis == 1 else q.set_index(pd.DataFrame({k: [f"new{n}" for n in range(len(q))] for k in q.key_labels}))
        ps.append(q)
    ctx.event(f"axis{axis}")
    ps = [p * float(rng.uniform(.5, 2)) if rng.random() < .5 else p for p in ps]
    if virt and rng.random() < .5:      # some pieces hold the column as plain data, or not at all
        for n in range(len(ps)):
            if rng.random() < .5:
                keep = pick(rng, True, False)
                x = ps[n]["virtual"] * 3.0
                ps[n] = ps[n][[c0, c1]]
                if keep:
                    ps[n] = ps[n].copy(); ps[n]["virtual"] = x
        ctx.event("virtual_mixed")
    elif axis != 1 and not virt and t.shape[1] > 1 and rng.random() < .6:
        ctx.event("columns_differ")
        for n in range(len(ps)):
            k = int(rng.integers(1, t.shape[1] + 1)) if rng.random() < .5 else t.shape[1]
            ps[n] = ps[n][[t.columns[int(x)] for x in rng.permutation(t.shape[1])[:k]]]
    if axis in (0, 1) or rng.random() < .3:
        ps = [ps[int(x)] for x in rng.permutation(len(ps))]
    stores = [pick(rng, "numpy", "sparse") for _ in ps]
    if len(set(stores)) > 1:
        ctx.event("mixed_storage")
    ps = [p.set_backend(b) for p, b in zip(ps, stores)]
    want = {}
    for p in ps:
        for k, v in lab(p).items():
            want.setdefault(k, []).extend(v)
    names = {0: "index", 1: "columns", 2: "origin", 3: "development"}
    ctx.note(spec=brief(s), axis=axis, pieces=len(ps), shapes=str([p.shape for p in ps]), stores=str(stores)); ctx.sig = [brief(s), axis, str([p.shape for p in ps]), str(stores)]
    arg = ps if rng.random() < .5 else tuple(ps)
    before = [state(p) for p in ps]
    out = ctx.call("concat", cl.concat, arg, axis if rng.random() < .6 else names[axis])
    for p, b in zip(ps, before):
        same_state(ctx, "input", b, state(p), "concat changed an input")
    same(ctx, out, want, ps, axis, t)
    # label order of the result follows the inputs
    so, sp = Snap(out), [Snap(p) for p in ps]
    at = {0: "kdims", 1: "vdims", 2: "odims", 3: "ddims"}[axis]
    ctx.check(getattr(so, at) == [x for p in sp for x in getattr(p, at)], "labels", f"axis labels {getattr(so, at)}")
    for o in (0, 1, 2, 3):
        if o != axis:
            at = {0: "kdims", 1: "vdims", 2: "odims", 3: "ddims"}[o]
            a, b = getattr(so, at), getattr(sp[0], at)
            ctx.check(a == b if o != 1 else (len(a) == len(set(a)) and set(a) == {c for p in sp for c in p.vdims}), "labels", f"{at}: {a} vs {b}")
    ctx.check(so.vdate == max(p.vdate for p in sp), "labels", "valuation date is not the latest of the inputs")
    ctx.check((so.og, so.dg, so.cum, so.key_labels) == (sp[0].og, sp[0].dg, sp[0].cum, sp[0].key_labels), "labels", "metadata changed")
    usable(ctx, rng, out, want)
    if axis == 0:
        if len(ps) == 2:
            o2 = ctx.call("append", ps[0].append, ps[1])
            ctx.check(same_state(ctx, "append", state(out), state(o2), "append differs from concat"), "append")
        if rng.random() < .3:
            o3 = ctx.call("ignore_index", cl.concat, ps, 0, ignore_index=True)
            ctx.check(o3.index.iloc[:, 0].tolist() == list(range(len(out))) and close(dense(o3.values), dense(out.values)), "labels", "ignore_index")
    if rng.random() < .3 and not (axis == 3 and out.is_val_tri) and axis in (0, 1):
        o4 = ctx.call("sort", cl.concat, ps, axis, sort=True)
        same(ctx, o4, want, ps, axis, t)
    # joining again in another order gives the same labelled cells
    if axis < 2 or rng.random() < .3:
        o5 = ctx.call("concat", cl.concat, [ps[int(x)] for x in rng.permutation(len(ps))], axis)
        same(ctx, o5, want, ps, axis, t)


def same(ctx, out, want, ps, axis, t):
    got = lab(out)
    ctx.event("cells_compared", len(want))
    bad = [(k, got.get(k), want.get(k)) for k in set(got) | set(want) if sorted(got.get(k, [])) != sorted(want.get(k, []))]
    ctx.check(not bad, "cells", lambda: f"axis {axis}: {len(bad)} cells differ, e.g. {bad[:2]}", bad[:5])
    ctx.check(Snap(out).shape_ok(), "labels", "shape does not match labels")


def usable(ctx, rng, out, want):
    """the joined triangle behaves like one built in one go"""
    s = Snap(out)
    if not s.shape_ok():
        return
    k = int(rng.integers(len(s.kdims))); c = s.vdims[int(rng.integers(len(s.vdims)))]
    one = ctx.call("select", lambda: out.iloc[k][c])
    g = lab(one)
    kk = tuple(sorted(zip(s.key_labels, s.kdims[k])))
    w = {x: v for x, v in want.items() if x[0] == kk and x[1] == c}
    ctx.check({x: v for x, v in g.items()} == {x: v for x, v in w.items()}, "usable", f"selecting {s.kdims[k]} {c} from the joined triangle")
    tot = ctx.call("sum", lambda: out.sum("index"))
    ctx.check(near(float(sum(x for v in lab(tot).values() for x in v)), sum(x for v in want.values() for x in v), 1e-9, 1e-6), "usable", "total of the joined triangle")
    lb = out.index.iloc[k].tolist()
    sel = ctx.call("index_filter", lambda: out[np.logical_and.reduce([(out.index[n] == v).values for n, v in zip(out.key_labels, lb)])] if False else out.loc[lb[0] if len(lb) == 1 else tuple(lb)])
    ctx.check(lab(sel) == {x: v for x, v in want.items() if x[0] == kk}, "usable", f"label selection of {lb}")


def mismatched(ctx, rng):
    """inputs whose other axes carry the same labels in another order, or other labels, are aligned or refused - never mixed up"""
    s = gen_spec(rng, max_cells=500, n_levels=int(rng.integers(1, 3)), n_key=int(rng.integers(2, 5)), n_cols=int(rng.integers(1, 3)))
    t = s.triangle()
    kind = pick(rng, "index_order", "key_labels", "other_index", "origin", "duplicate", "cols_dup")
    ctx.note(spec=brief(s), mismatch=kind); ctx.sig = ["mismatch", kind, brief(s)]
    ctx.event("mismatch:" + kind)
    a = t; axis = 1
    if kind == "index_order":
        b = (t * 2.0).iloc[[int(x) for x in rng.permutation(len(t))]].rename("columns", [f"{c}2" for c in t.columns])
    elif kind == "key_labels":
        if len(t.key_labels) < 2:
            return
        b = t.set_index(pd.DataFrame({k: t.index[k].values for k in t.key_labels[::-1]})) * 2.0
        b = b.rename("columns", [f"{c}2" for c in t.columns])
        if rng.random() < .5:
            axis = 0
            b = b.rename("columns", list(t.columns)).set_index(pd.DataFrame({k: [f"n{v}" for v in t.index[k]] for k in t.key_labels[::-1]}))
    elif kind == "other_index":
        b = t.rename("columns", [f"{c}2" for c in t.columns]).set_index(pd.DataFrame({k: [f"n{v}" for v in t.index[k]] for k in t.key_labels}))
    elif kind == "origin":
        if t.shape[2] < 2:
            return
        b = t.iloc[..., 1:, :].rename("columns", [f"{c}2" for c in t.columns])
    elif kind == "duplicate":
        axis = 0; b = t.iloc[[0]]
    else:
        axis = 1; b = t.copy()
    want = lab(a)
    for k, v in lab(b).items():
        want.setdefault(k, []).extend(v)
    try:
        out = cl.concat((a, b), axis)
    except Exception:
        ctx.event("refused"); ctx.check(True, "mismatch"); return
    ctx.event("accepted:" + kind)
    got = lab(out)
    bad = [(k, got.get(k), want.get(k)) for k in set(got) | set(want) if sorted(got.get(k, [])) != sorted(want.get(k, []))]
    ctx.check(not bad, "mismatch:" + kind, lambda: f"{kind} accepted but {len(bad)} cells are wrong, e.g. {bad[:2]}")
