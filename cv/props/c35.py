"""C35: a computed column is its function of the triangle it is read from, whatever happened to that triangle before"""
import copy, os, tempfile
from cv.zoo import *

ID = "C35"
CASES = dict(quick=340, thorough=7000)
RULE = "Random triangles (grains, segments, dense and sparse, cumulative and incremental, age and valuation view) get columns defined by functions of other columns (ratios, sums, differences, scalings, blends, chains of computed columns; new names and replaced real ones). Random programs of slices along every axis, filters, aggregations, group-bys, arithmetic, elementwise functions, grain, view and backend changes, shifts, trends, renames, joins, copies and in-place conversions run on it and on the same triangle without the definitions: after every step each computed column equals its function applied to the plain triangle, cell by cell against independently computed values, with the labels of the triangle, and real columns are as without it; a slice that leaves out the sources keeps the amounts. Assigning to source columns and single cells shows at the next read. Tables, texts, joins and totals over columns count it as its amounts. Defining, replacing and removing columns on copies, slices and results leaves all other triangles alone, in both directions, and reading changes nothing."
REQUIRE = {"reads": 600, "steps": 120, "source_changes": 40, "ownership": 30, "outputs": 30, "frozen": 5, "chained": 30, "cells": 5000}
BUDGET = {"quick": 200, "thorough": 2400}


# ---- definitions: (library function, cellwise oracle, sources) --------------
def definition(rng, cols):
    a, b = [cols[int(k)] for k in rng.permutation(len(cols))[:2]]
    k = float(np.round(rng.uniform(.2, 3), 2))
    r = int(rng.integers(7))
    z = lambda x: np.nan_to_num(x)
    return [
        (lambda t: t[a] / t[b], lambda g: g(a) / np.where(z(g(b)) == 0, np.nan, g(b)), (a, b), f"{a}/{b}"),
        (lambda t: t[a] + t[b], lambda g: z(g(a)) + z(g(b)), (a, b), f"{a}+{b}"),
        (lambda t: t[a] - t[b], lambda g: z(g(a)) - z(g(b)), (a, b), f"{a}-{b}"),
        (lambda t: t[a] * k, lambda g: g(a) * k, (a,), f"{k}*{a}"),
        (lambda t: (t[a] * k + t[b]) / 2, lambda g: (z(g(a)) * k + z(g(b))) / 2, (a, b), f"blend {k}"),
        (lambda t: t[a] * t[b], lambda g: g(a) * g(b), (a, b), f"{a}*{b}"),
        (lambda t: k * t[a] - t[b] * .5, lambda g: z(k * g(a)) - z(g(b) * .5), (a, b), f"{k}*{a}-{b}/2"),
    ][r]


class Defs:
    """computed columns of one triangle in the order they were defined"""
    def __init__(self):
        self.d = {}

    def put(self, t, name, f):
        self.d[name] = f
        t[name] = f[0]
        return t

    def lib(self, t0, name):
        """the function on the triangle without definitions, chained ones built first"""
        f = self.d[name]
        x = t0
        for s in f[2]:
            if s in self.d:
                x = x.copy()
                x[s] = self.lib(t0, s)
        return f[0](x)

    def num(self, s, cols, name):
        f = self.d[name]
        def g(c):
            return self.num(s, cols, c) if c in self.d else s.arr[:, [cols.index(c)]]
        with np.errstate(all="ignore"):
            return f[1](g)


def amounts(x):
    return np.nan_to_num(dense(x), posinf=0.0, neginf=0.0)


def labels(s):
    m = s.meta()
    return {k: v for k, v in m.items() if k not in ("vdims", "columns", "backend")}


def verify(ctx, key, u, u0, defs, note, frozen=None):
    """u carries the definitions, u0 is the same triangle without"""
    for name in defs.d:
        if name not in list(u.columns):
            ctx.check(False, f"{key}:columns", f"{note}: {name} is not among {list(u.columns)}"); return False
        got = ctx.call("read", lambda: u[name])
        ctx.event("reads")
        if any(s in defs.d for s in defs.d[name][2]):
            ctx.event("chained")
        want = defs.lib(u0, name)
        g, w = Snap(got), Snap(want)
        if not ctx.check(list(got.columns) == [name], f"{key}:name", f"{note}: read {list(got.columns)}"):
            return False
        lg, lw = labels(g), labels(w)
        bad = [k for k in lw if lg.get(k) != lw[k]]
        if not ctx.check(not bad, f"{key}:labels", f"{note}: {name} = {defs.d[name][3]} {[(k, lg.get(k), lw[k]) for k in bad]}"):
            return False
        x, y = amounts(g.arr), amounts(w.arr)
        if not ctx.check(close(x, y, 1e-9, 1e-9 * np.abs(y).max(initial=1e-12)), f"{key}:value", lambda: f"{note}: {name} = {defs.d[name][3]} {first_diff(x, y, 1e-9, 0)}"):
            return False
        # the function worked out on the cells of the plain triangle
        s0 = Snap(u0)
        n = np.nan_to_num(defs.num(s0, list(u0.columns), name), posinf=0.0, neginf=0.0)
        n = np.broadcast_to(n, x.shape)
        # sums leave out what lies after the valuation date
        known = np.nan_to_num(dense(u0.nan_triangle)) > 0
        if known.shape == x.shape[2:]:
            x, n = x * known, n * known
        ctx.event("cells", int(np.sum(n != 0)))
        if not ctx.check(close(x, n, 1e-8, 1e-8 * np.abs(n).max(initial=1e-12)), f"{key}:cells", lambda: f"{note}: {name} = {defs.d[name][3]} on the cells: {first_diff(x, n, 1e-8, 0)}"):
            return False
        ctx.check(not (name in got.virtual_columns.columns), f"{key}:plain", f"{note}: what is read of {name} still computes itself")
    for c in u0.columns:
        x, y = amounts(u[c].values), amounts(u0[c].values)
        if not ctx.check(x.shape == y.shape and close(x, y, 1e-12, 0), f"{key}:real", f"{note}: real column {c} differs from the triangle without computed columns"):
            return False
    return True


# ---- operations ----------------------------------------------------------------
def operations(rng, u, u0):
    """[(label, function of a triangle)] applicable to both"""
    n_i, n_o, n_d = u.shape[0], u.shape[2], u.shape[3]
    k = float(np.round(rng.uniform(.3, 2), 2))
    ops = [("copy", lambda t: t.copy()), ("times", lambda t: t * k), ("plus", lambda t: t + k), ("over", lambda t: t / k), ("minus", lambda t: t - k), ("rminus", lambda t: k - t),
           ("neg", lambda t: -t), ("self", lambda t: t + t), ("power", lambda t: t ** 2), ("abs", lambda t: abs(t)), ("minimum", lambda t: t.minimum(k * 500)), ("maximum", lambda t: t.maximum(k * 100)),
           ("backend", lambda t: t.set_backend("numpy" if t.array_backend == "sparse" else "sparse")), ("deepcopy", lambda t: copy.deepcopy(t)), ("fillna0", lambda t: t.fillna(0)),
           ("halves", lambda t: cl.concat([t.iloc[[0]], t.iloc[1:]], 0) if len(t) > 1 else t.copy()), ("pickle", repickle)]
    ops += [("columns", lambda t: t[list(t.columns)])]
    if n_i > 1:
        i = sorted(rng.choice(n_i, int(rng.integers(1, n_i)), replace=False).tolist())
        ops += [("iloc", lambda t: t.iloc[i]), ("iloc1", lambda t: t.iloc[i[0]]), ("sum0", lambda t: t.sum(0)), ("mean0", lambda t: t.mean("index")), ("max0", lambda t: t.max(0)),
                ("group", lambda t: t.groupby(t.key_labels[0]).sum()), ("index", lambda t: t[t.index[t.key_labels[0]] == t.index[t.key_labels[0]].iloc[i[0]]]), ("head", lambda t: t.head(1)), ("median", lambda t: t.median(0)),
                ("reverse", lambda t: t.iloc[::-1]), ("sorted", lambda t: t.sort_index())]
    if n_o > 2 and n_d > 2 and u.nan_triangle.shape == u.shape[2:]:
        c = int(rng.integers(1, n_o - 1)); e = int(rng.integers(1, n_d - 1))
        ops += [("origins", lambda t: t[t.origin >= t.origin[c]]), ("origins2", lambda t: t[t.origin < t.origin[c]]), ("ages", lambda t: t[t.development <= t.development.iloc[e]]), ("ilo", lambda t: t.iloc[..., :c, :]), ("ild", lambda t: t.iloc[..., e:]),
                ("sum2", lambda t: t.sum("origin")), ("sum3", lambda t: t.sum("development")), ("dropna", lambda t: t.dropna()),
                ("cumsum", lambda t: t.cumsum(3) if not t.is_val_tri else t.copy())]
        if not u.is_val_tri:
            ops += [("latest", lambda t: t.latest_diagonal), ("link", lambda t: t.link_ratio if t.is_cumulative else t.copy()), ("back", lambda t: t[t.valuation < t.valuation_date])]
            if u.is_cumulative:
                ops += [("trend", lambda t: t.trend(.03)), ("shift", lambda t: t.shift(-1))]
    if u.shape[3] > 1 and u.shape[2] > 1 and not u.is_pattern:
        ops += [("view", lambda t: t.dev_to_val() if not t.is_val_tri else t.val_to_dev()), ("view", lambda t: t.dev_to_val() if not t.is_val_tri else t.val_to_dev()),
                ("amounts", lambda t: t.cum_to_incr() if t.is_cumulative else t.incr_to_cum()), ("amounts", lambda t: t.cum_to_incr() if t.is_cumulative else t.incr_to_cum()),
                ("inplace amounts", lambda t: inplace(t, lambda x: x.cum_to_incr(inplace=True) if x.is_cumulative else x.incr_to_cum(inplace=True))),
                ("inplace view", lambda t: inplace(t, lambda x: x.dev_to_val(inplace=True) if not x.is_val_tri else x.val_to_dev(inplace=True))),
                ("inplace backend", lambda t: inplace(t, lambda x: x.set_backend("sparse", inplace=True)))]
        g = coarser(u)
        if g and not u.is_val_tri:
            ops += [("grain", lambda t: t.grain(g)), ("grain", lambda t: t.grain(g))]
    return ops


def coarser(u):
    og, dg = u.origin_grain, u.development_grain
    order = ["M", "Q", "S", "Y"]
    if og not in order or dg not in order or u.is_val_tri:
        return None
    if order.index(og) < 3:
        return f"OYDY" if order.index(dg) < 4 else None
    return "OYDY" if order.index(dg) < 3 else None


def inplace(t, f):
    t = t.copy()
    f(t)
    return t


def repickle(t):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "t")
        t.to_pickle(p)
        return cl.read_pickle(p)


def apply(f, t):
    try:
        return f(t), None
    except Exception as e:
        return None, e


def base(ctx):
    r = ctx.rng
    t, s = regular(r, og=int(r.choice([12, 12, 3, 6])), n_o=int(r.integers(4, 8)), n_key=int(r.choice([1, 2, 3])), n_cols=int(r.choice([2, 2, 3])), partial=False, late=False, max_cells=3000)
    if r.random() < .3:
        t = t.set_backend("sparse")
    if r.random() < .25:
        t = t.cum_to_incr()
    if r.random() < .2:
        t = t.dev_to_val()
    return t, s


def define(ctx, t0):
    r = ctx.rng
    t, defs = t0.copy(), Defs()
    cols = list(t0.columns)
    for n in range(int(r.choice([1, 1, 2, 3]))):
        f = definition(r, cols)
        defs.put(t, f"v{n}", f)
        if r.random() < .5:
            cols = cols + [f"v{n}"]
    return t, defs


# ---- kinds ---------------------------------------------------------------------
def program(ctx, t0, s):
    r = ctx.rng
    t, defs = define(ctx, t0)
    if not verify(ctx, "defined", t, t0, defs, "as defined"):
        return
    u, u0, trace = t, t0, []
    for k in range(int(r.integers(1, 5))):
        label, f = pick(r, *operations(r, u, u0))
        a, ea = apply(f, u0)
        if ea is not None: ctx.event(f"inapplicable:{label}")
        if ea is not None or not isinstance(a, cl.Triangle):
            continue
        b, eb = apply(f, u)
        trace.append(label)
        ctx.event("steps"); ctx.event(f"op:{label}")
        note = " > ".join(trace)
        if not ctx.check(eb is None, f"program:raise:{label}", f"{note} works without the computed columns and raises {eb!r} with them"):
            return
        before = state(b)
        if not verify(ctx, f"program", b, a, defs, note):
            return
        same_state(ctx, "program:reading", before, state(b), f"{note}: reading changed it")
        u, u0 = b, a
    ctx.note(trace=" > ".join(trace)); ctx.sig = [brief(s), trace, [f[3] for f in defs.d.values()]]
    if not verify(ctx, "program:original", t, t0, defs, f"the triangle that {trace} started from"):
        return


def slices(ctx, t0, s):
    """columns selected, renamed, replaced"""
    r = ctx.rng
    t, defs = define(ctx, t0)
    names = list(t.columns)
    want = {c: (defs.lib(t0, c) if c in defs.d else t0[c]).rename("columns", [c]) for c in names}
    kind = pick(r, "list", "iloc", "loc", "drop", "rename", "single", "cell", "mixed")
    sel = [names[int(k)] for k in sorted(r.permutation(len(names))[: int(r.integers(1, len(names) + 1))])]
    if kind in ("list", "iloc", "drop", "mixed", "loc") and len(sel) == len(names):
        sel = sel[1:]
    pos = [names.index(c) for c in sel]
    if kind == "list":
        u = ctx.call("select", lambda: t[sel])
    elif kind == "drop":
        u = ctx.call("drop", lambda: t.drop([c for c in names if c not in sel]))
    elif kind == "iloc":
        u = ctx.call("iloc", lambda: t.iloc[:, pos])
    elif kind == "loc":
        sel = sel[:1]
        u = ctx.call("loc", lambda: t.loc[..., sel[0], :, :])
    elif kind == "mixed":
        u = ctx.call("iloc", lambda: t.iloc[[0], pos, 1:, :-1] if False else t.iloc[[0]][sel].iloc[..., 1:, :])
        want = {c: x.iloc[[0]].iloc[..., 1:, :] for c, x in want.items()}
    elif kind == "single":
        sel = sel[:1]
        u = ctx.call("iloc1", lambda: t.iloc[:, pos[0]])
    elif kind == "cell":
        c = sel[0]
        i, o, d = [int(r.integers(n)) for n in (t.shape[0], t.shape[2], t.shape[3])]
        v = ctx.call("iat", lambda: t.iat[i, names.index(c), o, d])
        w = dense(want[c].values)[i, 0, o, d]
        ctx.event("reads")
        ctx.check(near(np.nan_to_num(float(v)), np.nan_to_num(w), 1e-9, 1e-12) or c in defs.d and not np.isfinite(w), "slices:cell", f"cell of {c}: {v} instead of {w}")
        ctx.sig = [brief(s), kind, c, i, o, d]
        return
    else:
        used = {x for d in defs.d.values() for x in d[2]}
        new = [f"n{k}" if c not in used else c for k, c in enumerate(names)]
        u = ctx.call("rename", lambda: t.rename("columns", new))
        want = {n: want[c].rename("columns", [n]) for n, c in zip(new, names)}
        sel = new
        w = t.copy()
        w.columns = new
        for c in new:
            ctx.check(close(amounts(w[c].values), amounts(u[c].values), 0, 0), "slices:rename", f"labels assigned and renamed differ for {c}")
    ctx.note(kind=kind, sel=sel); ctx.sig = [brief(s), kind, sel, [f[3] for f in defs.d.values()]]
    ctx.check(list(u.columns) == sel, "slices:columns", f"{kind}: {list(u.columns)} instead of {sel}")
    lost = False
    def lacking(c):
        return c in defs.d and any((x not in sel) or lacking(x) for x in defs.d[c][2])
    for c in sel:
        g = ctx.call("read", lambda: u[c])
        ctx.event("reads")
        if lacking(c):
            lost = True
            ctx.event("frozen")
        x, y = amounts(g.values), amounts(want[c].values)
        if ctx.check(x.shape == y.shape, "slices:shape", f"{kind} {sel}: {c} has shape {x.shape} instead of {y.shape}"):
            ctx.check(close(x, y, 1e-9, 1e-9 * np.abs(y).max(initial=1e-12)), "slices:value", lambda: f"{kind} {sel}: {c} {first_diff(x, y, 1e-9, 0)}")
    # the triangle sliced is as before
    verify(ctx, "slices:original", t, t0, defs, f"after {kind}")
    # what was sliced goes on working
    v = ctx.call("sum", lambda: u.sum("index"))
    for c in sel:
        if not (c in defs.d or kind == "rename") and len(u) > 1:
            ctx.check(close(amounts(v[c].values), amounts(want[c].sum("index").values), 1e-9, 1e-9), "slices:later", f"{c} after {kind} and a sum")


def sources(ctx, t0, s):
    r = ctx.rng
    t, defs = define(ctx, t0)
    t0 = t0.copy()
    other, other0 = t.copy(), t0.copy()
    trace = []
    for k in range(int(r.integers(1, 4))):
        c = pick(r, *list(t0.columns))
        how = pick(r, "column", "scaled", "iloc", "at", "iat", "function", "values")
        if t.array_backend == "sparse" and how in ("iloc", "values"):
            how = "column"
        trace.append(how)
        ctx.event("source_changes")
        n = list(t0.columns).index(c)
        if how == "column":
            x = t0[c] * float(np.round(r.uniform(.5, 2), 2)) + 3
            for y in (t, t0):
                y[c] = x
        elif how == "scaled":
            for y in (t, t0):
                y[c] = y[c] * 1.5
        elif how == "function":
            # a source that turns computed itself
            b = [x for x in t0.columns if x != c][0]
            val = t0[b] * 2
            t[c] = lambda z, b=b: z[b] * 2
            t0[c] = val
            if not verify(ctx, "sources", t, t0, defs, " > ".join(trace)):
                return
            x = t0[c] + 1
            t[c] = x; t0[c] = x
        else:
            i, o = int(r.integers(t.shape[0])), int(r.integers(t.shape[2]))
            obs = np.argwhere(np.nan_to_num(dense(t0.values)[i, n, o]) != 0).ravel()
            if not len(obs):
                continue
            d = int(obs[int(r.integers(len(obs)))])
            val = float(np.round(r.uniform(10, 2000), 1))
            for y in (t, t0):
                if how == "iloc":
                    y.iloc[i, n, o, d] = val
                elif how == "values":
                    y.values[i, n, o, d] = val
                else:
                    y.iat[i, n, o, d] = val
        if not verify(ctx, "sources", t, t0, defs, " > ".join(trace)):
            return
        if not verify(ctx, "sources:copy", other, other0, defs, f"copy made before {' > '.join(trace)}"):
            return
    ctx.note(trace=trace); ctx.sig = [brief(s), trace, [f[3] for f in defs.d.values()]]


DERIVE = [("copy", lambda t: t.copy()), ("deepcopy", lambda t: copy.deepcopy(t)), ("iloc", lambda t: t.iloc[[0]]), ("filter", lambda t: t[t.origin > t.origin[0]]), ("times", lambda t: t * 1), ("sum", lambda t: t.sum("index")),
          ("amounts", lambda t: t.cum_to_incr() if t.is_cumulative else t.incr_to_cum()), ("view", lambda t: t.dev_to_val() if not t.is_val_tri else t.val_to_dev()), ("backend", lambda t: t.set_backend("numpy" if t.array_backend == "sparse" else "sparse")),
          ("same backend", lambda t: t.set_backend(t.array_backend)), ("columns", lambda t: t[list(t.columns)]), ("concat", lambda t: cl.concat([t.iloc[[0]], t.iloc[1:]], 0) if len(t) > 1 else t.copy()), ("rename", lambda t: t.rename("columns", list(t.columns))),
          ("fillna", lambda t: t.fillna(0)), ("same view", lambda t: t.val_to_dev() if not t.is_val_tri else t.dev_to_val()), ("same amounts", lambda t: t.incr_to_cum() if t.is_cumulative else t.cum_to_incr()), ("pickle", repickle), ("head", lambda t: t.head(1)), ("abs", lambda t: abs(t))]


def ownership(ctx, t0, s):
    """two triangles, one made from the other: changes to one leave the other"""
    r = ctx.rng
    t, defs = define(ctx, t0)
    label, f = pick(r, *DERIVE)
    u, u0 = ctx.call("derive", lambda: f(t)), f(t0)
    ctx.event("ownership")
    if not verify(ctx, "own:derived", u, u0, defs, label):
        return
    one, one0, other, other0 = (t, t0.copy(), u, u0) if r.random() < .5 else (u, u0.copy(), t, t0)
    mine = Defs(); mine.d = dict(defs.d)
    trace = []
    for k in range(int(r.integers(1, 4))):
        what = pick(r, "add", "replace", "remove", "concrete", "drop source", "define over")
        have = list(mine.d)
        leaf = [n for n in have if not any(n in d[2] for d in mine.d.values())]
        cols = [c for c in one0.columns]
        if what == "add":
            mine.put(one, f"w{k}", definition(r, cols))
        elif what == "replace" and have:
            n = pick(r, *have)
            mine.put(one, n, definition(r, cols))
        elif what == "remove" and leaf:
            n = pick(r, *leaf)
            one.virtual_columns.pop(n)
            del mine.d[n]
            ctx.check(not np.any(amounts(one[n].values)), "own:removed", f"{label}: {n} is still computed after its definition was removed")
            one = one[[c for c in one.columns if c != n]]
        elif what == "concrete" and leaf:
            n = pick(r, *leaf)
            x = one0[cols[0]] * 3
            one[n] = x
            del mine.d[n]
            ctx.check(close(amounts(one[n].values), amounts(x.values), 0, 0), "own:concrete", f"{label}: {n} was set to amounts and reads otherwise")
            one = one.drop(n)
        elif what == "define over":
            used = {x for d in mine.d.values() for x in d[2]}
            free = [c for c in cols if c not in used and len(cols) > 1]
            if not free:
                continue
            c = pick(r, *free)
            rest = [x for x in cols if x != c]
            if len(rest) < 2:
                continue
            g = definition(r, rest)
            one[c] = g[0]
            one0 = one0[rest]
            mine.d[c] = g
        else:
            continue
        trace.append(what)
        note = f"{label} then {' > '.join(trace)}"
        if not verify(ctx, "own:changed", one, one0, mine, note):
            return
        if not verify(ctx, "own:other", other, other0, defs, f"{note}: the other triangle"):
            return
        ctx.check(sorted(c for c in other.virtual_columns.columns if c in list(other.columns)) == sorted(defs.d), "own:definitions", f"{note}: the other triangle now has {list(other.virtual_columns.columns)}")
    ctx.note(label=label, trace=trace); ctx.sig = [brief(s), label, trace, [f[3] for f in defs.d.values()]]


def outputs(ctx, t0, s):
    """where amounts leave the triangle, a computed column counts as its amounts"""
    r = ctx.rng
    t, defs = define(ctx, t0)
    names = list(t.columns)
    c0 = t0.copy()
    for n in defs.d:
        x = defs.lib(t0, n)
        c0[n] = x
    kind = pick(r, "frame", "frame1", "json", "total", "concat", "concat columns", "group", "mean")
    ctx.event("outputs"); ctx.event(f"out:{kind}")
    ctx.note(kind=kind); ctx.sig = [brief(s), kind, [f[3] for f in defs.d.values()]]
    if kind == "frame":
        a, b = t.to_frame(keepdims=True), c0.to_frame(keepdims=True)
        a, b = a.reset_index(drop=True), b.reset_index(drop=True)
        ctx.check(list(a.columns) == list(b.columns) and a.shape == b.shape, "out:frame", f"{list(a.columns)} {a.shape} instead of {list(b.columns)} {b.shape}")
        for n in names:
            ctx.check(close(np.nan_to_num(a[n].to_numpy(float)), np.nan_to_num(b[n].to_numpy(float)), 1e-12, 0), "out:frame", f"column {n} of the table differs from its amounts")
    elif kind == "frame1":
        n = pick(r, *list(defs.d))
        x = ctx.call("to_frame", lambda: t.iloc[0][n].to_frame(origin_as_datetime=False)); y = c0.iloc[0][n].to_frame(origin_as_datetime=False)
        ctx.check(x.shape == y.shape and close(np.nan_to_num(x.to_numpy(float)), np.nan_to_num(y.to_numpy(float)), 1e-12, 0), "out:frame", f"table of {n} differs")
        z = ctx.call("to_frame", lambda: t.iloc[0, names.index(n)].to_frame(origin_as_datetime=False))
        ctx.check(z.shape == y.shape and close(np.nan_to_num(z.to_numpy(float)), np.nan_to_num(y.to_numpy(float)), 1e-12, 0), "out:frame", f"table of {n} selected by position differs")
    elif kind == "json":
        if not t0.is_cumulative or t0.is_val_tri:
            raise Skip()
        x = ctx.call("json", lambda: cl.read_json(t.to_json()))
        y = t.sort_index()
        c1 = c0.sort_index()
        for n in names:
            ctx.check(close(amounts(x[n].values), amounts(c1[n].values), 1e-6, 1e-6 * np.abs(amounts(c1[n].values)).max(initial=1e-9)), "out:json", f"{n} comes back different from text")
    elif kind in ("total", "mean"):
        f = (lambda x: x.sum("columns")) if kind == "total" else (lambda x: x.mean(1))
        x, y = ctx.call(kind, lambda: f(t)), f(c0)
        ctx.check(x.shape == y.shape and close(amounts(x.values), amounts(y.values), 1e-9, 1e-9 * np.abs(amounts(y.values)).max(initial=1e-9)), "out:total", lambda: f"{kind} over columns: {first_diff(amounts(x.values), amounts(y.values), 1e-9, 0)}")
    elif kind == "concat":
        if len(t) < 2:
            raise Skip()
        x = ctx.call("concat", lambda: cl.concat([t.iloc[[0]], c0.iloc[1:]], 0)); y = cl.concat([c0.iloc[[0]], c0.iloc[1:]], 0)
        for n in names:
            ctx.check(close(amounts(x[n].values), amounts(y[n].values), 1e-12, 0), "out:concat", f"{n} joined with amounts differs")
    elif kind == "concat columns":
        z = (t0[t0.columns[0]] * 2).rename("columns", ["extra"])
        x = ctx.call("concat", lambda: cl.concat([t, z], 1))
        d2 = Defs(); d2.d = dict(defs.d)
        y = cl.concat([t0, z], 1)
        verify(ctx, "out:concat", x, y, d2, "joined with a further column")
        # a column of the same name as a definition that the triangle no longer has
        n = pick(r, *list(defs.d))
        rest = t[list(t0.columns)]
        w = (t0[t0.columns[0]] * 5).rename("columns", [n])
        x = ctx.call("concat", lambda: cl.concat([rest, w], 1))
        ctx.check(close(amounts(x[n].values), amounts(w.values), 1e-12, 0), "out:stale", f"{n} joined as amounts is computed by a definition that was left behind")
    else:
        by = [("x" if k % 2 else "y") for k in range(len(names))]
        x, y = apply(lambda z: z.groupby(by, axis=1).sum(), t), apply(lambda z: z.groupby(by, axis=1).sum(), c0)
        if y[1] is not None:
            raise Skip()
        ctx.check(x[1] is None, "out:group", f"grouping columns raises {x[1]!r}")
        if x[1] is None:
            for n in y[0].columns:
                ctx.check(close(amounts(x[0][n].values), amounts(y[0][n].values), 1e-9, 1e-9), "out:group", f"group {n} of columns differs")
    verify(ctx, "out:original", t, t0, defs, f"after {kind}")


def case(ctx, i):
    t0, s = base(ctx)
    on = ctx.rng.random() < .5
    with auto_sparse(on):
        [program, sources, ownership, slices, outputs, program][i % 6](ctx, t0, s)
