from cv.zoo import *
from cv.props.c09 import ops
import copy
ID = "C11"
CASES = dict(quick=330, thorough=7000)
RULE = "random operations, fits, predictions and constructors called while monitors hold deep snapshots of every argument; results are then edited through every public setter and the source re-read; in-place calls compared with out-of-place ones; distinct by operation, storage and table shape"
REQUIRE = {"chk:op_input": 120, "chk:edit_result": 200, "chk:inplace": 60, "chk:fit_input": 60, "chk:args": 60}


def workload(rng):
    s = gen_spec(rng, max_cells=400)
    t = s.triangle()
    if rng.random() < .25:
        t = t.dev_to_val()
    if rng.random() < .35:
        t = t.set_backend("sparse")
    if rng.random() < .2 and t.shape[1] > 1:
        a, b = t.columns[:2]
        t["virtual"] = lambda x: x[a] + x[b]
    return t, s


def edits(rng, r):
    """public ways of changing a triangle"""
    L = []
    w = tuple(int(rng.integers(n)) for n in r.shape)
    L.append(("iat", lambda: r.iat.__setitem__(w, 123456.5)))
    L.append(("at", lambda: r.at.__setitem__(tuple([r.index.iloc[w[0]].tolist()[0] if len(r.key_labels) == 1 else w[0], r.columns[w[1]], r.origin[w[2]] if not r.is_pattern else w[2], r.development.iloc[w[3]]]), 7654321.5)))
    L.append(("iloc", lambda: r.iloc.__setitem__((slice(None), slice(None), slice(w[2], w[2] + 1), slice(w[3], w[3] + 1)), 98765.5)))
    L.append(("setcol", lambda: r.__setitem__(r.columns[w[1]], r.iloc[:, w[1]] * 3 + 5)))
    L.append(("newcol", lambda: r.__setitem__("brand new", r.iloc[:, w[1]] * 2)))
    L.append(("virtcol", lambda: r.__setitem__("brand virtual", lambda x: x[x.columns[0]] * 2)))
    L.append(("virtover", lambda: r.__setitem__(r.columns[w[1]], lambda x: x[x.columns[0]] * 2)))
    L.append(("columns", lambda: setattr(r, "columns", [f"c{i}" for i in range(r.shape[1])])))
    L.append(("index", lambda: setattr(r, "index", pd.DataFrame({"new key": [f"m{i}" for i in range(len(r))]}))))
    L.append(("cum_inplace", lambda: r.incr_to_cum(inplace=True)))
    L.append(("incr_inplace", lambda: r.cum_to_incr(inplace=True)))
    L.append(("val_inplace", lambda: r.dev_to_val(inplace=True)))
    L.append(("dev_inplace", lambda: r.val_to_dev(inplace=True)))
    L.append(("grain_inplace", lambda: r.grain("OYDY", inplace=True)))
    L.append(("backend_inplace", lambda: r.set_backend("numpy" if r.array_backend == "sparse" else "sparse", inplace=True)))
    L.append(("fillna_inplace", lambda: r.fillna(3.25, inplace=True)))
    L.append(("values", lambda: r.values.__setitem__(Ellipsis, 5.0) if r.array_backend == "numpy" else r.values.data.__setitem__(Ellipsis, 5.0)))
    L.append(("valuation_date", lambda: setattr(r, "valuation_date", pd.Timestamp("2050-12-31"))))
    k = int(rng.integers(2, 5))
    return [L[int(i)] for i in rng.permutation(len(L))[:k]]


EXTRA = [
    ("copy", lambda t: t.copy()), ("to_frame", lambda t: t.to_frame(keepdims=True)), ("to_json", lambda t: t.to_json()), ("full_iloc", lambda t: t.iloc[:]),
    ("col", lambda t: t[t.columns[0]]), ("cols", lambda t: t[list(t.columns)]), ("iloc0", lambda t: t.iloc[0]), ("ilocO", lambda t: t.iloc[..., :2, :]), ("loc", lambda t: t.loc[..., t.development.iloc[0]:]),
    ("set_backend_np", lambda t: t.set_backend("numpy")), ("set_backend_sp", lambda t: t.set_backend("sparse")), ("deep", lambda t: t.set_backend("sparse" if t.array_backend == "numpy" else "numpy", deep=True)),
    ("rename_c", lambda t: t.rename("columns", [f"n{i}" for i in range(t.shape[1])])), ("head", lambda t: t.head()), ("tail", lambda t: t.tail()),
    ("set_index", lambda t: t.set_index(pd.DataFrame({"q": list(range(len(t)))}))), ("append", lambda t: t.append(t)), ("append_set", lambda t: t.append(t.set_index(pd.DataFrame({k: [f"x{i}" for i in range(len(t))] for k in t.key_labels})))),
    ("dc", lambda t: t.development_correlation()), ("vc", lambda t: t.valuation_correlation()), ("link", lambda t: t.link_ratio), ("age", lambda t: t.age_to_age),
    ("T", lambda t: t.iloc[0, 0].T), ("agg", lambda t: t.agg({c: "sum" for c in t.columns}, axis=0)), ("pipe", lambda t: t.pipe(lambda x: x + 1)),
    ("concat1", lambda t: cl.concat([t], 0)), ("concat2", lambda t: cl.concat((t, t.rename("columns", [f"{c}_" for c in t.columns])), 1)), ("sumself", lambda t: sum([t])), ("pos", lambda t: +t),
    ("abs", lambda t: abs(t)), ("np", lambda t: np.array(t)), ("npexp", lambda t: np.sqrt(t)), ("drop", lambda t: t.drop(t.columns[0])), ("val", lambda t: t.valuation), ("shape", lambda t: (t.shape, t.index, t.columns, t.origin, t.development, t.nan_triangle)),
    ("repr", lambda t: (repr(t), t._repr_html_())), ("eq", lambda t: t == t), ("in", lambda t: t.columns[0] in t), ("broadcast", lambda t: t.iloc[0].broadcast_axis("index", t.index)), ("mult_frame", lambda t: t.iloc[0, 0] * t.iloc[0, 0].to_frame().fillna(0).values[None, None]),
    ("index_prop", lambda t: t.index.__setitem__(t.key_labels[0], "zzz")), ("frame_edit", lambda t: t.to_frame(keepdims=True).__setitem__("new", 1)),
]


def case(ctx, i):
    rng = ctx.rng
    r = rng.random()
    with auto_sparse(bool(rng.random() < .6)):
        if r < .5:
            operation(ctx, rng)
        elif r < .65:
            inplace(ctx, rng)
        elif r < .85:
            estimator(ctx, rng)
        else:
            arguments(ctx, rng)


def operation(ctx, rng):
    t, s = workload(rng)
    if rng.random() < .25 and t.is_cumulative and not t.is_val_tri and s.fill == 1.0:
        try:
            t = cl.Development().fit_transform(t); ctx.event("fitted_input")
        except Exception:
            pass
    name, fn = ops(rng, t) if rng.random() < .5 else EXTRA[int(rng.integers(len(EXTRA)))]
    ctx.note(spec=brief(s), op=name, backend=t.array_backend); ctx.sig = [brief(s), name, t.array_backend]
    before = state(t)
    try:
        res = fn(t)
        ctx.event("op:" + name)
    except Exception as e:
        res = None; ctx.event("rejected")
    if not same_state(ctx, "op_input", before, state(t), f"{name} changed its input"):
        return
    if isinstance(res, cl.Triangle):
        done = []
        for en, ed in edits(rng, res):
            try:
                ed(); done.append(en); ctx.event("edit:" + en)
            except Exception:
                ctx.event("edit_rejected"); continue
            if not same_state(ctx, "edit_result", before, state(t), f"editing ({' '.join(done)}) the result of {name} changed the source"):
                return
    # and the other way: editing the source leaves an earlier result alone
    try:
        r2 = fn(t)
    except Exception:
        return
    if isinstance(r2, cl.Triangle) and r2 is not t:
        b2 = state(r2)
        for en, ed in edits(rng, t):
            if en in ("valuation_date",):
                continue
            try:
                ed()
            except Exception:
                continue
            if not same_state(ctx, "edit_source", b2, state(r2), f"editing ({en}) the source changed an earlier result of {name}"):
                return


def inplace(ctx, rng):
    t, s = workload(rng)
    g = pick(rng, "OYDY", "OYDQ", "OSDS", "OQDQ", "OYDM")
    name, f, args = pick(rng, ("incr_to_cum", None, {}), ("cum_to_incr", None, {}), ("dev_to_val", None, {}), ("val_to_dev", None, {}), ("grain", None, dict(grain=g)),
                         ("set_backend", None, dict(backend=pick(rng, "numpy", "sparse"))), ("fillna", None, dict(value=2.5)), ("set_index", None, dict(value=pd.DataFrame({"q": [f"k{v}" for v in range(len(t))]}))))
    ctx.note(spec=brief(s), inplace=name); ctx.sig = ["inplace", brief(s), name, str(args)[:20]]
    a = t.copy()
    try:
        want = getattr(a, name)(**args)
    except Exception as e:
        ctx.event("rejected"); return
    b = t.copy()
    got = getattr(b, name)(inplace=True, **args)
    ctx.check(got is None or got is b or isinstance(got, cl.Triangle), "inplace", f"{name} returned {type(got)}")
    x, y = state(want), state(b)
    same_state(ctx, "inplace", {k: x[k] for k in ("self", "backend", "virtual")}, {k: y[k] for k in ("self", "backend", "virtual")}, f"{name}({args}) in place differs")
    # the object works after the change
    u, v = (b + 1), (want + 1)
    same_triangle(ctx, "inplace", u, v)
    same_triangle(ctx, "inplace", b.iloc[0], want.iloc[0])
    if b.virtual_columns.columns and want.shape[1] > 1:
        c = list(b.virtual_columns.columns)[0]
        same_triangle(ctx, "inplace", b[c], want[c])
    same_state(ctx, "inplace_source", state(t), state(t.copy()), "copy differs")


def estimator(ctx, rng):
    name = list(ZOO)[int(rng.integers(len(ZOO)))]
    if ZOO[name].get("slow") and rng.random() < .6:
        name = "Development"
    est, X, sw, s = build(rng, name)
    if rng.random() < .3 and ZOO[name].get("data") is None and not ZOO[name].get("slow"):
        X = X.set_backend("sparse")
    pre = ZOO[name]["kind"] in ("tail", "method") and rng.random() < .6
    if pre:
        X = development(rng).fit_transform(X)
    ctx.note(spec=brief(s), est=name, backend=X.array_backend); ctx.sig = ["fit", name, brief(s), X.array_backend]
    bx, bs, bp = state(X), (state(sw) if sw is not None else None), freeze(est.get_params(deep=False))
    prm = est.get_params(deep=False)

    def still(what, fitted=None):
        same_state(ctx, "fit_input", bx, state(X), f"{name}.{what} changed X")
        if sw is not None:
            same_state(ctx, "fit_input", bs, state(sw), f"{name}.{what} changed sample_weight")
        r = same(bp, freeze(est.get_params(deep=False)))
        ctx.check(r is None, "fit_input", f"{name}.{what} changed the settings: {r}")
        for k, v in est.get_params(deep=False).items():
            ctx.check(v is prm[k] or same(freeze(v), freeze(prm[k])) is None, "fit_input", f"{name}.{what} replaced setting {k}")
        if fitted is not None:
            same_results(ctx, "fit_input", fitted, results(est), 0.0, f"{name}.{what} changed the fitted results", 0.0)
    fit(est, X, sw)
    still("fit")
    res = results(est)
    still("reading results", res)
    outs = []
    for what in ("transform", "predict"):
        if hasattr(est, what):
            try:
                o = getattr(est, what)(X) if sw is None or what == "transform" else est.predict(X, sample_weight=sw)
            except Exception as e:
                ctx.event("rejected"); continue
            ctx.event("est:" + what)
            still(what, res)
            outs.append((what, o))
    for what, o in outs:
        if isinstance(o, cl.Triangle):
            for en, ed in edits(rng, o):
                try:
                    ed()
                except Exception:
                    continue
                same_state(ctx, "edit_result", bx, state(X), f"editing ({en}) the result of {name}.{what} changed X")
                same_results(ctx, "edit_result", res, results(est), 0.0, f"editing ({en}) the result of {name}.{what} changed the estimator", 0.0)


def arguments(ctx, rng):
    """lists, dictionaries, tables and estimators handed to the library"""
    t, sw, s = data(rng, og=12, n_key=int(rng.integers(1, 4)), n_cols=1)
    n, k = t.shape[2], [str(y.year) for y in t.origin]
    which = int(rng.integers(9))
    ctx.note(spec=brief(s), args=which); ctx.sig = ["args", which, brief(s)]
    if which == 0:
        drop = [(k[0], int(t.ddims[0])), (k[1], int(t.ddims[1]))]; np_ = [3] * (t.shape[3] - 1); hi = [True] + [False] * (t.shape[3] - 2); av = ["volume", "simple"] * t.shape[3]; av = av[:t.shape[3] - 1]; dv = [str(t.valuation_date.year - 1)]
        a = [drop, np_, hi, av, dv]; f = lambda: cl.Development(drop=drop, n_periods=np_, drop_high=hi, average=av, drop_valuation=dv).fit(t).transform(t)
    elif which == 1:
        pat = {int(v): 1.5 for v in t.ddims}; a = [pat]; f = lambda: cl.DevelopmentConstant(patterns=pat, style=pick(rng, "ldf", "cdf")).fit(t).transform(t)
    elif which == 2:
        rh = rate_history(rng, s.o0 // 12 + 1970, s.o0 // 12 + 1970 + n); a = [rh]; f = lambda: cl.ParallelogramOLF(rh, change_col="change", date_col="date").fit(t).transform(t)
    elif which == 3:
        tr, dt = [.02, .05], [(str(t.valuation_date.date()), "2000-12-31"), ("2000-12-31", "1980-01-01")]; a = [tr, dt]; f = lambda: cl.Trend(trends=tr, dates=dt).fit(t).transform(t)
    elif which == 4:
        ests = [("cl", cl.Chainladder()), ("bf", cl.BornhuetterFerguson(apriori=.8))]
        w = np.round(rng.uniform(.2, 2, (t.shape[0], t.shape[1], n, 2)), 2) if rng.random() < .5 else (1.0, 3.0); a = [ests, w]
        f = lambda: cl.VotingChainladder(estimators=ests, weights=w if not isinstance(w, tuple) else None, default_weighting=w if isinstance(w, tuple) else None).fit(t, sample_weight=sw).predict(t, sample_weight=sw)
    elif which == 5:
        grid = dict(model__apriori=[.6, .9], dev__n_periods=[-1, 3]); pipe = cl.Pipeline([("dev", cl.Development()), ("model", cl.BornhuetterFerguson())]); sc = {"ibnr": lambda e: e.named_steps.model.ibnr_.sum()}
        a = [grid, pipe, sc]; f = lambda: cl.GridSearch(pipe, grid, scoring=sc).fit(t, sample_weight=sw).results_ if len(t) == 1 else None
    elif which == 6:
        lst = [t, t.rename("columns", ["b"])]; a = [lst]; f = lambda: cl.concat(lst, 1)
    elif which == 7:
        steps = [("dev", cl.Development(n_periods=4)), ("tail", cl.TailConstant(1.1)), ("cc", cl.CapeCod())]; a = [steps]; f = lambda: cl.Pipeline(steps).fit(t, sample_weight=sw).predict(t, sample_weight=sw)
    else:
        df = s.table(rng); df, kw = s.encode(df, pick(rng, "date", "str", "split", "year" if s.dg == 12 else "date")); cols, idx = list(s.columns), list(s.key_labels); o, d = kw.get("origin"), kw.get("development")
        a = [df, cols, idx, o, d]; f = lambda: cl.Triangle(df, origin=o, development=d, columns=cols, index=idx or None, cumulative=s.cumulative)
    before = [freeze(x) for x in a]
    bt, bw = state(t), state(sw)
    ids = [id(x) for x in a]
    f()
    ctx.event(f"args{which}")
    for num, (u, v) in enumerate(zip(before, a)):
        r = same(u, freeze(v))
        ctx.check(r is None, "args", f"argument {num} of call {which} changed: {r}")
    if which in (4, 7):      # estimators given are not fitted
        for nm, e in (a[0]):
            ctx.check(not [x for x in vars(e) if x.endswith("_")] or which == 7, "args", f"member {nm} was fitted")
    if which == 5:
        ctx.check(not [x for st in a[1].steps for x in vars(st[1]) if x.endswith("_")], "args", "grid search fitted the estimator it was given")
    same_state(ctx, "args", bt, state(t), f"call {which} changed the triangle")
    same_state(ctx, "args", bw, state(sw), f"call {which} changed the exposure")
