"""C36: results do not depend on how threads are scheduled"""
import sys, threading, time, random
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import dask, joblib
from cv.zoo import *
from cv.methods import *

ID = "C36"
CASES = dict(quick=150, thorough=4000)
RULE = "Random triangles (dense and sparse, several segments and columns, different indexes, virtual columns) are worked on (a) by the library's own internal thread pools, replaced by pools of 1, 2, 4 and 8 workers that delay, reorder and preempt tasks at random source lines, (b) by several threads that share one triangle, one fitted model or one fitted pattern and run random sequences of reads, conversions, aggregations and fits, and (c) by GridSearch and VotingChainladder with 1 to 4 joblib threads; every result is compared exactly with the one obtained alone, and the shared objects are compared with their state before."
REQUIRE = {"schedules": 80, "thread_results": 400, "preemptions": 1500, "switches": 150, "joblib_fits": 15, "shared_models": 8}
BUDGET = {"quick": 240, "thorough": 2400}


class Chaos:
    """preempts the running thread at random lines of the library's source"""
    def __init__(self, seed, p=.01):
        self.seed, self.p, self.n, self.trace, self.lock = seed, p, 0, [], threading.Lock()

    def arm(self, k):
        rnd = random.Random(self.seed * 1000 + k)
        me = threading.get_ident()

        def local(frame, event, arg):
            if event == "line" and rnd.random() < self.p:
                self.n += 1
                time.sleep(rnd.random() * 3e-4)
                if len(self.trace) < 20000:
                    self.trace.append(me)
            return local

        def tracer(frame, event, arg):
            return local if "/chainladder/" in frame.f_code.co_filename else None

        sys.settrace(tracer)

    @property
    def switches(self):
        return sum(a != b for a, b in zip(self.trace, self.trace[1:]))


class Pool(ThreadPoolExecutor):
    """a pool that holds tasks back and preempts them, and records who ran what in which order"""
    def __init__(self, n, seed, chaos=None):
        super().__init__(n)
        self._rnd, self._chaos, self.order, self.count = random.Random(seed), chaos, [], 0

    def submit(self, fn, *a, **k):
        self.count += 1
        c, wait = self.count, self._rnd.random() * 2e-3 * (self._rnd.random() < .5)

        def task():
            if self._chaos:
                self._chaos.arm(c)
            try:
                if wait:
                    time.sleep(wait)
                return fn(*a, **k)
            finally:
                sys.settrace(None)
                self.order.append((c, threading.get_ident()))
        return super().submit(task)


class fast_switch:
    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(2e-6)

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)


def capture(fn):
    """frozen result of fn, or the type of what it raised"""
    try:
        return freeze(fn())
    except Exception as e:
        return ("raised", type(e).__name__)


def equal(a, b, rtol=0.0, atol=0.0):
    if a[0] == "raised" or b[0] == "raised":
        return None if a == b else f"{a[:2]} vs {b[:2]}"[:300]
    return same(a, b, rtol, atol)


# ---- (a) the library's own pools ------------------------------------------------
def internal(ctx, i):
    r = ctx.rng
    n_key = int(r.integers(2, 7))
    t, s = regular(r, og=int(r.choice([12, 12, 3])), n_key=n_key, n_levels=int(r.integers(1, 4)), n_cols=int(r.integers(1, 4)), max_cells=3000)
    op = pick(r, "cumulate", "groupby", "groupby", "arith", "arith", "chain")
    vec = pick(r, "sum", "sum", "max", "min", "mean", "std", "cumsum", "first")
    axis = pick(r, 0, 0, 0, 2, 1)
    f = pick(r, "+", "-", "*", "/")
    ctx.note(mode="internal", op=op, vec=vec, axis=axis, f=f, spec=brief(s)); ctx.sig = ["internal", op, vec, axis, f, brief(s)]
    keys = list(t.key_labels)
    by = pick(r, keys[0], keys[:2] if len(keys) > 1 else keys[0], keys)
    import operator
    F = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[f]
    # operands of an addition between different indexes
    keep = sorted(r.permutation(t.shape[0])[:max(1, t.shape[0] - int(r.integers(1, 3)))])
    kind = pick(r, "subset", "coarser", "disjoint")

    def operands(x):
        if kind == "subset":
            return x, x.iloc[[int(k) for k in keep]]
        if kind == "coarser" and len(keys) > 1:
            return x, x.groupby(keys[:1]).sum()
        h = max(1, x.shape[0] // 2)
        return x.iloc[:h], x.iloc[h:]

    def work(backend):
        x = t.set_backend(backend)
        if op == "cumulate":
            return x.cum_to_incr().incr_to_cum()
        if op == "groupby":
            if axis == 0:
                return getattr(x.groupby(by), vec)() if vec != "first" else x.groupby(by).sum()
            if axis == 1:
                return x.sum("columns")
            return x.grain("OYD" + ("Q" if s.dg <= 3 and s.og <= 3 else "Y")) if x.is_cumulative else x.incr_to_cum()
        if op == "arith":
            a, b = operands(x)
            return F(a, b)
        a, b = operands(x)
        return F(a.cum_to_incr(), b.cum_to_incr()).incr_to_cum().groupby(keys[:1]).sum()

    with auto_sparse(False):
        with Pool(1, 0) as p, dask.config.set(pool=p):
            alone = capture(lambda: work("sparse"))
        plain = capture(lambda: work("numpy"))
        if alone[0] != "raised" and plain[0] != "raised":
            e = equal(plain, alone, 1e-9, 1e-9)
            ctx.check(e is None, f"backends:{op}", f"{op} {vec} {f} {kind}: dense and sparse: {e}")
        else:
            ctx.check(alone[0] == plain[0] == "raised", f"backends:{op}", f"{op} {vec} {f} {kind}: dense {plain[:2]} and sparse {alone[:2]}"[:300])
        shared = {b: t.set_backend(b) for b in ("sparse",)}
        before = state(shared["sparse"])
        for n in (2, 4, 8):
            for rep in range(2):
                chaos = Chaos(int(r.integers(1 << 30)), .04) if rep or n == 2 else None
                with fast_switch(), Pool(n, int(r.integers(1 << 30)), chaos) as p, dask.config.set(pool=p):
                    got = capture(lambda: work("sparse"))
                ctx.event("schedules")
                ctx.event("pool_tasks", p.count)
                ctx.event("reordered", int([c for c, _ in p.order] != sorted(c for c, _ in p.order)))
                if chaos:
                    ctx.event("preemptions", chaos.n)
                    ctx.event("switches", chaos.switches)
                e = equal(alone, got)
                ctx.check(e is None, f"internal:{op}", f"{op} {vec} {f} {kind} with {n} workers: {e}")
        same_state(ctx, "internal:unchanged", before, state(shared["sparse"]), "triangle after threaded work")


# ---- (b) threads that share objects ----------------------------------------------
def reads(r, t, s, c):
    """named operations on a shared triangle; none of them is meant to change it"""
    o = int(r.integers(t.shape[2]))
    v = pick(r, *list(t.columns))
    lab = t.key_labels[0]
    ops = {
        "sum": lambda x: x.sum(), "sum_origin": lambda x: x.sum("origin"), "groupby": lambda x: x.groupby(lab).sum(),
        "mean": lambda x: x.mean(0), "std": lambda x: x.std(2), "latest": lambda x: x.latest_diagonal,
        "incr": lambda x: x.cum_to_incr(), "cum": lambda x: x.incr_to_cum(), "val": lambda x: x.dev_to_val(),
        "back": lambda x: x.dev_to_val().val_to_dev(), "links": lambda x: x.incr_to_cum().val_to_dev().link_ratio,
        "grain": lambda x: x.incr_to_cum().grain("OYDY"), "column": lambda x: x[v], "origin": lambda x: x.iloc[..., o, :],
        "before": lambda x: x[x.valuation < x.valuation_date], "frame": lambda x: x.to_frame() if x.shape[:2] == (1, 1) else x.iloc[0, 0].to_frame(),
        "keys": lambda x: x.index, "json": lambda x: cl.read_json(x.to_json()), "sparse": lambda x: x.set_backend("sparse"),
        "dense": lambda x: x.set_backend("numpy"), "copy": lambda x: x.copy(), "plus": lambda x: x + x, "ratio": lambda x: x / x.latest_diagonal,
        "times": lambda x: x * 1.5, "trend": lambda x: x.trend(.03), "valuation": lambda x: pd.Series(x.valuation.astype(str)),
        "long": lambda x: x.to_frame(keepdims=True), "loc": lambda x: x.loc[..., -1, :], "reindex": lambda x: x.sort_index(),
        "append": lambda x: x.append(x), "rename": lambda x: x.rename("columns", ["q%d" % k for k in range(x.shape[1])]),
        "shift": lambda x: x.shift(1), "drop_zero": lambda x: x.dropna(), "heads": lambda x: x.head(1), "nan": lambda x: x.nan_triangle if hasattr(x.nan_triangle, "shape") else None,
        "text": lambda x: str(x), "html": lambda x: x._repr_html_(), "assign": lambda x: x.rename("columns", list(x.columns)),
        "minmax": lambda x: x.max(0) - x.min(0), "power": lambda x: x ** 2, "eq": lambda x: x == x.copy(), "len": lambda x: len(x),
        "expo": lambda x: x.exp() if False else abs(x), "dates": lambda x: [str(x.valuation_date), str(x.origin_grain), str(x.development_grain)],
    }
    if c:
        ops.update({
            "fit": lambda x: cl.Development().fit(x).ldf_, "fit_sp": lambda x: cl.Development(average="simple", n_periods=3).fit(x).cdf_,
            "cl": lambda x: cl.Chainladder().fit(x).ultimate_, "mack": lambda x: cl.MackChainladder().fit(x).full_std_err_,
            "tail": lambda x: cl.TailCurve().fit(x).cdf_, "capecod": lambda x: cl.CapeCod().fit(x, sample_weight=x.latest_diagonal * 1.3).ultimate_,
            "pipe": lambda x: cl.Pipeline([("d", cl.Development()), ("t", cl.TailConstant(1.05)), ("m", cl.Chainladder())]).fit(x).named_steps["m"].ibnr_,
            "boot": lambda x: cl.BootstrapODPSample(n_sims=4, random_state=7).fit_transform(x).sum(2),
            "incradd": lambda x: cl.IncrementalAdditive().fit(x, sample_weight=x.latest_diagonal * 1.3).incremental_,
            "full": lambda x: cl.Chainladder().fit(x).full_triangle_, "clark": lambda x: cl.ClarkLDF().fit(x).ldf_,
        })
    return ops


def storm(ctx, jobs, shared, key, msg):
    """run jobs (name, fn) on threads; compare with results obtained alone"""
    r = ctx.rng
    expected = {n: capture(lambda: f(shared())) for n, f in {n: f for q in jobs for n, f in q}.items()}
    for n in [n for n, e in expected.items() if e[0] == "raised"]:
        ctx.event("raised_alone")
    obj = shared()
    befores = [state(x) if isinstance(x, cl.Triangle) else freeze_est(x) for x in (obj if isinstance(obj, tuple) else (obj,))]
    barrier, found = threading.Barrier(len(jobs)), []
    chaos = Chaos(int(r.integers(1 << 30)), .004) if r.random() < .8 else None

    def worker(k, seq):
        out = []
        barrier.wait()
        if chaos:
            chaos.arm(k)
        try:
            for n, f in seq:
                out.append((n, capture(lambda: f(obj))))
        finally:
            sys.settrace(None)
        found.append((k, out))

    ts = [threading.Thread(target=worker, args=(k, seq), daemon=True) for k, seq in enumerate(jobs)]
    with fast_switch():
        [x.start() for x in ts]
        [x.join(120) for x in ts]
    if not ctx.check(len(found) == len(jobs), f"{key}:finish", f"{msg}: {len(jobs) - len(found)} threads did not finish"):
        return
    ctx.event("storms")
    if chaos:
        ctx.event("preemptions", chaos.n)
        ctx.event("switches", chaos.switches)
    for k, out in found:
        for n, got in out:
            ctx.event("thread_results")
            e = equal(expected[n], got)
            ctx.check(e is None, f"{key}:{n}", f"{msg}: {n} on thread {k} of {len(jobs)} next to {sorted(set(m for q in jobs for m, _ in q))}: {e}"[:600])
    for x, b in zip(obj if isinstance(obj, tuple) else (obj,), befores):
        if isinstance(x, cl.Triangle):
            same_state(ctx, f"{key}:unchanged", b, state(x), f"{msg}: the shared triangle")
        else:
            e = same(b, freeze_est(x))
            ctx.check(e is None, f"{key}:unchanged", f"{msg}: the shared estimator {e}")


def freeze_est(m):
    return ("dict", {k: freeze(v) for k, v in vars(m).items()})


def sequences(r, ops, n, length):
    names = list(ops)
    some = [names[int(k)] for k in r.permutation(len(names))[:int(r.integers(2, 7))]]
    return [[(m, ops[m]) for m in (some[int(r.integers(len(some)))] for _ in range(length))] for _ in range(n)]


def readers(ctx, i):
    r = ctx.rng
    fits = r.random() < .5
    if fits:
        t, _, s = data(r, n_key=int(r.integers(1, 4)), max_cells=2000)
    else:
        t, s = regular(r, og=int(r.choice([12, 12, 3, 6])), n_key=int(r.integers(1, 5)), n_levels=int(r.integers(1, 3)), n_cols=int(r.integers(1, 4)), max_cells=2000)
    backend = pick(r, "numpy", "numpy", "sparse")
    form = pick(r, "as is", "as is", "incr", "val", "virtual", "pattern") if not fits else pick(r, "as is", "as is", "incr", "pattern")
    with auto_sparse(backend == "numpy"):
        t = t.set_backend(backend)
        if form == "incr":
            t = t.cum_to_incr()
        if form == "val":
            t = t.dev_to_val()
        if form == "virtual":
            name = list(t.columns)[0]
            t["virt"] = lambda x, name=name: x[name] * 1.1
        if form == "pattern":
            base = t
            t = cl.Development().fit_transform(t.set_backend("numpy"))
            t = t.set_backend(backend)
        n = int(r.choice([2, 3, 4, 6]))
        jobs = sequences(r, reads(r, t, s, fits), n, int(r.integers(2, 6)))
        ctx.note(mode="readers", form=form, backend=backend, fits=fits, threads=n, spec=brief(s)); ctx.sig = ["readers", form, backend, fits, n, brief(s), sorted(set(m for q in jobs for m, _ in q))]
        keep = t.copy()
        fresh = lambda: t
        storm(ctx, jobs, fresh, "readers", f"{form} {backend} {'fits' if fits else 'reads'}")


def models(ctx, i):
    """one fitted estimator used by several threads"""
    r = ctx.rng
    t, sw, s = data(r, n_key=int(r.integers(1, 3)), n_cols=1, max_cells=1500)
    X = patterned(r, t) if r.random() < .6 else t
    if isinstance(X, tuple):
        X = X[0]
    kind = pick(r, "Chainladder", "MackChainladder", "BornhuetterFerguson", "CapeCod", "Benktander", "Development", "TailCurve", "Pipeline")
    if kind == "MackChainladder" and X is not t:
        X = t
    ctx.note(mode="models", kind=kind, spec=brief(s)); ctx.sig = ["models", kind, brief(s)]
    needs = kind in ("BornhuetterFerguson", "CapeCod", "Benktander")
    if kind == "Pipeline":
        m = ctx.call("fit", cl.Pipeline([("d", cl.Development()), ("t", cl.TailCurve()), ("m", cl.Chainladder())]).fit, t)
    else:
        m = ctx.call("fit", fit, getattr(cl, kind)(), X if kind not in ("Development", "TailCurve") else t, sw if needs else None)
    others = [t * float(round(r.uniform(.5, 2), 3)) for _ in range(3)] + [t]
    if kind in ("Development", "TailCurve"):
        ops = {f"transform{k}": (lambda y: lambda x: x[0].transform(y).cdf_)(y) for k, y in enumerate(others)}
        ops["ldf"] = lambda x: x[0].ldf_
        ops["cdf"] = lambda x: x[0].cdf_
        ops["ult"] = lambda x: cl.Chainladder().fit(x[0].transform(others[0])).ultimate_
    else:
        w = sw if needs else None
        ops = {f"predict{k}": (lambda y: lambda x: (x[0].predict(y) if w is None else x[0].predict(y, sample_weight=w)).ultimate_)(y) for k, y in enumerate(others)}
        tip = (lambda m: m.named_steps["m"]) if kind == "Pipeline" else (lambda m: m)
        ops["ult"] = lambda x: tip(x[0]).ultimate_
        ops["ibnr"] = lambda x: tip(x[0]).ibnr_
        ops["full"] = lambda x: tip(x[0]).full_triangle_
        ops["expect"] = lambda x: tip(x[0]).full_expectation_
        ops["ldf"] = lambda x: tip(x[0]).ldf_
        ops["cdf"] = lambda x: tip(x[0]).X_.cdf_
        if kind == "MackChainladder":
            ops["risk"] = lambda x: x[0].mack_std_err_
            ops["summary"] = lambda x: x[0].summary_
    ctx.event("shared_models")
    jobs = sequences(r, ops, int(r.choice([2, 3, 4])), int(r.integers(2, 5)))
    storm(ctx, jobs, lambda: (m, t), "models", kind)


# ---- (c) joblib ---------------------------------------------------------------------
def parallel(ctx, i):
    r = ctx.rng
    t, sw, s = data(r, n_key=int(r.integers(1, 3)), n_cols=1, max_cells=1500)
    backend = pick(r, "numpy", "numpy", "sparse")
    t = t.set_backend(backend)
    which = pick(r, "grid", "vote")
    ctx.note(mode="joblib", which=which, spec=brief(s)); ctx.sig = ["joblib", which, backend, brief(s)]
    before, wbefore = state(t), state(sw)
    if which == "grid":
        pipe = lambda: cl.Pipeline([("dev", cl.Development()), ("tail", cl.TailCurve()), ("m", cl.Benktander())])
        grid = dict(dev__average=["volume", "simple"], dev__n_periods=[-1, 3], m__n_iters=[1, 2, 4], m__apriori=[.7, 1.0])
        for k in list(grid):
            if r.random() < .4:
                grid[k] = grid[k][:1]
        scoring = dict(ibnr=lambda x: float(np.nansum(dense(x.named_steps["m"].ibnr_.set_backend("numpy").values))),
                       f0=lambda x: float(dense(x.named_steps["dev"].ldf_.set_backend("numpy").values).ravel()[0]))

        def work(n):
            return freeze(cl.GridSearch(pipe(), grid, scoring=scoring, n_jobs=n).fit(t, sample_weight=sw).results_)
    else:
        weights = [list(map(float, np.round(r.dirichlet(np.ones(4)), 3))) for _ in range(t.shape[2])]

        def work(n):
            ests = [("bf", cl.BornhuetterFerguson(apriori=.8)), ("cc", cl.CapeCod(decay=.8)), ("cl", cl.Chainladder()), ("bk", cl.Benktander(n_iters=3))]
            v = cl.VotingChainladder(ests, weights=weights, n_jobs=n).fit(t, sample_weight=sw)
            return ("dict", dict(ult=freeze(v.ultimate_), ibnr=freeze(v.ibnr_), parts=("list", [freeze(e.ultimate_) for e in v.estimators_]), names=freeze(list(v.named_estimators_)), 
                                 predict=freeze(v.predict(t, sample_weight=sw).ultimate_)))
    alone = ctx.call(which, work, None)
    for n in (1, 2, 4):
        chaos = Chaos(int(r.integers(1 << 30)), .003)
        old = threading._trace_hook if hasattr(threading, "_trace_hook") else None
        count = [0]

        def tracer(frame, event, arg):
            count[0] += 1
            chaos.arm(count[0])
            return None
        threading.settrace(tracer)
        try:
            with fast_switch(), joblib.parallel_backend("threading"):
                got = ctx.call(f"{which}:{n}", work, n)
        finally:
            threading.settrace(old)
            sys.settrace(None)
        ctx.event("joblib_fits")
        ctx.event("preemptions", chaos.n)
        ctx.event("switches", chaos.switches)
        e = equal(alone, got)
        ctx.check(e is None, f"joblib:{which}", f"{which} with {n} threads: {e}")
    same_state(ctx, "joblib:unchanged", before, state(t), "triangle after a parallel fit")
    same_state(ctx, "joblib:unchanged", wbefore, state(sw), "exposure after a parallel fit")


def case(ctx, i):
    k = i % 8
    if k in (0, 4):
        return internal(ctx, i)
    if k == 7:
        return parallel(ctx, i)
    if k == 3:
        return models(ctx, i)
    return readers(ctx, i)
