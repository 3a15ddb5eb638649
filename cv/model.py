"""Independent data model: claim tables, labelled snapshots of triangles, and
seeded workload generators.  Nothing here uses the library's own arithmetic."""
import numpy as np, pandas as pd
import chainladder as cl
from cv.errors import Abort, Skip

ULT = 10 ** 6          # month number standing for "ultimate"
MONTHS = {"Y": 12, "S": 6, "Q": 3, "M": 1}
LETTER = {12: "Y", 6: "S", 3: "Q", 1: "M"}


def mnum(ts):
    """month number (months since 1970-01) of a timestamp"""
    return int(np.datetime64(ts, "M").astype(int))


def mstart(m):
    return pd.Timestamp(np.datetime64(int(m), "M"))


def mend(m):
    return (mstart(m + 1) - pd.Timedelta(days=1))


def dense(values):
    if hasattr(values, "todense"):
        values = values.todense()
    return np.array(values, dtype=float)


class Snap:
    """A deep, independent copy of everything observable about a triangle."""

    def __init__(self, t):
        self.key_labels = list(t.key_labels)
        self.kdims = [tuple(x) if isinstance(x, (list, tuple, np.ndarray)) else (x,) for x in np.array(t.kdims, dtype=object).tolist()] if np.ndim(t.kdims) else [(t.kdims,)]
        self.vdims = list(np.array(t.vdims).tolist())
        self.odims = [mnum(x) for x in np.array(t.odims)]
        self.is_val = isinstance(t.ddims, pd.DatetimeIndex)
        if self.is_val:
            self.ddims = [ULT if x.year >= 2261 else mnum(x) for x in t.ddims]
        else:
            self.ddims = [x if isinstance(x, str) else int(x) if float(x) == int(x) else float(x) for x in np.array(t.ddims).tolist()]
        self.arr = dense(t.values)
        self.og, self.dg = t.origin_grain, t.development_grain
        self.vdate = ULT if t.valuation_date.year >= 2261 else mnum(t.valuation_date)
        self.cum = t.is_cumulative
        self.pattern = t.is_pattern
        self.backend = t.array_backend
        self.shape = tuple(t.shape)
        self.close = getattr(t, "origin_close", None)

    def shape_ok(self):
        return self.arr.shape == (len(self.kdims), len(self.vdims), len(self.odims), len(self.ddims))

    def val(self, o, d):
        """valuation month of a cell"""
        if self.is_val:
            return d
        if d == 9999:
            return ULT
        return o + d - 1

    def cells(self, zero_missing=True, by="val"):
        out = {}
        a = self.arr
        for i, k in enumerate(self.kdims):
            for j, v in enumerate(self.vdims):
                for p, o in enumerate(self.odims):
                    for q, d in enumerate(self.ddims):
                        x = a[i, j, p, q]
                        if np.isnan(x) or (zero_missing and x == 0):
                            continue
                        key = (k, v, o, self.val(o, d) if by == "val" else d)
                        if key in out:
                            out[key] = ("dup", out[key], x)
                        else:
                            out[key] = x
        return out

    def meta(self):
        return dict(key_labels=self.key_labels, kdims=self.kdims, vdims=self.vdims, odims=self.odims, ddims=self.ddims,
                    og=self.og, dg=self.dg, vdate=self.vdate, cum=self.cum, pattern=self.pattern)

    def fingerprint(self):
        return (repr(self.meta()), self.arr.shape, self.arr.tobytes())


def latest(t):
    """latest diagonal, or None where the triangle has no cell position at its valuation date (or a single cell)"""
    if not (np.array(t.valuation) == np.datetime64(t.valuation_date)).any():
        return None
    ld = t.latest_diagonal
    return ld if isinstance(ld, cl.Triangle) else None


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
                       | ((a == b) & np.isinf(a))))


def near(a, b, rtol=1e-9, atol=1e-9):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if a is None or b is None:
        return False
    if (np.isnan(a) and np.isnan(b)) or a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def diff_cells(got, exp, rtol=1e-9, atol=1e-6):
    """first differences between two cell dicts (missing == 0)"""
    out = []
    for k in set(got) | set(exp):
        g, e = got.get(k, 0.0), exp.get(k, 0.0)
        if not near(g, e, rtol, atol):
            out.append((k, g, e))
            if len(out) > 5:
                break
    return out


def same_cells(ctx, key, got, exp, rtol=1e-9, atol=1e-6, msg=""):
    d = diff_cells(got, exp, rtol, atol)
    ctx.event("cells_compared", len(set(got) | set(exp)))
    return ctx.check(not d, key, lambda: f"{msg} {len(d)}+ cells differ (cell, got, expected): {d[:3]}", d[:6])


def same_triangle(ctx, key, a, b, rtol=1e-9, atol=1e-6, meta=("kdims", "vdims", "odims", "ddims", "og", "dg", "vdate", "cum", "pattern", "key_labels"), nan_zero=True):
    """two triangles (or snaps) equal in labels, metadata and cells"""
    a = a if isinstance(a, Snap) else Snap(a)
    b = b if isinstance(b, Snap) else Snap(b)
    ma, mb = a.meta(), b.meta()
    for m in meta:
        if not ctx.check(ma[m] == mb[m], f"{key}:{m}", lambda: f"{m}: {str(ma[m])[:160]} != {str(mb[m])[:160]}"):
            return False
    x, y = a.arr, b.arr
    if nan_zero:
        x, y = np.nan_to_num(x, nan=0., posinf=np.inf, neginf=-np.inf), np.nan_to_num(y, nan=0., posinf=np.inf, neginf=-np.inf)
    ctx.event("cells_compared", x.size)
    return ctx.check(close(x, y, rtol, atol), f"{key}:values", lambda: "values differ: " + first_diff(x, y, rtol, atol))


def first_diff(x, y, rtol=1e-9, atol=1e-9):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return f"shape {x.shape} != {y.shape}"
    bad = ~((np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y))))
    idx = np.argwhere(bad)
    if len(idx) == 0:
        return "none"
    i = tuple(idx[0])
    return f"{len(idx)} cells, first at {i}: {x[i]!r} vs {y[i]!r}"


# --------------------------------------------------------------------------
# workload generators
# --------------------------------------------------------------------------
def infer_grain(months):
    """grain implied by a set of calendar months of period dates"""
    m = sorted(set(months))
    if len(m) == 1:
        return 12
    d = set(np.diff(m).tolist())
    if d == {6}:
        return 6
    if d == {3}:
        return 3
    return 1


NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Home", "Auto", "WC"]


class Spec:
    """A claim table: incremental or cumulative amounts per index, column,
    origin period start (month number) and valuation month."""

    def table(self, rng=None, split=True, style="date", shuffle=True, nan_style=True):
        rows = []
        for k in self.members:
            for o in self.origins:
                for v in self.vals:
                    if v < o:
                        continue
                    vals = [self.cells.get((k, c, o, v)) for c in self.columns]
                    if all(x is None for x in vals):
                        continue
                    parts = 1 if rng is None or not split else int(rng.integers(1, 4))
                    left = [0.0 if x is None else x for x in vals]
                    for i in range(parts):
                        if i == parts - 1:
                            amt = left
                        else:
                            amt = [round(float(rng.uniform(-0.5, 1) * x), 2) for x in left]
                            left = [round(l - m, 6) for l, m in zip(left, amt)]
                        row = list(k) + [o, v] + [(np.nan if (nan_style and vals[j] is None) else amt[j]) for j in range(len(amt))]
                        rows.append(row)
        df = pd.DataFrame(rows, columns=self.key_labels + ["_o", "_v"] + self.columns)
        if rng is not None and shuffle:
            df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
        return df

    def encode(self, df, style):
        """adds user style origin / development fields, returns (df, kwargs)"""
        o, v = df.pop("_o"), df.pop("_v")
        kw = {}
        if style == "date":
            df["origin"] = [mstart(x) for x in o]; df["dev"] = [mend(x) for x in v]
        elif style == "datemid":       # any day inside the origin period's first month
            df["origin"] = [mstart(x) + pd.Timedelta(days=int(x * 7 % 27)) for x in o]; df["dev"] = [mend(x) for x in v]
        elif style == "oend":          # origin given by its last day
            df["origin"] = [mend(x + self.og - 1) for x in o]; df["dev"] = [mend(x) for x in v]
        elif style == "str":
            df["origin"] = [mstart(x).strftime("%Y-%m-%d") for x in o]; df["dev"] = [mend(x).strftime("%Y-%m-%d") for x in v]
        elif style == "fmt":
            df["origin"] = [mstart(x).strftime("%d/%m/%Y") for x in o]; df["dev"] = [mend(x).strftime("%m.%d.%y") for x in v]
            kw = dict(origin_format="%d/%m/%Y", development_format="%m.%d.%y")
        elif style == "int":           # yyyymm
            df["origin"] = [int(mstart(x).strftime("%Y%m")) for x in o]; df["dev"] = [int(mstart(x).strftime("%Y%m")) for x in v]
        elif style == "year":
            df["origin"] = [mstart(x).year for x in o]; df["dev"] = [mstart(x).year for x in v]
        elif style == "split":
            df["oy"] = [mstart(x).year for x in o]; df["om"] = [mstart(x).month for x in o]
            df["vy"] = [mstart(x).year for x in v]; df["vm"] = [mstart(x).month for x in v]
            kw = dict(origin=["oy", "om"], development=["vy", "vm"])
        elif style == "period":
            f = {12: "Y", 3: "Q", 1: "M"}
            df["origin"] = pd.PeriodIndex([mstart(x) for x in o], freq="M").to_series().values
            df["dev"] = pd.PeriodIndex([mstart(x) for x in v], freq="M").to_series().values
        kw.setdefault("origin", "origin"); kw.setdefault("development", "dev")
        return df, kw

    def triangle(self, rng=None, style="date", **kw):
        df = self.table(rng)
        df, k2 = self.encode(df, style)
        return cl.Triangle(df, columns=self.columns, index=self.key_labels or None, cumulative=self.cumulative, **k2, **kw)


def gen_spec(rng, og=None, dg=None, cumulative=None, n_o=None, n_key=None, n_cols=None, n_levels=None,
             fill=None, positive=False, fiscal=None, max_cells=1500, late=None, partial=None, multi_key=True, gap_origins=False):
    for _ in range(200):
        og_ = og or int(rng.choice([12, 12, 6, 3, 1]))
        dg_ = dg or int(rng.choice([d for d in (12, 6, 3, 1) if d <= og_]))
        s = Spec()
        s.og, s.dg = og_, dg_
        lo, hi = {12: (2, 8), 6: (3, 8), 3: (4, 11), 1: (4, 14)}[og_]
        s.n_o = n_o or int(rng.integers(lo, hi))
        fisc = (rng.random() < 0.25) if fiscal is None else fiscal
        y0 = int(rng.integers(1988, 2016))
        # calendar offset of the first origin
        if og_ == 12:
            off = int(rng.integers(0, 12)) if fisc else 0
        elif og_ == 6:
            off = (int(rng.integers(0, 6)) if fisc else 0) + 6 * int(rng.integers(0, 2))
        elif og_ == 3:
            off = (int(rng.integers(0, 3)) if fisc else 0) + 3 * int(rng.integers(0, 4))
        else:
            off = int(rng.integers(0, 12))
        s.o0 = (y0 - 1970) * 12 + off
        s.origins = [s.o0 + i * og_ for i in range(s.n_o)]
        # valuation date: end of the last origin period, or partial / later
        steps = s.n_o * og_ // dg_
        r = rng.random()
        if (partial if partial is not None else (r < 0.3)) and og_ > dg_:
            steps -= int(rng.integers(1, og_ // dg_))
        elif late if late is not None else (r > 0.85):
            steps += int(rng.integers(1, 4))
        s.steps = steps
        s.vals = [s.o0 - 1 + dg_ * i for i in range(1, steps + 1)]
        s.vend = s.vals[-1]
        nk = n_key or int(rng.choice([1, 1, 2, 3, 5]))
        lv = n_levels or int(rng.choice([0, 1, 1, 2, 3]) if multi_key else rng.choice([0, 1]))
        if nk > 1 and lv == 0:
            lv = 1
        s.key_labels = ["Company", "LOB", "State"][:lv]
        members = set()
        while len(members) < (nk if lv else 1):
            members.add(tuple(str(rng.choice(NAMES)) + (str(rng.integers(0, 3)) if len(members) > 6 else "") for _ in range(lv)))
        s.members = [m for m in sorted(members, key=lambda m: rng.random())]
        nc = n_cols or int(rng.choice([1, 1, 2, 3]))
        s.columns = [str(c) for c in rng.permutation(["paid", "incurred", "count", "premium"])[:nc]]
        if len(s.members) * nc * s.n_o * steps > max_cells:
            continue
        s.cumulative = bool(rng.random() < 0.6) if cumulative is None else cumulative
        f = fill if fill is not None else float(rng.choice([1.0, 1.0, 0.85, 0.6, 0.3]))
        s.fill = f
        s.cells = {}
        gone = set()
        if gap_origins and s.n_o > 3 and rng.random() < 0.5:
            gone = {int(rng.integers(1, s.n_o - 1))}
        for k in s.members:
            for c in s.columns:
                base = float(np.exp(rng.normal(7, 1)))
                for i, o in enumerate(s.origins):
                    lvl = base * float(np.exp(rng.normal(0, 0.3)))
                    run = 0.0
                    for v in s.vals:
                        if v < o:
                            continue
                        age = (v - o + 1)
                        inc = lvl * (dg_ / og_) * np.exp(-age / og_ * 0.8) * float(rng.gamma(4, 0.25))
                        if not positive and rng.random() < 0.12:
                            inc = -0.5 * inc
                        inc = round(float(inc), 2) or 0.01
                        run = round(run + inc, 2)
                        if i in gone or rng.random() > f:
                            continue
                        s.cells[(k, c, o, v)] = run if s.cumulative else inc
        s.cells = {k: v for k, v in s.cells.items() if v != 0}
        if not s.cells:
            continue
        if s.well_formed():
            return s
    raise Skip()


def _well_formed(s):
    """dates identify the intended grains and extremes unambiguously"""
    cells = s.cells
    om = [x % 12 for x in {c[2] for c in cells}]
    vm = [x % 12 for x in {c[3] for c in cells}]
    os_, vs = sorted({c[2] for c in cells}), sorted({c[3] for c in cells})
    if len(os_) < 2 or len(vs) < 2:
        return False
    if infer_grain(om) != s.og or infer_grain(vm) != s.dg:
        return False
    for k in s.members:
        if not any(c[0] == k for c in cells):
            return False
    for c in s.columns:
        if not any(x[1] == c for x in cells):
            return False
    return True


Spec.well_formed = _well_formed


def expected_axes(s):
    """complete axes implied by the records of a spec"""
    os_ = sorted({c[2] for c in s.cells})
    vs = sorted({c[3] for c in s.cells})
    o_rng = list(range(os_[0], os_[-1] + 1, s.og))
    v_rng = list(range(vs[0], vs[-1] + 1, s.dg))
    ages = sorted({v - o + 1 for o in o_rng for v in v_rng if v >= o})
    odims = list(range(os_[0], vs[-1] + 1, s.og))
    return odims, ages, vs[-1]


def regular(rng, og=12, dg=None, n_o=None, n_key=1, n_cols=1, cumulative=True, n_levels=None, backend=None, fiscal=False, partial=None, late=None, **kw):
    """complete positive triangle: every observable cell present"""
    s = gen_spec(rng, og=og, dg=dg or og, n_o=n_o, n_key=n_key, n_cols=n_cols, cumulative=cumulative, n_levels=n_levels,
                 fill=1.0, positive=True, fiscal=fiscal, partial=partial, late=late, **kw)
    t = s.triangle()
    if backend:
        t = t.set_backend(backend)
    return t, s


SAMPLES = ["abc", "genins", "mw2008", "mw2014", "raa", "ukmotor", "mortgage", "mack_1997", "liab", "auto", "m3ir5", "usauto", "usaa", "mcl", "quarterly", "clrd", "berqsherm", "xyz", "tail_sample", "ia_sample"]
_cache = {}


def sample(name):
    if name not in _cache:
        _cache[name] = cl.load_sample(name)
    return _cache[name].copy()


def brief(s):
    return f"og={s.og} dg={s.dg} n_o={s.n_o} steps={s.steps} keys={len(s.members)}x{len(s.key_labels)} cols={len(s.columns)} cum={s.cumulative} fill={s.fill} o0={mstart(s.o0).date()} vend={mend(s.vend).date()}"


def to_sparse(t):
    """a sparse twin that stays sparse"""
    return t.set_backend("sparse")


class auto_sparse:
    """context: automatic backend conversion on/off"""
    def __init__(self, on):
        self.on = on
    def __enter__(self):
        self.old = cl.options.AUTO_SPARSE
        cl.options.set_option("AUTO_SPARSE", self.on)
    def __exit__(self, *a):
        cl.options.set_option("AUTO_SPARSE", self.old)
