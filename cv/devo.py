"""Development factors from first principles: plain loops over labelled cells."""
from cv.zoo import *
EXP = {"volume": 1, "simple": 2, "regression": 0}


class Settings:
    """random settings of cl.Development with the meaning of each spelled out per age"""

    def __init__(self, rng, t, rich=True):
        J, origins = t.shape[3] - 1, list(t.origin)
        self.J = J
        kw = {}

        def per_age(f, p=.25):
            return [f() for _ in range(J)] if rng.random() < p else f()
        ave = lambda: pick(rng, "volume", "simple", "regression")
        a = per_age(ave)
        self.average = a if isinstance(a, list) else [a] * J
        kw["average"] = a
        r = rng.random()
        if isinstance(a, list) and r < .3:
            d = {k: v for k, v in zip(list(t._get_axis_value(3)), a + ["volume"])}
            kw["average"] = d if r < .15 else (lambda x, d=d: d[x])
        self.n = [-1] * J
        if rng.random() < .5:
            n = per_age(lambda: int(pick(rng, -1, 2, 3, 4, max(2, t.shape[2] - 3))))
            self.n = n if isinstance(n, list) else [n] * J
            kw["n_periods"] = n
        self.drop, self.drop_val = set(), set()
        if rich and rng.random() < .3:
            pos = [(int(rng.integers(t.shape[2])), int(rng.integers(J))) for _ in range(int(rng.integers(1, 4)))]
            v = np.array(t.valuation).reshape(t.shape[2:], order="F")
            pos = [(o, d) for o, d in pos if v[o, d + 1] <= np.datetime64(t.valuation_date)]
        else:
            pos = []
        if pos:
            self.drop = set(pos)
            kw["drop"] = [(str(origins[o]) if t.origin_grain != "Y" else str(origins[o].year), t.ddims[d].item()) for o, d in pos]
            if len(pos) == 1 and rng.random() < .5:
                kw["drop"] = kw["drop"][0]
        self.high, self.low = [0] * J, [0] * J
        if rich and rng.random() < .35:
            f = lambda: pick(rng, 0, 1, 1, 2)
            for nm in ("high", "low"):
                if rng.random() < .7:
                    v = per_age(f)
                    if not isinstance(v, list) and rng.random() < .3:
                        v = True
                    setattr(self, nm, [int(x) for x in v] if isinstance(v, list) else [int(v)] * J)
                    kw["drop_" + nm] = v
        self.above, self.below = [np.inf] * J, [0.0] * J
        if rich and rng.random() < .3:
            if rng.random() < .7:
                v = per_age(lambda: round(float(rng.uniform(1.05, 3)), 3)); self.above = v if isinstance(v, list) else [v] * J; kw["drop_above"] = v
            if rng.random() < .7:
                v = per_age(lambda: round(float(rng.uniform(.9, 1.3)), 3)); self.below = v if isinstance(v, list) else [v] * J; kw["drop_below"] = v
        self.preserve = 1
        if "drop_above" in kw or "drop_below" in kw or "drop_high" in kw or "drop_low" in kw:
            self.preserve = int(pick(rng, 1, 1, 2, 3)); kw["preserve"] = self.preserve
        self.interp = pick(rng, "log-linear", "mack"); kw["sigma_interpolation"] = self.interp
        self.kw = kw

    def drop_valuation(self, rng, t):
        vals = sorted({v for v in t.valuation if v < t.valuation_date})
        o0, og = mnum(t.odims[0]), MONTHS[t.origin_grain]
        vals = [v for v in vals if (mnum(v) - o0 + 1) % og == 0]      # ends of origin periods
        if not vals:
            return
        pk = [vals[int(rng.integers(len(vals)))] for _ in range(int(rng.integers(1, 3)))]
        self.drop_val = {mnum(v) for v in pk}
        f = (lambda v: str(v.year)) if t.origin_grain == "Y" and o0 % 12 == 0 and rng.random() < .6 else (lambda v: str(v.date()))
        self.kw["drop_valuation"] = [f(v) for v in pk] if len(pk) > 1 or rng.random() < .5 else f(pk[0])


def cumulative(t):
    return t.set_backend("numpy").incr_to_cum().val_to_dev()


def selected(a, s, st, n):
    """per age: list of (origin position, x, y) that the settings keep; a is the origin x age array of one segment"""
    og, odims, ddims = MONTHS[s.og], s.odims, s.ddims
    out = []
    for j in range(len(ddims) - 1):
        L = [(i, a[i, j], a[i, j + 1]) for i in range(len(odims)) if not np.isnan(a[i, j]) and not np.isnan(a[i, j + 1]) and a[i, j] != 0 and a[i, j + 1] != 0]
        yv = lambda i: odims[i] + ddims[j + 1] - 1
        xv = lambda i: odims[i] + ddims[j] - 1
        inn = {i for i, x, y in L if n[j] < 0 or n[j] >= len(odims) - 1 or yv(i) > s.vdate - n[j] * og}
        keep = set(inn)
        keep -= {i for i in keep if (i, j) in st.drop or xv(i) in st.drop_val}
        if st.high[j] or st.low[j]:
            R = sorted([l for l in L if l[0] in inn], key=lambda l: (l[2] / l[1], l[1]))
            cnt = len(R)
            if cnt - st.high[j] - st.low[j] >= st.preserve:
                keep &= {l[0] for l in R[st.low[j]:cnt - st.high[j]]}
        if st.above[j] != np.inf or st.below[j] != 0 or any(x != np.inf for x in st.above) or any(x != 0 for x in st.below):
            ok = {i for i, x, y in L if st.below[j] < y / x < st.above[j]}
            if len(ok) >= st.preserve:
                keep &= ok
        out.append([l for l in L if l[0] in keep])
    return out


def regress(links, ave):
    """(factor, sigma or None, standard error or None, sum of w x^2)"""
    if not links:
        return None, None, None, None
    e = EXP[ave]
    w = [abs(x) ** -e if e != 1 else 1 / x for _, x, _ in links]
    d = sum(v * x * x for v, (_, x, _) in zip(w, links))
    f = sum(v * x * y for v, (_, x, y) in zip(w, links)) / d
    if len(links) < 2:
        return f, None, None, d
    sg2 = sum(v * (y - f * x) ** 2 for v, (_, x, y) in zip(w, links)) / (len(links) - 1)
    return f, (np.sqrt(sg2) if sg2 >= 0 else None), (np.sqrt(sg2 / d) if sg2 * d >= 0 else None), d
