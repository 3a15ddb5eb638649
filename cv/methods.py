"""Reserving methods from first principles, on labelled cells."""
from cv.zoo import *


class Pat:
    """age-to-age and age-to-ultimate factors of a fitted triangle, by segment and age"""

    def __init__(self, ldf):
        s = Snap(ldf)
        self.s = s
        self.ages = [int(str(d).split("-")[0]) for d in ldf.development] if isinstance(s.ddims[0], str) else list(s.ddims)
        self.f = s.arr
        self.cdf = np.cumprod(np.nan_to_num(s.arr, nan=1.0)[..., ::-1], -1)[..., ::-1]

    def row(self, k, c):
        n, m = self.f.shape[:2]
        return (k if n > 1 else 0, c if m > 1 else 0)

    def at(self, k, c, age):
        """cumulative factor at an age (1 at ages past the pattern)"""
        if age not in self.ages:
            return 1.0 if age > self.ages[-1] else None
        return self.cdf[self.row(k, c)][0, self.ages.index(age)]

    def ldf(self, k, c, age):
        return self.f[self.row(k, c)][0, self.ages.index(age)]


def ages_of(s):
    """latest age of each origin at the valuation date"""
    return [s.vdate - o + 1 for o in s.odims]


def mixed_grain(rng, **kw):
    og = int(pick(rng, 12, 12, 6, 3, 1))
    dg = int(pick(rng, *[d for d in (12, 6, 3, 1) if d <= og]))
    n_o = int(rng.integers(4, 8))
    return dict(dict(og=og, dg=dg, n_o=n_o, n_key=int(pick(rng, 1, 2, 3)), n_cols=int(pick(rng, 1, 1, 2)), partial=bool(rng.random() < .2)), **kw)


def exposure(rng, t, spread=.3):
    sw = t.set_backend("numpy").incr_to_cum().val_to_dev().latest_diagonal
    a = dense(sw.values)
    lvl = np.nanmean(np.where(np.isnan(a), np.nan, np.abs(a)), axis=2, keepdims=True)
    sw.values = np.round(np.nan_to_num(lvl, nan=10.0) * 1.6 * np.exp(rng.normal(0, spread, a.shape)), 2) + 1
    return sw


def patterned(rng, t, tail=True):
    """triangle with a random fitted pattern attached"""
    r = rng.random()
    if r < .2:
        ages = [int(a) for a in t.val_to_dev().ddims]
        p = {a: round(1 + 2.0 * float(rng.random()) / (n + 1) ** 2 - (.03 if rng.random() < .2 else 0), 5) for n, a in enumerate(ages)}
        u = cl.DevelopmentConstant(patterns=p, style="ldf").fit_transform(t)
    elif r < .9:
        u = cl.Development(average=pick(rng, "volume", "simple", "regression"), n_periods=pick(rng, -1, -1, 4)).fit_transform(t)
    else:
        return t
    if tail and rng.random() < .5:
        u = pick(rng, cl.TailConstant(round(float(rng.uniform(1, 1.3)), 3), decay=pick(rng, .5, .8)), cl.TailCurve(pick(rng, "exponential", "inverse_power"))).fit_transform(u)
    return u
