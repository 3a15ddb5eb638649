import hashlib, json, os, subprocess, sys, tempfile
from cv.methods import *
ID = "C22"
CASES = dict(quick=120, thorough=4000)
RULE = "random single-segment triangles (one or two columns, mixed grains, cumulative or incremental, either backend) with random exclusions and both residual adjustments; hat factors, residuals, degrees of freedom and scale recomputed from the fitted expectation, every simulated increment traced to a residual of the pool, repeated runs in this and in other processes with other memory filling compared bit by bit; distinct by table and settings"
REQUIRE = {"simulations": 500, "increments_traced": 5000, "chk:scale": 60, "chk:hat": 100, "repeat": 60, "other_process": 4, "process_variance": 30}

WORKER = """
import sys, json, hashlib, warnings
warnings.filterwarnings('ignore')
junk = [bytearray(2000 + 977 * n) for n in range(int(sys.argv[2]))]
del junk[::2]
import numpy as np
import chainladder as cl
d = json.load(open(sys.argv[1]))
import pandas as pd
df = pd.DataFrame(d['rows'])
t = cl.Triangle(df, origin='o', development='v', columns=d['cols'], cumulative=d['cum'])
kw = {k: tuple(v) if isinstance(v, list) else v for k, v in d['kw'].items()}
b = cl.BootstrapODPSample(**kw)
r = b.fit_transform(t)
h = hashlib.sha256()
for a in (r.values, np.array(b.scale_), cl.Chainladder().fit(r).ultimate_.values):
    h.update(np.nan_to_num(np.ascontiguousarray(a, dtype=float)).tobytes())
print('DIGEST', h.hexdigest())
np.save(sys.argv[1] + sys.argv[2] + '.npy', np.nan_to_num(r.values))
"""


def hat(F, obs):
    """generalised linear model leverages with log link: origin levels and development levels"""
    n, m = F.shape
    cells = [(o, d) for d in range(m) for o in range(n) if obs[o, d]]
    Z = np.zeros((len(cells), n + m - 1))
    for r, (o, d) in enumerate(cells):
        Z[r, o] = 1
        if d:
            Z[r, n + d - 1] = 1
    W = np.diag([F[c] for c in cells])
    H = Z @ np.linalg.inv(Z.T @ W @ Z) @ Z.T @ W
    out = np.full((n, m), np.nan)
    for r, c in enumerate(cells):
        g = 1 - H[r, r]
        out[c] = np.sqrt(1 / abs(g)) if abs(g) > 1e-9 else 0.0
    return out, Z.shape[1], np.linalg.cond(Z.T @ W @ Z)


def case(ctx, i):
    rng = ctx.rng
    og = int(pick(rng, 12, 12, 12, 3, 6))
    dg = int(pick(rng, *[d for d in (12, 6, 3) if d <= og]))
    cum = bool(rng.random() < .7)
    t, s = regular(rng, og=og, dg=dg, n_o=int(rng.integers(5, 9)), n_key=1, n_cols=int(pick(rng, 1, 1, 1, 2)), cumulative=cum, late=False, partial=False, max_cells=3000)
    if t.shape[3] < 4 or t.shape[2] < 4:
        raise Skip()
    t = t.set_backend("numpy")
    n_sims = int(rng.integers(2, 12))
    kw = dict(n_sims=n_sims, random_state=int(rng.integers(10000)), hat_adj=bool(rng.random() < .6))
    r = rng.random()
    if r < .15:
        kw["n_periods"] = int(rng.integers(3, 6))
    elif r < .25:
        kw["drop_high"] = pick(rng, True, 1)
    elif r < .35:
        kw["drop_low"] = True
    elif r < .45:
        kw["drop"] = (str(t.origin[int(rng.integers(1, 3))]) if False else pd.Timestamp(t.origin[1].to_timestamp()).strftime("%Y-%m-%d"), int(t.development.iloc[1]))
    elif r < .55:
        kw["drop_valuation"] = str(mend(s.o0 + s.og * 3 - 1).date())
    u = t.set_backend("sparse") if rng.random() < .2 else t
    ctx.note(spec=brief(s), kw=str(kw), cols=t.shape[1], backend=u.array_backend); ctx.sig = [brief(s), str(kw), u.array_backend]
    before = state(u)
    b = cl.BootstrapODPSample(**kw)
    try:
        R = b.fit_transform(u)
    except ValueError as e:
        if "cannot be empty" in str(e):
            raise Skip()
        raise
    except Exception as e:
        ctx.fail("fit", f"{type(e).__name__}: {e}")
        return
    same_state(ctx, "unchanged", before, state(u), "triangle after bootstrapping")
    ctx.event("simulations", n_sims)
    S, Z = Snap(t), Snap(R)
    ctx.check(len(R) == n_sims and len(R.index) == n_sims and len(set(map(str, Z.kdims))) == n_sims, "count", f"{R.shape} simulations of {n_sims}, index {R.index.shape}")
    ctx.check(Z.odims == S.odims and Z.ddims == S.ddims and Z.vdims == S.vdims and Z.vdate == S.vdate, "labels", f"{Z.meta()}")
    dev = cl.Development(**{k: v for k, v in kw.items() if k not in ("n_sims", "random_state", "hat_adj")})
    scale = np.atleast_1d(np.array(b.scale_, float))
    inc = Snap(t.incr_to_cum().cum_to_incr()).arr
    sim = Snap(R.incr_to_cum().cum_to_incr()).arr if R.is_cumulative else Z.arr
    obs = np.array([[o + 0 + a - 1 <= S.vdate for a in S.ddims] for o in S.odims])
    ctx.check(R.is_cumulative in (True, False) and np.array_equal(~np.isnan(Z.arr) & np.ones_like(Z.arr, bool), np.broadcast_to(obs, Z.arr.shape)), "cells", lambda: f"simulated cells differ from the observed cells in {int((~np.isnan(Z.arr) != obs).sum())} places")
    for c in range(t.shape[1]):
        f = dev.fit(t.iloc[:, c])
        w = f.w_[0, 0]
        e = Snap(cl.Chainladder().fit(f.transform(t.iloc[:, c])).full_expectation_.incr_to_cum())
        F = np.diff(np.concatenate([np.zeros((len(S.odims), 1)), np.nan_to_num(e.arr[0, 0][:, :len(S.ddims)])], 1), axis=1)
        F = np.where(obs, F, 0.0)
        if (np.abs(F[obs]) < 1e-9).any():
            raise Skip()
        with np.errstate(all="ignore"):
            res = (np.nan_to_num(inc[0, c]) - F) / np.sqrt(np.abs(F))
        wt = np.concatenate([w[:, :1], w], 1)
        res = np.where(obs & (np.nan_to_num(wt) > 0), res, 0.0)
        p = len(S.odims) + len(S.ddims) - 1
        phi = (res ** 2).sum() / (obs.sum() - p)
        ctx.check(near(scale[c if len(scale) > 1 else 0], phi, 1e-8), "scale", f"column {c}: scale {scale}, expected {phi}")
        pool = res
        if kw["hat_adj"]:
            h, _, cond = hat(F, obs)
            if cond > 1e9:
                raise Skip()
            got = b.hat_ if t.shape[1] == 1 else b.hat_[c]
            if got is None:
                ctx.check(False, "hat", "no leverage factors"); continue
            ok = obs
            for o, d in zip(*np.nonzero(ok)):
                ctx.check(near(np.asarray(got, float)[o, d], h[o, d], 1e-6, 1e-9), "hat", f"origin {o} age {S.ddims[d]}: leverage factor {got[o][d]}, expected {h[o, d]}")
            pool = res * np.nan_to_num(h)
        P = pool[obs]
        P = P[np.isfinite(P)]
        P = P[np.abs(P) > 1e-9 * np.abs(P).max(initial=0)]
        P = P - P.mean()
        A = np.sqrt(np.abs(F))
        with np.errstate(all="ignore"):
            q = (sim[:, c] - F) / A
        sc = np.abs(np.nan_to_num(sim[:, c])).max()
        srt = np.sort(P)
        used = set()
        for k in range(n_sims):
            for o, d in zip(*np.nonzero(obs)):
                v = q[k, o, d]
                j = int(np.searchsorted(srt, v))
                near_ = [srt[x] for x in (j - 1, j) if 0 <= x < len(srt)]
                gap = min(abs(v - x) for x in near_)
                ctx.check(gap <= 1e-6 * max(1, np.abs(P).max()) + 1e-9 * sc / A[o, d], "residual", lambda: f"simulation {k} column {c} origin {o} age {S.ddims[d]}: simulated increment {sim[k, c, o, d]} is {F[o, d]} plus {v} scaled, not a residual of the pool (nearest {near_})")
                used.add(min(near_, key=lambda x: abs(x - v)))
        ctx.event("increments_traced", int(obs.sum()) * n_sims)
        if n_sims * obs.sum() > 60 and len(srt) > 4:
            ctx.check(len(used) > min(len(set(srt)), 8) / 2, "spread", f"only {len(used)} of {len(srt)} residuals were ever drawn in {n_sims} simulations")
    if n_sims > 1:
        ctx.check(all(not np.array_equal(sim[0][:, obs], sim[k][:, obs]) for k in range(1, n_sims)) or len(P) < 3, "distinct", "repeated simulations")
    # repetition
    again = cl.BootstrapODPSample(**kw).fit_transform(u)
    ctx.event("repeat")
    ctx.check(np.array_equal(again.values, R.values, equal_nan=True), "repeat", "a second run with the same seed differs")
    refit = b.fit_transform(u)
    ctx.check(np.array_equal(refit.values, R.values, equal_nan=True), "repeat", "fitting the same estimator again differs")
    seed = kw["random_state"]
    rs = R if t.shape[1] > 1 else cl.BootstrapODPSample(**dict(kw, random_state=np.random.RandomState(seed))).fit_transform(u)
    ctx.check(np.array_equal(rs.values, R.values, equal_nan=True), "repeat", "a generator with that seed gives other simulations")
    other = cl.BootstrapODPSample(**dict(kw, random_state=seed + 1)).fit_transform(u)
    ctx.check(not np.array_equal(other.values, R.values, equal_nan=True), "seed", "another seed gives the same simulations")
    # reserving on the simulations
    if rng.random() < .6:
        variance(ctx, R, scale, n_sims, t)
    if i % 12 == 0 and u is t and cum:
        process(ctx, t, kw, b, R)


def variance(ctx, R, scale, n_sims, t):
    ctx.event("process_variance")
    v0, k0 = R.values.copy(), list(vars(R))
    plain = cl.Chainladder().fit(cl.Development().fit_transform(cl.Triangle.copy(strip(R))))
    full0 = plain.full_triangle_
    a = ctx.call("method", cl.Chainladder().fit, R)
    if a is None:
        return
    bb = cl.Chainladder().fit(R)
    ctx.check(np.array_equal(a.ultimate_.values, bb.ultimate_.values, equal_nan=True), "variance", "a second method fit gives other ultimates")
    ctx.check(np.array_equal(v0, R.values, equal_nan=True), "unchanged", "simulations changed by a method")
    pv, u0, u1 = a.process_variance_, np.nan_to_num(plain.ultimate_.values), np.nan_to_num(a.ultimate_.values)
    ctx.check(pv is not None and pv.shape[:3] == R.shape[:3], "variance", "no process variance on simulated triangles")
    if pv is None:
        return
    e = np.diff(np.nan_to_num(full0.incr_to_cum().values), axis=3)
    x = np.nan_to_num(full0.incr_to_cum().values) + np.nan_to_num(pv.incr_to_cum().values)
    obs = ~np.isnan(np.broadcast_to(R.nan_triangle, R.shape))
    m = R.shape[3]
    ctx.check(np.allclose(np.where(obs, x[..., :m], 0), np.where(obs, np.nan_to_num(R.incr_to_cum().values), 0), rtol=1e-9, atol=1e-6), "variance", "process variance altered the simulated history")
    ctx.check(np.allclose(x[..., -1:], u1, rtol=1e-8, atol=1e-6), "variance", "ultimates differ from the simulated run-off")
    fut = np.concatenate([~obs[..., 1:], np.ones(obs.shape[:3] + (e.shape[3] - m + 1,), bool)], 3)
    g = np.diff(x, axis=3)
    ctx.check(((np.sign(g) == np.sign(e)) | (np.abs(g) < 1e-6) | (np.abs(e) < 1e-6))[fut].all(), "variance", "simulated increments change sign")
    for c in range(R.shape[1]):
        ph = scale[c if len(scale) > 1 else 0]
        f = fut[:, c]
        tot, mean, var = g[:, c][f].sum(), e[:, c][f].sum(), ph * np.abs(e[:, c][f]).sum()
        if var > 0 and np.abs(e[:, c][f]).sum() / ph > 20:
            z = (tot - mean) / np.sqrt(var)
            ctx.event("z_scores")
            ctx.check(abs(z) < 9, "variance", f"column {c}: the simulated run-off sums to {tot}, expected {mean} with standard deviation {var ** .5} (z {z:.1f})")


def strip(R):
    x = R.copy()
    for a in ("_get_process_variance", "scale_", "random_state"):
        if hasattr(x, a):
            delattr(x, a)
    return x


def process(ctx, t, kw, b, R):
    S = Snap(t)
    rows = []
    for o, oo in enumerate(S.odims):
        for d, a in enumerate(S.ddims):
            if oo + a - 1 <= S.vdate and not np.isnan(S.arr[0, :, o, d]).all():
                rows.append(dict(o=str(mstart(oo).date()), v=str(mend(oo + a - 1).date()), **{c: float(S.arr[0, n, o, d]) for n, c in enumerate(S.vdims)}))
    d = os.path.join(tempfile.gettempdir(), f"cv22_{os.getpid()}.json")
    try:
        with open(d, "w") as f:
            json.dump(dict(rows=rows, cols=S.vdims, cum=bool(t.is_cumulative), kw=kw), f)
        outs = []
        for n, env in ((7, {"OPENBLAS_CORETYPE": "Prescott", "OPENBLAS_NUM_THREADS": "1"}), (0, {"MALLOC_PERTURB_": "0", "PYTHONHASHSEED": "0"}), (50, {"MALLOC_PERTURB_": "165", "PYTHONHASHSEED": "77"})):
            p = subprocess.run([sys.executable, "-c", WORKER, d, str(n)], env=dict(os.environ, PYTHONPATH="/repo", **env), capture_output=True, text=True, timeout=120, cwd="/repo")
            outs.append(next((l for l in p.stdout.splitlines() if l.startswith("DIGEST")), p.stderr[-200:]))
        ctx.event("other_process", 2)
        if not ctx.check(all(x.startswith("DIGEST") for x in outs), "process", f"another process fails: {outs}"):
            return
        a, b_ = np.load(d + "7.npy"), np.nan_to_num(R.values)
        ctx.check(a.shape == b_.shape and np.allclose(a, b_, rtol=1e-6, atol=1e-6 * np.abs(b_).max()), "process", "another processor type gives other simulations from the same seed")
        del outs[0]
        t2 = R
        h = hashlib.sha256()
        if ctx.check(outs[0] == outs[1] and outs[0].startswith("DIGEST"), "process", f"two processes with different memory contents differ: {outs}"):
            for a in (R.values, np.array(b.scale_), cl.Chainladder().fit(R).ultimate_.values):
                h.update(np.nan_to_num(np.ascontiguousarray(a, dtype=float)).tobytes())
            ctx.check(outs[0] == "DIGEST " + h.hexdigest(), "process", "another process gives other simulations")
    finally:
        for f in (d, d + "0.npy", d + "7.npy", d + "50.npy"):
            if os.path.exists(f):
                os.remove(f)
