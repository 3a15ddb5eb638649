from cv.model import *
ID = "C02"
CASES = dict(quick=420, thorough=9000)
RULE = "random messy triangles (gaps, zeros, negatives, all grains, views, backends) driven through random sequences of cumulative/incremental conversions; distinct by table shape and sequence"
REQUIRE = {"chk:to_incr": 50, "chk:to_cum": 50, "chk:pattern_cum": 5}


def ref_incr(sn):
    a = np.nan_to_num(sn.arr)
    out = a.copy()
    out[..., 1:] = a[..., 1:] - a[..., :-1]
    return mask(sn, out)


def ref_cum(sn):
    return mask(sn, np.cumsum(np.nan_to_num(sn.arr), -1))


def mask(sn, out):
    if len(sn.odims) > 1 and len(sn.ddims) > 1:
        for p, o in enumerate(sn.odims):
            for q, d in enumerate(sn.ddims):
                v = sn.val(o, d)
                if v > sn.vdate:
                    out[:, :, p, q] = 0
    return out


META = ("kdims", "vdims", "odims", "ddims", "og", "dg", "vdate", "pattern", "key_labels")


def case(ctx, i):
    rng = ctx.rng
    kind = rng.choice(["plain", "plain", "plain", "full", "pattern"])
    if kind == "pattern":
        return pattern(ctx, rng)
    if kind == "full":
        t, s = regular(rng, og=int(rng.choice([12, 3])), n_key=int(rng.integers(1, 3)), n_cols=int(rng.integers(1, 3)))
        t = ctx.call("Chainladder.fit", cl.Chainladder().fit, t)
        t = t.full_triangle_
    else:
        s = gen_spec(rng)
        t = s.triangle()
    view = rng.random() < 0.35 and kind == "plain"
    backend = str(rng.choice(["numpy", "sparse"])) if kind == "plain" else "numpy"
    ctx.note(spec=brief(s), kind=str(kind), view="val" if view else "dev", backend=backend)
    ctx.sig = [brief(s), str(kind), view, backend]
    with auto_sparse(False):
        t = t.set_backend(backend)
        if view:
            t = ctx.call("dev_to_val", t.dev_to_val)
        if rng.random() < .2 and t.shape[2] > 2:
            t = t.iloc[..., : int(rng.integers(1, t.shape[2] + 1)), :]
        if rng.random() < .2 and t.shape[3] > 2:
            t = t.iloc[..., : int(rng.integers(1, t.shape[3] + 1))]
        orig = Snap(t)
        start_cum = bool(orig.cum)
        op = lambda name, x, **k: ctx.call(name, getattr(x, name), **k)
        other = "cum_to_incr" if start_cum else "incr_to_cum"
        same = "incr_to_cum" if start_cum else "cum_to_incr"
        # one conversion against the definition
        x = op(other, t)
        sx = Snap(x)
        exp = (ref_incr if start_cum else ref_cum)(orig)
        k = "to_incr" if start_cum else "to_cum"
        ctx.must(sx.shape == orig.shape, k + "_shape", f"{sx.shape} {orig.shape}")
        ctx.check(close(np.nan_to_num(sx.arr), exp, 1e-9, 1e-6), k, lambda: first_diff(np.nan_to_num(sx.arr), exp, 1e-9, 1e-6))
        ctx.check(x.is_cumulative is (not start_cum), "flag")
        ma, mb = orig.meta(), sx.meta()
        for m in META:
            ctx.check(ma[m] == mb[m], "meta:" + m, f"{ma[m]} {mb[m]}")
        ctx.check(Snap(t).fingerprint() == orig.fingerprint(), "input_changed")
        # converting an already converted triangle changes nothing
        same_triangle(ctx, "idempotent", op(other, x), x)
        same_triangle(ctx, "idempotent", op(same, t), orig)
        # round trip restores observed cells
        back = op(same, x)
        same_cells(ctx, "round_trip", Snap(back).cells(), orig.cells() if kind != "x" else {}, 1e-9, 1e-5) if not gaps(orig) else \
            observed(ctx, back, orig)
        for m in META:
            ctx.check(Snap(back).meta()[m] == orig.meta()[m], "meta:" + m)
        # random longer program, in place and out of place, equal to its last state
        cur, cin = t, t.copy()
        for _ in range(int(rng.integers(1, 5))):
            name = str(rng.choice(["cum_to_incr", "incr_to_cum"]))
            cur = op(name, cur)
            r = op(name, cin, inplace=True)
            ctx.check(r is cin, "inplace_returns_self")
        same_triangle(ctx, "inplace", cin, cur, rtol=1e-8, atol=1e-5)
        fin = orig if cur.is_cumulative == start_cum else sx
        same_cells(ctx, "program", {k: v for k, v in Snap(cur).cells().items() if k in fin.cells()}, fin.cells(), 1e-8, 1e-5)
        ctx.check(Snap(t).fingerprint() == orig.fingerprint(), "input_changed")


def gaps(sn):
    """cumulative triangles with holes: running totals fill the holes"""
    return not sn.cum


def observed(ctx, back, orig):
    # incremental -> cumulative -> incremental restores every cell
    same_cells(ctx, "round_trip", Snap(back).cells(), orig.cells(), 1e-8, 1e-5)


def pattern(ctx, rng):
    t, s = regular(rng, og=int(rng.choice([12, 3])), n_key=int(rng.integers(1, 3)), n_cols=int(rng.integers(1, 3)))
    ctx.note(spec=brief(s), kind="pattern")
    ctx.sig = [brief(s), "pattern"]
    dev = ctx.call("Development.fit", cl.Development().fit, t)
    ldf = Snap(dev.ldf_)
    cdf = Snap(ctx.call("cdf_", lambda: dev.cdf_))
    exp = np.cumprod(ldf.arr[..., ::-1], -1)[..., ::-1]
    ctx.check(close(cdf.arr, exp), "pattern_cum", lambda: first_diff(cdf.arr, exp))
    ctx.check(cdf.ddims == ldf.ddims and cdf.cum and not ldf.cum, "pattern_meta")
    back = Snap(ctx.call("cum_to_incr", dev.cdf_.cum_to_incr))
    ctx.check(close(back.arr, ldf.arr, 1e-8), "pattern_round_trip", lambda: first_diff(back.arr, ldf.arr))
    again = Snap(ctx.call("incr_to_cum", dev.cdf_.cum_to_incr().incr_to_cum))
    ctx.check(close(again.arr, exp, 1e-8), "pattern_round_trip", lambda: first_diff(again.arr, exp))
    # additive patterns accumulate by sums
    w = t.latest_diagonal * 0 + 1000.0
    ia = ctx.call("IncrementalAdditive.fit", cl.IncrementalAdditive().fit, t, sample_weight=w)
    z, cz = Snap(ia.zeta_), Snap(ctx.call("cum_zeta_", lambda: ia.cum_zeta_))
    exp = np.cumsum(np.nan_to_num(z.arr)[..., ::-1], -1)[..., ::-1]
    ctx.check(close(np.nan_to_num(cz.arr), exp, 1e-8), "pattern_additive", lambda: first_diff(np.nan_to_num(cz.arr), exp))
