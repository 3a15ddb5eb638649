from cv.model import *
ID = "C03"
CASES = dict(quick=480, thorough=12000)
RULE = "random triangles of every grain combination, with gaps, partial latest periods, slices and completed triangles, in both backends, converted between views; distinct by table shape and slice"
REQUIRE = {"chk:to_val": 100, "chk:round_trip": 100, "chk:to_dev": 50}


def case(ctx, i):
    rng = ctx.rng
    kind = str(rng.choice(["plain"] * 5 + ["full"]))
    if kind == "full":
        return full(ctx, rng)
    s = gen_spec(rng)
    t = s.triangle()
    auto = rng.random() < .4
    backend = str(rng.choice(["numpy", "sparse"]))
    ctx.note(spec=brief(s), backend=backend, auto=auto)
    with auto_sparse(auto):
        t = t.set_backend(backend)
        cut = ""
        if rng.random() < .25 and t.shape[2] > 2:
            a = int(rng.integers(0, t.shape[2] - 1)); b = int(rng.integers(a + 1, t.shape[2] + 1))
            t = t.iloc[..., a:b, :]; cut += f"o{a}:{b}"
        if rng.random() < .2 and t.shape[3] > 2:
            a = int(rng.integers(0, t.shape[3] - 1)); b = int(rng.integers(a + 1, t.shape[3] + 1))
            t = t.iloc[..., a:b]; cut += f"d{a}:{b}"
        ctx.sig = [brief(s), backend, auto, cut]
        ctx.note(cut=cut)
        o = Snap(t)
        if not o.cells():
            raise Skip()
        v = ctx.call("dev_to_val", t.dev_to_val)
        sv = Snap(v)
        ctx.must(sv.is_val, "is_val")
        ctx.check(sv.shape_ok(), "shape", f"{sv.arr.shape} vs {len(sv.ddims)}")
        rect = o.cum and all(o.val(a, b) <= o.vdate for a in o.odims for b in o.ddims)
        same_cells(ctx, "to_val", carried(ctx, sv.cells(), o.cells()) if rect else sv.cells(), o.cells(), msg=cut)
        for m in ("kdims", "vdims", "odims", "og", "dg", "vdate", "cum", "pattern", "key_labels"):
            ctx.check(o.meta()[m] == sv.meta()[m], "meta:" + m, f"{o.meta()[m]} {sv.meta()[m]}")
        step = MONTHS[o.dg]
        ctx.check(all(b > a for a, b in zip(sv.ddims, sv.ddims[1:])), "val_axis_sorted")
        ctx.check(Snap(t).fingerprint() == o.fingerprint(), "input_changed")
        back = ctx.call("val_to_dev", v.val_to_dev)
        sb = Snap(back)
        ctx.check(not sb.is_val and sb.shape_ok(), "shape")
        same_cells(ctx, "round_trip", carried(ctx, sb.cells(), o.cells()) if rect else sb.cells(), o.cells(), msg=cut)
        for m in ("kdims", "vdims", "odims", "og", "dg", "vdate", "cum", "pattern", "key_labels"):
            ctx.check(o.meta()[m] == sb.meta()[m], "meta:" + m, f"{o.meta()[m]} {sb.meta()[m]}")
        if not cut:
            ctx.check(set(x for x in sb.ddims) >= {c[3] - c[2] + 1 for c in o.cells()}, "dev_axis")
        # in place
        c = t.copy()
        r = ctx.call("dev_to_val", c.dev_to_val, inplace=True)
        same_triangle(ctx, "inplace_val", r, v); ctx.check(r is c, "inplace_self")
        same_triangle(ctx, "noop", ctx.call("dev_to_val", v.dev_to_val), v)
        r2 = ctx.call("val_to_dev", c.val_to_dev, inplace=True)
        same_triangle(ctx, "inplace_dev", r2, back)
        same_triangle(ctx, "noop", ctx.call("val_to_dev", t.val_to_dev), t)
        # a slice of the valuation view goes back to the right ages
        if v.shape[3] > 1:
            a = int(rng.integers(0, v.shape[3])); b = int(rng.integers(a + 1, v.shape[3] + 1))
            w = v.iloc[..., a:b]
            sw = Snap(w)
            if sw.cells() and sw.cum:
                ctx.note(valcut=f"{a}:{b}")
                d = ctx.call("val_to_dev", w.val_to_dev)
                sd = Snap(d)
                ctx.check(sd.shape_ok(), "shape")
                same_cells(ctx, "to_dev", sd.cells(), sw.cells(), msg=f"valuation slice {a}:{b} of {v.shape[3]}")
        ld = latest(t)
        sl = ld is not None and Snap(ld)
        if sl and sl.cells():
            d = Snap(ctx.call("val_to_dev", ld.val_to_dev))
            same_cells(ctx, "diag_to_dev", d.cells(), sl.cells())


def carried(ctx, got, src):
    """rectangular cumulative triangles: later valuations of an origin may only
    carry its last amount forward; returns the cells that are in the source"""
    for k, x in got.items():
        if k in src or abs(x) < 1e-6:
            continue
        last = [(c[3], y) for c, y in src.items() if c[:3] == k[:3] and c[3] < k[3] and c[3] != ULT]
        ctx.check(bool(last) and k[3] != ULT and near(max(last)[1], x, 1e-8, 1e-4), "invented", f"cell {k}={x} is not in the source")
    return {k: x for k, x in got.items() if k in src}


def full(ctx, rng):
    og = int(rng.choice([12, 6, 3]))
    t, s = regular(rng, og=og, dg=int(rng.choice([x for x in (12, 6, 3) if x <= og])), n_key=int(rng.integers(1, 3)), partial=False, late=False)
    cum = rng.random() < .6
    t = t if cum else t.cum_to_incr()
    ctx.note(spec=brief(s), kind="full", cum=cum); ctx.sig = [brief(s), "full", cum]
    f = ctx.call("Chainladder.fit", cl.Chainladder().fit, t).full_triangle_
    o = Snap(f)
    v = ctx.call("dev_to_val", f.dev_to_val)
    sv = Snap(v)
    oc, vc = o.cells(), sv.cells()
    same_cells(ctx, "full_to_val", {k: x for k, x in vc.items() if k in oc}, oc, 1e-8, 1e-4)
    carried(ctx, vc, oc)
    ctx.check(sv.ddims[-1] == ULT, "ultimate_kept")
    b = Snap(ctx.call("val_to_dev", v.val_to_dev))
    ctx.check(b.ddims[-1] == 9999, "ultimate_kept")
    if b.cum:
        bc = b.cells()
        same_cells(ctx, "full_round_trip", {k: x for k, x in bc.items() if k in oc}, oc, 1e-8, 1e-4)
