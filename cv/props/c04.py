from cv.model import *
ID = "C04"
CASES = dict(quick=400, thorough=9000)
RULE = "random triangles at each fine grain (fiscal starts, partial latest periods, gaps, cumulative and incremental, both views and backends) converted to every admissible coarser grain; expected cells aggregated from the records; distinct by table shape and target grain"
REQUIRE = {"chk:cells": 100, "cells_compared": 2000}
VALID = {1: [12, 6, 3, 1], 3: [12, 6, 3], 6: [12, 6], 12: [12]}


def expected(sn, og, dg, close):
    """aggregate the cells of a snapshot to (og, dg); close = last month (0-11) of an origin year"""
    def group(o):
        if og == MONTHS[sn.og]:
            return o
        start = (close + 1) % 12
        return o - ((o - start) % og)
    cells = sn.cells()
    vmax = sn.vdate
    out = {}
    if sn.cum:
        for (k, c, o, v), x in cells.items():
            if (vmax - v) % dg == 0:
                key = (k, c, group(o), v)
                out[key] = out.get(key, 0.0) + x
    else:
        for (k, c, o, v), x in cells.items():
            w = v + ((vmax - v) % dg)
            key = (k, c, group(o), w)
            out[key] = out.get(key, 0.0) + x
    return out


def case(ctx, i):
    rng = ctx.rng
    og = int(rng.choice([6, 3, 1, 1]) if rng.random() < .85 else 12)
    dg = int(rng.choice([d for d in VALID[1] if d <= og and not (og == 12 and d == 12)]))
    n_o = {12: (2, 6), 6: (3, 8), 3: (4, 14), 1: (6, 28)}[og]
    s = gen_spec(rng, og=og, dg=dg, n_o=int(rng.integers(*n_o)), n_key=int(rng.integers(1, 4)), max_cells=2500)
    opts = [(o, d) for o in VALID[og] for d in VALID[dg] if d <= o and (o, d) != (og, dg)]
    if not opts:
        raise Skip()
    no, nd = opts[int(rng.integers(len(opts)))]
    trailing = bool(rng.random() < .2)
    t = s.triangle()
    view = rng.random() < .25
    backend = str(rng.choice(["numpy", "sparse"]))
    ctx.note(spec=brief(s), to=f"O{LETTER[no]}D{LETTER[nd]}", trailing=trailing, view=view, backend=backend)
    ctx.sig = [brief(s), no, nd, trailing, view, backend]
    with auto_sparse(backend == "numpy"):
        t = t.set_backend(backend)
        if view:
            t = t.dev_to_val()
        o = Snap(t)
        spec = f"O{LETTER[no]}D{LETTER[nd]}"
        g = ctx.call("grain", t.grain, spec, trailing=trailing)
        sg = Snap(g)
        # origin years end in December unless trailing or a fiscal calendar says otherwise
        last_end = (o.odims[-1] + og - 1) % 12
        close = last_end if (trailing or (og != 1 and t.origin_close != "DEC")) else 11
        exp = expected(o, no, nd, close)
        ctx.check(sg.shape_ok(), "shape")
        same_cells(ctx, "cells", sg.cells(), exp, msg=spec)
        ctx.check(sg.og == LETTER[no] and sg.dg == LETTER[nd], "grain", f"{sg.og}{sg.dg}")
        ctx.check(sg.vdate == o.vdate, "valuation_date", f"{mstart(sg.vdate)} {mstart(o.vdate)}")
        ctx.check(sg.is_val == view and sg.cum == o.cum, "view")
        for m in ("kdims", "vdims", "key_labels", "pattern"):
            ctx.check(sg.meta()[m] == o.meta()[m], "meta:" + m)
        ctx.check(Snap(t).fingerprint() == o.fingerprint(), "input_changed")
        step = lambda a, n: all(y - x == n for x, y in zip(a, a[1:]))
        ctx.check(step(sg.odims, no), "origin_axis", f"{[str(mstart(x).date()) for x in sg.odims]}")
        ctx.check(step(sg.ddims, nd), "development_axis", f"{sg.ddims}")
        if not view:
            ctx.check(all(d > 0 for d in sg.ddims), "development_axis", f"{sg.ddims}")
        # latest diagonal totals are unchanged
        a, b = latest(t), latest(g)
        if a is not None and b is not None and o.cum:
            for j in range(a.shape[1]):
                x, y = float(np.nansum(dense(a.values)[:, j])), float(np.nansum(dense(b.values)[:, j]))
                ctx.check(near(x, y, 1e-9, 1e-5), "latest_total", f"{x} {y}")
        if not o.cum:
            ctx.check(near(np.nansum(o.arr), np.nansum(sg.arr), 1e-9, 1e-4), "total", f"{np.nansum(o.arr)} {np.nansum(sg.arr)}")
        c = t.copy()
        r = ctx.call("grain", c.grain, spec, trailing=trailing, inplace=True)
        ctx.check(r is c, "inplace_self")
        same_triangle(ctx, "inplace", c, g)
        # cumulative then regrain == regrain then cumulative
        if not o.cum and rng.random() < .5:
            h = Snap(ctx.call("grain", t.incr_to_cum().grain, spec, trailing=trailing))
            oc = Snap(t.incr_to_cum())
            same_cells(ctx, "cells", h.cells(), expected(oc, no, nd, close), 1e-8, 1e-4, msg="cumulated " + spec)
        # two steps equal one step
        mids = [(a_, b_) for a_, b_ in opts if (a_, b_) != (no, nd) and a_ <= no and b_ <= nd and no in VALID[a_] and nd in VALID[b_]]
        if mids and close == 11 and not trailing:
            m = mids[int(rng.integers(len(mids)))]
            h = Snap(ctx.call("grain2", lambda: t.grain(f"O{LETTER[m[0]]}D{LETTER[m[1]]}").grain(spec)))
            same_cells(ctx, "two_steps", h.cells(), exp, msg=f"via O{LETTER[m[0]]}D{LETTER[m[1]]}")
