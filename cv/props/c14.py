from cv.devo import *
ID = "C14"
CASES = dict(quick=420, thorough=14000)
RULE = "random triangles fitted under random averaging and selection settings; sigma, standard error and standardised residuals recomputed link by link, extrapolated values from the recomputed neighbours; distinct by table and settings"
REQUIRE = {"chk:sigma": 300, "chk:std_err": 300, "chk:residual": 2000, "chk:fill": 60, "fill:log-linear": 15, "fill:mack": 15}


def case(ctx, i):
    rng = ctx.rng
    fill = float(pick(rng, 1.0, 1.0, 1.0, .9))
    s = gen_spec(rng, fill=fill, positive=bool(rng.random() < .9), max_cells=900, n_o=int(rng.integers(5, 10)), late=False)
    t = s.triangle()
    if t.shape[3] < 5 or t.shape[2] < 4:
        raise Skip()
    base = cumulative(t)
    st = Settings(rng, base, rich=bool(rng.random() < .6))
    if rng.random() < .2:
        st.drop_valuation(rng, base)
    if any(n >= base.shape[2] - 1 for n in st.n) and s.og != s.dg:
        raise Skip()
    if rng.random() < .3:
        t = t.set_backend("sparse")
    ctx.note(spec=brief(s), settings=str(st.kw)); ctx.sig = [brief(s), str(st.kw)]
    est = ctx.call("fit", cl.Development(**st.kw).fit, t)
    S = Snap(base)
    sg, se = Snap(est.sigma_), Snap(est.std_err_)
    R = Snap(est.std_residuals_) if isinstance(est.std_residuals_, cl.Triangle) else None
    ctx.check(sg.pattern and se.pattern and sg.arr.shape == se.arr.shape == Snap(est.ldf_).arr.shape, "sigma", "labels")
    for k in range(len(S.kdims)):
        for c in range(len(S.vdims)):
            a = S.arr[k, c]
            sel = selected(a, S, st, st.n)
            if any((np.asarray([x for _, x, _ in l]) <= 0).any() for l in sel):
                ctx.event("negative_link"); continue
            reg = [regress(l, m) for l, m in zip(sel, st.average)]
            known = [r[1] for r in reg]
            final = list(known)
            for j, (f, s1, e1, d) in enumerate(reg):
                if s1 is not None:
                    scale = max(y for _, _, y in sel[j]) * np.sqrt(d) / max(x for _, x, _ in sel[j])
                    if s1 < 1e-6 * scale:
                        ctx.event("tiny"); known[j] = 0.0
                        continue
                    ctx.check(near(sg.arr[k, c, 0, j], s1, 1e-6), "sigma", lambda: f"{S.kdims[k]} {S.vdims[c]} age {S.ddims[j]}: sigma {sg.arr[k, c, 0, j]} expected {s1} from {len(sel[j])} links, {st.average[j]}")
                    ctx.check(near(se.arr[k, c, 0, j], e1, 1e-6), "std_err", lambda: f"age {S.ddims[j]}: standard error {se.arr[k, c, 0, j]} expected {e1}, {st.average[j]}")
            if any(x == 0.0 for x in known):
                continue
            have = [j for j, x in enumerate(known) if x is not None]
            for j, x in enumerate(known):
                if x is not None or len(have) < 3 or not sel[j]:
                    continue
                if st.interp == "log-linear":
                    b, m = np.polyfit([h + 1 for h in have], [np.log(known[h]) for h in have], 1)
                    w = float(np.exp(b * (j + 1) + m))
                elif j >= 2 and final[j - 1] is not None and final[j - 2] is not None:
                    p, q = final[j - 1], final[j - 2]
                    w = float(np.sqrt(min(p ** 4 / q ** 2, q ** 2, p ** 2)))
                else:
                    continue
                ctx.event("fill:" + st.interp)
                final[j] = w
                ctx.check(near(sg.arr[k, c, 0, j], w, 1e-6), "fill", lambda: f"age {S.ddims[j]}: {st.interp} sigma {sg.arr[k, c, 0, j]} expected {w}")
                d = reg[j][3]
                ctx.check(near(se.arr[k, c, 0, j], w / np.sqrt(d), 1e-6), "fill", lambda: f"age {S.ddims[j]}: standard error {se.arr[k, c, 0, j]} expected {w / np.sqrt(d)} for the extrapolated sigma (link of origin {sel[j][0][0]})")
            if R is None or not R.shape_ok():
                continue
            rc = {(o, d): v for (kk, cc, o, d), v in R.cells(by="age").items() if kk == S.kdims[k] and cc == S.vdims[c]}
            for j, l in enumerate(sel):
                # extrapolated sigmas may be too small for rounded residuals
                if final[j] is not None and l and final[j] < 1e-6 * max(y for _, _, y in l) * np.sqrt(reg[j][3]) / max(x for _, x, _ in l):
                    final[j] = None
                if final[j] is None:
                    continue
                e = EXP[st.average[j]]
                for i, x, y in l:
                    w = (y - reg[j][0] * x) / (final[j] * np.sqrt(x ** e))
                    g = rc.pop((S.odims[i], S.ddims[j]), 0.0)
                    ctx.check(near(g, w, 1e-5, 1e-6), "residual", lambda: f"residual of origin {i} age {S.ddims[j]}: {g} expected {w}")
            extra = {x: v for x, v in rc.items() if abs(v) > 1e-6 and final[S.ddims.index(x[1])] is not None}
            ctx.check(not extra, "residual", lambda: f"residuals for links that were not used: {list(extra.items())[:3]}")
